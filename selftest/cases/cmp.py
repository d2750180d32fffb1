U='util/util.go'
S='''		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			return fmt'''
N='''		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			count++
		}
'''
SF='''	for i := range a {
		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			return fmt.Errorf("%d element mismatch: a[%d] = %f, b[%d] = %f", i, i, a[i], i, b[i])
		}
	}
	return nil
'''
NL='''	for i := range a {
'''+N+'''	}
	return count, nil
'''
cases=[
dict(name='cmp-nan',bug=['C27'],edits=[(U,' || math.IsNaN(a[i]) != math.IsNaN(b[i]) {\n			return','{\n			return')]),
dict(name='cmp-nan-count',bug=['C27'],edits=[(U,N,N.replace(' || math.IsNaN(a[i]) != math.IsNaN(b[i])',''))]),
dict(name='cmp-ge',bug=['C27'],edits=[(U,S,S.replace('>','>='))]),
dict(name='cmp-ge-count',bug=['C27'],edits=[(U,N,N.replace('>','>='))]),
dict(name='cmp-lt',bug=['C27'],edits=[(U,'math.Abs(a-b) <= threshold','math.Abs(a-b) < threshold')]),
dict(name='cmp-noabs',bug=['C27'],edits=[(U,S,S.replace('math.Abs(a[i]-b[i])','a[i]-b[i]'))]),
dict(name='cmp-inf',bug=['C27'],edits=[(U,'return a == b || math','return math')]),
dict(name='cmp-len',bug=['C27'],edits=[(U,'''	if len(a) != len(b) {
		return fmt''','''	if len(a) > len(b) {
		return fmt''')]),
dict(name='cmp-len-count',bug=['C27'],edits=[(U,'''	if len(a) != len(b) {
		return 0''','''	if len(a) < len(b) {
		return 0''')]),
dict(name='cmp-first',bug=['C27'],edits=[(U,SF,SF.replace('for i := range a','for i := 1; i < len(a); i++'))]),
dict(name='cmp-once',bug=['C27'],edits=[(U,N,N.replace('count++','count++\n			break'))]),
dict(name='cmp-twice',bug=['C27'],edits=[(U,N,N.replace('count++','count += 2'))]),
dict(name='cmp-small',bug=['C27'],edits=[(U,'count := 0\n','count := uint8(0)\n'),(U,'return count, nil\n}\n\n// Sigmoid','return int(count), nil\n}\n\n// Sigmoid')]),
dict(name='cmp-relative',bug=['C27'],edits=[(U,S,S.replace('> threshold','> threshold*math.Abs(b[i])'))]),
dict(name='cmp-shift',bug=['C27'],edits=[(U,N,N.replace('a[i]-b[i]','a[i]-b[len(b)-1-i]'))]),
dict(name='ok-cmp-helper',ok=True,edits=[(U,S,'''		if differ(a[i], b[i], threshold) {
			return fmt'''),(U,N,N.replace('math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i])','differ(a[i], b[i], threshold)')),
 (U,'// Sigmoid applies','func differ(x, y, t float64) bool {\n	if math.IsNaN(x) != math.IsNaN(y) {\n		return true\n	}\n	return math.Abs(y-x) > t\n}\n\n// Sigmoid applies')]),
dict(name='ok-cmp-almost',ok=True,edits=[(U,S,'''		if !AlmostEqualFloat64(a[i], b[i], threshold) {
			return fmt''')]),
dict(name='ok-cmp-var',ok=True,edits=[(U,S,'''		d := a[i] - b[i]
		if d < 0 {
			d = -d
		}
		if d > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			return fmt''')]),
dict(name='ok-cmp-range',ok=True,edits=[(U,NL,'''	for i, x := range a {
		y := b[i]
		if math.IsNaN(x) == math.IsNaN(y) && !(math.Abs(x-y) > threshold) {
			continue
		}
		count = count + 1
	}
	return count, nil
''')]),
dict(name='ok-cmp-for',ok=True,edits=[(U,NL,'''	n := len(b)
	for i := 0; i < n; i++ {
		if (a[i] != a[i]) != (b[i] != b[i]) {
			count++
		} else if math.Abs(a[i]-b[i]) > threshold {
			count++
		}
	}
	return count, nil
''')]),
dict(name='ok-cmp-two',ok=True,edits=[(U,'return a == b || math.Abs(a-b) <= threshold','d := a - b\n	return a == b || d <= threshold && -d <= threshold')]),
dict(name='ok-cmp-viacount',ok=True,edits=[(U,SF,'''	bad := -1
	for i := range a {
		if math.Abs(a[i]-b[i]) > threshold || math.IsNaN(a[i]) != math.IsNaN(b[i]) {
			bad = i
			break
		}
	}
	if bad >= 0 {
		return fmt.Errorf("%d element mismatch: a[%d] = %f, b[%d] = %f", bad, bad, a[bad], bad, b[bad])
	}
	return nil
''')]),
dict(name='ok-cmp-down',ok=True,edits=[(U,NL,NL.replace('for i := range a','for i := len(a) - 1; i >= 0; i--'))]),
]
