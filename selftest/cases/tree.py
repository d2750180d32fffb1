T='lgtree.go'; U='util/util.go'
WALK='''	idx := uint32(0)
	for {
		node := &t.nodes[idx]
		left := t.decision(node, fvals[node.Feature])
		if left {
			if node.Flags&leftLeaf > 0 {
				return t.leafValues[node.Left], node.Left
			}
			idx = node.Left
		} else {
			if node.Flags&rightLeaf > 0 {
				return t.leafValues[node.Right], node.Right
			}
			idx++
		}
	}
'''
NUM='''	if math.IsNaN(fval) && (node.Flags&missingNan == 0) {
		fval = 0.0
	}
	if ((node.Flags&missingZero > 0) && isZero(fval)) || ((node.Flags&missingNan > 0) && math.IsNaN(fval)) {
		return node.Flags&defaultLeft > 0
	}
	// Note: LightGBM uses `<=`, but XGBoost uses `<`
	return fval <= node.Threshold
'''
CAT='''	ifval := int32(fval)
	if ifval < 0 {
		return false
	} else if math.IsNaN(fval) {
		if node.Flags&missingNan > 0 {
			return false
		}
		ifval = 0
	}
	if node.Flags&catOneHot > 0 {
		return int32(node.Threshold) == ifval
	} else if node.Flags&catSmall > 0 {
		return util.FindInBitsetUint32(uint32(node.Threshold), uint32(ifval))
	}
	return t.findInBitset(uint32(node.Threshold), uint32(ifval))
'''
FIB='''	i1 := pos / 32
	idxS := t.catBoundaries[idx]
	idxE := t.catBoundaries[idx+1]
	if i1 >= (idxE - idxS) {
		return false
	}
	i2 := pos % 32
	return (t.catThresholds[idxS+i1]>>i2)&1 > 0
'''
def b(n, old, new, *ids, f=T):
    return dict(name='tree-'+n, edits=[(f,old,new)], bug=list(ids))
def ok(n, *ed):
    return dict(name='ok-tree-'+n, edits=[(T,o,w) if True else 0 for o,w in ed], ok=True)
cases=[
ok('copy',(WALK,'''	idx := uint32(0)
	for {
		node := t.nodes[idx]
		if t.decision(&node, fvals[node.Feature]) {
			idx = node.Left
			if node.Flags&leftLeaf != 0 {
				return t.leafValues[idx], idx
			}
			continue
		}
		if node.Flags&rightLeaf != 0 {
			return t.leafValues[node.Right], node.Right
		}
		idx += 1
	}
''')),
ok('pointer',(WALK,'''	node := &t.nodes[0]
	for {
		var next uint32
		var leaf bool
		if t.decision(node, fvals[node.Feature]) {
			next, leaf = node.Left, node.Flags&leftLeaf > 0
		} else {
			next, leaf = node.Right, node.Flags&rightLeaf > 0
		}
		if leaf {
			return t.leafValues[next], next
		}
		node = &t.nodes[next]
	}
''')),
ok('right',(WALK,WALK.replace('idx++','idx = node.Right'))),
ok('leafvar',(WALK,'''	idx := uint32(0)
	var leaf uint32
	for {
		node := &t.nodes[idx]
		if t.decision(node, fvals[node.Feature]) {
			if node.Flags&leftLeaf > 0 {
				leaf = node.Left
				break
			}
			idx = node.Left
		} else {
			if node.Flags&rightLeaf > 0 {
				leaf = node.Right
				break
			}
			idx++
		}
	}
	return t.leafValues[leaf], leaf
''')),
ok('int',(WALK,WALK.replace('idx := uint32(0)','idx := 0').replace('idx = node.Left','idx = int(node.Left)'))),
ok('inline',('		left := t.decision(node, fvals[node.Feature])\n','''		fval := fvals[node.Feature]
		var left bool
		if node.Flags&categorical == 0 {
			left = t.numericalDecision(node, fval)
		} else {
			left = t.categoricalDecision(node, fval)
		}
''')),
ok('num-switch',(NUM,'''	nan := math.IsNaN(fval)
	switch {
	case node.Flags&missingNan != 0:
		if nan {
			return node.Flags&defaultLeft != 0
		}
	default:
		if nan {
			fval = 0
		}
		if node.Flags&missingZero != 0 && isZero(fval) {
			return node.Flags&defaultLeft != 0
		}
	}
	return !(fval > node.Threshold)
''')),
ok('num-self',(NUM,NUM.replace('math.IsNaN(fval) && (node','fval != fval && (node').replace('return fval <= node.Threshold','return node.Threshold >= fval'))),
ok('iszero',('	return (fval > -zeroThreshold && fval <= zeroThreshold)','	if fval <= -zeroThreshold {\n\t\treturn false\n\t}\n\treturn !(fval > zeroThreshold)')),
ok('cat-order',(CAT,'''	if math.IsNaN(fval) {
		if node.Flags&missingNan > 0 {
			return false
		}
		fval = 0
	}
	ifval := int32(fval)
	if ifval < 0 {
		return false
	}
	switch {
	case node.Flags&catOneHot != 0:
		return ifval == int32(node.Threshold)
	case node.Flags&catSmall != 0:
		return util.FindInBitsetUint32(uint32(node.Threshold), uint32(ifval))
	}
	return t.findInBitset(uint32(node.Threshold), uint32(ifval))
''')),
ok('cat-int64',(CAT,CAT.replace('int32(fval)','int64(fval)').replace('int32(node.Threshold) == ifval','int64(node.Threshold) == ifval'))),
ok('fib-sum',(FIB,FIB.replace('i1 >= (idxE - idxS)','idxS+i1 >= idxE'))),
ok('fib-shift',(FIB,'''	begin, end := t.catBoundaries[idx], t.catBoundaries[idx+1]
	word := begin + pos>>5
	if word < end {
		return t.catThresholds[word]&(1<<(pos&31)) != 0
	}
	return false
''')),
ok('fib-slice',(FIB,'''	words := t.catThresholds[t.catBoundaries[idx]:t.catBoundaries[idx+1]]
	i := int(pos / 32)
	if i >= len(words) {
		return false
	}
	return words[i]&(uint32(1)<<(pos%32)) != 0
''')),
ok('fib-u32',(FIB,FIB.replace('return (t.catThresholds[idxS+i1]>>i2)&1 > 0','return util.FindInBitsetUint32(t.catThresholds[idxS+i1], i2)'))),
dict(name='ok-tree-findbit',ok=True,edits=[(U,'return (bits>>pos)&1 > 0','return bits&(1<<pos) != 0')]),
b('lt','return fval <= node.Threshold','return fval < node.Threshold','C09'),
b('nan0','(node.Flags&missingNan == 0) {','(node.Flags&(missingNan|missingZero) == 0) {','C09'),
b('nan-always','	if math.IsNaN(fval) && (node.Flags&missingNan == 0) {\n\t\tfval = 0.0\n\t}\n','','C09'),
b('dl','		return node.Flags&defaultLeft > 0','		return node.Flags&defaultLeft == 0','C09'),
b('iszero0','return (fval > -zeroThreshold && fval <= zeroThreshold)','return (fval > 0 && fval <= zeroThreshold)','C09'),
b('iszero1','return (fval > -zeroThreshold && fval <= zeroThreshold)','return (fval >= -zeroThreshold && fval < zeroThreshold)','C09'),
b('zth','const zeroThreshold = 1e-35','const zeroThreshold = 1e-30','C09'),
b('f32','return fval <= node.Threshold','return float32(fval) <= float32(node.Threshold)','C09'),
b('leafval','return t.leafValues[node.Right], node.Right','return t.leafValues[node.Left], node.Right','C09'),
b('leafbit','if node.Flags&rightLeaf > 0 {\n				return','if node.Flags&(rightLeaf|leftLeaf) > 0 {\n				return','C09'),
b('next','			idx++','			idx += 2','C09'),
b('nextl','			idx = node.Left\n','			idx = node.Left + 1\n','C09'),
b('start','idx := uint32(0)','idx := uint32(len(t.nodes)-1)','C09'),
b('feat','fvals[node.Feature])','fvals[node.Left])','C09'),
b('featmin','		left := t.decision(node, fvals[node.Feature])','		left := t.decision(node, fvals[util.MinInt(int(node.Feature), len(fvals)-1)])','C09'),
b('kind','if node.Flags&categorical > 0 {','if node.Flags&(categorical|catOneHot) == categorical {','C10'),
b('catnan','		if node.Flags&missingNan > 0 {\n			return false\n		}\n		ifval = 0\n','		ifval = 0\n','C10'),
b('catneg','	if ifval < 0 {\n		return false\n	} else if','	if','C10'),
b('catneg2','	if ifval < 0 {\n		return false\n	} else if','	if ifval < -1 {\n		return false\n	} else if','C10'),
b('onehot','return int32(node.Threshold) == ifval','return int32(node.Threshold) >= ifval','C10'),
b('round','	ifval := int32(fval)','	ifval := int32(fval+0.5)','C10'),
b('small31','	return t.findInBitset(uint32(node.Threshold), uint32(ifval))','	return t.findInBitset(uint32(node.Threshold)+1, uint32(ifval))','C10'),
b('swap','} else if node.Flags&catSmall > 0 {','} else if node.Flags&catSmall == 0 {','C10'),
b('pos','	if i1 >= (idxE - idxS) {','	if i1 > (idxE - idxS) {','C10'),
b('pos0','	if i1 >= (idxE - idxS) {','	if i1 >= idxE {','C10'),
b('mod','	i2 := pos % 32','	i2 := pos % 31','C10'),
b('div','	i1 := pos / 32','	i1 := pos / 64','C10'),
b('word','t.catThresholds[idxS+i1]>>i2','t.catThresholds[i1]>>i2','C10'),
b('end','idxE := t.catBoundaries[idx+1]','idxE := uint32(len(t.catThresholds))','C10'),
b('u32-31','if pos >= 32 {','if pos > 32 {','C10',f=U),
b('u32-mod','return (bits>>pos)&1 > 0','return (bits>>(pos+1))&1 > 0','C10',f=U),
]
