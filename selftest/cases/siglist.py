U = 'util/util.go'
body = '''	for i := range vec {
		vec[i] = Sigmoid(vec[i])
	}
}

func Soft'''
cases = [dict(name='siglist-' + n, bug=['C17'], edits=[(U, body, new + '}\n\nfunc Soft')]) for n, new in [
    ('skip-last', '	for i := 0; i+1 < len(vec) || i < 5 && i < len(vec); i++ {\n		vec[i] = Sigmoid(vec[i])\n	}\n'),
    ('unroll', '	i := 0\n	for ; i+4 <= len(vec); i += 4 {\n		vec[i], vec[i+1], vec[i+2], vec[i+3] = Sigmoid(vec[i]), Sigmoid(vec[i+1]), Sigmoid(vec[i+2]), Sigmoid(vec[i+2])\n	}\n	for ; i < len(vec); i++ {\n		vec[i] = Sigmoid(vec[i])\n	}\n'),
    ('positive', '	for i, x := range vec {\n		if x > -50 {\n			vec[i] = Sigmoid(x)\n		}\n	}\n'),
    ('exp', '	for i, x := range vec {\n		e := math.Exp(x)\n		vec[i] = e / (1.0 + e)\n	}\n'),
]] + [dict(name='ok-siglist-' + n, ok=True, edits=[(U, body, new + '}\n\nfunc Soft')]) for n, new in [
    ('range', '	for i, x := range vec {\n		vec[i] = Sigmoid(x)\n	}\n'),
    ('down', '	for i := len(vec) - 1; i >= 0; i-- {\n		vec[i] = Sigmoid(vec[i])\n	}\n'),
    ('inline', '	for i := 0; i < len(vec); i++ {\n		e := math.Exp(-vec[i])\n		vec[i] = 1.0 / (e + 1.0)\n	}\n'),
    ('ptr', '	for i := range vec {\n		p := &vec[i]\n		*p = Sigmoid(*p)\n	}\n'),
    ('helper', '	mapInplace(vec, Sigmoid)\n}\n\nfunc mapInplace(vec []float64, f func(float64) float64) {\n	for i, x := range vec {\n		vec[i] = f(x)\n	}\n'),
]]
