# larger rewrites of the pickle decoder and of the binary reader of XGBoost
D = 'internal/pickle/decoder.go'; MA = 'internal/pickle/machine.go'; N = 'internal/pickle/numpy.go'
T = 'internal/pickle/types.go'; S = 'internal/pickle/sklearn.go'; X = 'internal/xgbin/xgbin_io.go'
R = '/repo/'
d = open(R+D).read(); ma = open(R+MA).read(); n = open(R+N).read(); t = open(R+T).read(); s = open(R+S).read(); x = open(R+X).read()
def seg(src, a, b):
    i = src.index(a); j = src.index(b, i)
    return src[i:j]
def ok(name, *edits): return dict(name='ok-mix4-' + name, edits=list(edits), ok=True)
longOp = seg(d, '			line, err := d.readLine()\n			if err != nil {\n				return nil, err\n			}\n			l := len(line)', '		case opInt:')
intOp = seg(d, '		case opInt:\n', '		case opFloat:')
floatOp = seg(d, '		case opFloat:\n', '		case opTuple:')
tupleOp = seg(d, '		case opTuple:\n', '		case opList:')
listOp = seg(d, '		case opList:\n', '		case opAppend:')
appOp = seg(d, '		case opAppend:\n', '		case opUnicode:')
redOp = seg(d, '		case opReduce:\n', '		case opNone:')
bldOp = seg(d, '		case opBuild:\n', '		case opDict:')
dictOp = seg(d, '		case opDict:\n', '		case opSetitem:')
setOp = seg(d, '		case opSetitem:\n', '		case opStop:')
globOp = seg(d, '		case opGlobal:\n', '		case opLong:')
getOp = seg(d, '		case opGet:\n', '		case opGlobal:')
readLine = seg(d, 'func (d *Decoder) readLine()', 'func decodeUnicode')
decU = seg(d, '	// \\u000a == \\n\n', '}\n\n// Codes below')
readOp = seg(d, '		length, err := d.reader.Read(buf[:1])', '		nInstr++')
popMark = seg(ma, '	idx := m.marks', '}\n\nfunc (m *machine) push(')
pop = seg(ma, '	obj := m.stack[len', '}\n\nfunc (m *machine) back')
iterate = seg(n, '	if len(*b)%length', '\ntype NumpyDType')
shape = seg(n, '	a.Shape = make', '	// parse dtype')
nsw = seg(n, '	switch x := args[4]', 'type NumpyRawBytes')
parse = seg(t, '	build, hasBuild := obj.(Build)', '\x00') if False else t[t.index('	build, hasBuild := obj.(Build)\n	if r'):]
fromBytes = seg(s, '	offset := 0\n', '// SklearnTree represents')
initB = seg(s, '	if e.Name == "LogOddsEstimator"', '\x00') if False else s[s.index('	if e.Name == "LogOddsEstimator"'):]
est = seg(s, '	adjNClasses := t.NClasses', 'type SKlearnInitEstimator')
readString = seg(x, 'func ReadString', '// ReadFloat32Slice')
f32 = seg(x, 'func ReadFloat32Slice', '// ReadInt32Slice')
i32 = seg(x, 'func ReadInt32Slice', '// ReadModelHeader')
header = seg(x, '	modelHeader := &ModelHeader{}', '// ReadGBTreeModel reads')
gbt = seg(x, '	gBTreeModel := &GBTreeModel{}', '// ReadTreeModel')
tm = seg(x, '	treeModel := &TreeModel{}', '// ReadGBLinearModel')
gbl = x[x.index('	gbLinearModel := &GBLinearModel{}'):]
cls = seg(s, '	t.Classes = make([]int, 0, t.NOutputs)', '\nfunc (t *SklearnTree) Build')

cases = [
    ok('long-method', (D, longOp, '''			v, err := d.readLong()
			if err != nil {
				return nil, err
			}
			d.machine.push(v)
'''), (D, 'func (d *Decoder) readLine()', '''func (d *Decoder) readLong() (int, error) {
	line, err := d.readLine()
	if err != nil {
		return 0, err
	}
	last := len(line) - 1
	if last < 1 || line[last] != 'L' {
		return 0, fmt.Errorf("unexpected long format: %s", line)
	}
	v, err := strconv.Atoi(string(line[:last]))
	if err != nil {
		return 0, fmt.Errorf("unexpected long format: %s", line)
	}
	return v, nil
}

func (d *Decoder) readLine()''')),
    ok('long-trimsuffix', (D, longOp, '''			line, err := d.readLine()
			if err != nil {
				return nil, err
			}
			digits := bytes.TrimSuffix(line, []byte{'L'})
			if len(digits) == 0 || len(digits) == len(line) {
				return nil, fmt.Errorf("unexpected long format: %s", line)
			}
			v, err := strconv.Atoi(string(digits))
			if err != nil {
				return nil, fmt.Errorf("unexpected long format: %s", line)
			}
			d.machine.push(v)
''')),
    ok('long-hassuffix', (D, longOp, '''			line, err := d.readLine()
			if err != nil {
				return nil, err
			}
			if !bytes.HasSuffix(line, []byte("L")) {
				return nil, fmt.Errorf("unexpected long format: %s", line)
			}
			v, err := strconv.Atoi(string(line[:len(line)-1]))
			if err != nil {
				return nil, fmt.Errorf("unexpected long format: %s", line)
			}
			d.machine.push(v)
''')),
    ok('int-parseint', (D, intOp, '''		case opInt:
			line, err := d.readLine()
			if err != nil {
				return nil, err
			}
			v, err := strconv.ParseInt(string(line), 10, 64)
			if err != nil {
				return nil, err
			}
			d.machine.push(int(v))
''')),
    ok('num-ops-merged', (D, intOp + floatOp, '''		case opInt, opFloat:
			line, err := d.readLine()
			if err != nil {
				return nil, err
			}
			var v interface{}
			if buf[0] == opInt {
				v, err = strconv.Atoi(string(line))
			} else {
				v, err = strconv.ParseFloat(string(line), 64)
			}
			if err != nil {
				return nil, err
			}
			d.machine.push(v)
''')),
    ok('float-helper', (D, floatOp, '''		case opFloat:
			v, err := d.readFloat()
			if err != nil {
				return nil, err
			}
			d.machine.push(v)
'''), (D, 'func (d *Decoder) readLine()', '''func (d *Decoder) readFloat() (float64, error) {
	line, err := d.readLine()
	if err != nil {
		return 0, err
	}
	return strconv.ParseFloat(string(line), 64)
}

func (d *Decoder) readLine()''')),
    ok('tuple-copy', (D, tupleOp, '''		case opTuple:
			objs := d.machine.popMark()
			tuple := make(Tuple, len(objs))
			copy(tuple, objs)
			d.machine.push(tuple)
'''), (D, listOp, '''		case opList:
			objs := d.machine.popMark()
			list := make(List, len(objs))
			copy(list, objs)
			d.machine.push(&list)
''')),
    ok('tuple-loop', (D, tupleOp, '''		case opTuple:
			var tuple Tuple
			for _, obj := range d.machine.popMark() {
				tuple = append(tuple, obj)
			}
			d.machine.push(tuple)
''')),
    ok('popmark-copies', (MA, popMark, '''	idx := m.marks[len(m.marks)-1]
	m.marks = m.marks[:len(m.marks)-1]
	markedObjects := append([]interface{}(nil), m.stack[idx:]...)
	m.stack = m.stack[:idx]
	return markedObjects
'''), (D, tupleOp, '''		case opTuple:
			d.machine.push(Tuple(d.machine.popMark()))
'''), (D, listOp, '''		case opList:
			list := List(d.machine.popMark())
			d.machine.push(&list)
''')),
    ok('append-back', (D, appOp, '''		case opAppend:
			el := d.machine.pop()
			list, err := toList(d.machine.back(), -1)
			if err != nil {
				return nil, err
			}
			*list = append(*list, el)
''')),
    ok('reduce-totuple', (D, redOp, '''		case opReduce:
			args, err := toTuple(d.machine.pop(), -1)
			if err != nil {
				return nil, fmt.Errorf("reduce: %s", err.Error())
			}
			d.machine.push(&Reduce{Callable: d.machine.pop(), Args: args})
''')),
    ok('reduce-early', (D, redOp, '''		case opReduce:
			top := d.machine.pop()
			args, ok := top.(Tuple)
			if !ok {
				return nil, fmt.Errorf("reduce: unexpected args %v", top)
			}
			callable := d.machine.pop()
			d.machine.push(&Reduce{Args: args, Callable: callable})
''')),
    ok('build-method', (D, bldOp, '''		case opBuild:
			args := d.machine.pop()
			obj := d.machine.pop()
			d.machine.push(newBuild(obj, args))
'''), (T, '// PythonClass is interface', '''func newBuild(obj, args interface{}) Build {
	b := Build{Object: obj, Args: args}
	r, ok := obj.(*Reduce)
	if ok && r.built == nil {
		state := b
		r.built = &state
	}
	return b
}

// PythonClass is interface''')),
    ok('dict-pairs', (D, dictOp, '''		case opDict:
			objs := d.machine.popMark()
			if len(objs)%2 == 1 {
				return nil, fmt.Errorf("dict: expected event number of objects (got %d)", len(objs))
			}
			dict := make(Dict, len(objs)/2)
			for len(objs) > 0 {
				key, err := toUnicode(objs[0], -1)
				if err != nil {
					return nil, err
				}
				dict[string(key)] = objs[1]
				objs = objs[2:]
			}
			d.machine.push(dict)
''')),
    ok('dict-set-method', (D, dictOp, '''		case opDict:
			objs := d.machine.popMark()
			nObjs := len(objs)
			dict := make(Dict, 0)
			if nObjs%2 != 0 {
				return nil, fmt.Errorf("dict: expected event number of objects (got %d)", nObjs)
			}
			for i := 0; i < nObjs/2; i++ {
				err := dict.set(objs[2*i], objs[2*i+1])
				if err != nil {
					return nil, err
				}
			}
			d.machine.push(dict)
'''), (D, setOp, '''		case opSetitem:
			v := d.machine.pop()
			k := d.machine.pop()
			dict, err := toDict(d.machine.back())
			if err != nil {
				return nil, err
			}
			err = dict.set(k, v)
			if err != nil {
				return nil, err
			}
'''), (T, 'func (d *Dict) value(', '''func (d Dict) set(key, value interface{}) error {
	unicode, err := toUnicode(key, -1)
	if err != nil {
		return err
	}
	d[string(unicode)] = value
	return nil
}

func (d *Dict) value(''')),
    ok('global-helper', (D, globOp, '''		case opGlobal:
			global, err := d.readGlobal()
			if err != nil {
				return nil, err
			}
			d.machine.push(global)
'''), (D, 'func (d *Decoder) readLine()', '''func (d *Decoder) readGlobal() (Global, error) {
	var global Global
	module, err := d.readLine()
	if err != nil {
		return global, err
	}
	name, err := d.readLine()
	if err != nil {
		return global, err
	}
	global.Module = string(module)
	global.Name = string(name)
	return global, nil
}

func (d *Decoder) readLine()''')),
    ok('get-errors', (D, getOp, '''		case opGet:
			line, err := d.readLine()
			if err != nil {
				return nil, err
			}
			if obj, ok := d.machine.memory[string(line)]; ok {
				d.machine.push(obj)
			} else {
				return nil, fmt.Errorf("get: memo has no value %s", line)
			}
''')),
    ok('readline-byte', (D, readLine, '''func (d *Decoder) readByte() (byte, error) {
	buf := make([]byte, 1)
	n, err := d.reader.Read(buf)
	if err != nil {
		return 0, err
	}
	if n != 1 {
		return 0, fmt.Errorf("unexpected read")
	}
	return buf[0], nil
}

func (d *Decoder) readLine() ([]byte, error) {
	var line []byte
	for {
		c, err := d.readByte()
		if err != nil {
			return nil, err
		}
		if c == '\\n' {
			return line, nil
		}
		line = append(line, c)
	}
}

''')),
    ok('readbyte-both', (D, readOp, '''		op, err := d.readByte()
		if err != nil {
			return nil, err
		}
'''), (D, '		switch buf[0] {', '		switch op {'), (D, '	buf := make([]byte, 1024)\nloop', 'loop'), (D, '"unknown op code: %d", buf[0]', '"unknown op code: %d", op'),
       (D, readLine, '''func (d *Decoder) readByte() (byte, error) {
	var buf [1]byte
	n, err := d.reader.Read(buf[:])
	if err != nil {
		return 0, err
	}
	if n != 1 {
		return 0, fmt.Errorf("unexpected read")
	}
	return buf[0], nil
}

func (d *Decoder) readLine() ([]byte, error) {
	line := make([]byte, 0, 64)
	c, err := d.readByte()
	for err == nil && c != '\\n' {
		line = append(line, c)
		c, err = d.readByte()
	}
	if err != nil {
		return nil, err
	}
	return line, nil
}

''')),
    ok('readop-readfull', (D, readOp, '''		_, err := io.ReadFull(d.reader, buf[:1])
		if err != nil {
			return nil, err
		}
''')),
    ok('no-ninstr', (D, '	nInstr := 0\n', ''), (D, '		nInstr++\n', '')),
    ok('stop-return', (D, '			break loop\n', '			return d.machine.back(), nil\n'), (D, 'loop:\n', ''), (D, '''		}
	}
	return d.machine.back(), nil
}''', '''		}
	}
}''')),
    ok('stop-before-switch', (D, '		nInstr++\n', '''		nInstr++
		if buf[0] == opStop {
			break
		}
'''), (D, '		case opStop:\n			break loop\n', ''), (D, 'loop:\n', '')),
    ok('unicode-table', (D, decU, '''	ret := rawString
	for _, esc := range []struct{ from, to string }{
		{`\\u000a`, "\\n"},
		{`\\u0000`, "\\x00"},
		{`\\u000d`, "\\r"},
		{`\\u001a`, "\\x1a"},
		{`\\u005c`, `\\`},
	} {
		ret = bytes.Replace(ret, []byte(esc.from), []byte(esc.to), -1)
	}
	return Unicode(ret)
''')),
    ok('unicode-replaceall', (D, decU, '''	unescape := func(src []byte, code string, c byte) []byte {
		return bytes.ReplaceAll(src, []byte(`\\u00`+code), []byte{c})
	}
	ret := unescape(rawString, "0a", '\\n')
	ret = unescape(ret, "00", 0)
	ret = unescape(ret, "0d", '\\r')
	ret = unescape(ret, "1a", 0x1a)
	return Unicode(unescape(ret, "5c", '\\\\'))
''')),
    ok('unicode-strings', (D, decU, '''	ret := strings.Replace(string(rawString), `\\u000a`, "\\n", -1)
	ret = strings.Replace(ret, `\\u0000`, "\\x00", -1)
	ret = strings.Replace(ret, `\\u000d`, "\\r", -1)
	ret = strings.Replace(ret, `\\u001a`, "\\x1a", -1)
	ret = strings.Replace(ret, `\\u005c`, `\\`, -1)
	return Unicode(ret)
'''), (D, '	"bytes"\n', ''), (D, '	"strconv"\n', '	"strconv"\n	"strings"\n')),
    ok('pop-top', (MA, pop, '''	top := len(m.stack) - 1
	obj := m.stack[top]
	m.stack[top] = nil
	m.stack = m.stack[:top]
	return obj
''')),
    ok('pop-back', (MA, pop, '''	obj := m.back()
	m.stack = m.stack[:len(m.stack)-1]
	return obj
'''), (MA, 'm.memory[key] = m.stack[len(m.stack)-1]', 'm.memory[key] = m.back()')),
    ok('iterate-rest', (N, iterate, '''	if len(*b)%length != 0 {
		return fmt.Errorf("unexpected raw bytes length (got %d)", len(*b))
	}
	for rest := []byte(*b); len(rest) > 0; rest = rest[length:] {
		if err = parse(rest[:length]); err != nil {
			return err
		}
	}
	return nil
}
''')),
    ok('iterate-offset', (N, iterate, '''	raw := *b
	if len(raw)%length != 0 {
		return fmt.Errorf("unexpected raw bytes length (got %d)", len(raw))
	}
	for begin := 0; begin < len(raw); begin += length {
		if err := parse(raw[begin : begin+length]); err != nil {
			return err
		}
	}
	return nil
}
''')),
    ok('shape-index', (N, shape, '''	a.Shape = make([]int, len(shapeTuple))
	for i := range shapeTuple {
		a.Shape[i], ok = shapeTuple[i].(int)
		if !ok {
			return fmt.Errorf("expected int object (got %T)", shapeTuple[i])
		}
	}
''')),
    ok('shape-helper', (N, shape, '''	a.Shape, err = toInts(shapeTuple)
	if err != nil {
		return
	}
'''), (T, 'func toDict(', '''func toInts(tuple Tuple) ([]int, error) {
	ints := make([]int, 0, len(tuple))
	for _, obj := range tuple {
		v, ok := obj.(int)
		if !ok {
			return nil, fmt.Errorf("expected int object (got %T)", obj)
		}
		ints = append(ints, v)
	}
	return ints, nil
}

func toDict(''')),
    ok('data-if', (N, nsw, '''	if list, ok := args[4].(*List); ok {
		// sometimes we've got data stored as python list (for array of python objects)
		a.DataList = *list
		return nil
	}
	return ParseClass(&a.Data, args[4])
}

''')),
    ok('data-tolist', (N, nsw, '''	switch args[4].(type) {
	case *List:
		list, err := toList(args[4], -1)
		if err != nil {
			return err
		}
		a.DataList = []interface{}(*list)
		return nil
	case *Reduce, Build:
		return ParseClass(&a.Data, args[4])
	}
	return fmt.Errorf("unexpected type %T", args[4])
}

''')),
    ok('parse-early', (T, parse, '''	build, hasBuild := obj.(Build)
	if r, ok := obj.(*Reduce); ok && r.built != nil {
		build, hasBuild = *r.built, true
	}
	if hasBuild {
		obj = build.Object
	}
	reduce, err := toReduce(obj)
	if err != nil {
		return err
	}
	if err = entity.Reduce(reduce); err != nil {
		return err
	}
	if !hasBuild {
		return nil
	}
	return entity.Build(build)
}
''')),
    ok('parse-switch', (T, parse, '''	switch x := obj.(type) {
	case Build:
		return parseBuild(entity, x)
	case *Reduce:
		if x.built != nil {
			return parseBuild(entity, *x.built)
		}
		return entity.Reduce(*x)
	}
	return fmt.Errorf("expected Reduce object (got %T)", obj)
}

func parseBuild(entity PythonClass, build Build) error {
	reduce, err := toReduce(build.Object)
	if err != nil {
		return err
	}
	err = entity.Reduce(reduce)
	if err != nil {
		return err
	}
	return entity.Build(build)
}
''')),
    ok('frombytes-closure', (S, fromBytes, '''	word := func(i int) []byte {
		return bytes[8*i : 8*(i+1)]
	}
	toInt := func(i int) int {
		return int(binary.LittleEndian.Uint64(word(i)))
	}
	toFloat := func(i int) float64 {
		return util.Float64FromBytes(word(i), true)
	}
	return SklearnNode{
		LeftChild:            toInt(0),
		RightChild:           toInt(1),
		Feature:              toInt(2),
		Threshold:            toFloat(3),
		Impurity:             toFloat(4),
		NNodeSamples:         toInt(5),
		WeightedNNodeSamples: toFloat(6),
	}
}

''')),
    ok('frombytes-math', (S, fromBytes, '''	const size = 8
	f64 := func(b []byte) float64 { return math.Float64frombits(binary.LittleEndian.Uint64(b)) }
	var node SklearnNode
	node.LeftChild = int(binary.LittleEndian.Uint64(bytes[0*size:]))
	node.RightChild = int(binary.LittleEndian.Uint64(bytes[1*size:]))
	node.Feature = int(binary.LittleEndian.Uint64(bytes[2*size:]))
	node.Threshold = f64(bytes[3*size:])
	node.Impurity = f64(bytes[4*size:])
	node.NNodeSamples = int(binary.LittleEndian.Uint64(bytes[5*size:]))
	node.WeightedNNodeSamples = f64(bytes[6*size:])
	return node
}

'''), (S, '	"fmt"\n', '	"fmt"\n	"math"\n')),
    ok('classes-helper', (S, cls, '''	t.Classes, err = rawInts(arr.Data, t.NOutputs)
	return
}

func rawInts(data NumpyRawBytes, n int) ([]int, error) {
	values := make([]int, 0, n)
	err := data.Iterate(8, func(b []byte) error {
		values = append(values, int(binary.LittleEndian.Uint64(b)))
		return nil
	})
	if err != nil {
		return nil, err
	}
	return values, nil
}
''')),
    ok('floats-method', (S, '''	err = arr.Data.Iterate(8, func(b []byte) error {
		t.Values = append(t.Values, util.Float64FromBytes(b, arr.Type.LittleEndinan))
		return nil
	})
	if err != nil {
		return
	}
	return
''', '''	t.Values, err = arr.floats()
	return
'''), (S, '''		if numpyArray.Type.Type != "f8" {
			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
		}
		err = numpyArray.Data.Iterate(8, func(bytes []byte) error {
			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
			return nil
		})
		if err != nil {
			return err
		}
''', '''		e.Prior, err = numpyArray.floats()
		if err != nil {
			return err
		}
'''), (S, '''	if arr.Type.Type != "f8" {
		return fmt.Errorf("expected ndtype \\"f8\\" (got: %#v)", arr.Type)
	}
''', ''), (S, '// SklearnTree represents', '''func (a *NumpyArrayRaw) floats() ([]float64, error) {
	if a.Type.Type != "f8" {
		return nil, fmt.Errorf("expected ndtype \\"f8\\" (got: %#v)", a.Type)
	}
	var values []float64
	err := a.Data.Iterate(8, func(b []byte) error {
		values = append(values, util.Float64FromBytes(b, a.Type.LittleEndinan))
		return nil
	})
	return values, err
}

// SklearnTree represents''')),
    ok('isi8', (S, '''	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {''', '''	if !nClassesRaw.Type.is("i8") {'''),
       (S, '''	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
		return fmt.Errorf("expected ndtype \\"i8\\" little endian (got: %#v)", arr.Type)
	}

	t.Classes = make([]int, 0, t.NOutputs)''', '''	if !arr.Type.is("i8") {
		return fmt.Errorf("expected ndtype \\"i8\\" little endian (got: %#v)", arr.Type)
	}

	t.Classes = make([]int, 0, t.NOutputs)'''), (N, 'func (d *NumpyDType) Reduce', '''func (d *NumpyDType) is(name string) bool {
	return d.LittleEndinan && d.Type == name
}

func (d *NumpyDType) Reduce''')),
    ok('dict-class', (S, '''	treeObj, err := dict.value("tree_")
	if err != nil {
		return
	}
	err = ParseClass(&t.Tree, treeObj)
	if err != nil {
		return
	}
	return
''', '''	return dict.toClass("tree_", &t.Tree)
'''), (S, '''	obj, err = dict.value("init_")
	if err != nil {
		return
	}
	err = ParseClass(&t.InitEstimator, obj)
	if err != nil {
		return
	}
''', '''	err = dict.toClass("init_", &t.InitEstimator)
	if err != nil {
		return
	}
'''), (S, '''	priorObj, err := dict.value("priors")
		if err != nil {
			return err
		}
		numpyArray := NumpyArrayRaw{}
		err = ParseClass(&numpyArray, priorObj)
''', '''	numpyArray := NumpyArrayRaw{}
		err = dict.toClass("priors", &numpyArray)
'''), (T, '// ParseClass calls', '''func (d *Dict) toClass(key string, entity PythonClass) error {
	obj, err := d.value(key)
	if err != nil {
		return err
	}
	return ParseClass(entity, obj)
}

// ParseClass calls''')),
    ok('est-append', (S, est, '''	nGroups := t.NClasses
	if nGroups == 2 {
		nGroups = 1
	}
	if len(arr.Shape) != 2 || arr.Shape[0] != t.NEstimators || arr.Shape[1] != nGroups {
		return fmt.Errorf("unexpected shape: %#v", arr.Shape)
	}
	if len(arr.DataList) != t.NEstimators*nGroups {
		return fmt.Errorf("unexpected array list length")
	}
	t.Estimators = make([]SklearnDecisionTreeRegressor, 0, len(arr.DataList))
	for _, raw := range arr.DataList {
		estimator := SklearnDecisionTreeRegressor{}
		err = ParseClass(&estimator, raw)
		if err != nil {
			return
		}
		t.Estimators = append(t.Estimators, estimator)
	}
	return
}

''')),
    ok('est-ptr', (S, '''	for i := range arr.DataList {
		err = ParseClass(&t.Estimators[i], arr.DataList[i])
		if err != nil {
			return
		}
	}
''', '''	for i, obj := range arr.DataList {
		regressor := &t.Estimators[i]
		if err = ParseClass(regressor, obj); err != nil {
			return err
		}
	}
''')),
    ok('init-switch', (S, '	if e.Name == "LogOddsEstimator" {', '	switch e.Name {\n	case "LogOddsEstimator":'), (S, '	} else if e.Name == "PriorProbabilityEstimator" {', '	case "PriorProbabilityEstimator":'),
       (S, '''	} else {
		return fmt.Errorf("unknown init''', '''	default:
		return fmt.Errorf("unknown init''')),
    ok('init-guard', (S, initB, '''	key := ""
	switch e.Name {
	case "LogOddsEstimator":
		key = "prior"
	case "PriorProbabilityEstimator":
		key = "priors"
	default:
		return fmt.Errorf("unknown init estimator class: %s", e.Name)
	}
	dict, err := toDict(build.Args)
	if err != nil {
		return err
	}
	priorObj, err := dict.value(key)
	if err != nil {
		return err
	}
	if key == "prior" {
		scalar := NumpyScalarRaw{}
		if err := ParseClass(&scalar, priorObj); err != nil {
			return err
		}
		if scalar.Type.Type != "f8" {
			return fmt.Errorf("expected f8, got (%#v)", scalar.Type)
		}
		e.Prior = []float64{util.Float64FromBytes(scalar.Data, scalar.Type.LittleEndinan)}
		return nil
	}
	array := NumpyArrayRaw{}
	if err := ParseClass(&array, priorObj); err != nil {
		return err
	}
	if array.Type.Type != "f8" {
		return fmt.Errorf("expected f8, got (%#v)", array.Type)
	}
	return array.Data.Iterate(8, func(b []byte) error {
		e.Prior = append(e.Prior, util.Float64FromBytes(b, array.Type.LittleEndinan))
		return nil
	})
}
''')),
    ok('reducer-helper', (S, '''	_, err = toGlobal(reduce.Callable, "copy_reg", "_reconstructor")
	if err != nil {
		return
	}
	if len(reduce.Args) != 3 {
		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
	}
	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
	if err != nil {
		return
	}
	return
''', '''	_, err = reconstructed(reduce, "sklearn.tree.tree", "DecisionTreeRegressor")
	return
'''), (S, '''	_, err = toGlobal(reduce.Callable, "copy_reg", "_reconstructor")
	if err != nil {
		return
	}
	if len(reduce.Args) != 3 {
		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
	}
	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
	if err != nil {
		return
	}
	return
''', '''	_, err = reconstructed(reduce, "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
	return
'''), (S, '''	_, err = toGlobal(reduce.Callable, "copy_reg", "_reconstructor")
	if err != nil {
		return
	}
	if len(reduce.Args) != 3 {
		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
	}
	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
	if err != nil {
''', '''	classDesc, err := reconstructed(reduce, "sklearn.ensemble.gradient_boosting", "")
	if err != nil {
'''), (S, 'type SKlearnInitEstimator struct', '''func reconstructed(reduce Reduce, module, name string) (Global, error) {
	_, err := toGlobal(reduce.Callable, "copy_reg", "_reconstructor")
	if err != nil {
		return Global{}, err
	}
	if len(reduce.Args) != 3 {
		return Global{}, fmt.Errorf("not expected tuple: %#v", reduce.Args)
	}
	return toGlobal(reduce.Args[0], module, name)
}

type SKlearnInitEstimator struct''')),
    ok('toglobal-ptr', (T, '''	def := Global{}
	global, ok := obj.(Global)
	if !ok {
		return def, fmt.Errorf("expected Global object (got %T)", obj)
	}
	if module != "" && global.Module != module {
		return def, ''', '''	var none Global
	global, ok := obj.(Global)
	switch {
	case !ok:
		return none, fmt.Errorf("expected Global object (got %T)", obj)
	case module != "" && global.Module != module:
		return none, '''), (T, '''	}
	if name != "" && global.Name != name {
		return def, ''', '''	case name != "" && global.Name != name:
		return none, ''')),
    ok('dtype-endian-equal', (N, "	d.LittleEndinan = endian[0] == '<'\n", '''	d.LittleEndinan = string(endian) == "<"
''')),
    ok('dtype-endian-if', (N, "	d.LittleEndinan = endian[0] == '<'\n", '''	if endian[0] == '<' {
		d.LittleEndinan = true
	} else {
		d.LittleEndinan = false
	}
''')),
    ok('x-size-helper', (X, readString, '''func readSize(reader *bufio.Reader) (uint64, error) {
	var size uint64
	err := binary.Read(reader, binary.LittleEndian, &size)
	return size, err
}

func ReadString(reader *bufio.Reader) (string, error) {
	size, err := readSize(reader)
	if err != nil || size == 0 {
		return "", err
	}
	bytes := make([]byte, size)
	err = binary.Read(reader, binary.LittleEndian, bytes)
	if err != nil {
		return "", err
	}
	return string(bytes), nil
}

'''), (X, f32, '''func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
	size, err := readSize(reader)
	if err != nil || size == 0 {
		return nil, err
	}
	vec := make([]float32, size)
	err = ReadStruct(reader, vec)
	if err != nil {
		return nil, err
	}
	return vec, nil
}

''')),
    ok('x-readfull', (X, readString, '''func ReadString(reader *bufio.Reader) (string, error) {
	var size uint64
	if err := ReadStruct(reader, &size); err != nil {
		return "", err
	}
	bytes := make([]byte, size)
	if _, err := io.ReadFull(reader, bytes); err != nil {
		return "", err
	}
	return string(bytes), nil
}

'''), (X, '	"encoding/binary"\n', '	"encoding/binary"\n	"io"\n')),
    ok('x-size-bytes', (X, f32, '''func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
	var raw [8]byte
	if _, err := io.ReadFull(reader, raw[:]); err != nil {
		return nil, err
	}
	size := binary.LittleEndian.Uint64(raw[:])
	if size == 0 {
		return nil, nil
	}
	vec := make([]float32, size)
	if err := binary.Read(reader, binary.LittleEndian, vec); err != nil {
		return nil, err
	}
	return vec, nil
}

'''), (X, '	"encoding/binary"\n', '	"encoding/binary"\n	"io"\n')),
    ok('x-elements', (X, f32, '''func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
	var size uint64
	err := ReadStruct(reader, &size)
	if err != nil {
		return nil, err
	}
	var vec []float32
	for i := uint64(0); i < size; i++ {
		var v float32
		err = ReadStruct(reader, &v)
		if err != nil {
			return nil, err
		}
		vec = append(vec, v)
	}
	return vec, nil
}

''')),
    ok('x-novecptr', (X, f32, f32.replace('&vec', 'vec'))),
    ok('x-header-direct', (X, header, '''	var header ModelHeader
	if err := ReadStruct(reader, &header.Param); err != nil {
		return nil, err
	}
	var err error
	if header.NameObj, err = ReadString(reader); err != nil {
		return nil, err
	}
	if header.NameGbm, err = ReadString(reader); err != nil {
		return nil, err
	}
	return &header, nil
}

''')),
    ok('x-header-lit', (X, header, '''	var param LearnerModelParam
	err := ReadStruct(reader, &param)
	if err != nil {
		return nil, err
	}
	nameObj, err := ReadString(reader)
	if err != nil {
		return nil, err
	}
	nameGbm, err := ReadString(reader)
	if err != nil {
		return nil, err
	}
	return &ModelHeader{Param: param, NameObj: nameObj, NameGbm: nameGbm}, nil
}

''')),
    ok('x-gbt-index', (X, gbt, '''	model := new(GBTreeModel)
	if err := ReadStruct(reader, &model.Param); err != nil {
		return nil, err
	}
	nTrees := int(model.Param.NumTrees)
	if nTrees <= 0 {
		return model, nil
	}
	model.Trees = make([]*TreeModel, nTrees)
	for i := range model.Trees {
		tree, err := ReadTreeModel(reader)
		if err != nil {
			return nil, err
		}
		model.Trees[i] = tree
	}
	model.TreeInfo = make([]int32, nTrees)
	if err := ReadStruct(reader, model.TreeInfo); err != nil {
		return nil, err
	}
	return model, nil
}

''')),
    ok('x-tree-slices', (X, tm, '''	treeModel := &TreeModel{}
	if err := ReadStruct(reader, &treeModel.Param); err != nil {
		return nil, err
	}
	treeModel.Nodes = make([]Node, treeModel.Param.NumNodes)
	if err := ReadStruct(reader, treeModel.Nodes); err != nil {
		return nil, err
	}
	treeModel.Stats = make([]RTreeNodeStat, treeModel.Param.NumNodes)
	if err := ReadStruct(reader, treeModel.Stats); err != nil {
		return nil, err
	}
	if treeModel.Param.SizeLeafVector > 0 {
		if _, err := ReadFloat32Slice(reader); err != nil {
			return nil, err
		}
	}
	return treeModel, nil
}

''')),
    ok('x-tree-index', (X, tm, '''	treeModel := &TreeModel{}
	err := ReadStruct(reader, &treeModel.Param)
	if err != nil {
		return nil, err
	}
	treeModel.Nodes = make([]Node, treeModel.Param.NumNodes)
	for i := range treeModel.Nodes {
		err = ReadStruct(reader, &treeModel.Nodes[i])
		if err != nil {
			return nil, err
		}
	}
	treeModel.Stats = make([]RTreeNodeStat, treeModel.Param.NumNodes)
	for i := range treeModel.Stats {
		err = ReadStruct(reader, &treeModel.Stats[i])
		if err != nil {
			return nil, err
		}
	}
	if treeModel.Param.SizeLeafVector <= 0 {
		return treeModel, nil
	}
	_, err = ReadFloat32Slice(reader)
	if err != nil {
		return nil, err
	}
	return treeModel, nil
}

''')),
    ok('x-tree-helpers', (X, tm, '''	treeModel := &TreeModel{}
	err := ReadStruct(reader, &treeModel.Param)
	if err != nil {
		return nil, err
	}
	n := int(treeModel.Param.NumNodes)
	if treeModel.Nodes, err = readNodes(reader, n); err != nil {
		return nil, err
	}
	if treeModel.Stats, err = readStats(reader, n); err != nil {
		return nil, err
	}
	if treeModel.Param.SizeLeafVector > 0 {
		_, err = ReadFloat32Slice(reader)
	}
	if err != nil {
		return nil, err
	}
	return treeModel, nil
}

func readNodes(reader *bufio.Reader, n int) ([]Node, error) {
	nodes := make([]Node, 0, n)
	for i := 0; i < n; i++ {
		node := Node{}
		err := ReadStruct(reader, &node)
		if err != nil {
			return nil, err
		}
		nodes = append(nodes, node)
	}
	return nodes, nil
}

func readStats(reader *bufio.Reader, n int) ([]RTreeNodeStat, error) {
	var stats []RTreeNodeStat
	for len(stats) < n {
		var stat RTreeNodeStat
		if err := ReadStruct(reader, &stat); err != nil {
			return nil, err
		}
		stats = append(stats, stat)
	}
	return stats, nil
}

''')),
    ok('x-readstruct-short', (X, '''	err := binary.Read(reader, binary.LittleEndian, dst)
	if err != nil {
		return err
	}
	return nil
''', '''	return binary.Read(reader, binary.LittleEndian, dst)
'''), (X, gbl, '''	var param GBLinearModelParam
	if err := ReadStruct(reader, &param); err != nil {
		return nil, err
	}
	weights, err := ReadFloat32Slice(reader)
	if err != nil {
		return nil, err
	}
	return &GBLinearModel{
		Param:   param,
		Weights: weights,
	}, nil
}
''')),
]
