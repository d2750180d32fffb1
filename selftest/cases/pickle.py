D='internal/pickle/decoder.go'; MA='internal/pickle/machine.go'; T='internal/pickle/types.go'
def b(n,*e,ids=('C19',)): return dict(name='pk-'+n,edits=list(e),bug=list(ids))
def ok(n,*e): return dict(name='ok-pk-'+n,edits=list(e),ok=True)
def rep(s,*e):
    for o,n in e:
        assert o in s,o
        s=s.replace(o,n,1)
    return s
src=open('/repo/'+D).read(); msrc=open('/repo/'+MA).read()
def case(name,s=src):
    i=s.index('		case '+name+':'); j=s.index('\n		case ',i+5) if '\n		case ' in s[i+5:] else s.index('\n		default',i)
    return s[i:j]+'\n'
def c(name,*e):
    k=case(name); return (D,k,rep(k,*e))
UNI=src[src.index('func decodeUnicode'):src.index('// Codes below')]
RL=src[src.index('func (d *Decoder) readLine'):src.index('func decodeUnicode')]
PM=msrc[msrc.index('func (m *machine) popMark'):msrc.index('func (m *machine) push(')]
PUSH=msrc[msrc.index('func (m *machine) push('):msrc.index('func (m *machine) pop(')]
POP=msrc[msrc.index('func (m *machine) pop()'):msrc.index('func (m *machine) back')]
def u(*e): return (D,UNI,rep(UNI,*e))
def rl(*e): return (D,RL,rep(RL,*e))
cases=[
b('tuple-alias',c('opTuple',('append(Tuple{}, d.machine.popMark()...)','Tuple(d.machine.popMark())'))),
b('list-alias',c('opList',('append(List{}, d.machine.popMark()...)','List(d.machine.popMark())'))),
b('list-value',c('opList',('push(&list)','push(list)'))),
b('append-swap',c('opAppend',('el := d.machine.pop()\n			obj := d.machine.pop()','obj := d.machine.pop()\n			el := d.machine.pop()'))),
b('append-copy',c('opAppend',('*list = append(*list, el)\n			d.machine.push(list)','next := append(*list, el)\n			d.machine.push(&next)'))),
b('append-el',c('opAppend',('*list = append(*list, el)','_ = el\n			*list = append(*list, obj)'))),
b('append-twice',c('opAppend',('append(*list, el)','append(*list, el, el)'))),
b('append-nopush',c('opAppend',('			d.machine.push(list)\n',''))),
b('reduce-swap',c('opReduce',('args := d.machine.pop()\n			callable := d.machine.pop()','callable := d.machine.pop()\n			args := d.machine.pop()'))),
b('reduce-norgs',c('opReduce',('				r.Args = t\n','				r.Args = append(r.Args, t)\n'))),
b('reduce-first',c('opReduce',('				r.Args = t\n','				if len(t) < 4 {\n					r.Args = t\n				}\n'))),
b('build-swap',c('opBuild',('Object: obj, Args: args','Object: args, Args: obj'))),
b('build-nomemo',c('opBuild',('r.built == nil','r.built != nil'))),
b('build-nomemo2',c('opBuild',('			if r, ok := obj.(*Reduce); ok && r.built == nil {\n				r.built = &b\n			}\n',''))),
b('global-swap',c('opGlobal',('Module: string(module), Name: string(name)','Module: string(name), Name: string(module)'))),
b('global-line',c('opGlobal',('name, err := d.readLine()','name := module'))),
b('put-key',c('opPut',('string(line)','string(line[:1])'))),
b('put-pop',(MA,'m.memory[key] = m.stack[len(m.stack)-1]','m.memory[key] = m.pop()')),
b('put-once',(MA,'	m.memory[key] = m.stack[len(m.stack)-1]\n','	if _, ok := m.memory[key]; !ok {\n		m.memory[key] = m.stack[len(m.stack)-1]\n	}\n')),
b('put-bottom',(MA,'m.memory[key] = m.stack[len(m.stack)-1]','m.memory[key] = m.stack[0]')),
b('get-nopush',c('opGet',('			d.machine.push(obj)\n','			_ = obj\n'))),
b('get-delete',(MA,'	obj, ok := m.memory[key]\n','	obj, ok := m.memory[key]\n	delete(m.memory, key)\n')),
b('long-keep',c('opLong',('line[:l-1]','line[:l-2]'))),
b('long-neg',c('opLong',("if l < 2 ||","if l < 3 ||"))),
b('int-32',c('opInt',('v, err := strconv.Atoi(string(line))','v64, err := strconv.ParseInt(string(line), 10, 32)\n			v := int(v64)'))),
b('int-base0',c('opInt',('v, err := strconv.Atoi(string(line))','v64, err := strconv.ParseInt(string(line), 0, 64)\n			v := int(v64)'))),
b('int-type',c('opInt',('d.machine.push(v)','d.machine.push(int64(v))'))),
b('float-32',c('opFloat',('ParseFloat(string(line), 64)','ParseFloat(string(line), 32)'))),
b('float-type',c('opFloat',('d.machine.push(v)','d.machine.push(float32(v))'))),
b('float-int',c('opFloat',('d.machine.push(v)','if v == float64(int(v)) {\n				d.machine.push(int(v))\n			} else {\n				d.machine.push(v)\n			}'))),
b('dict-step',c('opDict',('i += 2','i++'))),
b('dict-odd',c('opDict',('nObjs%2 != 0','nObjs == 1'))),
b('dict-swap',c('opDict',('toUnicode(objs[i], -1)','toUnicode(objs[i+1], -1)'),('dict[key] = objs[i+1]','dict[key] = objs[i]'))),
b('dict-last',c('opDict',('i < nObjs;','i < nObjs-2;'))),
b('dict-first',c('opDict',('i := 0; i < nObjs','i := 2; i < nObjs'))),
b('dict-keep',c('opDict',('				dict[key] = objs[i+1]\n','				if _, has := dict[key]; !has {\n					dict[key] = objs[i+1]\n				}\n'))),
b('setitem-swap',c('opSetitem',('v := d.machine.pop()\n			k := d.machine.pop()','k := d.machine.pop()\n			v := d.machine.pop()'))),
b('setitem-pop',c('opSetitem',('d.machine.back()','d.machine.pop()'))),
b('setitem-keep',c('opSetitem',('			dict[key] = v\n','			if _, has := dict[key]; !has {\n				dict[key] = v\n			}\n'))),
b('none',c('opNone',('			d.machine.push(None{})\n',''))),
b('default-skip',(D,'			return nil, fmt.Errorf("unknown op code: %d", buf[0])','			if buf[0] > 0x7f {\n				return nil, fmt.Errorf("unknown op code: %d", buf[0])\n			}')),
b('pop-skip',(D,'		case opStop:','		case opPop:\n		case opStop:')),
b('dup-pop',(D,'		case opStop:','		case opDup:\n			d.machine.push(d.machine.pop())\n		case opStop:')),
b('inst',(D,'		case opStop:','		case opPersid:\n			d.machine.push(None{})\n		case opStop:')),
b('stop-bottom',(D,'	return d.machine.back(), nil\n','	return d.machine.stack[0], nil\n')),
b('u-order',(D,UNI,'''func decodeUnicode(rawString []byte) Unicode {
	ret := rawString
	for _, r := range [][2]string{{"\\\\u005c", "\\\\"}, {"\\\\u000a", "\\n"}, {"\\\\u0000", "\\x00"}, {"\\\\u000d", "\\r"}, {"\\\\u001a", "\\x1a"}} {
		ret = bytes.Replace(ret, []byte(r[0]), []byte(r[1]), -1)
	}
	return Unicode(ret)
}

''')),
b('u-noa',u(("	ret = bytes.Replace(ret, []byte(`\\u000d`), []byte{'\\r'}, -1)\n",""))),
b('u-first',u(("[]byte{'\\n'}, -1)","[]byte{'\\n'}, 1)"))),
b('u-cr',u(("`\\u000d`","`\\u000D`"))),
b('u-byte',u(("[]byte{'\\r'}","[]byte{'\\n'}"))),
b('u-back',u(("'0', '0', '5', 'c'}","'0', '0', '5', 'C'}"))),
b('rl-crlf',rl(("	return line, nil\n","	return bytes.TrimRight(line, \"\\r\"), nil\n"))),
b('rl-space',rl(("	return line, nil\n","	return bytes.TrimSpace(line), nil\n"))),
b('rl-cr',rl(("		line = append(line, buf[0])\n","		if buf[0] != '\\r' {\n			line = append(line, buf[0])\n		}\n"))),
b('rl-zero',rl(("if buf[0] == '\\n' {","if buf[0] == '\\n' || buf[0] == 0 {"))),
b('rl-max',rl(("if buf[0] == '\\n' {","if buf[0] == '\\n' || cap(line) == 1<<20 {"))),
b('mark-off',(MA,'append(m.marks, len(m.stack))','append(m.marks, len(m.stack)-1)')),
b('popmark-keep',(MA,'	m.marks = m.marks[:len(m.marks)-1]\n','')),
b('popmark-stack',(MA,PM,rep(PM,('	m.stack = m.stack[:idx]\n','')))),
b('popmark-one',(MA,PM,rep(PM,('m.stack[idx:len(m.stack)]','m.stack[idx+1:len(m.stack)]')))),
b('popmark-first',(MA,PM,rep(PM,('	idx := m.marks[len(m.marks)-1]\n','	idx := m.marks[0]\n')))),
b('opcode-eof',(D,'		if err != nil {\n			return nil, err\n		} else if length != 1 {','		if err == io.EOF && len(d.machine.stack) == 1 {\n			break\n		}\n		if err != nil {\n			return nil, err\n		} else if length != 1 {')),
ok('copy',c('opTuple',('append(Tuple{}, d.machine.popMark()...)','make(Tuple, 0, 4)\n			tuple = append(tuple, d.machine.popMark()...)'))),
ok('copy2',c('opTuple',('tuple := append(Tuple{}, d.machine.popMark()...)','objs := d.machine.popMark()\n			tuple := make(Tuple, len(objs))\n			copy(tuple, objs)'))),
ok('copy3',c('opTuple',('tuple := append(Tuple{}, d.machine.popMark()...)','objs := d.machine.popMark()\n			tuple := make(Tuple, len(objs))\n			for i, obj := range objs {\n				tuple[i] = obj\n			}'))),
ok('copy4',c('opTuple',('tuple := append(Tuple{}, d.machine.popMark()...)','var tuple Tuple\n			for _, obj := range d.machine.popMark() {\n				tuple = append(tuple, obj)\n			}'))),
ok('append-ptr',c('opAppend',('list = append(*list, el)\n			d.machine.push(list)','list = append(*list, el)\n			d.machine.push(obj)'))),
ok('append-back',c('opAppend',('obj := d.machine.pop()\n','obj := d.machine.back()\n'),('			d.machine.push(list)\n',''))),
ok('reduce-early',c('opReduce',('''			r := &Reduce{Callable: callable}
			if t, ok := args.(Tuple); ok {
				r.Args = t
			} else {
				return nil, fmt.Errorf("reduce: unexpected args %v", args)
			}
			d.machine.push(r)''','''			t, ok := args.(Tuple)
			if !ok {
				return nil, fmt.Errorf("reduce: unexpected args %v", args)
			}
			d.machine.push(&Reduce{Callable: callable, Args: t})'''))),
ok('reduce-totuple',c('opReduce',('''			r := &Reduce{Callable: callable}
			if t, ok := args.(Tuple); ok {
				r.Args = t
			} else {
				return nil, fmt.Errorf("reduce: unexpected args %v", args)
			}
			d.machine.push(r)''','''			t, err := toTuple(args, -1)
			if err != nil {
				return nil, fmt.Errorf("reduce: %s", err)
			}
			r := new(Reduce)
			r.Callable, r.Args = callable, t
			d.machine.push(r)'''))),
ok('int64',c('opInt',('v, err := strconv.Atoi(string(line))','v64, err := strconv.ParseInt(string(line), 10, 64)\n			v := int(v64)'))),
ok('dict-pairs',c('opDict',('for i := 0; i < nObjs; i += 2 {\n				unicode, err := toUnicode(objs[i], -1)','for k := 0; k < nObjs/2; k++ {\n				i := 2 * k\n				unicode, err := toUnicode(objs[i], -1)'))),
ok('dict-make',c('opDict',('make(Dict, 0)','make(Dict, nObjs/2)'),('				key := string(unicode)\n				dict[key] = objs[i+1]','				dict[string(unicode)] = objs[i+1]'))),
ok('dict-slice',c('opDict',('for i := 0; i < nObjs; i += 2 {','for i := 1; i < nObjs; i += 2 {'),('objs[i], -1','objs[i-1], -1'),('objs[i+1]','objs[i]'))),
ok('pop-clear',(MA,POP,rep(POP,('	m.stack = m.stack[:len(m.stack)-1]\n','	m.stack[len(m.stack)-1] = nil\n	m.stack = m.stack[:len(m.stack)-1]\n')))),
ok('pop-last',(MA,POP,rep(POP,('	obj := m.stack[len(m.stack)-1]\n	m.stack = m.stack[:len(m.stack)-1]\n','	last := len(m.stack) - 1\n	obj := m.stack[last]\n	m.stack = m.stack[:last]\n')))),
ok('popmark-last',(MA,PM,rep(PM,('	idx := m.marks[len(m.marks)-1]\n	m.marks = m.marks[:len(m.marks)-1]\n','	last := len(m.marks) - 1\n	idx := m.marks[last]\n	m.marks = m.marks[:last]\n'),('m.stack[idx:len(m.stack)]','m.stack[idx:]')))),
ok('put-back',(MA,'m.memory[key] = m.stack[len(m.stack)-1]','m.memory[key] = m.back()')),
ok('get-inline',(MA,'	obj, ok := m.memory[key]\n	return obj, ok\n','	if obj, ok := m.memory[key]; ok {\n		return obj, true\n	}\n	return nil, false\n')),
ok('op-var',(D,'		nInstr++\n		switch buf[0] {','		nInstr++\n		op := buf[0]\n		switch op {'),(D,'unknown op code: %d", buf[0])','unknown op code: %d", op)')),
ok('no-label',(D,'loop:\n	for {','	for {'),(D,'			break loop\n','			return d.machine.back(), nil\n'),(D,'	}\n	return d.machine.back(), nil\n','	}\n')),
0 and ok('rl-cond',rl(("	for {\n","	for buf[0] != '\\n' {\n"),("		if buf[0] == '\\n' {\n			break\n		}\n		line = append(line, buf[0])\n","		if buf[0] != '\\n' {\n			line = append(line, buf[0])\n		}\n"))),
ok('rl-return',rl(("			break\n","			return line, nil\n"),("	return line, nil\n}\n","}\n"))),
ok('rl-full',rl(("len, err := d.reader.Read(buf)","len, err := io.ReadFull(d.reader, buf)"))),
ok('readop',(D,'		length, err := d.reader.Read(buf[:1])\n		if err != nil {\n			return nil, err\n		} else if length != 1 {\n			return nil, fmt.Errorf("unexpected read")\n		}\n\n		nInstr++\n		switch buf[0] {','		op, err := d.readOp(buf)\n		if err != nil {\n			return nil, err\n		}\n\n		nInstr++\n		switch op {'),(D,'unknown op code: %d", buf[0])','unknown op code: %d", op)'),(D,'func (d *Decoder) readLine','func (d *Decoder) readOp(buf []byte) (byte, error) {\n	length, err := d.reader.Read(buf[:1])\n	if err != nil {\n		return 0, err\n	}\n	if length != 1 {\n		return 0, fmt.Errorf("unexpected read")\n	}\n	return buf[0], nil\n}\n\nfunc (d *Decoder) readLine')),
ok('bufio',(D,'	"bytes"\n','	"bufio"\n	"bytes"\n'),(D,'	reader  io.Reader\n','	reader  *bufio.Reader\n'),(D,'		reader:  r,\n','		reader:  bufio.NewReader(r),\n'),(D,RL,'''func (d *Decoder) readLine() ([]byte, error) {
	line, err := d.reader.ReadBytes('\\n')
	if err != nil {
		return nil, err
	}
	return line[:len(line)-1], nil
}

'''),(D,'		length, err := d.reader.Read(buf[:1])\n		if err != nil {\n			return nil, err\n		} else if length != 1 {\n			return nil, fmt.Errorf("unexpected read")\n		}\n','		op, err := d.reader.ReadByte()\n		if err != nil {\n			return nil, err\n		}\n'),(D,'switch buf[0] {','switch op {'),(D,'	buf := make([]byte, 1024)\n',''),(D,'unknown op code: %d", buf[0])','unknown op code: %d", op)')),
ok('u-replaceall',(D,UNI,UNI.replace('bytes.Replace(','bytes.ReplaceAll(').replace(', -1)',')'))),
ok('u-table',(D,UNI,'''var escaped = []struct{ from, to string }{{`\\u000a`, "\\n"}, {`\\u0000`, "\\x00"}, {`\\u000d`, "\\r"}, {`\\u001a`, "\\x1a"}, {`\\u005c`, "\\\\"}}

func decodeUnicode(rawString []byte) Unicode {
	ret := rawString
	for _, r := range escaped {
		ret = bytes.Replace(ret, []byte(r.from), []byte(r.to), -1)
	}
	return Unicode(ret)
}

''')),
ok('u-replacer',(D,'	"strconv"\n','	"strconv"\n	"strings"\n'),(D,'	"bytes"\n',''),(D,UNI,'''func decodeUnicode(rawString []byte) Unicode {
	r := strings.NewReplacer(`\\u000a`, "\\n", `\\u0000`, "\\x00", `\\u000d`, "\\r", `\\u001a`, "\\x1a", `\\u005c`, "\\\\")
	return Unicode(r.Replace(string(rawString)))
}

''')),
ok('u-inline',(D,'			d.machine.push(decodeUnicode(line))','			text := decodeUnicode(line)\n			d.machine.push(text)')),
ok('exec',(D,case('opSetitem'),'''		case opSetitem:
			if err := d.setItem(); err != nil {
				return nil, err
			}
'''),(D,'func (d *Decoder) readLine','''func (d *Decoder) setItem() error {
	v, k := d.machine.pop(), d.machine.pop()
	dict, err := toDict(d.machine.back())
	if err != nil {
		return err
	}
	unicode, err := toUnicode(k, -1)
	if err != nil {
		return err
	}
	dict[string(unicode)] = v
	return nil
}

func (d *Decoder) readLine''')),
ok('dup',(D,'		case opStop:','		case opDup:\n			d.machine.push(d.machine.back())\n		case opPop:\n			d.machine.pop()\n		case opStop:')),
ok('ifs',(D,'		case opNone:\n			d.machine.push(None{})\n',''),(D,'		nInstr++\n','		nInstr++\n		if buf[0] == opNone {\n			d.machine.push(None{})\n			continue\n		}\n')),
]
cases=[c for c in cases if c]
