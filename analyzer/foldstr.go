package main

// Constant propagation through string operations: what a function of a text
// field computes for one given text.

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"
)

func boolConst(b bool) *Term { return constTerm(constant.MakeBool(b), types.Typ[types.Bool]) }

func strList(ss []string) *Term {
	var as []*Term
	for _, s := range ss {
		as = append(as, strTerm(s))
	}
	return mkTerm("strs", "", types.NewSlice(types.Typ[types.String]), as...)
}

// foldStr evaluates one operation on constant strings; nil: not constant.
func foldStr(t *Term) *Term {
	switch t.op {
	case "hasprefix":
		a, ok1 := t.args[0].strVal()
		b, ok2 := t.args[1].strVal()
		if ok1 && ok2 {
			return boolConst(strings.HasPrefix(a, b))
		}
	case "len":
		if t.args[0].op == "strs" {
			return intTerm(int64(len(t.args[0].args)))
		}
		if s, ok := t.args[0].strVal(); ok {
			return intTerm(int64(len(s)))
		}
	case "load":
		if a := t.args[0]; a.op == "index" && a.args[0].op == "strs" {
			if i, ok := a.args[1].intVal(); ok && i >= 0 && int(i) < len(a.args[0].args) {
				return a.args[0].args[i]
			}
		}
	case "sadd":
		a, ok1 := t.args[0].strVal()
		b, ok2 := t.args[1].strVal()
		if ok1 && ok2 {
			return strTerm(a + b)
		}
	case "elem":
		if s, ok := t.args[0].strVal(); ok {
			if i, ok := t.args[1].intVal(); ok && i >= 0 && int(i) < len(s) {
				return constTerm(constant.MakeInt64(int64(s[i])), t.typ)
			}
		}
	case "slice":
		if s, ok := t.args[0].strVal(); ok && len(t.args) >= 3 {
			lo, ok1 := t.args[1].intVal()
			hi, ok2 := t.args[2].intVal()
			if ok1 && ok2 && 0 <= lo && lo <= hi && int(hi) <= len(s) {
				return strTerm(s[lo:hi])
			}
		}
	case "call":
		return foldCall(t)
	case "res":
		c := t.args[0]
		if c.op != "call" {
			return nil
		}
		k := t.aux
		var ss []string
		for _, a := range c.args {
			s, ok := a.strVal()
			if !ok {
				break
			}
			ss = append(ss, s)
		}
		errv := func(err error) *Term {
			if err == nil {
				return nilTerm
			}
			return mkTerm("errval", "strconv", types.Universe.Lookup("error").Type())
		}
		switch c.aux {
		case "strconv.Atoi", "strconv.ParseInt":
			if len(ss) < 1 {
				return nil
			}
			base, bits := int64(10), int64(0)
			if c.aux == "strconv.ParseInt" {
				var ok1, ok2 bool
				base, ok1 = c.args[1].intVal()
				bits, ok2 = c.args[2].intVal()
				if !ok1 || !ok2 {
					return nil
				}
			}
			n, err := strconv.ParseInt(ss[0], int(base), int(bits))
			if k == "0" {
				return constTerm(constant.MakeInt64(n), t.typ)
			}
			return errv(err)
		case "strconv.ParseFloat":
			if len(ss) < 1 {
				return nil
			}
			f, err := strconv.ParseFloat(ss[0], 64)
			if k == "0" {
				return floatTerm(f)
			}
			return errv(err)
		case "strings.Cut":
			if len(ss) < 2 {
				return nil
			}
			a, b, ok := strings.Cut(ss[0], ss[1])
			switch k {
			case "0":
				return strTerm(a)
			case "1":
				return strTerm(b)
			}
			return boolConst(ok)
		case "strings.CutPrefix", "strings.CutSuffix":
			if len(ss) < 2 {
				return nil
			}
			a, ok := strings.CutPrefix(ss[0], ss[1])
			if c.aux == "strings.CutSuffix" {
				a, ok = strings.CutSuffix(ss[0], ss[1])
			}
			if k == "0" {
				return strTerm(a)
			}
			return boolConst(ok)
		}
	}
	return nil
}

func foldCall(t *Term) *Term {
	var ss []string
	for _, a := range t.args {
		s, ok := a.strVal()
		if !ok {
			break
		}
		ss = append(ss, s)
	}
	if len(ss) == 0 {
		return nil
	}
	n := int64(-1)
	if len(t.args) == 3 {
		n, _ = t.args[2].intVal()
	}
	two := len(ss) >= 2
	switch t.aux {
	case "strings.TrimSpace":
		return strTerm(strings.TrimSpace(ss[0]))
	case "strings.ToLower":
		return strTerm(strings.ToLower(ss[0]))
	case "strings.ToUpper":
		return strTerm(strings.ToUpper(ss[0]))
	case "strings.Fields":
		return strList(strings.Fields(ss[0]))
	}
	if !two {
		return nil
	}
	a, b := ss[0], ss[1]
	switch t.aux {
	case "strings.HasSuffix":
		return boolConst(strings.HasSuffix(a, b))
	case "strings.HasPrefix":
		return boolConst(strings.HasPrefix(a, b))
	case "strings.Contains":
		return boolConst(strings.Contains(a, b))
	case "strings.ContainsAny":
		return boolConst(strings.ContainsAny(a, b))
	case "strings.EqualFold":
		return boolConst(strings.EqualFold(a, b))
	case "strings.Index":
		return intTerm(int64(strings.Index(a, b)))
	case "strings.LastIndex":
		return intTerm(int64(strings.LastIndex(a, b)))
	case "strings.Count":
		return intTerm(int64(strings.Count(a, b)))
	case "strings.Compare":
		return intTerm(int64(strings.Compare(a, b)))
	case "strings.TrimPrefix":
		return strTerm(strings.TrimPrefix(a, b))
	case "strings.TrimSuffix":
		return strTerm(strings.TrimSuffix(a, b))
	case "strings.Trim":
		return strTerm(strings.Trim(a, b))
	case "strings.TrimLeft":
		return strTerm(strings.TrimLeft(a, b))
	case "strings.TrimRight":
		return strTerm(strings.TrimRight(a, b))
	case "strings.Split":
		return strList(strings.Split(a, b))
	case "strings.SplitN":
		if len(t.args) == 3 {
			if _, ok := t.args[2].intVal(); ok {
				return strList(strings.SplitN(a, b, int(n)))
			}
		}
	}
	return nil
}
