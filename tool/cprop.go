package main

// Constant propagation through library functions, text iteration and package tables.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (s *statics) eng() *Eng {
	e := newEng(s.p)
	e.Stat = s
	e.MaxIter = 2000
	return e
}

// follow is what an initialiser's function returns on its only path.
func (s *statics) follow(f *ssa.Function) *tval {
	if f.Signature.Results().Len() != 1 {
		return nil
	}
	return s.followNth(f, 0)
}

func (s *statics) followNth(f *ssa.Function, n int) *tval {
	e := s.eng()
	outs := e.Run(f, newState())
	if e.over || len(outs) != 1 || outs[0].Kind != Ret || n >= len(outs[0].Vals) {
		return nil
	}
	return s.fromState(outs[0].St, outs[0].Vals[n])
}

func (s *statics) fromState(st *State, v *V) *tval {
	if v.op == OMap {
		t := &tval{m: map[string]*tval{}}
		for _, en := range st.maps {
			if en.m != v {
				continue
			}
			if en.v == vDeleted {
				return nil
			}
			k, e := s.resolve(en.k), s.fromState(st, en.v)
			if k == nil || k.c == nil || e == nil {
				return nil
			}
			id := k.c.ExactString()
			if t.m[id] == nil {
				t.keys = append(t.keys, k.c)
			}
			t.m[id] = e
		}
		return t
	}
	if es, ok := listElems(st, v); ok && v.op != OConst {
		t := &tval{}
		for _, x := range es {
			e := s.fromState(st, x)
			if e == nil {
				return nil
			}
			t.l = append(t.l, e)
		}
		return t
	}
	return s.resolve(v)
}

// constant is the constant that a load of type t gives, or the load itself.
func (s *statics) constant(v *V, t types.Type) *V {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Struct, *types.Array:
	default:
		return v
	}
	if x := s.term(s.resolve(v), t); x != nil {
		return x
	}
	return v
}

// term is a constant, or a struct of constants, as a term.
func (s *statics) term(r *tval, t types.Type) *V {
	switch {
	case r == nil:
		return nil
	case r.c != nil:
		return constV(r.c, t)
	case r.f != nil && t != nil:
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(r.f) {
			return nil
		}
		z := zero(t)
		if z.op != OStruct {
			return nil
		}
		args := append([]*V(nil), z.args...)
		for i, f := range r.f {
			if args[i] = s.term(f, st.Field(i).Type()); args[i] == nil {
				return nil
			}
		}
		return mk(V{op: OStruct, typ: z.typ, aux: z.aux, args: args})
	case r.l != nil && t != nil:
		at, ok := t.Underlying().(*types.Array)
		if !ok || at.Len() != int64(len(r.l)) || at.Len() > 256 {
			return nil
		}
		z := zero(t)
		if len(z.args) != len(r.l) {
			return nil
		}
		args := append([]*V(nil), z.args...)
		for i, f := range r.l {
			if args[i] = s.term(f, at.Elem()); args[i] == nil {
				return nil
			}
		}
		return mk(V{op: z.op, typ: z.typ, aux: z.aux, num: z.num, num2: z.num2, args: args})
	}
	return nil
}

func constV(c constant.Value, t types.Type) *V {
	switch c.Kind() {
	case constant.String:
		return vStr(constant.StringVal(c))
	case constant.Int:
		n, _ := constant.Int64Val(c)
		return vInt(n)
	case constant.Bool:
		return vBool(constant.BoolVal(c))
	}
	return mk(V{op: OConst, cv: c, typ: t})
}

// lookup answers a look-up in a package table.
func (s *statics) lookup(m, k *V, t types.Type) (v *V, ok, known bool) {
	mt, kt := s.resolve(m), s.resolve(k)
	if mt == nil || mt.m == nil || kt == nil || kt.c == nil {
		return nil, false, false
	}
	e := mt.get(kt.c)
	if e == nil {
		return zero(t), false, true
	}
	if x := s.term(e, t); x != nil {
		return x, true, true
	}
	return mk(V{op: OLookup, args: []*V{m, constV(kt.c, nil)}, typ: t}), true, true
}

func (e *Eng) constArg(v *V) *V {
	if v.isConst() {
		return v
	}
	if r := e.Stat.resolve(v); r != nil && r.c != nil {
		return constV(r.c, nil)
	}
	return v
}

// nextConst is the next item of a known text or package table.
func (e *Eng) nextConst(st *State, it *V, in *ssa.Next) *V {
	if it.op != OUn || it.aux != "range" || len(it.args) != 2 {
		return nil
	}
	pos, ok := st.heap[it.args[1].num].intVal()
	if !ok {
		return nil
	}
	tup := func(ok bool, k, v *V) *V {
		return mk(V{op: OStruct, aux: "t", args: []*V{vBool(ok), k, v}})
	}
	if in.IsString {
		s, ok := e.constArg(it.args[0]).strVal()
		if !ok {
			return nil
		}
		if int(pos) >= len(s) {
			return tup(false, vInt(0), vInt(0))
		}
		r, w := utf8.DecodeRuneInString(s[pos:])
		st.heap[it.args[1].num] = vInt(pos + int64(w))
		return tup(true, vInt(pos), vInt(int64(r)))
	}
	if ks, ok := e.localKeys(st, it.args[0]); ok {
		if int(pos) >= len(ks) {
			return tup(false, vInt(0), vInt(0))
		}
		st.heap[it.args[1].num] = vInt(pos + 1)
		for i := len(st.maps) - 1; ; i-- {
			if st.maps[i].m == it.args[0] && st.maps[i].k == ks[pos] {
				return tup(true, ks[pos], st.maps[i].v)
			}
		}
	}
	m := e.Stat.resolve(it.args[0])
	if m == nil || m.m == nil {
		return nil
	}
	var ks []constant.Value
	ks = append(ks, m.keys...)
	sort.Slice(ks, func(i, j int) bool { return ks[i].ExactString() < ks[j].ExactString() })
	if int(pos) >= len(ks) {
		return tup(false, vInt(0), vInt(0))
	}
	st.heap[it.args[1].num] = vInt(pos + 1)
	k := ks[pos]
	mt, ok := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	if !ok {
		return nil
	}
	v, _, known := e.Stat.lookup(it.args[0], constV(k, mt.Key()), mt.Elem())
	if !known {
		return nil
	}
	return tup(true, constV(k, mt.Key()), v)
}

// convList converts between known texts and lists of their runes or bytes.
func (e *Eng) convList(st *State, x *V, from, to types.Type, pos token.Pos) *V {
	switch {
	case isString(to):
		sl, ok := from.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		es, ok := listElems(st, x)
		if !ok {
			return nil
		}
		out := ""
		for _, el := range es {
			n, ok := e.constArg(el).intVal()
			if !ok {
				return nil
			}
			if isRuneSlice(sl) {
				out += string(rune(n))
			} else {
				out += string([]byte{byte(n)})
			}
		}
		return vStr(out)
	case isString(from):
		sl, ok := to.Underlying().(*types.Slice)
		if !ok {
			return nil
		}
		s, ok := e.constArg(x).strVal()
		if !ok {
			return nil
		}
		var es []*V
		if isRuneSlice(sl) {
			for _, r := range s {
				es = append(es, vInt(int64(r)))
			}
		} else {
			for i := 0; i < len(s); i++ {
				es = append(es, vInt(int64(s[i])))
			}
		}
		at := types.NewArray(sl.Elem(), int64(len(es)))
		c := zero(at)
		if len(es) > 0 {
			c = mk(V{op: OStruct, aux: c.aux, args: es, typ: c.typ})
		}
		return mk(V{op: OSlice, num: 0, num2: int64(len(es)), args: []*V{st.newObj(at, c, pos)}})
	}
	return nil
}

// constCall is the result of a library function for known arguments.
func (e *Eng) constCall(st *State, name string, args []*V) *V {
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		return e.builder(st, name[strings.LastIndex(name, ".")+1:], args)
	}
	if len(args) > 1 && isBuilder(st, args[0]) {
		// the functions that write into what they are given
		b := core(args[0])
		switch name {
		case "io.WriteString":
			return e.builder(st, "WriteString", []*V{b, args[1]})
		case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
			if name == "fmt.Fprintf" {
				if t := e.sprint(st, "fmt.Sprintf", args[1:]); t != nil {
					return e.builder(st, "WriteString", []*V{b, t})
				}
			}
			_, texts, _, known := writeTexts(st, Event{Kind: "call", Name: name, Args: args})
			if known {
				for _, t := range texts {
					e.builder(st, "WriteString", []*V{b, t})
				}
				return mk(V{op: OStruct, aux: "t", args: []*V{mk(V{op: OSym, aux: "count", typ: types.Typ[types.Int]}), vNil}})
			}
		}
	}
	if name == "strings.Map" && len(args) == 2 {
		return e.mapRunes(st, args[0], e.constArg(args[1]))
	}
	if name == "strings.Join" && len(args) == 2 {
		es, ok := listElems(st, args[0])
		sep, k := e.constArg(args[1]).strVal()
		if !ok || !k || args[0].isConst() {
			return nil
		}
		whole := vStr("")
		for i, x := range es {
			if i > 0 {
				whole = mkConcat(whole, vStr(sep))
			}
			whole = mkConcat(whole, e.constArg(x))
		}
		return whole
	}
	if (name == "fmt.Sprint" || name == "fmt.Sprintf") && len(args) > 0 {
		return e.sprint(st, name, args)
	}
	if (name == "sort.Ints" || name == "sort.Strings") && len(args) == 1 && args[0].op == OSlice {
		es, ok := listElems(st, args[0])
		if !ok {
			return nil
		}
		cs := make([]*V, len(es))
		for i, x := range es {
			if cs[i] = e.constArg(x); !cs[i].isConst() {
				return nil
			}
		}
		sort.SliceStable(cs, func(i, j int) bool { return constant.Compare(cs[i].cv, token.LSS, cs[j].cv) })
		for i, c := range cs {
			st.store(indexAddr(args[0], vInt(int64(i))), c)
		}
		return vNil
	}
	var as []interface{}
	for _, a := range args {
		a = e.constArg(a)
		if s, ok := a.strVal(); ok {
			as = append(as, s)
			continue
		}
		if n, ok := a.intVal(); ok {
			as = append(as, n)
			continue
		}
		return nil
	}
	S := func(i int) string { s, _ := as[i].(string); return s }
	N := func(i int) int64 { n, _ := as[i].(int64); return n }
	two := func(a, b *V) *V { return mk(V{op: OStruct, aux: "t", args: []*V{a, b}}) }
	switch name {
	case "strconv.Itoa":
		return vStr(strconv.FormatInt(N(0), 10))
	case "strconv.FormatInt":
		if N(1) < 2 || N(1) > 36 {
			return nil
		}
		return vStr(strconv.FormatInt(N(0), int(N(1))))
	case "strings.ToLower":
		return vStr(strings.ToLower(S(0)))
	case "strings.ToUpper":
		return vStr(strings.ToUpper(S(0)))
	case "strings.Title":
		return vStr(strings.Title(S(0)))
	case "strings.TrimSpace":
		return vStr(strings.TrimSpace(S(0)))
	case "strings.Trim":
		return vStr(strings.Trim(S(0), S(1)))
	case "strings.TrimLeft":
		return vStr(strings.TrimLeft(S(0), S(1)))
	case "strings.TrimRight":
		return vStr(strings.TrimRight(S(0), S(1)))
	case "strings.TrimPrefix":
		return vStr(strings.TrimPrefix(S(0), S(1)))
	case "strings.TrimSuffix":
		return vStr(strings.TrimSuffix(S(0), S(1)))
	case "strings.ReplaceAll":
		return vStr(strings.ReplaceAll(S(0), S(1), S(2)))
	case "strings.Replace":
		return vStr(strings.Replace(S(0), S(1), S(2), int(N(3))))
	case "strings.Repeat":
		return vStr(strings.Repeat(S(0), int(N(1))))
	case "strings.EqualFold":
		return vBool(strings.EqualFold(S(0), S(1)))
	case "strings.Compare":
		return vInt(int64(strings.Compare(S(0), S(1))))
	case "strings.HasPrefix":
		return vBool(strings.HasPrefix(S(0), S(1)))
	case "strings.HasSuffix":
		return vBool(strings.HasSuffix(S(0), S(1)))
	case "strings.Contains":
		return vBool(strings.Contains(S(0), S(1)))
	case "strings.ContainsAny":
		return vBool(strings.ContainsAny(S(0), S(1)))
	case "strings.ContainsRune":
		return vBool(strings.ContainsRune(S(0), rune(N(1))))
	case "strings.Count":
		return vInt(int64(strings.Count(S(0), S(1))))
	case "strings.Index":
		return vInt(int64(strings.Index(S(0), S(1))))
	case "strings.IndexAny":
		return vInt(int64(strings.IndexAny(S(0), S(1))))
	case "strings.LastIndex":
		return vInt(int64(strings.LastIndex(S(0), S(1))))
	case "strings.LastIndexAny":
		return vInt(int64(strings.LastIndexAny(S(0), S(1))))
	case "strings.IndexRune":
		return vInt(int64(strings.IndexRune(S(0), rune(N(1)))))
	case "strings.IndexByte":
		return vInt(int64(strings.IndexByte(S(0), byte(N(1)))))
	case "unicode.ToLower":
		return vInt(int64(unicode.ToLower(rune(N(0)))))
	case "unicode.ToUpper":
		return vInt(int64(unicode.ToUpper(rune(N(0)))))
	case "unicode.IsLetter":
		return vBool(unicode.IsLetter(rune(N(0))))
	case "unicode.IsUpper":
		return vBool(unicode.IsUpper(rune(N(0))))
	case "unicode.IsLower":
		return vBool(unicode.IsLower(rune(N(0))))
	case "unicode.IsSpace":
		return vBool(unicode.IsSpace(rune(N(0))))
	case "unicode.SimpleFold":
		return vInt(int64(unicode.SimpleFold(rune(N(0)))))
	case "unicode/utf8.DecodeRuneInString":
		r, w := utf8.DecodeRuneInString(S(0))
		return two(vInt(int64(r)), vInt(int64(w)))
	case "unicode/utf8.DecodeLastRuneInString":
		r, w := utf8.DecodeLastRuneInString(S(0))
		return two(vInt(int64(r)), vInt(int64(w)))
	case "unicode/utf8.RuneCountInString":
		return vInt(int64(utf8.RuneCountInString(S(0))))
	case "unicode/utf8.RuneLen":
		return vInt(int64(utf8.RuneLen(rune(N(0)))))
	}
	return nil
}

// sprint formats texts and whole numbers that are known.
func (e *Eng) sprint(st *State, name string, args []*V) *V {
	vals := args
	format := ""
	if name == "fmt.Sprintf" {
		f, ok := e.constArg(args[0]).strVal()
		if !ok {
			return nil
		}
		format, vals = f, args[1:]
	}
	if len(vals) != 1 {
		return nil
	}
	var es []*V
	if vals[0].op != ONil {
		var ok bool
		if es, ok = listElems(st, vals[0]); !ok {
			return nil
		}
	}
	var as []interface{}
	for _, x := range es {
		if x.op != OIface || len(x.args) != 1 || x.typ == nil {
			return nil
		}
		b, ok := x.typ.Underlying().(*types.Basic)
		if n, isNamed := x.typ.(*types.Named); !ok || isNamed && n.NumMethods() > 0 {
			return nil
		}
		c := e.constArg(x.args[0])
		if s, ok := c.strVal(); ok {
			as = append(as, s)
		} else if n, ok := c.intVal(); ok && b.Info()&types.IsInteger != 0 {
			as = append(as, n)
		} else {
			return nil
		}
	}
	if name == "fmt.Sprint" {
		return vStr(fmt.Sprint(as...))
	}
	return vStr(fmt.Sprintf(format, as...))
}

// builder follows the text that is collected in a builder of this path.
func (e *Eng) builder(st *State, method string, args []*V) *V {
	if len(args) == 0 || args[0].op != OObj && (args[0].op != OFAddr || rootObj(args[0]) == nil) {
		return nil
	}
	// The content is a text, known or not; at first it is an empty struct.
	cur := vStr("")
	if c := st.load(args[0], nil); c != nil && c.op != OStruct {
		cur = c
	}
	str := func(v *V) *V {
		if c := e.constArg(v); c.isConst() {
			return c
		}
		return mk(V{op: OConv, typ: types.Typ[types.String], args: []*V{v}})
	}
	add := vStr("")
	switch method {
	case "String":
		return cur
	case "Len":
		if s, ok := cur.strVal(); ok {
			return vInt(int64(len(s)))
		}
		return nil
	case "Reset":
		st.store(args[0], vStr(""))
		return vNil
	case "Grow":
		return vNil
	case "WriteString":
		add = e.constArg(args[1])
	case "WriteRune":
		if n, ok := e.constArg(args[1]).intVal(); ok {
			add = vStr(string(rune(n)))
		} else {
			add = str(args[1])
		}
	case "WriteByte":
		n, ok := e.constArg(args[1]).intVal()
		if !ok {
			add = str(args[1])
		} else {
			add = vStr(string([]byte{byte(n)}))
		}
		st.store(args[0], mkConcat(cur, add))
		return vNil
	default:
		st.store(args[0], mk(V{op: OSym, aux: "written by " + method, typ: types.Typ[types.String]}))
		return nil
	}
	st.store(args[0], mkConcat(cur, add))
	n := mk(V{op: OLen, args: []*V{add}})
	if s, ok := add.strVal(); ok {
		n = vInt(int64(len(s)))
	}
	return mk(V{op: OStruct, aux: "t", args: []*V{n, vNil}})
}

// mapRunes is strings.Map of a known text.
func (e *Eng) mapRunes(st *State, f, x *V) *V {
	s, ok := x.strVal()
	if !ok || f.fn == nil || len(f.fn.Blocks) == 0 {
		return nil
	}
	out := ""
	for _, r := range s {
		var bind []*V
		if f.op == OClosure {
			bind = f.args
		}
		os := e.callFn(st.clone(), f.fn, bind, []*V{vInt(int64(r))}, 0)
		if len(os) != 1 || os[0].kind != Ret {
			return nil
		}
		n, ok := os[0].v.intVal()
		if !ok {
			return nil
		}
		if n >= 0 {
			out += string(rune(n))
		}
	}
	return vStr(out)
}

// isBuilder: v points to a text under construction.
func isBuilder(st *State, v *V) bool {
	if v.op != OIface || v.args[0].op != OObj {
		return false
	}
	n := namedOf(v.typ)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	id := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return id == "strings.Builder" || id == "bytes.Buffer"
}
