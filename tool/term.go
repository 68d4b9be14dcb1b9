package main

// Terms: hash-consed values of the access-path domain.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Op uint8

const (
	OConst Op = iota
	ONil
	OSym
	OLoad   // value at a (non-fresh) address in the initial memory
	OFAddr  // address of field aux of the struct at args[0]
	OIAddr  // address of element args[1] of slice/array-pointer args[0]
	OObj    // address of a freshly allocated object (aux: id)
	OGlobal // address of a package variable
	OStruct // struct or array value
	OField  // field aux of an opaque struct value
	OIface  // interface value of dynamic type typ and value args[0]
	OAs     // concrete value of interface args[0], which has dynamic type typ
	OSlice  // args[0][lo:hi], lo/hi in aux; base is an array object or an opaque slice
	OSub    // opaque slicing (args: base, lo, hi)
	OLen
	OBin
	OUn
	OCall // uninterpreted call result (aux: name#seq)
	OExtract
	OFunc
	OClosure
	OLookup // map or string lookup
	OConcat
	OConv
	OSum // linear integer: aux "c;k1,k2.." args
	OImpl
	OTypeIs
	OMap // fresh map (aux: id)
)

type V struct {
	op   Op
	typ  types.Type
	aux  string
	args []*V
	num  int64          // field index, object id, lo
	num2 int64          // hi
	cv   constant.Value // OConst
	fn   *ssa.Function  // OFunc, OClosure
	id   int
}

var (
	interned = map[string]*V{}
	typeIDs  typeutil.Map
	typeN    int
)

func typeID(t types.Type) int {
	if t == nil {
		return 0
	}
	if v := typeIDs.At(t); v != nil {
		return v.(int)
	}
	typeN++
	typeIDs.Set(t, typeN)
	return typeN
}

func mk(v V) *V {
	var b strings.Builder
	b.WriteByte(byte('A' + v.op))
	switch v.op {
	case OIface, OAs, OTypeIs, OImpl, OConv, OSym:
		b.WriteString(strconv.Itoa(typeID(v.typ)))
	case OFAddr, OField:
		if v.typ != nil {
			b.WriteString(strconv.Itoa(typeID(v.typ.Underlying())))
		}
	}
	b.WriteByte('|')
	b.WriteString(v.aux)
	b.WriteByte('|')
	if v.num != 0 || v.num2 != 0 {
		fmt.Fprintf(&b, "%d,%d", v.num, v.num2)
	}
	if v.cv != nil {
		b.WriteString(v.cv.Kind().String())
		b.WriteString(v.cv.ExactString())
	}
	if v.fn != nil {
		fmt.Fprintf(&b, "%p", v.fn)
	}
	for _, a := range v.args {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if x := interned[k]; x != nil {
		return x
	}
	x := new(V)
	*x = v
	x.id = len(interned) + 1
	interned[k] = x
	return x
}

var (
	vNil   = mk(V{op: ONil})
	vTrue  = mk(V{op: OConst, cv: constant.MakeBool(true), typ: types.Typ[types.Bool]})
	vFalse = mk(V{op: OConst, cv: constant.MakeBool(false), typ: types.Typ[types.Bool]})
)

func vBool(b bool) *V {
	if b {
		return vTrue
	}
	return vFalse
}
func vInt(n int64) *V { return mk(V{op: OConst, cv: constant.MakeInt64(n)}) }
func vStr(s string) *V {
	return mk(V{op: OConst, cv: constant.MakeString(s)})
}
func vSym(name string, t types.Type) *V { return mk(V{op: OSym, aux: name, typ: t}) }

func (v *V) isConst() bool { return v.op == OConst }
func (v *V) intVal() (int64, bool) {
	if v.op == OConst && v.cv.Kind() == constant.Int {
		return constant.Int64Val(v.cv)
	}
	return 0, false
}
func (v *V) strVal() (string, bool) {
	if v.op == OConst && v.cv.Kind() == constant.String {
		return constant.StringVal(v.cv), true
	}
	return "", false
}
func (v *V) boolVal() (bool, bool) {
	if v.op == OConst && v.cv.Kind() == constant.Bool {
		return constant.BoolVal(v.cv), true
	}
	return false, false
}

func fieldName(t types.Type, i int) string {
	if t == nil {
		return fmt.Sprint(i)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (v *V) String() string { return v.str(0) }

func (v *V) str(d int) string {
	if v == nil {
		return "<none>"
	}
	if d > 12 {
		return "…"
	}
	as := func(from int) string {
		var ss []string
		for _, a := range v.args[from:] {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch v.op {
	case OConst:
		return v.cv.ExactString()
	case ONil:
		return "nil"
	case OSym:
		return v.aux
	case OLoad:
		a := v.args[0]
		if a.op == OFAddr || a.op == OIAddr {
			return a.str(d)[1:]
		}
		return "*" + a.str(d+1)
	case OFAddr:
		b := v.args[0].str(d + 1)
		b = strings.TrimPrefix(b, "&")
		return "&" + b + "." + fieldName(v.typ, int(v.num))
	case OIAddr:
		b := v.args[0].str(d + 1)
		return "&" + b + "[" + v.args[1].str(d+1) + "]"
	case OObj:
		return fmt.Sprintf("new#%d(%s)", v.num, shortType(v.typ))
	case OMap:
		return fmt.Sprintf("map#%d", v.num)
	case OGlobal:
		return "&" + v.aux
	case OStruct:
		if v.typ != nil {
			if s, ok := v.typ.Underlying().(*types.Struct); ok && s.NumFields() == len(v.args) {
				var ss []string
				for i, a := range v.args {
					ss = append(ss, s.Field(i).Name()+": "+a.str(d+1))
				}
				return shortType(v.typ) + "{" + strings.Join(ss, ", ") + "}"
			}
		}
		return "[" + as(0) + "]"
	case OField:
		return v.args[0].str(d+1) + "." + fieldName(v.typ, int(v.num))
	case OIface:
		return shortType(v.typ) + "(" + as(0) + ")"
	case OAs:
		return v.args[0].str(d+1) + ".(" + shortType(v.typ) + ")"
	case OSlice:
		return fmt.Sprintf("%s[%d:%d]", v.args[0].str(d+1), v.num, v.num2)
	case OSub:
		return fmt.Sprintf("sub(%s)", as(0))
	case OLen:
		return "len(" + as(0) + ")"
	case OBin:
		return "(" + v.args[0].str(d+1) + " " + v.aux + " " + v.args[1].str(d+1) + ")"
	case OUn:
		return v.aux + v.args[0].str(d+1)
	case OCall:
		n := v.aux
		if i := strings.LastIndexByte(n, '#'); i >= 0 && strings.HasSuffix(n, "#0") {
			n = n[:i]
		}
		return n + "(" + as(0) + ")"
	case OExtract:
		return fmt.Sprintf("%s.%d", v.args[0].str(d+1), v.num)
	case OFunc:
		return v.fn.Name()
	case OClosure:
		return "closure:" + v.fn.Name() + "(" + as(0) + ")"
	case OLookup:
		return v.args[0].str(d+1) + "[" + v.args[1].str(d+1) + "]"
	case OConcat:
		var ss []string
		for _, a := range v.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, "+")
	case OConv:
		return shortType(v.typ) + "(" + as(0) + ")"
	case OSum:
		return "sum<" + v.aux + ">(" + as(0) + ")"
	case OImpl:
		return "implements(" + as(0) + ", " + shortType(v.typ) + ")"
	case OTypeIs:
		return "is(" + as(0) + ", " + shortType(v.typ) + ")"
	}
	return "?"
}

// mkSum builds a normalised linear combination.
func mkSum(c int64, terms map[*V]int64) *V {
	var vs []*V
	for t, k := range terms {
		if k != 0 {
			vs = append(vs, t)
		}
	}
	if len(vs) == 0 {
		return vInt(c)
	}
	if len(vs) == 1 && c == 0 && terms[vs[0]] == 1 {
		return vs[0]
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].id < vs[j].id })
	aux := strconv.FormatInt(c, 10)
	for _, t := range vs {
		aux += "," + strconv.FormatInt(terms[t], 10)
	}
	return mk(V{op: OSum, aux: aux, args: vs})
}

func linear(v *V) (int64, map[*V]int64) {
	if n, ok := v.intVal(); ok {
		return n, nil
	}
	if v.op == OSum {
		ps := strings.Split(v.aux, ",")
		c, _ := strconv.ParseInt(ps[0], 10, 64)
		m := map[*V]int64{}
		for i, a := range v.args {
			k, _ := strconv.ParseInt(ps[i+1], 10, 64)
			m[a] = k
		}
		return c, m
	}
	return 0, map[*V]int64{v: 1}
}

func addInts(a, b *V, sign int64) *V {
	c, m := linear(a)
	c2, m2 := linear(b)
	r := map[*V]int64{}
	for t, k := range m {
		r[t] += k
	}
	for t, k := range m2 {
		r[t] += sign * k
	}
	return mkSum(c+sign*c2, r)
}

func mkConcat(a, b *V) *V {
	var parts []*V
	push := func(x *V) {
		if x.op == OConcat {
			for _, y := range x.args {
				parts = append(parts, y)
			}
			return
		}
		if s, ok := x.strVal(); ok {
			if s == "" {
				return
			}
		}
		parts = append(parts, x)
	}
	push(a)
	push(b)
	var out []*V
	for _, p := range parts {
		if s, ok := p.strVal(); ok && len(out) > 0 {
			if s0, ok := out[len(out)-1].strVal(); ok {
				out[len(out)-1] = vStr(s0 + s)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return vStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(V{op: OConcat, args: out})
}

func fieldOf(x *V, i int, t types.Type) *V {
	switch x.op {
	case OStruct:
		return x.args[i]
	case OLoad:
		return mk(V{op: OLoad, args: []*V{fieldAddr(x.args[0], i, t)}})
	}
	return mk(V{op: OField, num: int64(i), args: []*V{x}, typ: t})
}

func fieldAddr(p *V, i int, t types.Type) *V {
	return mk(V{op: OFAddr, num: int64(i), args: []*V{p}, typ: t})
}
func indexAddr(p, i *V) *V { return mk(V{op: OIAddr, args: []*V{p, i}}) }

func loadOf(addr *V) *V { return mk(V{op: OLoad, args: []*V{addr}}) }

func mkIface(t types.Type, v *V) *V {
	if v.op == OAs && types.Identical(v.typ, t) {
		return v.args[0]
	}
	return mk(V{op: OIface, typ: t, args: []*V{v}})
}
func mkAs(x *V, t types.Type) *V {
	if x.op == OIface && types.Identical(x.typ, t) {
		return x.args[0]
	}
	return mk(V{op: OAs, typ: t, args: []*V{x}})
}

func zero(t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return vStr("")
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsNumeric != 0:
			return vInt(0)
		}
		return vNil
	case *types.Struct:
		var fs []*V
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zero(u.Field(i).Type()))
		}
		return mk(V{op: OStruct, typ: t, args: fs, aux: "s" + strconv.Itoa(typeID(t.Underlying()))})
	case *types.Array:
		var fs []*V
		n := u.Len()
		if n > 4096 {
			return vSym("bigarray", t)
		}
		z := zero(u.Elem())
		for i := int64(0); i < n; i++ {
			fs = append(fs, z)
		}
		return mk(V{op: OStruct, typ: t, args: fs, aux: "a"})
	}
	return vNil
}

func withArg(x *V, i int, v *V) *V {
	as := append([]*V(nil), x.args...)
	as[i] = v
	n := *x
	n.args = as
	return mk(n)
}

// substTerm replaces subterms according to f (nil: keep).
func substTerm(v *V, f func(*V) *V, memo map[*V]*V) *V {
	if r, ok := memo[v]; ok {
		return r
	}
	if r := f(v); r != nil {
		memo[v] = r
		return r
	}
	if len(v.args) == 0 {
		memo[v] = v
		return v
	}
	as := make([]*V, len(v.args))
	ch := false
	for i, a := range v.args {
		as[i] = substTerm(a, f, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := v
	if ch {
		switch v.op {
		case OLoad:
			r = loadOf(as[0])
		case OField:
			r = fieldOf(as[0], int(v.num), v.typ)
		case OIface:
			r = mkIface(v.typ, as[0])
		case OAs:
			r = mkAs(as[0], v.typ)
		default:
			n := *v
			n.args = as
			r = mk(n)
		}
	}
	memo[v] = r
	return r
}

func walkTerm(v *V, f func(*V) bool, seen map[*V]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	if !f(v) {
		return
	}
	for _, a := range v.args {
		walkTerm(a, f, seen)
	}
}
