package main

// Path-sensitive abstract interpretation of SSA functions over access paths.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Action int

const (
	ActDefault Action = iota
	ActInline
	ActOpaque
	ActPure
)

type OutKind int

const (
	Ret OutKind = iota
	Panicked
	Cut
)

func (k OutKind) String() string { return [...]string{"return", "panic", "cut"}[k] }

type Outcome struct {
	Kind OutKind
	Vals []*V
	St   *State
	Pos  token.Pos
}

type Eng struct {
	p        *Program
	Policy   func(fn *ssa.Function, args []*V, st *State) Action
	MayNil   func(st *State, v *V) bool
	DynSet   func(st *State, v *V) []types.Type // possible dynamic types of an interface value
	After    func(st *State, name string, fn *ssa.Function, args []*V, res *V)
	Model    func(e *Eng, st *State, name string, fn *ssa.Function, args []*V) ([]mOut, bool)
	MayPanic func(name string, fn *ssa.Function) bool // opaque calls that are also followed when they panic
	MaxLen   int64
	OnInvoke func(st *State, name string, args []*V) ([]mOut, bool)
	LenCap   func(x *V) int64 // bound on the length of an opaque slice, if not MaxLen
	MaxIter  int
	MaxSteps int
	steps    int
	stack    []*ssa.Function
	funcs    map[*ssa.Function]bool // functions analysed
	over     bool
	inlined  map[string]bool
	invokes  bool
	Stat     *statics // values of package variables, for constant propagation
}

type mOut struct {
	st   *State
	v    *V
	kind OutKind
}

func newEng(p *Program) *Eng {
	return &Eng{p: p, MaxLen: 3, MaxIter: 24, MaxSteps: 3000000, funcs: map[*ssa.Function]bool{}}
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*V
	visits map[int]int
	defers []deferred
}
type deferred struct {
	call *ssa.CallCommon
	fn   *V
	args []*V
	pos  token.Pos
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]*V, len(f.env)+4), visits: make(map[int]int, len(f.visits))}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return n
}

// Run analyses fn with the given arguments.
func (e *Eng) Run(fn *ssa.Function, st *State, args ...*V) []Outcome {
	e.steps = 0
	e.over = false
	e.stack = nil
	return e.exec(fn, nil, args, st)
}

func (e *Eng) exec(fn *ssa.Function, bindings []*V, args []*V, st *State) []Outcome {
	e.funcs[fn] = true
	fr := &frame{fn: fn, env: map[ssa.Value]*V{}, visits: map[int]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = vSym("arg_"+p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(bindings) {
			fr.env[f] = bindings[i]
		}
	}
	e.stack = append(e.stack, fn)
	outs := e.block(fr, st, fn.Blocks[0], nil)
	e.stack = e.stack[:len(e.stack)-1]
	return outs
}

func (e *Eng) block(fr *frame, st *State, b, prev *ssa.BasicBlock) []Outcome {
	fr.visits[b.Index]++
	if fr.visits[b.Index] > e.MaxIter {
		return []Outcome{{Kind: Cut, St: st}}
	}
	// phis
	if prev != nil {
		var vals []*V
		var phis []*ssa.Phi
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					vals = append(vals, e.val(fr, st, ph.Edges[i]))
					phis = append(phis, ph)
					break
				}
			}
		}
		for i, ph := range phis {
			fr.env[ph] = vals[i]
		}
	}
	return e.instrs(fr, st, b, 0)
}

func (e *Eng) instrs(fr *frame, st *State, b *ssa.BasicBlock, idx int) []Outcome {
	for ; idx < len(b.Instrs); idx++ {
		e.steps++
		if e.steps > e.MaxSteps {
			e.over = true
			return []Outcome{{Kind: Cut, St: st}}
		}
		switch in := b.Instrs[idx].(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			alts := e.branch(st, e.val(fr, st, in.Cond))
			var outs []Outcome
			for i, a := range alts {
				f2 := fr
				if i < len(alts)-1 {
					f2 = fr.clone()
				}
				succ := b.Succs[1]
				if a.b {
					succ = b.Succs[0]
				}
				outs = append(outs, e.block(f2, a.st, succ, b)...)
			}
			return outs
		case *ssa.Jump:
			return e.block(fr, st, b.Succs[0], b)
		case *ssa.Return:
			var vs []*V
			for _, r := range in.Results {
				vs = append(vs, e.val(fr, st, r))
			}
			return []Outcome{{Kind: Ret, Vals: vs, St: st, Pos: in.Pos()}}
		case *ssa.Panic:
			if e.MayPanic != nil && len(fr.defers) > 0 {
				return e.unwind(fr.clone(), st, e.val(fr, st, in.X), in.Pos())
			}
			return []Outcome{{Kind: Panicked, Vals: []*V{e.val(fr, st, in.X)}, St: st, Pos: in.Pos()}}
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos()}
			if !in.Call.IsInvoke() {
				d.fn = e.val(fr, st, in.Call.Value)
			} else {
				d.fn = e.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, e.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
			continue
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			outs := e.callWith(st, d.call, d.fn, d.args, d.pos)
			var res []Outcome
			for i, o := range outs {
				if o.kind != Ret {
					res = append(res, Outcome{Kind: o.kind, Vals: []*V{o.v}, St: o.st, Pos: d.pos})
					continue
				}
				f2 := fr
				if i < len(outs)-1 {
					f2 = fr.clone()
				}
				res = append(res, e.instrs(f2, o.st, b, idx)...)
			}
			return res
		case *ssa.Store:
			addr := e.val(fr, st, in.Addr)
			e.deref(st, addr, in.Pos())
			v := e.val(fr, st, in.Val)
			fresh := rootObj(addr) != nil
			st.store(addr, v)
			if !fresh {
				st.events = append(st.events, Event{Kind: "store", Args: []*V{addr, v}, Pos: in.Pos()})
			}
			continue
		case *ssa.MapUpdate:
			m, k, v := e.val(fr, st, in.Map), e.val(fr, st, in.Key), e.val(fr, st, in.Value)
			st.maps = append(st.maps, mapEnt{m, k, v})
			st.events = append(st.events, Event{Kind: "mapset", Args: []*V{m, k, v}, Pos: in.Pos()})
			continue
		case *ssa.Go:
			st.events = append(st.events, Event{Kind: "go", Name: in.Call.String(), Pos: in.Pos()})
			continue
		case *ssa.Send:
			st.events = append(st.events, Event{Kind: "send", Pos: in.Pos()})
			continue
		case ssa.Value:
			outs := e.eval(fr, st, in)
			if len(outs) == 1 && outs[0].kind == Ret {
				st = outs[0].st
				fr.env[in] = outs[0].v
				continue
			}
			var res []Outcome
			for i, o := range outs {
				if o.kind != Ret {
					if o.kind == Panicked && e.MayPanic != nil && len(fr.defers) > 0 {
						res = append(res, e.unwind(fr.clone(), o.st, o.v, in.Pos())...)
						continue
					}
					res = append(res, Outcome{Kind: o.kind, Vals: []*V{o.v}, St: o.st, Pos: in.Pos()})
					continue
				}
				f2 := fr
				if i < len(outs)-1 {
					f2 = fr.clone()
				}
				f2.env[in] = o.v
				res = append(res, e.instrs(f2, o.st, b, idx+1)...)
			}
			return res
		default:
			panic(fmt.Sprintf("unhandled instruction %T in %s", in, fr.fn))
		}
	}
	return nil
}

// unwind runs the deferred calls of a function that panics.
func (e *Eng) unwind(fr *frame, st *State, v *V, pos token.Pos) []Outcome {
	if len(fr.defers) == 0 {
		return []Outcome{{Kind: Panicked, Vals: []*V{v}, St: st, Pos: pos}}
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	st.panicking, st.recDepth = v, len(e.stack)+1
	var res []Outcome
	outs := e.callWith(st, d.call, d.fn, d.args, d.pos)
	for i, o := range outs {
		f2 := fr
		if i < len(outs)-1 {
			f2 = fr.clone()
		}
		if o.kind == Panicked {
			res = append(res, e.unwind(f2, o.st, o.v, d.pos)...)
			continue
		}
		if o.kind != Ret {
			res = append(res, Outcome{Kind: o.kind, Vals: []*V{o.v}, St: o.st, Pos: d.pos})
			continue
		}
		if o.st.panicking != nil {
			res = append(res, e.unwind(f2, o.st, v, pos)...)
			continue
		}
		// recovered: the remaining deferred calls, then the named results
		res = append(res, e.finishRecovered(f2, o.st)...)
	}
	return res
}

func (e *Eng) finishRecovered(fr *frame, st *State) []Outcome {
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		var res []Outcome
		for _, o := range e.callWith(st, d.call, d.fn, d.args, d.pos) {
			if o.kind != Ret {
				res = append(res, Outcome{Kind: o.kind, Vals: []*V{o.v}, St: o.st, Pos: d.pos})
				continue
			}
			res = append(res, e.finishRecovered(fr.clone(), o.st)...)
		}
		return res
	}
	if b := fr.fn.Recover; b != nil {
		return e.block(fr, st, b, nil)
	}
	var vs []*V
	rs := fr.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, zero(rs.At(i).Type()))
	}
	return []Outcome{{Kind: Ret, Vals: vs, St: st, Pos: fr.fn.Pos()}}
}

func (e *Eng) val(fr *frame, st *State, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zero(v.Type())
		}
		if v.Value.Kind() == constant.Float || v.Value.Kind() == constant.Complex {
			return mk(V{op: OConst, cv: v.Value})
		}
		return mk(V{op: OConst, cv: v.Value, typ: v.Type()})
	case *ssa.Function:
		return mk(V{op: OFunc, fn: v})
	case *ssa.Global:
		return mk(V{op: OGlobal, aux: v.Pkg.Pkg.Name() + "." + v.Name(), typ: v.Type()})
	case *ssa.Builtin:
		return vSym("builtin."+v.Name(), nil)
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	return vSym("undef."+v.Name(), v.Type())
}

func one(st *State, v *V) []mOut { return []mOut{{st: st, v: v}} }

func (e *Eng) deref(st *State, p *V, pos token.Pos) {
	base := p
	for base.op == OFAddr {
		base = base.args[0]
	}
	if base.op == OIAddr || base.op == OObj || base.op == OGlobal {
		return
	}
	if base.op == ONil {
		st.events = append(st.events, Event{Kind: "hazard", Name: "nil dereference", Args: []*V{base}, Pos: pos})
		return
	}
	if e.MayNil != nil {
		if r, ok := st.knownNil(base); ok {
			if r {
				st.events = append(st.events, Event{Kind: "hazard", Name: "nil dereference", Args: []*V{base}, Pos: pos})
			}
			return
		}
		if e.MayNil(st, base) {
			st.events = append(st.events, Event{Kind: "hazard", Name: "possible nil dereference", Args: []*V{base}, Pos: pos})
			st.facts[eqAtom(base, vNil)] = false
		}
	}
}

func (st *State) knownNil(x *V) (isnil, known bool) {
	switch x.op {
	case OCall:
		switch callName(x) {
		case "fmt.Errorf", "errors.New":
			return false, true
		}
	case ONil:
		return true, true
	case OObj, OFAddr, OIAddr, OGlobal, OFunc, OClosure, OIface, OMap:
		return false, true
	case OSlice:
		if x.args[0].op == OObj {
			return false, true
		}
		if x.num == 0 && x.num2 == 0 {
			return st.knownNil(x.args[0])
		}
		return false, true
	}
	if _, ok := st.dyn[x]; ok {
		return false, true
	}
	if n, ok := st.shape[x]; ok && n > 0 {
		return false, true
	}
	if b, ok := st.facts[eqAtom(x, vNil)]; ok {
		return b, true
	}
	if nonNilHook != nil && nonNilHook(x) {
		return false, true
	}
	return false, false
}

// nonNilHook says which access paths are never nil, by an invariant of the data structure.
var nonNilHook func(*V) bool

func eqAtom(a, b *V) *V {
	if a.id > b.id {
		a, b = b, a
	}
	return mk(V{op: OBin, aux: "==", args: []*V{a, b}})
}

type alt struct {
	st *State
	b  bool
}

// branch decides a condition, or forks the state on it.
func (e *Eng) branch(st *State, c *V) []alt {
	if b, ok := c.boolVal(); ok {
		return []alt{{st, b}}
	}
	if c.op == OUn && c.aux == "!" {
		as := e.branch(st, c.args[0])
		for i := range as {
			as[i].b = !as[i].b
		}
		return as
	}
	if c.op == OBin {
		switch c.aux {
		case "==":
			if isBoolTerm(c.args[0]) && isBoolTerm(c.args[1]) {
				var out []alt
				for _, a := range e.branch(st, c.args[0]) {
					for _, b := range e.branch(a.st, c.args[1]) {
						out = append(out, alt{b.st, a.b == b.b})
					}
				}
				return out
			}
		}
	}
	if b, ok := e.decide(st, c); ok {
		return []alt{{st, b}}
	}
	t, f := st.clone(), st
	e.assume(t, c, true)
	e.assume(f, c, false)
	var out []alt
	if e.feasible(t, c, true) {
		out = append(out, alt{t, true})
	}
	if e.feasible(f, c, false) {
		out = append(out, alt{f, false})
	}
	return out
}

func isBoolTerm(v *V) bool {
	if _, ok := v.boolVal(); ok {
		return true
	}
	switch v.op {
	case OBin:
		return v.aux == "==" || v.aux == "<"
	case OUn:
		return v.aux == "!"
	case OTypeIs, OImpl:
		return true
	}
	if v.typ != nil {
		if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return true
		}
	}
	return false
}

func (e *Eng) assume(st *State, c *V, b bool) {
	st.facts[c] = b
	switch c.op {
	case OTypeIs:
		if b {
			st.dyn[c.args[0]] = c.typ
			st.facts[eqAtom(c.args[0], vNil)] = false
		} else {
			st.excl[c.args[0]] = append(st.excl[c.args[0]], c.typ)
		}
	case OBin:
		if c.aux == "==" && b {
			x, y := c.args[0], c.args[1]
			if x.isConst() {
				x, y = y, x
			}
			if y.isConst() {
				st.eqc[x] = y
			}
		}
	}
}

// feasible prunes paths on which a value of known possible types has none left.
func (e *Eng) feasible(st *State, c *V, b bool) bool {
	if c.op != OTypeIs && c.op != OImpl {
		return true
	}
	x := c.args[0]
	return len(e.possible(st, x)) != 0 || e.dynset(st, x) == nil
}

func (e *Eng) dynset(st *State, x *V) []types.Type {
	if e.DynSet == nil {
		return nil
	}
	return e.DynSet(st, x)
}

// possible returns the dynamic types that x can still have (nil entry: nil interface).
func (e *Eng) possible(st *State, x *V) []types.Type {
	if t, ok := st.dyn[x]; ok {
		return []types.Type{t}
	}
	var out []types.Type
next:
	for _, t := range e.dynset(st, x) {
		for _, ex := range st.excl[x] {
			if types.Identical(ex, t) {
				continue next
			}
		}
		for a, v := range st.facts {
			if a.op == OImpl && a.args[0] == x {
				if it, ok := a.typ.Underlying().(*types.Interface); ok && types.Implements(t, it) != v {
					continue next
				}
			}
		}
		out = append(out, t)
	}
	return out
}

func (e *Eng) decide(st *State, c *V) (bool, bool) {
	if b, ok := st.facts[c]; ok {
		return b, true
	}
	switch c.op {
	case OBin:
		x, y := c.args[0], c.args[1]
		switch c.aux {
		case "==":
			if x.op == ONil || y.op == ONil {
				if x.op == ONil {
					x = y
				}
				if b, ok := st.knownNil(x); ok {
					return b, true
				}
				return false, false
			}
			return st.decideEq(x, y)
		case "<":
			if a, ok := e.intConst(st, x); ok {
				if b, ok := e.intConst(st, y); ok {
					return a < b, true
				}
			}
			// difference constant?
			d := addInts(x, y, -1)
			if n, ok := d.intVal(); ok {
				return n < 0, true
			}
		}
	case OTypeIs:
		x := c.args[0]
		if t, ok := st.dyn[x]; ok {
			return types.Identical(t, c.typ), true
		}
		for _, ex := range st.excl[x] {
			if types.Identical(ex, c.typ) {
				return false, true
			}
		}
		if b, ok := st.knownNil(x); ok && b {
			return false, true
		}
		if ds := e.dynset(st, x); ds != nil {
			ps := e.possible(st, x)
			has := false
			for _, p := range ps {
				if types.Identical(p, c.typ) {
					has = true
				}
			}
			if !has {
				return false, true
			}
			if len(ps) == 1 {
				return true, true
			}
		}
	case OImpl:
		x := c.args[0]
		it := c.typ.Underlying().(*types.Interface)
		if t, ok := st.dyn[x]; ok {
			return types.Implements(t, it), true
		}
		if b, ok := st.knownNil(x); ok && b {
			return false, true
		}
		if ds := e.dynset(st, x); ds != nil {
			ps := e.possible(st, x)
			y, n := 0, 0
			for _, p := range ps {
				if types.Implements(p, it) {
					y++
				} else {
					n++
				}
			}
			if n == 0 {
				return true, true
			}
			if y == 0 {
				return false, true
			}
		}
	}
	return false, false
}

func (st *State) decideEq(x, y *V) (bool, bool) {
	if x == y {
		return true, true
	}
	if c, ok := st.eqc[x]; ok {
		x = c
	}
	if c, ok := st.eqc[y]; ok {
		y = c
	}
	if x.isConst() && y.isConst() {
		if x.cv.Kind() != y.cv.Kind() {
			return false, false
		}
		return constant.Compare(x.cv, token.EQL, y.cv), true
	}
	if x == y {
		return true, true
	}
	isAddr := func(v *V) bool { return v.op == OObj }
	if isAddr(x) && isAddr(y) {
		return false, true
	}
	if (isAddr(x) && !mayBeFresh(y)) || (isAddr(y) && !mayBeFresh(x)) {
		return false, true
	}
	if x.op == OIface && y.op == OIface {
		if !types.Identical(x.typ, y.typ) {
			return false, true
		}
	}
	d := addInts(x, y, -1)
	if n, ok := d.intVal(); ok {
		return n == 0, true
	}
	return false, false
}

func mayBeFresh(v *V) bool {
	switch v.op {
	case OCall, OExtract, OLookup, OAs, OField, OSym:
		return true
	case OLoad:
		return mayBeFresh(v.args[0])
	case OFAddr, OIAddr:
		return mayBeFresh(v.args[0])
	}
	return false
}

func (e *Eng) intConst(st *State, v *V) (int64, bool) {
	if n, ok := v.intVal(); ok {
		return n, true
	}
	if c, ok := st.eqc[v]; ok {
		return c.intVal()
	}
	return 0, false
}

// lenOf returns the length of a slice, forking on the shape of an opaque one.
func (e *Eng) lenOf(st *State, x *V, t types.Type) []mOut {
	switch x.op {
	case ONil:
		return one(st, vInt(0))
	case OMap:
		if ks, ok := e.localKeys(st, x); ok {
			return one(st, vInt(int64(len(ks))))
		}
	case OSlice:
		return one(st, vInt(x.num2-x.num))
	case OConst:
		if s, ok := x.strVal(); ok {
			return one(st, vInt(int64(len(s))))
		}
	case OConv:
		if s, ok := x.args[0].strVal(); ok && x.typ != nil {
			if isRuneSlice(x.typ) {
				return one(st, vInt(int64(len([]rune(s)))))
			}
			return one(st, vInt(int64(len(s))))
		}
	}
	if e.Stat != nil {
		if l := e.Stat.resolve(x); l.isList() {
			return one(st, vInt(int64(len(l.l))))
		}
	}
	if _, ok := t.Underlying().(*types.Slice); ok && x.op != OSub {
		if n, ok := st.shape[x]; ok {
			return one(st, vInt(n))
		}
		if b, ok := st.knownNil(x); ok && b {
			return one(st, vInt(0))
		}
		var outs []mOut
		mx := e.MaxLen
		if e.LenCap != nil {
			mx = e.LenCap(x)
		}
		for n := int64(0); n <= mx; n++ {
			s2 := st.clone()
			s2.shape[x] = n
			outs = append(outs, mOut{st: s2, v: vInt(n)})
		}
		return outs
	}
	return one(st, mk(V{op: OLen, args: []*V{x}}))
}

func (e *Eng) eval(fr *frame, st *State, in ssa.Value) []mOut {
	v := func(x ssa.Value) *V { return e.val(fr, st, x) }
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		return one(st, st.newObj(t, zero(t), in.Pos()))
	case *ssa.FieldAddr:
		p := v(in.X)
		e.deref(st, p, in.Pos())
		return one(st, fieldAddr(p, in.Field, in.X.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.Field:
		return one(st, fieldOf(v(in.X), in.Field, in.X.Type()))
	case *ssa.IndexAddr:
		x, i := v(in.X), v(in.Index)
		if c, ok := st.eqc[i]; ok {
			i = c
		}
		if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok && x.op == OObj {
				_ = a
				return one(st, indexAddr(x, i))
			}
			return one(st, indexAddr(x, i))
		}
		// slice
		return e.sliceIndex(st, x, i, in.X.Type(), in.Pos())
	case *ssa.Index:
		x, i := v(in.X), v(in.Index)
		if n, ok := i.intVal(); ok {
			if x.op == OStruct && int(n) < len(x.args) && n >= 0 {
				return one(st, x.args[n])
			}
			if s, ok := x.strVal(); ok && n >= 0 && int(n) < len(s) {
				return one(st, vInt(int64(s[n])))
			}
		}
		return one(st, mk(V{op: OLookup, args: []*V{x, i}}))
	case *ssa.Lookup:
		x, k := v(in.X), v(in.Index)
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			if s, ok := x.strVal(); ok {
				if n, ok := k.intVal(); ok && n >= 0 && int(n) < len(s) {
					return one(st, vInt(int64(s[n])))
				}
			}
			return one(st, mk(V{op: OLookup, args: []*V{x, k}}))
		}
		return e.mapLookup(st, x, k, in)
	case *ssa.UnOp:
		x := v(in.X)
		switch in.Op {
		case token.MUL:
			e.deref(st, x, in.Pos())
			t := in.Type()
			r := st.load(x, t)
			if r.op == OLoad && r.typ == nil {
				r.typ = t
			}
			if e.Stat != nil && r.op == OLoad {
				r = e.Stat.constant(r, t)
			}
			return one(st, r)
		case token.NOT:
			return one(st, notV(x))
		case token.SUB:
			return one(st, addInts(vInt(0), x, -1))
		}
		return one(st, mk(V{op: OUn, aux: in.Op.String(), args: []*V{x}}))
	case *ssa.BinOp:
		return one(st, e.binop(st, in.Op, v(in.X), v(in.Y), in.X.Type()))
	case *ssa.ChangeType:
		return one(st, v(in.X))
	case *ssa.ChangeInterface:
		return one(st, v(in.X))
	case *ssa.Convert:
		if e.Stat != nil {
			if c := e.convList(st, v(in.X), in.X.Type(), in.Type(), in.Pos()); c != nil {
				return one(st, c)
			}
		}
		return one(st, e.convert(v(in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		return one(st, vSym("conv."+in.Name(), in.Type()))
	case *ssa.MakeInterface:
		return one(st, mkIface(in.X.Type(), v(in.X)))
	case *ssa.MakeClosure:
		var bs []*V
		for _, b := range in.Bindings {
			bs = append(bs, v(b))
		}
		return one(st, mk(V{op: OClosure, fn: in.Fn.(*ssa.Function), args: bs}))
	case *ssa.MakeMap:
		st.nobj++
		st.otype[st.nobj] = in.Type()
		return one(st, mk(V{op: OMap, num: st.nobj}))
	case *ssa.MakeChan:
		return one(st, vSym("chan", in.Type()))
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		if n, ok := e.intConst(st, v(in.Len)); ok && n >= 0 && n < 1000 {
			o := st.newObj(types.NewArray(el, n), zero(types.NewArray(el, n)), in.Pos())
			return one(st, mk(V{op: OSlice, num: 0, num2: n, args: []*V{o}}))
		}
		st.seq++
		return one(st, mk(V{op: OCall, aux: fmt.Sprintf("make#%d", st.seq), args: []*V{v(in.Len)}, typ: in.Type()}))
	case *ssa.Slice:
		return e.slice(fr, st, in)
	case *ssa.TypeAssert:
		return e.typeAssert(st, v(in.X), in)
	case *ssa.Extract:
		t := v(in.Tuple)
		if t.op == OStruct {
			return one(st, t.args[in.Index])
		}
		return one(st, mk(V{op: OExtract, num: int64(in.Index), args: []*V{t}, typ: in.Type()}))
	case *ssa.Range:
		if e.Stat != nil {
			return one(st, mk(V{op: OUn, aux: "range", args: []*V{v(in.X), st.newObj(types.Typ[types.Int], vInt(0), in.Pos())}}))
		}
		return one(st, mk(V{op: OUn, aux: "range", args: []*V{v(in.X)}}))
	case *ssa.Next:
		if e.Stat != nil {
			if r := e.nextConst(st, v(in.Iter), in); r != nil {
				return one(st, r)
			}
		}
		st.seq++
		return one(st, mk(V{op: OCall, aux: fmt.Sprintf("next#%d", st.seq), args: []*V{v(in.Iter)}}))
	case *ssa.Select:
		return one(st, vSym("select", in.Type()))
	case *ssa.Call:
		if in.Call.IsInvoke() {
			return e.invoke(st, &in.Call, v(in.Call.Value), e.vals(fr, st, in.Call.Args), in.Pos())
		}
		return e.callWith(st, &in.Call, v(in.Call.Value), e.vals(fr, st, in.Call.Args), in.Pos())
	}
	panic(fmt.Sprintf("unhandled value %T in %s", in, fr.fn))
}

func (e *Eng) vals(fr *frame, st *State, xs []ssa.Value) []*V {
	var r []*V
	for _, x := range xs {
		r = append(r, e.val(fr, st, x))
	}
	return r
}

func (e *Eng) sliceIndex(st *State, x, i *V, t types.Type, pos token.Pos) []mOut {
	n, ok := i.intVal()
	switch {
	case x.op == ONil:
		st.events = append(st.events, Event{Kind: "hazard", Name: "index of empty slice", Args: []*V{x, i}, Pos: pos})
		return []mOut{{st: st, v: vSym("index of nil", nil), kind: Panicked}}
	case x.op == OSlice:
		if ok && (n < 0 || n >= x.num2-x.num) {
			st.events = append(st.events, Event{Kind: "hazard", Name: "index out of range", Args: []*V{x, i}, Pos: pos})
			return []mOut{{st: st, v: vSym("index out of range", nil), kind: Panicked}}
		}
		if ok {
			return one(st, indexAddr(x.args[0], vInt(n+x.num)))
		}
	case ok:
		l, known := st.shape[x]
		if e.Stat != nil && !known {
			if t := e.Stat.resolve(x); t.isList() {
				l, known = int64(len(t.l)), true
			}
		}
		if x.op == OConv {
			if os := e.lenOf(st, x, t); len(os) == 1 {
				l, known = os[0].v.intVal()
			}
		}
		if known {
			if n < 0 || n >= l {
				st.events = append(st.events, Event{Kind: "hazard", Name: "index out of range", Args: []*V{x, i}, Pos: pos})
				return []mOut{{st: st, v: vSym("index out of range", nil), kind: Panicked}}
			}
		} else if x.op != OSub {
			// materialise the shape
			var outs []mOut
			for _, o := range e.lenOf(st, x, t) {
				outs = append(outs, e.sliceIndex(o.st, x, i, t, pos)...)
			}
			return outs
		}
	}
	return one(st, indexAddr(x, i))
}

func notV(x *V) *V {
	if b, ok := x.boolVal(); ok {
		return vBool(!b)
	}
	if x.op == OUn && x.aux == "!" {
		return x.args[0]
	}
	return mk(V{op: OUn, aux: "!", args: []*V{x}})
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) binop(st *State, op token.Token, x, y *V, t types.Type) *V {
	if c, ok := st.eqc[x]; ok {
		x = c
	}
	if c, ok := st.eqc[y]; ok {
		y = c
	}
	switch op {
	case token.EQL:
		c := eqAtom(x, y)
		if b, ok := e.decide(st, c); ok {
			return vBool(b)
		}
		if b, ok := y.boolVal(); ok {
			if b {
				return x
			}
			return notV(x)
		}
		if b, ok := x.boolVal(); ok {
			if b {
				return y
			}
			return notV(y)
		}
		return c
	case token.NEQ:
		return notV(e.binop(st, token.EQL, x, y, t))
	case token.LSS:
		if x.isConst() && y.isConst() {
			return vBool(constant.Compare(x.cv, token.LSS, y.cv))
		}
		c := mk(V{op: OBin, aux: "<", args: []*V{x, y}})
		if b, ok := e.decide(st, c); ok {
			return vBool(b)
		}
		return c
	case token.GTR:
		return e.binop(st, token.LSS, y, x, t)
	case token.LEQ:
		return notV(e.binop(st, token.LSS, y, x, t))
	case token.GEQ:
		return notV(e.binop(st, token.LSS, x, y, t))
	}
	if isString(t) && op == token.ADD {
		return mkConcat(x, y)
	}
	if isInteger(t) {
		switch op {
		case token.ADD:
			return addInts(x, y, 1)
		case token.SUB:
			return addInts(x, y, -1)
		}
	}
	if x.isConst() && y.isConst() {
		func() {
			defer func() { recover() }()
			if op == token.SHL || op == token.SHR {
				return
			}
			o := op
			if op == token.QUO && isInteger(t) {
				o = token.QUO_ASSIGN
			}
			c := constant.BinaryOp(x.cv, o, y.cv)
			x = mk(V{op: OConst, cv: c})
			y = nil
		}()
		if y == nil {
			return x
		}
	}
	return mk(V{op: OBin, aux: op.String(), args: []*V{x, y}})
}

func (e *Eng) convert(x *V, from, to types.Type) *V {
	if x.isConst() {
		if isString(to) && isInteger(from) {
			if n, ok := x.intVal(); ok {
				return vStr(string(rune(n)))
			}
		}
		if (isString(to) && isString(from)) || (isInteger(to) && isInteger(from)) {
			return x
		}
	}
	if isString(to) && isString(from) {
		return x
	}
	if isInteger(to) && isInteger(from) {
		return x
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	// conversions between string and []rune / []byte that undo one another
	if x.op == OConv && types.Identical(x.args[0].typeOr(nil), to) && x.args[0].typ != nil {
		return x.args[0]
	}
	return mk(V{op: OConv, typ: to, args: []*V{x}})
}

func (v *V) typeOr(d types.Type) types.Type {
	if v.typ == nil {
		return types.Typ[types.Invalid]
	}
	return v.typ
}

func (e *Eng) slice(fr *frame, st *State, in *ssa.Slice) []mOut {
	x := e.val(fr, st, in.X)
	var lo, hi, mx *V
	if in.Low != nil {
		lo = e.val(fr, st, in.Low)
	}
	if in.High != nil {
		hi = e.val(fr, st, in.High)
	}
	if in.Max != nil {
		mx = e.val(fr, st, in.Max)
	}
	_ = mx
	l := int64(0)
	if lo != nil {
		n, ok := e.intConst(st, lo)
		if !ok {
			return e.subOpaque(st, in, x, lo, hi)
		}
		l = n
	}
	if isString(in.X.Type()) {
		if s, ok := x.strVal(); ok {
			h := int64(len(s))
			if hi != nil {
				n, ok := e.intConst(st, hi)
				if !ok {
					return e.subOpaque(st, in, x, lo, hi)
				}
				h = n
			}
			if l < 0 || h < l || h > int64(len(s)) {
				return []mOut{{st: st, v: vSym("slice bounds", nil), kind: Panicked}}
			}
			return one(st, vStr(s[l:h]))
		}
		if x.op == OConcat {
			// a cut within the leading literal
			if s, ok := x.args[0].strVal(); ok && l >= 0 && l <= int64(len(s)) {
				if hi == nil {
					v := vStr(s[l:])
					for _, a := range x.args[1:] {
						v = mkConcat(v, a)
					}
					return one(st, v)
				}
				if n, ok := e.intConst(st, hi); ok && l <= n && n <= int64(len(s)) {
					return one(st, vStr(s[l:n]))
				}
			}
		}
		return e.subOpaque(st, in, x, lo, hi)
	}
	if p, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		h := n
		if hi != nil {
			k, ok := e.intConst(st, hi)
			if !ok {
				return e.subOpaque(st, in, x, lo, hi)
			}
			h = k
		}
		return one(st, mk(V{op: OSlice, num: l, num2: h, args: []*V{x}}))
	}
	// slice of a slice
	var outs []mOut
	for _, o := range e.lenOf(st, x, in.X.Type()) {
		n, ok := o.v.intVal()
		if !ok {
			outs = append(outs, e.subOpaque(o.st, in, x, lo, hi)...)
			continue
		}
		h := n
		if hi != nil {
			k, ok := e.intConst(o.st, hi)
			if !ok {
				outs = append(outs, e.subOpaque(o.st, in, x, lo, hi)...)
				continue
			}
			h = k
		}
		if l < 0 || l > h || (h > n && x.op != OSlice) || h < 0 {
			o.st.events = append(o.st.events, Event{Kind: "hazard", Name: "slice bounds out of range", Args: []*V{x}, Pos: in.Pos()})
			outs = append(outs, mOut{st: o.st, v: vSym("slice bounds out of range", nil), kind: Panicked})
			continue
		}
		if x.op == ONil {
			outs = append(outs, mOut{st: o.st, v: vNil})
		} else if x.op == OSlice {
			outs = append(outs, mOut{st: o.st, v: mk(V{op: OSlice, num: x.num + l, num2: x.num + h, args: x.args})})
		} else if l == 0 && h == n {
			outs = append(outs, mOut{st: o.st, v: x})
		} else {
			outs = append(outs, mOut{st: o.st, v: mk(V{op: OSlice, num: l, num2: h, args: []*V{x}})})
		}
	}
	return outs
}

func (e *Eng) subOpaque(st *State, in *ssa.Slice, x, lo, hi *V) []mOut {
	if lo == nil {
		lo = vInt(0)
	}
	if hi == nil {
		hi = mk(V{op: OLen, args: []*V{x}})
	}
	return one(st, mk(V{op: OSub, args: []*V{x, lo, hi}, typ: in.Type()}))
}

func (e *Eng) typeAssert(st *State, x *V, in *ssa.TypeAssert) []mOut {
	T := in.AssertedType
	_, isIface := T.Underlying().(*types.Interface)
	yes := func(s *State) mOut {
		var v *V
		if isIface {
			v = x
		} else {
			v = mkAs(x, T)
			if v.typ == nil {
				v.typ = T
			}
		}
		if in.CommaOk {
			return mOut{st: s, v: mk(V{op: OStruct, aux: "t", args: []*V{v, vTrue}})}
		}
		return mOut{st: s, v: v}
	}
	no := func(s *State) mOut {
		if in.CommaOk {
			return mOut{st: s, v: mk(V{op: OStruct, aux: "t", args: []*V{zero(T), vFalse}})}
		}
		s.events = append(s.events, Event{Kind: "hazard", Name: "failing type assertion to " + shortType(T), Args: []*V{x}, Pos: in.Pos()})
		return mOut{st: s, v: vSym("type assertion to "+shortType(T)+" fails", nil), kind: Panicked}
	}
	var c *V
	switch {
	case x.op == ONil:
		return []mOut{no(st)}
	case x.op == OIface:
		ok := types.Identical(x.typ, T)
		if isIface {
			ok = types.Implements(x.typ, T.Underlying().(*types.Interface))
		}
		if ok {
			return []mOut{yes(st)}
		}
		return []mOut{no(st)}
	case isIface:
		c = mk(V{op: OImpl, typ: T, args: []*V{x}})
	default:
		c = mk(V{op: OTypeIs, typ: T, args: []*V{x}})
	}
	var outs []mOut
	if isIface {
		// an interface known to be non-nil whose static type has all the methods
		if b, ok := st.knownNil(x); ok && !b && x.typ != nil {
			if _, isI := x.typ.Underlying().(*types.Interface); isI && types.Implements(x.typ, T.Underlying().(*types.Interface)) {
				return []mOut{yes(st)}
			}
		}
	}
	for _, a := range e.branch(st, c) {
		if a.b {
			outs = append(outs, yes(a.st))
		} else {
			outs = append(outs, no(a.st))
		}
	}
	return outs
}

// vDeleted marks the removal of a key from a map.
var vDeleted = vSym("deleted", nil)

// localKeys are the keys of a map made on this path, sorted, if all of them are known.
func (e *Eng) localKeys(st *State, m *V) ([]*V, bool) {
	if m.op != OMap || e.Stat == nil {
		return nil, false
	}
	in := map[*V]bool{}
	for _, en := range st.maps {
		if en.m != m {
			continue
		}
		if !en.k.isConst() {
			return nil, false
		}
		in[en.k] = en.v != vDeleted
	}
	var ks []*V
	for k, is := range in {
		if is {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].cv.ExactString() < ks[j].cv.ExactString() })
	return ks, true
}

func (e *Eng) mapLookup(st *State, m, k *V, in *ssa.Lookup) []mOut {
	mt := in.X.Type().Underlying().(*types.Map)
	tup := func(v, ok *V) *V {
		if in.CommaOk {
			return mk(V{op: OStruct, aux: "t", args: []*V{v, ok}})
		}
		return v
	}
	for i := len(st.maps) - 1; i >= 0; i-- {
		en := st.maps[i]
		if en.m != m {
			continue
		}
		if en.k == k && en.v == vDeleted {
			return one(st, tup(zero(mt.Elem()), vFalse))
		}
		if en.k == k {
			return one(st, tup(en.v, vTrue))
		}
		if b, ok := st.decideEq(en.k, k); ok && !b {
			continue
		}
		// may or may not be the same key: opaque
		st.seq++
		c := mk(V{op: OCall, aux: fmt.Sprintf("lookup#%d", st.seq), args: []*V{m, k}, typ: mt.Elem()})
		return one(st, tup(c, mk(V{op: OExtract, num: 1, args: []*V{c}, typ: types.Typ[types.Bool]})))
	}
	if m.op == OMap || m.op == ONil {
		return one(st, tup(zero(mt.Elem()), vFalse))
	}
	if e.Stat != nil {
		if r, ok, known := e.Stat.lookup(m, k, mt.Elem()); known {
			return one(st, tup(r, vBool(ok)))
		}
	}
	l := mk(V{op: OLookup, args: []*V{m, k}, typ: mt.Elem()})
	ok := mk(V{op: OExtract, num: 1, args: []*V{l}, typ: types.Typ[types.Bool]})
	return one(st, tup(l, ok))
}

// ---- calls

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.Replace(s, "github.com/eaburns/toaq/", "", -1)
	return s
}

func (e *Eng) onStack(fn *ssa.Function) bool {
	for _, f := range e.stack {
		if f == fn {
			return true
		}
	}
	return false
}

func (e *Eng) invoke(st *State, c *ssa.CallCommon, recv *V, args []*V, pos token.Pos) []mOut {
	if recv.op == ONil {
		st.events = append(st.events, Event{Kind: "hazard", Name: "method call on nil", Args: []*V{recv}, Pos: pos})
		return []mOut{{st: st, v: vSym("nil method call", nil), kind: Panicked}}
	}
	var T types.Type
	var val *V
	if recv.op == OIface {
		T, val = recv.typ, recv.args[0]
	} else if t, ok := st.dyn[recv]; ok {
		T, val = t, mkAs(recv, t)
	} else if ds := e.dynset(st, recv); ds != nil {
		if ps := e.possible(st, recv); len(ps) == 1 {
			T, val = ps[0], mkAs(recv, ps[0])
		}
	}
	if T != nil {
		fn := e.p.prog.LookupMethod(T, c.Method.Pkg(), c.Method.Name())
		if fn != nil {
			return e.callFn(st, fn, nil, append([]*V{val}, args...), pos)
		}
	}
	if e.MayNil != nil {
		if _, ok := st.knownNil(recv); !ok && e.MayNil(st, recv) {
			st.events = append(st.events, Event{Kind: "hazard", Name: "method call on possibly nil interface", Args: []*V{recv}, Pos: pos})
			st.facts[eqAtom(recv, vNil)] = false
		}
	}
	if e.OnInvoke != nil {
		if outs, ok := e.OnInvoke(st, "."+c.Method.Name(), append([]*V{recv}, args...)); ok {
			return outs
		}
	}
	return e.opaque(st, nil, "."+c.Method.Name(), append([]*V{recv}, args...), c.Signature().Results(), pos, e.pureInvoke(c))
}

func (e *Eng) pureInvoke(c *ssa.CallCommon) bool { return e.invokes }

func (e *Eng) callWith(st *State, c *ssa.CallCommon, f *V, args []*V, pos token.Pos) []mOut {
	if c.IsInvoke() {
		return e.invoke(st, c, f, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(st, b, c, args, pos)
	}
	switch f.op {
	case OFunc:
		return e.callFn(st, f.fn, nil, args, pos)
	case OClosure:
		return e.callFn(st, f.fn, f.args, args, pos)
	}
	return e.opaque(st, nil, "dyn", append([]*V{f}, args...), c.Signature().Results(), pos, false)
}

func (e *Eng) callFn(st *State, fn *ssa.Function, bind []*V, args []*V, pos token.Pos) []mOut {
	name := fnName(fn)
	if e.Model != nil {
		if outs, ok := e.Model(e, st, name, fn, args); ok {
			return outs
		}
	}
	if e.Stat != nil {
		if r := e.constCall(st, name, args); r != nil {
			return one(st, r)
		}
	}
	if outs, ok := e.stdModel(st, name, fn, args, pos); ok {
		return outs
	}
	act := ActDefault
	if e.Policy != nil {
		act = e.Policy(fn, args, st)
	}
	if act == ActDefault {
		if len(fn.Blocks) > 0 && e.p.inRepo(fn) && !e.onStack(fn) && len(e.stack) < 40 {
			act = ActInline
		} else {
			act = ActOpaque
			if !e.p.inRepo(fn) && isPureExternal(name) {
				act = ActPure
			}
		}
	}
	if act == ActInline && len(fn.Blocks) == 0 {
		act = ActOpaque
	}
	switch act {
	case ActInline:
		var outs []mOut
		res := e.exec(fn, bind, args, st)
		for _, o := range res {
			switch o.Kind {
			case Ret:
				var v *V
				switch len(o.Vals) {
				case 0:
					v = vNil
				case 1:
					v = o.Vals[0]
				default:
					v = mk(V{op: OStruct, aux: "t", args: o.Vals})
				}
				outs = append(outs, mOut{st: o.St, v: v})
			default:
				var v *V = vNil
				if len(o.Vals) > 0 {
					v = o.Vals[0]
				}
				outs = append(outs, mOut{st: o.St, v: v, kind: o.Kind})
			}
		}
		return outs
	}
	if fn.Signature.Recv() == nil && len(bind) > 0 {
		args = append(append([]*V(nil), bind...), args...)
	}
	if e.MayPanic != nil && e.MayPanic(name, fn) {
		s2 := st.clone()
		s2.seq++
		v := vSym("panic in "+name+"#"+strconv.Itoa(s2.seq), types.NewInterfaceType(nil, nil))
		s2.events = append(s2.events, Event{Kind: "callpanic", Name: name, Args: args, Res: v, Pos: pos})
		outs := []mOut{{st: s2, v: v, kind: Panicked}}
		return append(e.opaque(st, fn, name, args, fn.Signature.Results(), pos, act == ActPure), outs...)
	}
	return e.opaque(st, fn, name, args, fn.Signature.Results(), pos, act == ActPure)
}

func (e *Eng) opaque(st *State, fn *ssa.Function, name string, args []*V, res *types.Tuple, pos token.Pos, pure bool) []mOut {
	seq := 0
	if !pure {
		st.seq++
		seq = st.seq
		for _, a := range args {
			if e.Stat != nil && isBuilder(st, a) {
				st.store(core(a), vSym("written by "+name+"#"+strconv.Itoa(seq), types.Typ[types.String]))
			}
		}
	}
	var t types.Type
	if res != nil && res.Len() == 1 {
		t = res.At(0).Type()
	}
	c := mk(V{op: OCall, aux: name + "#" + strconv.Itoa(seq), args: args, typ: t, fn: nil})
	var r *V = c
	if res != nil && res.Len() > 1 {
		var vs []*V
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, mk(V{op: OExtract, num: int64(i), args: []*V{c}, typ: res.At(i).Type()}))
		}
		r = mk(V{op: OStruct, aux: "t", args: vs})
	}
	if !pure {
		st.events = append(st.events, Event{Kind: "call", Name: name, Args: args, Res: c, Pos: pos})
		if e.After != nil {
			e.After(st, name, fn, args, c)
		}
	}
	return one(st, r)
}

func callName(v *V) string {
	if v.op != OCall {
		return ""
	}
	if i := strings.LastIndexByte(v.aux, '#'); i >= 0 {
		return v.aux[:i]
	}
	return v.aux
}

func (e *Eng) builtin(st *State, b *ssa.Builtin, c *ssa.CallCommon, args []*V, pos token.Pos) []mOut {
	switch b.Name() {
	case "len":
		return e.lenOf(st, args[0], c.Args[0].Type())
	case "cap":
		return one(st, mk(V{op: OCall, aux: "cap#0", args: args}))
	case "append":
		return e.appendSlice(st, args[0], args[1], c, pos)
	case "copy":
		return e.copySlice(st, args[0], args[1], c, pos)
	case "delete":
		st.seq++
		st.maps = append(st.maps, mapEnt{args[0], args[1], vDeleted})
		st.events = append(st.events, Event{Kind: "mapdelete", Args: args, Pos: pos})
		return one(st, vNil)
	case "recover":
		if st.panicking != nil && len(e.stack) == st.recDepth {
			v := st.panicking
			st.panicking = nil
			st.facts[eqAtom(v, vNil)] = false
			st.events = append(st.events, Event{Kind: "recover", Args: []*V{v}, Pos: pos})
			return one(st, v)
		}
		st.events = append(st.events, Event{Kind: "recover", Pos: pos})
		return one(st, vNil)
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "min", "max":
		return one(st, mk(V{op: OCall, aux: b.Name() + "#0", args: args}))
	}
	st.events = append(st.events, Event{Kind: "builtin", Name: b.Name(), Args: args, Pos: pos})
	return one(st, vSym("builtin."+b.Name(), nil))
}

// elems returns the elements of a slice, forking on its shape.
type elemsOut struct {
	st *State
	es []*V
	ok bool
}

func (e *Eng) elems(st *State, x *V, t types.Type) []elemsOut {
	var outs []elemsOut
	sl, isSl := t.Underlying().(*types.Slice)
	if !isSl {
		return []elemsOut{{st, nil, false}}
	}
	for _, o := range e.lenOf(st, x, t) {
		n, ok := o.v.intVal()
		if !ok {
			outs = append(outs, elemsOut{o.st, nil, false})
			continue
		}
		var es []*V
		for i := int64(0); i < n; i++ {
			base, j := x, i
			if x.op == OSlice {
				base, j = x.args[0], i+x.num
			}
			ev := o.st.load(indexAddr(base, vInt(j)), sl.Elem())
			if ev.op == OLoad && ev.typ == nil {
				ev.typ = sl.Elem()
			}
			es = append(es, ev)
		}
		outs = append(outs, elemsOut{o.st, es, true})
	}
	return outs
}

func (e *Eng) appendSlice(st *State, a, b *V, c *ssa.CallCommon, pos token.Pos) []mOut {
	t := c.Args[0].Type()
	el := t.Underlying().(*types.Slice).Elem()
	if isString(c.Args[1].Type()) {
		return one(st, mk(V{op: OCall, aux: "append#0", args: []*V{a, b}}))
	}
	if b0, ok := el.Underlying().(*types.Basic); ok && b0.Kind() == types.Byte && (a.op == OExtract || a.op == OCall) {
		// bytes that are not known one by one
		return one(st, mk(V{op: OCall, aux: "append#0", args: []*V{a, b}}))
	}
	if a.op != ONil && rootObj(a) == nil {
		st.events = append(st.events, Event{Kind: "append", Args: []*V{a, b}, Pos: pos})
	}
	var outs []mOut
	for _, oa := range e.elems(st, a, t) {
		for _, ob := range e.elems(oa.st, b, c.Args[1].Type()) {
			if !oa.ok || !ob.ok {
				ob.st.seq++
				outs = append(outs, mOut{st: ob.st, v: mk(V{op: OCall, aux: fmt.Sprintf("append#%d", ob.st.seq), args: []*V{a, b}, typ: t})})
				continue
			}
			if len(ob.es) == 0 {
				outs = append(outs, mOut{st: ob.st, v: a})
				continue
			}
			if a.op == OSlice && a.args[0].op == OObj {
				// within the capacity of a fresh array: written in place
				if arr, ok := ob.st.heap[a.args[0].num]; ok && arr.op == OStruct && int(a.num2)+len(ob.es) <= len(arr.args) {
					for i, x := range ob.es {
						ob.st.store(indexAddr(a.args[0], vInt(a.num2+int64(i))), x)
					}
					outs = append(outs, mOut{st: ob.st, v: mk(V{op: OSlice, num: a.num, num2: a.num2 + int64(len(ob.es)), args: a.args})})
					continue
				}
			}
			es := append(append([]*V(nil), oa.es...), ob.es...)
			at := types.NewArray(el, int64(len(es)))
			o := ob.st.newObj(at, mk(V{op: OStruct, aux: "a", args: es, typ: at}), pos)
			outs = append(outs, mOut{st: ob.st, v: mk(V{op: OSlice, num: 0, num2: int64(len(es)), args: []*V{o}})})
		}
	}
	return outs
}

func (e *Eng) copySlice(st *State, dst, src *V, c *ssa.CallCommon, pos token.Pos) []mOut {
	var outs []mOut
	for _, od := range e.elems(st, dst, c.Args[0].Type()) {
		for _, os := range e.elems(od.st, src, c.Args[1].Type()) {
			if !od.ok || !os.ok {
				os.st.events = append(os.st.events, Event{Kind: "copy", Args: []*V{dst, src}, Pos: pos})
				outs = append(outs, mOut{st: os.st, v: vSym("copied", nil)})
				continue
			}
			n := len(od.es)
			if len(os.es) < n {
				n = len(os.es)
			}
			for i := 0; i < n; i++ {
				base, j := dst, int64(i)
				if dst.op == OSlice {
					base, j = dst.args[0], j+dst.num
				}
				a := indexAddr(base, vInt(j))
				if rootObj(a) == nil {
					os.st.events = append(os.st.events, Event{Kind: "store", Args: []*V{a, os.es[i]}, Pos: pos})
				}
				os.st.store(a, os.es[i])
			}
			outs = append(outs, mOut{st: os.st, v: vInt(int64(n))})
		}
	}
	return outs
}
