package main

// Paths of the interpretation functions, shared by the rules about package logic.
//
// Each function of the interpreter is analysed on its own. Calls of the mutually
// recursive ones are left uninterpreted; everything else is followed. After an
// uninterpreted call the state of the interpreter is what the rules of C14 allow
// it to be: the lists of moved bindings have grown, the stacks are as before.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lgen struct {
	p       *Program
	iptr    types.Type // *interpreter
	ist     types.Type // interpreter
	bindT   types.Type // *Binding
	stT     types.Type // Statement
	wordT   types.Type
	roots   map[*ssa.Function]bool
	interps []*ssa.Function // functions that take part in interpreting
	bindFn  *ssa.Function
	visitQ  map[*ssa.Function]bool // functions that walk a formula with a closure
	pred    map[*V]*V              // state value after a call -> before it
	call    map[*V]*V              // state value after a call -> the call
	hav     map[*V]map[string]*V   // call -> state values after it
	runs    map[*ssa.Function][]*lpath
	over    map[*ssa.Function]bool
	dynOf   map[string][]types.Type
}

type lpath struct {
	fn     *ssa.Function
	o      Outcome
	st     *State
	params []*V
}

// the interpreter's mutually recursive functions in their present form; others
// are found by their recursion.
var lRootNames = strings.Fields(`discourse sentence subordinateStatement statement prenexStatement predication
	distributePredication predicate predicateOperand contentOperand distributePredicatePrefix serialPredicateLeft serialPredicateRight
	poArgument preposition predicationPreposition adverb roiLeft roiRight predicateArgument relativeClause relativeOperand makePredication`)

func newLgen(p *Program, r *Report) *lgen {
	l := &lgen{p: p, roots: map[*ssa.Function]bool{}, visitQ: map[*ssa.Function]bool{}, pred: map[*V]*V{}, call: map[*V]*V{}, hav: map[*V]map[string]*V{},
		runs: map[*ssa.Function][]*lpath{}, over: map[*ssa.Function]bool{}}
	it, bt, st, wt := p.typ("logic", "interpreter"), p.typ("logic", "Binding"), p.typ("logic", "Statement"), p.typ("ast", "Word")
	if !r.check(it != nil && bt != nil && st != nil && wt != nil, "anchor", "interpreter, Binding, Statement and Word", "-", "a type is missing") {
		return nil
	}
	l.ist, l.iptr, l.bindT, l.stT, l.wordT = it, types.NewPointer(it), types.NewPointer(bt), st, wt
	var fns []*ssa.Function
	for _, f := range p.allFuncs("logic") {
		if len(f.Blocks) > 0 {
			fns = append(fns, f)
		}
	}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range fns {
		calls[f] = l.refs(f)
		if f.Parent() == nil && l.walks(f) {
			l.visitQ[f] = true
		}
		s := f.Signature
		if s.Recv() == nil && s.Params().Len() == 2 && s.Results().Len() == 1 && types.Identical(s.Params().At(0).Type(), l.bindT) &&
			types.Identical(s.Params().At(1).Type(), st) && types.Identical(s.Results().At(0).Type(), st) && f.Parent() == nil {
			l.bindFn = f
		}
	}
	byName := map[string]*ssa.Function{}
	for _, f := range fns {
		if f.Parent() == nil && l.hasInterp(f) {
			byName[f.Name()] = f
		}
	}
	for _, n := range lRootNames {
		if f := byName[n]; f != nil {
			l.roots[f] = true
		}
	}
	reach := func(from, to *ssa.Function, stop bool) bool {
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			for _, c := range calls[f] {
				if c == to {
					return true
				}
				if seen[c] || stop && l.roots[c] {
					continue
				}
				seen[c] = true
				if walk(c) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for _, f := range fns {
		if f.Parent() == nil && !l.roots[f] && l.hasInterp(f) && !l.visitQ[f] && reach(f, f, true) {
			l.roots[f] = true
		}
	}
	for f := range l.roots {
		l.interps = append(l.interps, f)
	}
	// entry points: functions that are not followed from any root
	for _, f := range fns {
		if f.Parent() != nil || l.roots[f] || !l.hasInterp(f) || l.visitQ[f] {
			continue
		}
		into := false
		for _, g := range fns {
			if g != f && l.hasInterp(g) && g.Parent() == nil {
				for _, c := range calls[g] {
					if c == f {
						into = true
					}
				}
			}
			if g.Parent() != nil {
				for _, c := range calls[g] {
					if c == f {
						into = true
					}
				}
			}
		}
		hit := false
		for _, c := range calls[f] {
			if l.roots[c] {
				hit = true
			}
		}
		if !into && hit {
			l.interps = append(l.interps, f)
		}
	}
	sort.Slice(l.interps, func(i, j int) bool { return l.interps[i].Pos() < l.interps[j].Pos() })
	nonNilHook = l.nonNil
	return l
}

// refs returns the functions that f calls or makes closures of.
func (l *lgen) refs(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MakeClosure:
				out = append(out, in.Fn.(*ssa.Function))
			case ssa.CallInstruction:
				if c := in.Common().StaticCallee(); c != nil {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

// walks tells whether f passes a closure to a method named Visit.
func (l *lgen) walks(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			name := ""
			if cc.IsInvoke() {
				name = cc.Method.Name()
			} else if s := cc.StaticCallee(); s != nil {
				name = s.Name()
			}
			if name != "Visit" {
				continue
			}
			for _, a := range cc.Args {
				if _, ok := a.(*ssa.MakeClosure); ok {
					return true
				}
			}
		}
	}
	return false
}

func (l *lgen) hasInterp(f *ssa.Function) bool {
	for _, q := range f.Params {
		if types.Identical(q.Type(), l.iptr) {
			return true
		}
	}
	return false
}

// pushes tells whether f hands a binding, and with it new names, to its caller.
func (l *lgen) pushes(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), l.bindT) {
			return true
		}
	}
	return false
}

func (l *lgen) isWord(t types.Type) bool {
	return types.Identical(t, l.wordT) || types.Identical(t, types.NewPointer(l.wordT))
}

// wordFn tells whether f depends on nothing but a word.
func (l *lgen) wordFn(f *ssa.Function) bool {
	s := f.Signature
	n := 0
	ps := f.Params
	for _, q := range ps {
		switch {
		case l.isWord(q.Type()):
			n++
		case isString(q.Type()):
		default:
			return false
		}
	}
	return n == 1 && s.Results().Len() == 1
}

// astQuery tells whether f maps syntax to plain values.
func (l *lgen) astQuery(f *ssa.Function) bool {
	if len(f.Params) == 0 {
		return false
	}
	for _, q := range f.Params {
		t := q.Type()
		if _, ok := t.Underlying().(*types.Basic); ok {
			continue
		}
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
			return false
		}
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		if _, ok := rs.At(i).Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

func (l *lgen) policy(fn *ssa.Function, args []*V, st *State) Action {
	switch {
	case l.roots[fn], fn == l.bindFn, l.visitQ[fn]:
		return ActOpaque
	case fn.Name() == "Visit" && fn.Signature.Recv() != nil:
		return ActOpaque
	case l.p.inRepo(fn) && fn.Parent() == nil && (l.wordFn(fn) || l.astQuery(fn)):
		return ActPure
	}
	return ActDefault
}

func (l *lgen) nonNil(x *V) bool {
	switch x.op {
	case OCall:
		n := callName(x)
		if x.typ == nil || strings.HasSuffix(n, ".discourse") || strings.HasSuffix(n, ".text") {
			return false
		}
		if _, ok := x.typ.Underlying().(*types.Interface); ok && strings.Contains(n, "logic.") {
			return true
		}
	case OExtract:
		if x.typ == nil {
			return false
		}
		if _, ok := x.typ.Underlying().(*types.Interface); ok && x.args[0].op == OCall && strings.Contains(callName(x.args[0]), "logic.") {
			return true
		}
	case OLoad:
		// elements of the lists of bindings, by the rules of C14
		a := x.args[0]
		if a.op == OFAddr && a.typ != nil && fieldName(derefT(a.typ), int(a.num)) == "def" {
			a = a.args[0]
		}
		if a.op == OIAddr {
			if t, ok := typeOfSlice(a.args[0]); ok && (t == "[]*logic.Binding" || t == "[]logic.varScope") {
				return a != x.args[0] || t == "[]*logic.Binding"
			}
		}
	case OSym:
		// parameters of pointer and interface type of the interpretation functions
		if strings.HasPrefix(x.aux, "p:") && x.typ != nil {
			switch x.typ.Underlying().(type) {
			case *types.Interface:
				return true
			case *types.Pointer:
				return !types.Identical(x.typ, l.bindT)
			}
		}
	}
	return false
}

func (l *lgen) fieldAddr(name string) *V {
	i := fieldIndex(l.ist, name)
	if i < 0 {
		return nil
	}
	return fieldAddr(vSym("p:interp", l.iptr), i, l.ist)
}

// field reads a field of the interpreter.
func (l *lgen) field(st *State, name string) *V {
	i := fieldIndex(l.ist, name)
	if i < 0 {
		return nil
	}
	t := l.ist.Underlying().(*types.Struct).Field(i).Type()
	v := st.load(l.fieldAddr(name), t)
	if v.op == OLoad && v.typ == nil {
		v.typ = t
	}
	return v
}

func (l *lgen) after(st *State, name string, fn *ssa.Function, args []*V, res *V) {
	// what closures that are handed out may have written
	for _, a := range args {
		walkTerm(a, func(x *V) bool {
			if x.op == OClosure {
				for i, fv := range x.fn.FreeVars {
					if i >= len(x.args) || x.args[i].op != OObj || !storesTo(x.fn, fv) {
						continue
					}
					t := st.otype[x.args[i].num]
					st.seq++
					st.heap[x.args[i].num] = vSym(fmt.Sprintf("written by %s <%d,%d>", x.fn.Name(), res.id, i), t)
				}
			}
			return true
		}, map[*V]bool{})
	}
	if fn == nil || !l.roots[fn] && !l.visitQ[fn] {
		return
	}
	st.events[len(st.events)-1].St = st.clone()
	hav := func(f string, keepLen bool) {
		a := l.fieldAddr(f)
		if a == nil {
			return
		}
		old := l.field(st, f)
		v := vSym(fmt.Sprintf("%s<%d>", f, res.id), l.ist.Underlying().(*types.Struct).Field(fieldIndex(l.ist, f)).Type())
		l.pred[v], l.call[v] = old, res
		if l.hav[res] == nil {
			l.hav[res] = map[string]*V{}
		}
		l.hav[res][f] = v
		if keepLen {
			if n, ok := st.shape[old]; ok {
				st.shape[v] = n
			}
			if old.op == OSlice {
				st.shape[v] = old.num2 - old.num
			}
		}
		st.store(a, v)
	}
	hav("n", false)
	if l.visitQ[fn] {
		return
	}
	hav("theScope", false)
	hav("hiScope", true)
	if l.pushes(fn) {
		hav("varScope", false)
	}
}

func storesTo(f *ssa.Function, v *ssa.FreeVar) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				a := s.Addr
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if a == v {
					return true
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == g {
					for i, x := range m.Bindings {
						if x == v && i < len(g.FreeVars) && storesTo(g, g.FreeVars[i]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (l *lgen) eng() *Eng {
	e := newEng(l.p)
	e.Policy = l.policy
	e.After = l.after
	e.LenCap = func(x *V) int64 {
		if t, ok := typeOfSlice(x); ok && strings.Contains(t, "Binding") || strings.Contains(t, "varScope") {
			return 2
		}
		return 3
	}
	return e
}

func typeOfSlice(x *V) (string, bool) {
	if x.typ == nil {
		return "", false
	}
	return shortType(x.typ), true
}

// paths runs one function with symbolic parameters.
func (l *lgen) paths(fn *ssa.Function, r *Report) []*lpath {
	if ps, ok := l.runs[fn]; ok {
		return ps
	}
	e := l.eng()
	st := newState()
	var args []*V
	for _, q := range fn.Params {
		if types.Identical(q.Type(), l.iptr) {
			args = append(args, vSym("p:interp", l.iptr))
			continue
		}
		args = append(args, vSym("p:"+q.Name(), q.Type()))
	}
	outs := e.Run(fn, st, args...)
	r.analysed["functions"] += len(e.funcs)
	r.analysed["paths"] += len(outs)
	if e.over {
		r.bad("undecided", fnName(fn), l.p.pos(fn.Pos()), "too many paths")
	}
	var ps []*lpath
	for _, o := range outs {
		if infeasibleWords(o.St) {
			continue
		}
		ps = append(ps, &lpath{fn: fn, o: o, st: o.St, params: args})
	}
	l.runs[fn] = ps
	return ps
}

// infeasibleWords tells whether a path takes one word for two different ones.
func infeasibleWords(st *State) bool {
	is := map[*V]string{}
	for a, b := range st.facts {
		if !b || a.op != OCall || len(a.args) != 2 {
			continue
		}
		if s, ok := a.args[1].strVal(); ok {
			if t, ok := is[a.args[0]]; ok && t != s {
				return true
			}
			is[a.args[0]] = s
		}
	}
	return false
}
