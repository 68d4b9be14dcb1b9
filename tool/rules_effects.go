package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mentions says whether a type is built from a named type of the package
// (through pointers, slices, maps, and arrays).
func mentions(t types.Type, pkg string) bool {
	switch t := t.(type) {
	case *types.Pointer:
		return mentions(t.Elem(), pkg)
	case *types.Slice:
		return mentions(t.Elem(), pkg)
	case *types.Array:
		return mentions(t.Elem(), pkg)
	case *types.Map:
		return mentions(t.Elem(), pkg) || mentions(t.Key(), pkg)
	case *types.Named:
		if t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == pkg {
			n := t.Obj().Name()
			return n != "_Parser" && n != "Parser" && n != "_key"
		}
	}
	return false
}

const astPath = modPath + "/ast"
const logicPath = modPath + "/logic"

// ruleFuncs: the generated functions of the grammar rules.
func isRuleFunc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	s := fn.Signature
	return s.Recv() == nil && s.Params().Len() > 0 && isNamed(s.Params().At(0).Type(), "_Parser")
}

func isNamed(t types.Type, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name
}

func isAction(fn *ssa.Function) bool {
	s := fn.Signature
	return fn.Parent() == nil && isRuleFunc(fn) && s.Params().Len() == 2 && s.Results().Len() == 2 && !isNamed(s.Results().At(1).Type(), "Node") && strings.HasSuffix(fn.Name(), "Action")
}

// sccFuncs: functions of a package that can, through calls, run again before they end.
func (p *Program) recursive(pkg string) map[*ssa.Function]bool {
	fs := p.allFuncs(pkg)
	a := newPTA(p)
	for _, f := range fs {
		a.follow(f)
	}
	a.solve()
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range a.work {
		s := map[*ssa.Function]bool{}
		succ[f] = s
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, ok := c.Common().Value.(*ssa.Builtin); ok {
						continue
					}
					for _, t := range a.targets(c.Common()) {
						s[t] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok {
							s[g] = true
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok {
							s[mc.Fn.(*ssa.Function)] = true
						}
					}
				}
			}
		}
	}
	reach := func(f *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var st []*ssa.Function
		for g := range succ[f] {
			st = append(st, g)
		}
		for len(st) > 0 {
			g := st[len(st)-1]
			st = st[:len(st)-1]
			if seen[g] {
				continue
			}
			seen[g] = true
			for h := range succ[g] {
				st = append(st, h)
			}
		}
		return seen
	}
	// only what takes part in interpreting again in another branch
	it := p.typ(pkg, "interpreter")
	var roots []map[*ssa.Function]bool
	isRoot := map[*ssa.Function]int{}
	for _, f := range fs {
		for _, q := range f.Params {
			if it != nil && types.Identical(derefT(q.Type()), it) && isRoot[f] == 0 {
				roots = append(roots, reach(f))
				isRoot[f] = len(roots)
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, f := range fs {
		seen := reach(f)
		if !seen[f] {
			continue
		}
		in := it == nil
		for g := range seen {
			if k := isRoot[g]; k > 0 && roots[k-1][f] {
				in = true
			}
		}
		if in {
			out[f] = true
		}
	}
	return out
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func ruleEffects(p *Program, r *Report) {
	r.assumption("library functions other than sort, slices, maps, reflect and encoding/json do not change what they are handed")
	r.assumption("parts of a locally made copy of a node are not told apart from the parts of the node it was copied from, other than by assignment of new memory")
	a := newPTA(p)
	slices := &pObj{id: -1, world: true}
	// syntax trees hold no memory of types of package logic
	a.inWorld = func(o *pObj, t types.Type) bool { return o != a.W || !mentions(t, logicPath) }
	ascii := map[*ssa.Function]bool{}
	for _, f := range p.allFuncs("ast") {
		if !isRuleFunc(f) && asciiOnly(p, f) {
			ascii[f] = true
		}
	}
	a.opaque = func(f *ssa.Function) bool { return isRuleFunc(f) && f.Parent() == nil || ascii[f] }
	entry := func(f *ssa.Function) {
		a.follow(f)
		n := 0
		for _, q := range f.Params {
			if pointerful(q.Type()) && (mentions(q.Type(), astPath) || len(f.Params) == 1) {
				a.addW(q)
				n++
			}
		}
		if n > 0 {
			r.analysed["entry functions"]++
		}
	}
	called := map[*ssa.Function]bool{}
	for _, f := range p.allFuncs("ast") {
		if isRuleFunc(f) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil && p.inRepo(g) && !isRuleFunc(g) {
							called[g] = true
						}
						if c.Common().IsInvoke() {
							for _, g := range a.targets(c.Common()) {
								called[g] = true
							}
						}
					}
				}
			}
		}
	}
	ifaces := map[string]bool{}
	sc := p.pkgs["ast"].Types.Scope()
	for _, n := range sc.Names() {
		if it, ok := sc.Lookup(n).Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				ifaces[it.Method(i).Name()] = true
			}
		}
	}
	for _, f := range p.allFuncs("ast") {
		if f.Name() == "init" || isNamed0(f.Signature.Recv(), "Parser") {
			continue
		}
		if isRuleFunc(f) {
			if f.Parent() != nil {
				entry(f) // a literal of a grammar action: its labels are shared
			}
			continue
		}
		if f.Parent() != nil {
			continue
		}
		if f.Name() == "ToASCII" && f.Signature.Recv() == nil {
			continue // converts a tree in place: that is what it is for
		}
		if ascii[f] {
			continue // a visitor of ToASCII alone
		}
		if token.IsExported(f.Name()) || called[f] || f.Signature.Recv() != nil && ifaces[f.Name()] {
			entry(f)
		}
	}
	if f := p.fn("logic", "Interpret"); f != nil {
		entry(f)
	} else {
		r.bad("anchor", "logic.Interpret", "-", "function not found")
	}
	rec := p.recursive("logic")
	for f := range rec {
		for _, q := range f.Params {
			if !pointerful(q.Type()) {
				continue
			}
			if mentions(q.Type(), astPath) {
				a.addW(q)
			} else if isSliceType(q.Type()) {
				a.add(q, pSet{pLoc{slices, ""}: true})
			}
		}
	}
	a.solve()
	judge := func(a *pta, w pWrite) {
		name := w.fn.String()
		for l := range w.locs {
			if l.o == a.W && ownResult(p, a, w) {
				r.ok("own-result", name+": "+w.what)
				return
			}
			bad := l.o == a.W || l.o == slices && !strings.HasPrefix(w.what, "an append")
			if bad {
				what := "a tree that it was given"
				if l.o == slices {
					what = "a list that it was given and that other branches use"
				}
				r.bad("effect", name+": "+w.what+" of "+w.typ.String(), p.pos(w.in.Pos()), fmt.Sprintf("%s in %s may change %s", w.what, name, what))
				return
			}
		}
		r.ok("effect", name+": "+w.what)
	}
	for _, w := range a.writes() {
		judge(a, w)
	}
	r.analysed["functions"] += len(a.work)
	// the generated actions, each on its own
	for _, f := range p.allFuncs("ast") {
		if !isAction(f) {
			continue
		}
		b := newPTA(p)
		b.opaque = func(g *ssa.Function) bool { return g != f }
		b.follow(f)
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				if t, ok := in.(*ssa.TypeAssert); ok {
					b.addW(t)
				}
			}
		}
		b.solve()
		for _, w := range b.writes() {
			judge(b, w)
		}
		r.analysed["grammar actions"]++
	}
	r.atLeast("effect", 300)
	r.assumption("ast.ToASCII is meant to convert a tree in place and is not one of the reading operations")
}

// asciiOnly tells whether f is a method of a type that occurs in ToASCII, and
// elsewhere only in methods of the type.
func asciiOnly(p *Program, f *ssa.Function) bool {
	rv := f.Signature.Recv()
	if rv == nil {
		return false
	}
	n := namedOf(rv.Type())
	if n == nil || token.IsExported(n.Obj().Name()) {
		return false
	}
	found := false
	for _, pk := range sortedKeys(p.ssa) {
		for _, g := range p.allFuncs(pk) {
			uses := false
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok && namedOf(v.Type()) == n {
						uses = true
					}
					for _, o := range in.Operands(nil) {
						if *o != nil && namedOf((*o).Type()) == n {
							uses = true
						}
					}
				}
			}
			if !uses {
				continue
			}
			switch q := outermost(g); {
			case q.Signature.Recv() != nil && namedOf(q.Signature.Recv().Type()) == n:
			case q.Name() == "ToASCII" && q.Signature.Recv() == nil:
				found = true
			default:
				return false
			}
		}
	}
	return found
}

func outermost(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// ownResult: the store completes the result of another rule that is
// used by this rule alone and that always makes a new node.
func ownResult(p *Program, a *pta, w pWrite) bool {
	st, ok := w.in.(*ssa.Store)
	if !ok || w.fn.Parent() == nil || !isAction(w.fn.Parent()) {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	q, ok := fa.X.(*ssa.Parameter)
	if !ok {
		return false
	}
	n := 0
	for _, f := range p.allFuncs("ast") {
		if !isAction(f) {
			continue
		}
		rt, ok := f.Signature.Results().At(1).Type().(*types.Pointer)
		if !ok || !types.Identical(rt.Elem(), q.Type()) || !callsFn(w.fn.Parent(), f) {
			continue
		}
		n++
		for _, g := range p.allFuncs("ast") {
			if isAction(g) && g != w.fn.Parent() && callsFn(g, f) {
				return false
			}
		}
		for _, lit := range f.AnonFuncs {
			for _, rs := range a.ret[lit] {
				for l := range rs {
					if l.o.world || l.o.fn != lit {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

func callsFn(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op != nil && *op == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

func isNamed0(v *types.Var, name string) bool { return v != nil && isNamed(v.Type(), name) }

var _ = sort.Strings
