package main

// C24: what is in focus stays in focus.
//
// The variable that stands for an argument is in focus exactly if the argument has
// the focus word (rule "argument"); if the argument is not used, because the
// particle after the terms discards them, its binding is (rule "prenex").

import (
	"go/types"
)

func ruleFocus(p *Program, r *Report) {
	x := newComp(p, r)
	if x == nil {
		return
	}
	x.readers()
	for _, f := range x.l.interps {
		for _, q := range x.paths[f] {
			x.focusArg(q)
			x.focusPrenex(q)
		}
	}
	r.assumption("a binding that a call hands out for an argument, or has moved up and noted for it, is that of the argument (C14, C23)")
	r.assumption("interpretation is meant; what simplification substitutes has no focus")
	r.atLeast("argument", 15)
	r.atLeast("other", 5)
	r.atLeast("prenex", 8)
}

// focusOf tells what the path knows of whether a phrase has the focus word.
func (x *comp) focusOf(q *lpath, n *V) (focus, known bool) {
	absent, known := x.isNil(q, n, "Focus")
	return !absent, known
}

// saysFocus tells whether v is true exactly if the phrase has the focus word.
func (x *comp) saysFocus(q *lpath, v, n *V) bool {
	if f, known := x.focusOf(q, n); known && v == vBool(f) {
		return true
	}
	neg := false
	for v.op == OUn && v.aux == "!" {
		neg = !neg
		v = v.args[0]
	}
	if !isEq(v) || !neg {
		return false
	}
	for k := 0; k < 2; k++ {
		if v.args[k] == vNil && v.args[1-k].op == OLoad && isPart(v.args[1-k], n, "Focus") {
			return true
		}
	}
	return false
}

// argParam is the argument that the function reads.
func (x *comp) argParam(q *lpath) *V {
	for i, pr := range q.fn.Params {
		if pt, ok := pr.Type().(*types.Pointer); ok && ptrName(pt) == "PredicateArgument" {
			return q.params[i]
		}
	}
	return nil
}

func (x *comp) focusArg(q *lpath) {
	where := x.p.pos(q.o.Pos)
	name := fnName(q.fn)
	n := x.argParam(q)
	at := x.p.typ("logic", "Argument")
	if at == nil {
		return
	}
	stands := map[*V]bool{}
	if n != nil {
		for i := 0; i < q.fn.Signature.Results().Len(); i++ {
			if !types.Identical(q.fn.Signature.Results().At(i).Type(), at) {
				continue
			}
			v := core(q.o.Vals[i])
			if !x.isMade(q, v, "Variable") {
				continue // made by a call
			}
			stands[v] = true
			f := x.field(q, v, "Focus")
			x.r.check(f != nil && x.saysFocus(q, f, n), "argument", name, where,
				"the variable that stands for an argument is not in focus exactly if the argument is, on "+trunc(pathFacts(q.st), 600))
		}
	}
	for _, v := range x.objects(q, "Variable") {
		if stands[v] {
			continue
		}
		x.r.check(x.field(q, v, "Focus") == vFalse, "other", name+" variable", where, "a variable that does not stand for an argument of the text is in focus, on "+trunc(pathFacts(q.st), 600))
	}
	for _, b := range x.objects(q, "Binding") {
		x.r.check(x.field(q, b, "Focus") == vFalse, "other", name+" binding", where, "a binding is in focus before it is known whether its argument is used, on "+trunc(pathFacts(q.st), 600))
	}
}

// focusPrenex: where terms are read, the focus of a discarded argument goes to its
// binding.
func (x *comp) focusPrenex(q *lpath) {
	where := x.p.pos(q.o.Pos)
	name := fnName(q.fn)
	bi := fieldIndex(derefT(x.l.bindT), "Focus")
	// writes of the focus of bindings
	type wr struct{ b, v *V }
	var ws []wr
	for _, e := range q.st.events {
		if e.Kind != "store" || len(e.Args) != 2 || e.Args[0].op != OFAddr {
			continue
		}
		a := e.Args[0]
		if a.typ != nil && int(a.num) == bi && ptrName(derefT(a.typ)) == "Binding" {
			ws = append(ws, wr{core(a.args[0]), e.Args[1]})
		}
	}
	explained := map[int]bool{}
	isPrenex := false
	for i, pr := range q.fn.Params {
		if ptrName(pr.Type()) == "PrenexStatement" && x.read[q.fn][i] {
			isPrenex = true
		}
	}
	for i := range q.st.events {
		e := &q.st.events[i]
		g := x.l.rootNamed(e.Name)
		if e.Kind != "call" || g == nil || !x.l.pushes(g) {
			continue
		}
		var n *V
		for j, a := range e.Args {
			if j < len(g.Params) && ptrName(g.Params[j].Type()) == "PredicateArgument" {
				n = core(a)
			}
		}
		if n == nil {
			continue
		}
		var b *V
		for k := 0; k < g.Signature.Results().Len(); k++ {
			if types.Identical(g.Signature.Results().At(k).Type(), x.l.bindT) {
				b = mk(V{op: OExtract, num: int64(k), args: []*V{e.Res}, typ: g.Signature.Results().At(k).Type()})
			}
		}
		if b == nil {
			continue
		}
		own := func(w *V) bool { return w == b || x.noted(w, n) }
		focus, known := x.focusOf(q, n)
		keep, asked := x.keeps(q)
		var mine []wr
		for k, w := range ws {
			if own(w.b) {
				explained[k] = true
				mine = append(mine, w)
			}
		}
		switch {
		case !isPrenex || known && !focus || asked && keep:
			for _, w := range mine {
				ok := w.v == vFalse || !known && asked && !keep && x.saysFocus(q, w.v, n)
				x.r.check(ok, "prenex", name+" used", where, "the binding of an argument that is used, or is not in focus, is put in focus, on "+trunc(pathFacts(q.st), 600))
			}
			if isPrenex && len(mine) == 0 {
				x.r.ok("prenex", name+" used")
			}
		default:
			// in focus and discarded, as far as the path knows
			isNil, knownNil := x.nilness(q, b)
			target := func(w *V) bool {
				if knownNil && isNil {
					return x.noted(w, n)
				}
				return own(w)
			}
			good := false
			for _, w := range mine {
				if target(w.b) && asked && (w.v == vTrue && known || x.saysFocus(q, w.v, n)) {
					good = true
				}
			}
			// neither a binding of its own nor one that was moved up
			if knownNil && isNil && x.noneNoted(q, n) {
				good = true
			}
			x.r.check(good, "prenex", name+" discarded", where,
				"the focus of an argument that is not used does not go to its binding, on "+trunc(pathFacts(q.st), 600))
		}
	}
	for k, w := range ws {
		x.r.check(explained[k], "prenex", name+" other", where, "the focus of another binding than that of the argument is set: "+trunc(w.b.String(), 200))
	}
}

// noted tells whether w is the binding that was moved up and noted for n.
func (x *comp) noted(w, n *V) bool {
	if w.op == OExtract && w.num == 0 {
		w = w.args[0]
	}
	return w.op == OLookup && len(w.args) == 2 && core(w.args[1]) == n && x.isBindMap(w.args[0])
}

func (x *comp) isBindMap(m *V) bool {
	if m.typ == nil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	return ok && types.Identical(mt.Elem(), x.l.bindT)
}

// noneNoted tells whether the path knows that no binding was moved up for n.
func (x *comp) noneNoted(q *lpath, n *V) bool {
	for a, t := range q.st.facts {
		if isEq(a) {
			for k := 0; k < 2; k++ {
				if a.args[k] == vNil && x.noted(core(a.args[1-k]), n) && t {
					return true
				}
			}
		}
		if a.op == OExtract && a.num == 1 && !t && x.noted(a.args[0], n) {
			return true
		}
	}
	return false
}

func (x *comp) nilness(q *lpath, b *V) (isNil, known bool) {
	v, ok := q.st.facts[eqAtom(b, vNil)]
	return v, ok
}

// keeps tells what the path knows of whether the terms become arguments.
func (x *comp) keeps(q *lpath) (keep, asked bool) {
	for at, t := range q.st.facts {
		if at.op != OCall || len(at.args) != 2 {
			continue
		}
		if _, n := fieldOwner(at.args[0]); n != "BI" {
			continue
		}
		switch at.args[1] {
		case vStr("pa"):
			return t, true
		case vStr("bi"):
			return !t, true
		}
	}
	return false, false
}
