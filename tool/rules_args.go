package main

// C22: arguments of predicates.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type argRules struct {
	l      *lgen
	r      *Report
	argT   types.Type // Argument
	termsT types.Type // ast.Terms
	elemT  types.Type // an argument with its place
	ai, pi int        // the fields of elemT
}

func ruleArguments(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	a := &argRules{l: l, r: r, argT: p.typ("logic", "Argument"), termsT: p.typ("ast", "Terms")}
	if !r.check(a.argT != nil && a.termsT != nil, "anchor", "Argument and Terms", "-", "a type is missing") {
		return
	}
	// the type of an argument with its place
	for _, f := range l.interps {
		for _, q := range f.Params {
			if s, ok := q.Type().Underlying().(*types.Slice); ok {
				if ai, pi, ok := a.placed(s.Elem()); ok && a.elemT == nil {
					a.elemT, a.ai, a.pi = s.Elem(), ai, pi
				}
			}
		}
	}
	if !r.check(a.elemT != nil, "anchor", "arguments with places", "-", "no interpretation function takes arguments with their places") {
		return
	}
	n := 0
	for _, f := range l.interps {
		consumes := false
		for _, q := range l.paths(f, r) {
			if q.o.Kind == Cut {
				r.bad("undecided", fnName(f), p.pos(f.Pos()), "a path is not followed to its end")
			}
			if q.o.Kind != Ret {
				continue
			}
			b := l.binder(q, r, nil)
			a.passed(b)
			a.built(b)
			a.second(b)
			if a.orders(b) {
				consumes = true
			}
		}
		if consumes {
			n++
			a.places(f)
		}
	}
	r.check(n > 0, "place", "arguments of predications", "-", "no function makes predications of the arguments that it is given")
	r.assumption("argument lists are followed up to length 4 with every combination of places 0 to 4")
	r.assumption("calls among the mutually recursive interpretation functions are uninterpreted and do with their arguments what this rule shows for each of them")
	r.atLeast("place", 700)
	r.atLeast("passed", 20)
	r.atLeast("terms", 10)
}

// placed tells whether t is a struct of an argument and a place.
func (a *argRules) placed(t types.Type) (ai, pi int, ok bool) {
	s, isS := t.Underlying().(*types.Struct)
	if !isS {
		return 0, 0, false
	}
	ai, pi = -1, -1
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), a.argT) {
			ai = i
		}
		if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			pi = i
		}
	}
	return ai, pi, ai >= 0 && pi >= 0
}

func (a *argRules) isArgs(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), a.elemT)
}

func (a *argRules) isPlain(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), a.argT)
}

func paramOf(f *ssa.Function, is func(t types.Type) bool) int {
	for i, q := range f.Params {
		if is(q.Type()) {
			return i
		}
	}
	return -1
}

func (a *argRules) isTerms(t types.Type) bool { return types.Identical(t, a.termsT) }

// parts returns the argument and the place of an element.
func (a *argRules) parts(b *binder, st *State, e *V) (arg, pos *V) {
	if e.op == OStruct {
		return e.args[a.ai], e.args[a.pi]
	}
	if e.op == OLoad {
		return st.load(fieldAddr(e.args[0], a.ai, a.elemT), nil), st.load(fieldAddr(e.args[0], a.pi, a.elemT), nil)
	}
	return nil, nil
}

// passed: what the calls of a path get as arguments and terms.
func (a *argRules) passed(b *binder) {
	q, r, l := b.q, a.r, a.l
	f := q.fn
	gi := paramOf(f, a.isArgs)
	ti := paramOf(f, a.isTerms)
	vi := paramOf(f, a.isPlain)
	var given, terms *V
	if gi >= 0 {
		given = q.params[gi]
	}
	if ti >= 0 {
		terms = q.params[ti]
	}
	for _, i := range b.calls {
		e := &q.st.events[i]
		g := l.rootNamed(e.Name)
		if g == nil {
			continue
		}
		ca, ct := paramOf(g, a.isArgs), paramOf(g, a.isTerms)
		cv := paramOf(g, a.isPlain)
		what := b.name + " to " + g.Name()
		if ct >= 0 && ct < len(e.Args) {
			a.termsTo(b, e, g, e.Args[ct], terms, what)
		}
		if cv >= 0 && vi >= 0 && cv < len(e.Args) {
			r.check(b.same(e.St, e.Args[cv], q.params[vi]), "passed", what, b.where, "a list of arguments is not passed on as it is")
		}
		if ca < 0 || ca >= len(e.Args) {
			continue
		}
		list := e.Args[ca]
		switch {
		case given != nil && terms != nil && ct >= 0:
			es, ok := listElems(e.St, e.Args[ct])
			n, known := q.st.shape[terms]
			if !ok || !known {
				continue // reported for the terms
			}
			if int64(len(es)) != n-1 {
				r.check(b.same(e.St, list, given), "passed", what+" operand", b.where, "the arguments before a connected term are not passed on as they are: "+e.St.resolve(list).String())
				continue
			}
			a.grown(b, i, list, given, terms, what)
		case given != nil && terms != nil:
			n, known := q.st.shape[terms]
			if !r.check(known && n == 0, "terms", what+" left", b.where, "the statement is read before all of its terms") {
				continue
			}
			keep, asked := false, false
			for at, t := range q.st.facts {
				if at.op != OCall || len(at.args) != 2 {
					continue
				}
				if _, n := fieldOwner(at.args[0]); n != "BI" {
					continue
				}
				switch at.args[1] {
				case vStr("pa"):
					keep, asked = t, true
				case vStr("bi"): // the only other one
					keep, asked = !t, true
				}
			}
			if !r.check(asked, "passed", what+" particle", b.where, "the arguments do not depend on the particle that ends the terms") {
				continue
			}
			if keep {
				r.check(b.same(e.St, list, given), "passed", what+" pa", b.where, "the terms before pa do not all become arguments: "+e.St.resolve(list).String())
			} else {
				es, ok := listElems(e.St, list)
				r.check(ok && len(es) == 0, "passed", what+" bi", b.where, "terms before the particle that discards them become arguments: "+e.St.resolve(list).String())
			}
		case given != nil:
			r.check(b.same(e.St, list, given), "passed", what, b.where, "the arguments are not passed on as they are: "+e.St.resolve(list).String())
		case vi >= 0:
			es, ok := listElems(e.St, list)
			want, ok2 := listElems(e.St, q.params[vi])
			good := ok && ok2 && len(es) == len(want)
			for k := 0; good && k < len(es); k++ {
				arg, pos := a.parts(b, e.St, es[k])
				if arg != want[k] || pos != vInt(0) {
					good = false
				}
			}
			r.check(good, "passed", what+" each", b.where, "not every argument is passed on at its place: "+e.St.resolve(list).String())
		case a.fromTail(q, list):
			r.ok("passed", what+" tail")
		default:
			es, ok := listElems(e.St, list)
			good := ok
			for _, x := range es {
				if _, pos := a.parts(b, e.St, x); pos != vInt(0) {
					good = false
				}
			}
			if s := paramOf(g, func(t types.Type) bool { return types.Identical(t, l.p.typ("ast", "Statement")) }); s >= 0 {
				good = good && len(es) == 0
			}
			r.check(good, "passed", what+" new", b.where, "a statement begins with arguments: "+e.St.resolve(list).String())
		}
	}
	// a suspended rest of a statement
	if given != nil && terms != nil {
		for id, t := range q.st.otype {
			s, ok := t.Underlying().(*types.Struct)
			c := q.st.heap[id]
			if !ok || c == nil || c.op != OStruct {
				continue
			}
			var x, y, z *V
			for i := 0; i < s.NumFields(); i++ {
				switch {
				case a.isArgs(s.Field(i).Type()):
					x = c.args[i]
				case a.isTerms(s.Field(i).Type()):
					y = c.args[i]
				case shortType(s.Field(i).Type()) == "*ast.PrenexStatement":
					z = c.args[i]
				}
			}
			if x == nil || y == nil {
				continue
			}
			what := b.name + " suspended"
			r.check(b.same(q.st, x, given), "passed", what, b.where, "the arguments of a suspended statement are not those before it")
			r.check(a.isRest(b, q.st, y, terms), "terms", what, b.where, "the terms of a suspended statement are not those that are left")
			if z != nil {
				k := paramOf(q.fn, func(t types.Type) bool { return shortType(t) == "*ast.PrenexStatement" })
				r.check(k >= 0 && z == q.params[k], "terms", what+" statement", b.where, "a suspended statement is another one")
			}
		}
	}
}

func (a *argRules) isRest(b *binder, st *State, v, terms *V) bool {
	es, ok := listElems(st, v)
	n, known := st.shape[terms]
	if !ok || !known || int64(len(es)) != n-1 {
		return false
	}
	for i, e := range es {
		if e != st.load(indexAddr(terms, vInt(int64(i+1))), nil) {
			return false
		}
	}
	return true
}

// fromTail tells whether a value was read as a whole from what the function was given.
func (a *argRules) fromTail(q *lpath, v *V) bool {
	if v.op != OLoad || v.args[0].op != OFAddr {
		return false
	}
	return a.isArgs(fieldType(v.args[0])) || a.isTerms(fieldType(v.args[0]))
}

func fieldType(fa *V) types.Type {
	if fa.typ == nil {
		return nil
	}
	s, ok := derefT(fa.typ).Underlying().(*types.Struct)
	if !ok || int(fa.num) >= s.NumFields() {
		return nil
	}
	return s.Field(int(fa.num)).Type()
}

// termsTo: the terms that are still to be read.
func (a *argRules) termsTo(b *binder, e *Event, g *ssa.Function, list, terms *V, what string) {
	r, q := a.r, b.q
	isP := func(t types.Type) bool { return shortType(t) == "*ast.PrenexStatement" }
	if terms == nil {
		// all terms of one phrase, in order
		if a.fromTail(q, list) {
			r.ok("terms", what+" all")
			return
		}
		es, ok := listElems(e.St, list)
		if len(es) == 0 && ok {
			for v, n := range e.St.shape {
				if n == 0 && v.op == OLoad && v.args[0].op == OFAddr && a.isTerms(fieldType(v.args[0])) {
					r.ok("terms", what+" all")
					return
				}
			}
		}
		good := ok && len(es) > 0
		var base *V
		for i, x := range es {
			if x.op != OLoad || x.args[0].op != OIAddr || x.args[0].args[1] != vInt(int64(i)) || base != nil && x.args[0].args[0] != base {
				good = false
				break
			}
			base = x.args[0].args[0]
		}
		if good {
			n, known := e.St.shape[base]
			good = known && n == int64(len(es)) && base.op == OLoad && base.args[0].op == OFAddr && a.isTerms(fieldType(base.args[0]))
		}
		r.check(good, "terms", what+" all", b.where, "the terms of a phrase are not all read in their order: "+e.St.resolve(list).String()+" on "+q.st.factString())
		return
	}
	gp, fp := paramOf(g, isP), paramOf(q.fn, isP)
	if gp >= 0 && fp >= 0 && gp < len(e.Args) {
		r.check(e.Args[gp] == q.params[fp], "terms", what+" statement", b.where, "the terms are read for another statement")
	}
	es, ok := listElems(e.St, list)
	n, known := e.St.shape[terms]
	if !r.check(ok && known && n > 0 && int64(len(es)) >= n-1, "terms", what, b.where, "the terms that are left are not those after the first: "+e.St.resolve(list).String()) {
		return
	}
	k := int64(len(es)) - (n - 1)
	good := true
	for i := int64(0); i < n-1; i++ {
		if es[k+i] != e.St.load(indexAddr(terms, vInt(i+1)), nil) {
			good = false
		}
	}
	first := loadOf(indexAddr(terms, vInt(0)))
	for i := int64(0); i < k; i++ {
		x := es[i]
		if o := strip(x); o.op == OObj {
			hit := false
			b.scanAll(o, func(y *V) {
				if contains(y, first) {
					hit = true
				}
			})
			good = good && hit
			continue
		}
		good = good && contains(x, first)
	}
	r.check(good, "terms", what, b.where, "the terms that are left are not those after the first: "+e.St.resolve(list).String())
}

func (b *binder) scanAll(o *V, f func(y *V)) {
	c := b.q.st.heap[o.num]
	if c == nil {
		return
	}
	for _, x := range c.args {
		f(x)
	}
}

// grown: the first term adds one argument, at its place, if it is an argument.
func (a *argRules) grown(b *binder, i int, list, given, terms *V, what string) {
	q, r, l := b.q, a.r, a.l
	e := &q.st.events[i]
	adds, ok := b.added(e.St, list, given)
	if !r.check(ok, "passed", what, b.where, "the arguments so far are not passed on in their order: "+e.St.resolve(list).String()) {
		return
	}
	first := loadOf(indexAddr(terms, vInt(0)))
	type reading struct {
		arg    *V
		linked bool
		call   *Event
	}
	var from []reading
	for _, j := range b.calls {
		if j >= i {
			break
		}
		c := &q.st.events[j]
		g := l.rootNamed(c.Name)
		if g == nil || !l.pushes(g) {
			continue
		}
		for _, x := range c.Args {
			if !contains(x, first) {
				continue
			}
			own, _ := fieldOwner(x)
			rd := reading{call: c, linked: own != nil && shortType(own) == "ast.LinkedTerm"}
			for k := 0; k < g.Signature.Results().Len(); k++ {
				if types.Identical(g.Signature.Results().At(k).Type(), a.argT) {
					rd.arg = mk(V{op: OExtract, num: int64(k), args: []*V{c.Res}, typ: a.argT})
				}
			}
			from = append(from, rd)
		}
	}
	// a connected argument that is read as a whole is made here
	for _, x := range adds {
		arg, _ := a.parts(b, e.St, x)
		if arg == nil {
			continue
		}
		if o := strip(arg); b.objNamed(o, "Variable") {
			linked := false
			if own, _ := fieldOwner(b.field(o, "AST")); own != nil && shortType(own) == "ast.LinkedTerm" {
				linked = true
			}
			if contains(strip(b.field(o, "AST")), first) {
				from = append(from, reading{arg: arg, linked: linked})
			}
		}
	}
	if len(from) == 0 {
		r.check(len(adds) == 0, "passed", what+" none", b.where, "a term that is not an argument adds one")
		return
	}
	if !r.check(len(adds) == 1, "passed", what+" one", b.where, fmt.Sprintf("a term adds %d arguments to the predication, on %s", len(adds), q.st.factString())) {
		return
	}
	arg, pos := a.parts(b, e.St, adds[0])
	hit := false
	for _, f := range from {
		if strip(arg) != strip(f.arg) {
			continue
		}
		hit = true
		if !f.linked {
			r.check(pos == vInt(0), "passed", what+" place", b.where, "an argument without a linking word has a place of its own: "+fmt.Sprint(pos))
			continue
		}
		r.check(a.goPlace(q, pos), "passed", what+" linked place", b.where, "the place of a linked argument is not that of its linking word: "+fmt.Sprint(pos))
	}
	r.check(hit, "passed", what+" argument", b.where, "the argument that is added is not that of the term: "+e.St.resolve(arg).String())
}

// goPlace tells whether a place was read from the linking word of a term.
func (a *argRules) goPlace(q *lpath, pos *V) bool {
	if pos == nil {
		return false
	}
	if pos.op == OCall {
		for _, x := range pos.args {
			if own, n := fieldOwner(x); own != nil && n == "GO" && shortType(own) == "ast.LinkedTerm" {
				return true
			}
		}
		return false
	}
	k, ok := pos.intVal()
	if !ok || k == 0 {
		return false
	}
	words := []string{"", "fi", "go", "cu", "ta"}
	for at, t := range q.st.facts {
		if t && at.op == OCall && len(at.args) == 2 && int(k) < len(words) && at.args[1] == vStr(words[k]) {
			if _, n := fieldOwner(at.args[0]); n == "GO" {
				return true
			}
		}
	}
	return false
}

// built: a phrase that is rewritten keeps its terms, and they become arguments.
func (a *argRules) built(b *binder) {
	q, r := b.q, a.r
	for id := range q.st.otype {
		c := q.st.heap[id]
		if c == nil || c.op != OStruct {
			continue
		}
		o := mk(V{op: OObj, num: id, typ: q.st.otype[id]})
		switch {
		case b.objNamed(o, "PrenexStatement"):
			what := b.name + " rewritten"
			pre := b.field(o, "Prenex")
			ok := pre != nil && pre.op == OStruct
			var terms, bi *V
			if ok {
				terms = pre.args[fieldIndex(pre.typ, "Terms")]
				bi = pre.args[fieldIndex(pre.typ, "BI")]
			}
			if !r.check(ok && terms != nil && a.fromTail(q, terms), "terms", what, b.where, "the terms of a rewritten phrase are not its own") {
				continue
			}
			s := ""
			if bi.op == OStruct {
				s, _ = bi.args[fieldIndex(bi.typ, "T")].strVal()
			}
			r.check(s == "pa", "terms", what+" particle", b.where, "the terms of a rewritten phrase do not become its arguments")
			st := strip(b.field(o, "Statement"))
			good := b.objNamed(st, "Predication") && b.field(st, "Terms").op == ONil
			if good {
				x := b.field(st, "Predicate")
				y := terms.args[0].args[0]
				good = isFieldLoad(x, "Predicate") && x.args[0].args[0] == y
			}
			r.check(good, "terms", what+" predicate", b.where, "a rewritten phrase has another predicate, or its terms twice")
		}
	}
}

// second: the argument of a preposition or of po is the second of its predicate.
func (a *argRules) second(b *binder) {
	q, r, l := b.q, a.r, a.l
	check := func(st *State, list *V, what string) {
		es, ok := listElems(st, list)
		if !ok || len(es) != 2 {
			return
		}
		own := func(v *V) bool {
			v = strip(v)
			for _, t := range b.toks {
				if !t.own && t.arg == v {
					return true
				}
			}
			return b.objNamed(v, "Plurality")
		}
		if own(es[0]) == own(es[1]) {
			return
		}
		r.check(own(es[1]), "second", what, b.where, "the argument of the phrase is not the second of its predicate")
	}
	for id := range q.st.otype {
		o := mk(V{op: OObj, num: id, typ: q.st.otype[id]})
		if (b.objNamed(o, "Predication") || b.objNamed(o, "Plurality")) && q.st.heap[id].op == OStruct {
			if v := b.field(o, "Arguments"); v != nil {
				check(q.st, v, b.name+" "+strings.ToLower(shortType(q.st.otype[id])))
			}
		}
	}
	for _, i := range b.calls {
		e := &q.st.events[i]
		g := l.rootNamed(e.Name)
		if g == nil {
			continue
		}
		if k := paramOf(g, a.isPlain); k >= 0 && k < len(e.Args) {
			check(e.St, e.Args[k], b.name+" to "+g.Name())
		}
	}
}

// lists returns the argument lists that a path makes predications of.
func (a *argRules) lists(b *binder) []*V {
	var out []*V
	q := b.q
	for id := range q.st.otype {
		o := mk(V{op: OObj, num: id, typ: q.st.otype[id]})
		if b.objNamed(o, "Predication") && q.st.heap[id].op == OStruct && strings.HasSuffix(shortType(q.st.otype[id]), "logic.Predication") {
			if v := b.field(o, "Arguments"); v != nil {
				out = append(out, v)
			}
		}
	}
	for _, i := range b.calls {
		e := &q.st.events[i]
		if g := a.l.rootNamed(e.Name); g != nil {
			if k := paramOf(g, a.isPlain); k >= 0 && k < len(e.Args) {
				out = append(out, e.Args[k])
			}
		}
	}
	return out
}

// orders tells whether the path makes a predication of the arguments it was given.
func (a *argRules) orders(b *binder) bool {
	gi := paramOf(b.q.fn, a.isArgs)
	if gi < 0 {
		vi := paramOf(b.q.fn, a.isPlain)
		if vi < 0 {
			return false
		}
		for _, v := range a.lists(b) {
			if es, ok := listElems(b.q.st, v); ok && len(es) > 0 && contains(es[0], b.q.params[vi]) || v == b.q.params[vi] {
				a.r.check(b.same(b.q.st, v, b.q.params[vi]), "place", b.name+" list", b.where, "the arguments are not those of the predication")
			}
		}
		return false
	}
	for _, v := range a.lists(b) {
		es, ok := listElems(b.q.st, v)
		if ok {
			for _, e := range es {
				if contains(e, b.q.params[gi]) {
					return true
				}
			}
		}
	}
	return false
}

// places: every list of arguments is put into its places.
func (a *argRules) places(f *ssa.Function) {
	l, r := a.l, a.r
	gi := paramOf(f, a.isArgs)
	name, where := fnName(f), l.p.pos(f.Pos())
	max := 4
	var run func(pos []int64)
	run = func(pos []int64) {
		e := l.eng()
		st := newState()
		n := int64(len(pos))
		arr := types.NewArray(a.elemT, n)
		es := make([]*V, n)
		syms := make([]*V, n)
		for i := range es {
			syms[i] = vSym(fmt.Sprintf("p:a%d", i), a.argT)
			c := make([]*V, a.elemT.Underlying().(*types.Struct).NumFields())
			z := zero(a.elemT)
			copy(c, z.args)
			c[a.ai], c[a.pi] = syms[i], vInt(pos[i])
			es[i] = mk(V{op: OStruct, typ: a.elemT, args: c})
		}
		list := vNil
		if n > 0 {
			o := st.newObj(arr, mk(V{op: OStruct, typ: arr, args: es}), 0)
			list = mk(V{op: OSlice, num: 0, num2: n, args: []*V{o}})
		}
		var args []*V
		for i, q := range f.Params {
			switch {
			case i == gi:
				args = append(args, list)
			case types.Identical(q.Type(), l.iptr):
				args = append(args, vSym("p:interp", l.iptr))
			default:
				args = append(args, vSym("p:"+q.Name(), q.Type()))
			}
		}
		var want []*V
		k := n
		for _, p := range pos {
			if p > k {
				k = p
			}
		}
		want = make([]*V, k)
		var rest []*V
		for i, p := range pos {
			if p > 0 && want[p-1] == nil {
				want[p-1] = syms[i]
			} else {
				rest = append(rest, syms[i])
			}
		}
		for i := range want {
			if want[i] == nil && len(rest) > 0 {
				want[i], rest = rest[0], rest[1:]
			}
		}
		what := fmt.Sprintf("%s %v", name, pos)
		seen := false
		for _, o := range e.Run(f, st, args...) {
			if o.Kind == Cut || e.over {
				r.bad("undecided", what, where, "a path is not followed to its end")
				continue
			}
			if o.Kind == Panicked {
				continue
			}
			for _, ev := range o.St.events {
				if ev.Kind == "hazard" {
					r.bad("place", what, where, "arguments at places "+fmt.Sprint(pos)+" make the interpretation fail: "+ev.Name)
				}
			}
			if o.Kind != Ret {
				continue
			}
			q := &lpath{fn: f, o: o, st: o.St, params: args}
			b := l.binder(q, r, nil)
			through := false
			for _, i := range b.calls {
				ev := &o.St.events[i]
				if g := l.rootNamed(ev.Name); g != nil {
					if ca := paramOf(g, a.isArgs); ca >= 0 {
						through = true
					}
				}
			}
			if through {
				continue
			}
			ls := a.lists(b)
			if !r.check(len(ls) == 1, "place", what, where, "the arguments do not become those of one predication") {
				continue
			}
			seen = true
			got, ok := listElems(o.St, ls[0])
			good := ok && len(got) == len(want)
			for i := 0; good && i < len(got); i++ {
				x := strip(got[i])
				if want[i] == nil {
					good = x.op == ONil
				} else {
					good = x == want[i]
				}
			}
			ws := make([]string, len(want))
			for i, w := range want {
				ws[i] = "-"
				if w != nil {
					ws[i] = strings.TrimPrefix(w.aux, "p:")
				}
			}
			r.check(good, "place", what, where, "arguments at places "+fmt.Sprint(pos)+" become "+o.St.resolve(ls[0]).String()+", not ["+strings.Join(ws, " ")+"]")
		}
		r.check(seen, "place", what+" paths", where, "no predication is made of arguments at places "+fmt.Sprint(pos))
	}
	var gen func(pos []int64)
	gen = func(pos []int64) {
		run(pos)
		if len(pos) == max {
			return
		}
		for p := int64(0); p <= 4; p++ {
			gen(append(append([]int64(nil), pos...), p))
		}
	}
	gen(nil)
}
