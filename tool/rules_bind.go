package main

// C14: bindings and scopes.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bindTok struct {
	v   *V // the binding
	arg *V // the argument that a call returned with it
	own bool
}

type binder struct {
	l           *lgen
	q           *lpath
	r           *Report
	name, where string
	toks        []*bindTok
	roots       []*V // what the path adds to the formula
	calls       []int
	hiPush      map[*ssa.Function]bool
	ext         map[*V]*V // the names after a call -> before it
}

func ruleBindings(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	for _, f := range []string{"n", "theScope", "hiScope", "hoaScope", "varScope", "liftedScope"} {
		if !r.check(l.fieldAddr(f) != nil, "anchor", "interpreter."+f, "-", "the field is missing") {
			return
		}
	}
	hi := map[*ssa.Function]bool{}
	for _, f := range l.interps {
		n, all := 0, true
		for _, q := range l.paths(f, r) {
			if q.o.Kind != Ret {
				continue
			}
			b := l.binder(q, r, hi)
			for _, i := range b.calls {
				n++
				if pushed, _ := b.hiAt(i); !pushed {
					all = false
				}
			}
		}
		if n > 0 && all {
			hi[f] = true
		}
	}
	for _, f := range l.interps {
		for _, q := range l.paths(f, r) {
			if q.o.Kind == Cut {
				r.bad("undecided", fnName(f), p.pos(f.Pos()), "a path is not followed to its end")
			}
			if q.o.Kind != Ret {
				continue
			}
			b := l.binder(q, r, hi)
			b.restored()
			b.during()
			b.kept()
			b.moved()
			b.nested()
			b.variables()
		}
	}
	l.checkBindFn(r)
	l.checkFree(r)
	r.assumption("lists of moved bindings and of names in scope are followed up to length 2")
	r.assumption("calls among the mutually recursive interpretation functions are uninterpreted and keep what this rule shows for each of them: the stacks are as before, moved bindings are added at the end")
	r.atLeast("kept", 40)
	r.atLeast("names", 60)
	r.atLeast("restored", 60)
}

func (l *lgen) entry(name string) *V {
	return l.field(newState(), name)
}

func (l *lgen) isRootEvent(e *Event) bool {
	return e.Kind == "call" && e.St != nil && l.hav[e.Res] != nil && l.hav[e.Res]["theScope"] != nil
}

func (l *lgen) binder(q *lpath, r *Report, hi map[*ssa.Function]bool) *binder {
	b := &binder{l: l, q: q, r: r, name: fnName(q.fn), where: l.p.pos(q.o.Pos), hiPush: hi, ext: map[*V]*V{}}
	for i := range q.st.events {
		if e := &q.st.events[i]; l.isRootEvent(e) {
			b.calls = append(b.calls, i)
			if v := l.hav[e.Res]["varScope"]; v != nil {
				b.ext[v] = l.field(e.St, "varScope")
			}
		}
	}
	var ids []int64
	for id, t := range q.st.otype {
		if types.Identical(t, l.bindT.(*types.Pointer).Elem()) && q.st.heap[id].op == OStruct {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		b.toks = append(b.toks, &bindTok{v: mk(V{op: OObj, num: id, typ: b.objType(id)}), own: true})
	}
	for _, i := range b.calls {
		e := &q.st.events[i]
		f := l.rootNamed(e.Name)
		if f == nil || !l.pushes(f) {
			continue
		}
		t := &bindTok{}
		for k := 0; k < f.Signature.Results().Len(); k++ {
			x := e.Res
			if f.Signature.Results().Len() > 1 {
				x = mk(V{op: OExtract, num: int64(k), args: []*V{e.Res}, typ: f.Signature.Results().At(k).Type()})
			}
			if types.Identical(f.Signature.Results().At(k).Type(), l.bindT) {
				t.v = x
			} else {
				t.arg = x
			}
		}
		if v, known := q.st.facts[eqAtom(t.v, vNil)]; known && v {
			continue
		}
		b.toks = append(b.toks, t)
	}
	b.roots = append(b.roots, q.o.Vals...)
	return b
}

func (b *binder) objType(id int64) types.Type {
	// objects are interned with the type that they were made with
	for _, e := range []types.Type{types.NewPointer(b.q.st.otype[id]), b.q.st.otype[id]} {
		_ = e
	}
	return b.q.st.otype[id]
}

func (b *binder) field(o *V, name string) *V {
	t := b.q.st.otype[o.num]
	c := b.q.st.heap[o.num]
	i := fieldIndex(t, name)
	if c == nil || c.op != OStruct || i < 0 {
		return nil
	}
	return c.args[i]
}

func (b *binder) objNamed(v *V, name string) bool {
	if v.op != OObj {
		return false
	}
	n := namedOf(b.q.st.otype[v.num])
	return n != nil && n.Obj().Name() == name
}

// bases lists the values of a field of the interpreter at entry and after each call.
func (b *binder) bases(f string) []*V {
	out := []*V{b.l.entry(f)}
	for _, i := range b.calls {
		if v := b.l.hav[b.q.st.events[i].Res][f]; v != nil {
			out = append(out, v)
		}
	}
	return out
}

// before returns the state before the k-th call that changes a field.
func (b *binder) before(f string, k int) *State {
	for _, i := range b.calls {
		e := &b.q.st.events[i]
		if b.l.hav[e.Res][f] == nil {
			continue
		}
		if k == 0 {
			return e.St
		}
		k--
	}
	return b.q.st
}

// same tells whether a list has the elements of another.
func (b *binder) same(st *State, v, base *V) bool {
	a, ok := b.added(st, v, base)
	return ok && len(a) == 0
}

// added returns the elements that v has after those of base.
func (b *binder) added(st *State, v, base *V) ([]*V, bool) {
	if v == base {
		return nil, true
	}
	es, ok := listElems(st, v)
	n, known := st.shape[base]
	if !known && base.op == OSlice {
		n, known = base.num2-base.num, true
	}
	if base.op == ONil {
		n, known = 0, true
	}
	if !ok || !known || int64(len(es)) < n {
		return nil, false
	}
	for i := int64(0); i < n; i++ {
		if b.elem(es[i]) != b.elem(st.load(indexAddr(base, vInt(i)), nil)) {
			return nil, false
		}
	}
	return es[n:], true
}

// elem tells which element of the names in scope at the start a value is: calls
// only add names.
func (b *binder) elem(v *V) *V {
	for v.op == OLoad && v.args[0].op == OIAddr {
		before := b.ext[v.args[0].args[0]]
		i, ok := v.args[0].args[1].intVal()
		if before == nil || !ok {
			break
		}
		es, known := listElems(b.q.st, before)
		if !known || i >= int64(len(es)) {
			break
		}
		v = es[i]
	}
	return v
}

// additions returns what the path itself appends to a growing list.
func (b *binder) additions(f string) ([]*V, bool) {
	var out []*V
	bs := b.bases(f)
	for k, base := range bs {
		v := b.l.field(b.q.st, f)
		if k+1 < len(bs) {
			v = b.l.field(b.before(f, k), f)
		}
		a, ok := b.added(b.q.st, v, base)
		if !ok {
			return nil, false
		}
		out = append(out, a...)
	}
	return out, true
}

// restored: the stacks are at the end as they were at the start.
func (b *binder) restored() {
	l, q, r := b.l, b.q, b.r
	end := func(f string) *V { return l.field(q.st, f) }
	r.check(b.same(q.st, end("hoaScope"), l.entry("hoaScope")), "restored", b.name+" hoaScope", b.where,
		"what hoa stands for is not restored: "+q.st.resolve(end("hoaScope")).String()+" on "+q.st.factString())
	okHi := false
	for _, v := range b.bases("hiScope") {
		if b.same(q.st, end("hiScope"), v) {
			okHi = true
		}
	}
	r.check(okHi, "restored", b.name+" hiScope", b.where, "the clauses that questions can move to are not restored: "+end("hiScope").String())
	if !l.pushes(q.fn) {
		r.check(b.same(q.st, end("varScope"), l.entry("varScope")), "restored", b.name+" varScope", b.where,
			"the names in scope are not restored: "+end("varScope").String()+" on "+q.st.factString())
	}
}

// hiAt tells whether a call is made within a new clause.
func (b *binder) hiAt(i int) (pushed, ok bool) {
	v := b.l.field(b.q.st.events[i].St, "hiScope")
	base := b.l.entry("hiScope")
	for _, j := range b.calls {
		if j < i {
			if h := b.l.hav[b.q.st.events[j].Res]["hiScope"]; h != nil && v != base {
				if h == v {
					return false, true
				}
			}
		}
	}
	for _, s := range b.bases("hiScope") {
		if s == v {
			return false, true
		}
	}
	for _, s := range b.bases("hiScope") {
		if a, ok := b.added(b.q.st.events[i].St, v, s); ok && len(a) == 1 {
			empty := a[0].op == ONil
			if es, ok := listElems(b.q.st.events[i].St, a[0]); ok && len(es) == 0 {
				empty = true
			}
			return true, empty
		}
	}
	return false, false
}

// during: every call sees the names, and what hoa stands for, of its place.
func (b *binder) during() {
	l, q, r := b.l, b.q, b.r
	cur := l.entry("varScope")
	hoa := l.entry("hoaScope")
	var param *V // the binding that the function was given
	for i, v := range q.fn.Params {
		if types.Identical(v.Type(), l.bindT) {
			param = q.params[i]
		}
	}
	check := func(st *State, v *V, what string) *V {
		if b.same(st, v, cur) {
			r.ok("names", b.name+" "+what)
			return cur
		}
		a, ok := b.added(st, v, cur)
		if !ok || len(a) != 1 || a[0].op != OStruct || !l.pushes(q.fn) {
			r.bad("names", b.name+" "+what, b.where, "the names in scope are not those of the place: "+st.resolve(v).String()+" on "+q.st.factString())
			return v
		}
		// one new name, for a binding of this function
		ok = false
		for _, t := range b.toks {
			if t.own && contains(a[0], t.v) {
				ok = true
			}
		}
		nm := false
		for _, x := range a[0].args {
			if x.op == OExtract && x.args[0].op == OCall && isString(x.typ) || x.op == OCall && isString(x.typ) {
				nm = true
			}
		}
		r.check(ok && nm, "names", b.name+" new name", b.where, "the new name is not that of a binding made here: "+st.resolve(a[0]).String())
		return v
	}
	for _, i := range b.calls {
		e := &q.st.events[i]
		what := "at " + e.Name
		cur = check(e.St, l.field(e.St, "varScope"), what)
		h := l.field(e.St, "hoaScope")
		var top *V
		if !b.same(e.St, h, hoa) {
			a, ok := b.added(e.St, h, hoa)
			if !r.check(ok && len(a) == 1, "hoa", b.name+" "+what, b.where, "what hoa stands for is not that of the place: "+e.St.resolve(h).String()) {
				continue
			}
			top = a[0]
		}
		b.hoaAt(i, top, param, what)
		if f := l.rootNamed(e.Name); f != nil {
			if l.pushes(f) {
				cur = l.hav[e.Res]["varScope"]
			}
			b.clause(i, f, what)
		}
	}
	if l.pushes(q.fn) {
		v := l.field(q.st, "varScope")
		cur = check(q.st, v, "at the end")
		// a returned binding with a name of its own is in scope from here on
		entry := l.entry("varScope")
		named := false
		for a, t := range q.st.facts {
			if t && a.op == OExtract && a.num == 2 && a.args[0].op == OCall && strings.HasSuffix(callName(a.args[0]), "isVariablePredicate") {
				named = true
			}
		}
		quantified := false
		for a, t := range q.st.facts {
			if isEq(a) && !t && (a.args[0].op == ONil || a.args[1].op == ONil) {
				x := a.args[0]
				if x.op == ONil {
					x = a.args[1]
				}
				if isFieldLoad(x, "Quantifier") {
					quantified = true
				}
			}
		}
		if named && quantified && len(b.bases("varScope")) == 1 {
			a, ok := b.added(q.st, v, entry)
			r.check(ok && len(a) == 1, "names", b.name+" quantified name", b.where, "a quantified variable is not in scope for the rest of its statement")
		}
	}
}

func isEq(a *V) bool { return a.op == OBin && a.aux == "==" && len(a.args) == 2 }

func isFieldLoad(x *V, name string) bool {
	return x.op == OLoad && x.args[0].op == OFAddr && x.args[0].typ != nil && fieldName(derefT(x.args[0].typ), int(x.args[0].num)) == name
}

// fieldOwner returns the struct type that a value was read from.
func fieldOwner(x *V) (types.Type, string) {
	for {
		switch {
		case x.op == OIface || x.op == OAs:
			x = x.args[0]
			continue
		case x.op == OLoad:
			x = x.args[0]
		case x.op == OIAddr:
			x = x.args[0]
			continue
		}
		break
	}
	if x.op == OFAddr && x.typ != nil {
		return derefT(x.typ), fieldName(derefT(x.typ), int(x.num))
	}
	return nil, ""
}

func (b *binder) hoaAt(i int, top, param *V, what string) {
	l, q, r := b.l, b.q, b.r
	e := &q.st.events[i]
	if param != nil && hasAst(q.fn, l, "Relative") {
		nilFact, known := q.st.facts[eqAtom(param, vNil)]
		switch {
		case !known:
			r.check(top == nil || top == param, "hoa", b.name+" "+what, b.where, "what hoa stands for does not depend on the binding that was given")
		case nilFact:
			r.check(top == nil, "hoa", b.name+" "+what+" none", b.where, "hoa stands for something new within a connected clause")
		default:
			r.check(top == param, "hoa", b.name+" "+what+" given", b.where, "hoa does not stand for the variable that the clause restricts")
		}
		return
	}
	// a clause with lu
	lu, known := false, false
	for a, t := range q.st.facts {
		if a.op == OCall && len(a.args) == 2 && a.args[1] == vStr("lu") {
			if o, n := fieldOwner(a.args[0]); o != nil && n == "LU" {
				lu, known = t, true
			}
		}
	}
	_ = known
	if lu {
		ok := top != nil && b.objNamed(top, "Binding")
		if ok {
			lam, _ := l.constStr("logic", "Lambda")
			s, isC := b.field(top, "Quantifier").strVal()
			ok = isC && s == lam
		}
		r.check(ok, "hoa", b.name+" "+what+" lu", b.where, "hoa does not stand for the variable of the clause with lu")
		return
	}
	r.check(top == nil, "hoa", b.name+" "+what, b.where, "hoa stands for something new: "+fmt.Sprint(top))
	_ = e
}

func hasAst(f *ssa.Function, l *lgen, name string) bool {
	t := l.p.typ("ast", name)
	for _, q := range f.Params {
		if t != nil && types.Identical(q.Type(), t) {
			return true
		}
	}
	return false
}

// clause: a statement that stands in another phrase is read as a clause of its own,
// and a statement within a statement is not.
func (b *binder) clause(i int, callee *ssa.Function, what string) {
	l, q, r := b.l, b.q, b.r
	e := &q.st.events[i]
	stI, _ := l.p.typ("ast", "Statement").Underlying().(*types.Interface)
	pushed, ok := b.hiAt(i)
	if !r.check(ok, "clause", b.name+" "+what, b.where, "the clauses that questions can move to are not those of the place: "+e.St.resolve(l.field(e.St, "hiScope")).String()) {
		return
	}
	for k, p := range callee.Params {
		if !types.Identical(p.Type(), l.p.typ("ast", "Statement")) || k >= len(e.Args) {
			continue
		}
		own, fld := fieldOwner(e.Args[k])
		in := pushed || b.hiPush[callee]
		if own != nil {
			if types.Implements(types.NewPointer(own), stI) && strip(e.Args[k]).op != OFAddr {
				r.check(!in, "clause", b.name+" "+shortType(own)+"."+fld, b.where, "a part of a statement is read as a clause of its own, so that its questions do not reach the top of the statement")
			} else {
				r.check(in, "clause", b.name+" "+shortType(own)+"."+fld, b.where, "a clause is not read as a clause of its own, so that its questions leave it")
			}
			continue
		}
		x := e.Args[k]
		for x.op == OIface || x.op == OAs {
			x = x.args[0]
		}
		if x.op == OSym && x.typ != nil && !types.Identical(x.typ, p.Type()) {
			r.check(in, "clause", b.name+" operand", b.where, "a clause is not read as a clause of its own, so that its questions leave it")
		}
	}
	// a clause that restricts a binding is read for that binding
	for k, p := range callee.Params {
		if !types.Identical(p.Type(), l.bindT) || k >= len(e.Args) {
			continue
		}
		rel := -1
		for m, p2 := range callee.Params {
			if types.Identical(p2.Type(), l.p.typ("ast", "Relative")) {
				rel = m
			}
		}
		if rel < 0 {
			continue
		}
		own, _ := fieldOwner(e.Args[rel])
		x := e.Args[k]
		if own != nil && own.String() == l.p.typ("ast", "PredicateArgument").String() {
			ok := b.objNamed(x, "Binding") && b.field(x, "Restriction") != nil && b.count(b.field(x, "Restriction"), func(y *V) bool { return y == e.Res }) == 1
			r.check(ok, "clause", b.name+" relative", b.where, "a relative clause is not read for the binding that it restricts")
		} else {
			r.check(x.op == ONil, "clause", b.name+" relative operand", b.where, "an operand of a connected relative clause is read for another binding")
		}
	}
}

// scan walks the formula below v; f tells whether to go on below a value.
func (b *binder) scan(v *V, f func(x *V) bool) {
	open := map[*V]bool{}
	var walk func(x *V)
	walk = func(x *V) {
		if x == nil || open[x] {
			return
		}
		if !f(x) {
			return
		}
		open[x] = true
		defer delete(open, x)
		switch x.op {
		case OObj:
			c := b.q.st.heap[x.num]
			t := b.q.st.otype[x.num]
			if c == nil {
				return
			}
			if c.op == OStruct {
				for i, a := range c.args {
					if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
						if n := s.Field(i).Name(); n == "AST" || n == "Def" {
							continue
						}
					}
					walk(a)
				}
				return
			}
			walk(c)
		case OSlice:
			es, _ := listElems(b.q.st, x)
			for _, e := range es {
				walk(e)
			}
		case OCall:
			isBind := b.l.bindFn != nil && callName(x) == fnName(b.l.bindFn)
			g := b.l.rootNamed(callName(x))
			for i, a := range x.args {
				if !isBind && (g == nil || i < len(g.Params) && types.Identical(g.Params[i].Type(), b.l.bindT)) {
					continue
				}
				walk(a)
			}
		case OExtract:
			// the binding and the argument of a call stand for themselves
		default:
			for _, a := range x.args {
				walk(a)
			}
		}
	}
	walk(v)
}

func (b *binder) count(v *V, is func(x *V) bool) int {
	n := 0
	b.scan(v, func(x *V) bool {
		if is(x) {
			n++
		}
		return true
	})
	return n
}

func (t *bindTok) is(b *binder) func(x *V) bool { return func(x *V) bool { return x == t.v } }

func (t *bindTok) uses(b *binder) func(x *V) bool {
	return func(x *V) bool {
		if t.arg != nil && x == t.arg {
			return true
		}
		return b.objNamed(x, "Variable") && b.field(x, "Def") == t.v
	}
}

func (b *binder) all(is func(x *V) bool) int {
	n := 0
	for _, v := range b.roots {
		n += b.count(v, is)
	}
	return n
}

// kept: every binding is in the result once, above the uses of its variable.
func (b *binder) kept() {
	l, q, r := b.l, b.q, b.r
	the, ok := b.additions("theScope")
	if !r.check(ok, "moved", b.name+" theScope", b.where, "the list of definite bindings is not extended at its end: "+q.st.resolve(l.field(q.st, "theScope")).String()+" on "+q.st.factString()) {
		return
	}
	hi, ok := b.hiAdditions()
	if !ok {
		return
	}
	ret := append([]*V(nil), b.roots...)
	b.roots = append(b.roots, the...)
	b.roots = append(b.roots, hi...)
	defer func() { b.roots = ret }()
	for _, t := range b.toks {
		what := b.name + " binding"
		if !t.own {
			what = b.name + " binding of " + callName(t.v.args[0])
		}
		n := b.all(t.is(b))
		if n == 0 {
			r.bad("kept", what, b.where, "the binding "+q.st.resolve(t.v).String()+" is not in the result, on "+q.st.factString())
			continue
		}
		if !r.check(n == 1, "kept", what, b.where, fmt.Sprintf("the binding is in the result %d times, on %s", n, q.st.factString())) {
			continue
		}
		// where is it?
		var node *V
		for _, v := range b.roots {
			b.scan(v, func(x *V) bool {
				if x.op == OCall && l.bindFn != nil && callName(x) == fnName(l.bindFn) && len(x.args) == 2 && x.args[0] == t.v {
					node = x
				}
				return true
			})
		}
		outer := false
		for _, v := range b.roots {
			if v == t.v {
				outer = true // handed to the caller, or moved
			}
		}
		if t.own {
			sc := b.field(t.v, "Scope")
			if node == nil && !outer {
				r.check(sc != nil && sc.op != ONil, "kept", what+" scope", b.where, "a binding has no scope")
			} else {
				r.check(sc == nil || sc.op == ONil, "kept", what+" scope", b.where, "a binding has a scope before it is put over its statement")
			}
		}
		if outer {
			if t.own {
				// the argument that goes with it is its variable
				for i, v := range q.o.Vals {
					if v != t.v {
						continue
					}
					for j, w := range q.o.Vals {
						if j == i {
							continue
						}
						for w.op == OIface {
							w = w.args[0]
						}
						r.check(b.objNamed(w, "Variable") && b.field(w, "Def") == t.v, "kept", what+" variable", b.where, "the argument that is returned with a binding is not its variable")
					}
				}
			} else if t.arg != nil {
				hit := false
				for _, w := range q.o.Vals {
					if w == t.arg {
						hit = true
					}
				}
				r.check(hit, "kept", what+" variable", b.where, "the argument that is returned with a binding is not the one that came with it")
			}
			continue
		}
		if node == nil {
			node = t.v
		}
		b.namesInside(t, node, what)
		in := b.count(node, t.uses(b))
		total := b.all(t.uses(b))
		r.check(in == total, "scope", what, b.where, fmt.Sprintf("%d of %d uses of the variable are outside of the scope of its binding, on %s", total-in, total, q.st.factString()))
		if !t.own && t.arg != nil {
			r.check(in > 0, "scope", what+" used", b.where, "the argument that came with the binding is not used in its scope")
		}
	}
}

// namesInside: what is read while the name of a binding is in scope is within
// the scope of the binding.
func (b *binder) namesInside(t *bindTok, node *V, what string) {
	l, q, r := b.l, b.q, b.r
	if t.own {
		return
	}
	scopes := map[*V]bool{}
	for _, i := range b.calls {
		e := &q.st.events[i]
		if len(t.v.args) > 0 && t.v.args[0] == e.Res {
			scopes[l.hav[e.Res]["varScope"]] = true
			continue
		}
		if !scopes[l.field(e.St, "varScope")] {
			continue
		}
		if v := l.hav[e.Res]["varScope"]; v != nil {
			scopes[v] = true
		}
		is := func(x *V) bool { return x == e.Res || x.op == OExtract && x.args[0] == e.Res }
		in, total := b.count(node, is), b.all(is)
		r.check(in == total, "scope", what+" names at "+e.Name, b.where, "what is read with the name of the binding in scope is outside of the scope of the binding, on "+q.st.factString())
	}
}

// hiAdditions returns what the path appends to the questions of the innermost clause.
func (b *binder) hiAdditions() ([]*V, bool) {
	l, q, r := b.l, b.q, b.r
	var out []*V
	lt := types.NewSlice(l.bindT)
	seen := map[*V]bool{}
	for _, e := range q.st.events {
		if e.Kind != "store" || len(e.Args) != 2 || e.Args[0].op != OIAddr {
			continue
		}
		a := e.Args[0]
		base := a.args[0]
		isHi := false
		for _, s := range b.bases("hiScope") {
			if base == s {
				isHi = true
			}
		}
		if !isHi {
			continue
		}
		if seen[a] {
			r.bad("moved", b.name+" hiScope", b.where, "the questions of a clause are changed twice")
			return nil, false
		}
		seen[a] = true
		n, known := q.st.shape[base]
		i, isC := a.args[1].intVal()
		if !r.check(known && isC && i == n-1, "moved", b.name+" hiScope", b.where, "a question is moved to another clause than the innermost") {
			return nil, false
		}
		old := loadOf(a)
		old.typ = lt
		es, ok := listElems(q.st, e.Args[1])
		k, kn := q.st.shape[old]
		if !r.check(ok && kn && int64(len(es)) >= k, "moved", b.name+" hiScope list", b.where, "the questions of a clause are not extended at the end") {
			return nil, false
		}
		for j := int64(0); j < k; j++ {
			if es[j] != loadOf(indexAddr(old, vInt(j))) {
				r.bad("moved", b.name+" hiScope list", b.where, "the questions of a clause are not extended at the end")
				return nil, false
			}
		}
		out = append(out, es[k:]...)
	}
	return out, true
}

// moved: a binding is moved to the top only if nothing in it is bound below, to
// the top of its clause only if it is a question; it is then remembered.
func (b *binder) moved() {
	l, q, r := b.l, b.q, b.r
	the, ok := b.additions("theScope")
	if !ok {
		return
	}
	hi, ok := b.hiAdditions()
	if !ok {
		return
	}
	theQ, _ := l.constStr("logic", "The")
	hiQ, _ := l.constStr("logic", "Hi")
	quant := func(o *V) (string, *V) {
		v := b.field(o, "Quantifier")
		if v == nil {
			return "", nil
		}
		if s, ok := v.strVal(); ok {
			return s, v
		}
		if c, ok := q.st.eqc[v]; ok {
			if s, ok := c.strVal(); ok {
				return s, v
			}
		}
		for a, t := range q.st.facts {
			if t && isEq(a) && (a.args[0] == v || a.args[1] == v) {
				for _, x := range a.args {
					if s, ok := x.strVal(); ok {
						return s, v
					}
				}
			}
		}
		return "", v
	}
	for _, o := range the {
		if !r.check(b.objNamed(o, "Binding"), "moved", b.name+" theScope", b.where, "something else than a new binding is moved to the top") {
			continue
		}
		s, _ := quant(o)
		r.check(s == theQ, "moved", b.name+" definite", b.where, "a binding that is not definite is moved to the top: "+s)
		closed := false
		for i := range q.st.events {
			e := &q.st.events[i]
			if e.Kind != "call" || e.St == nil || l.isRootEvent(e) {
				continue
			}
			if free, known := q.st.facts[e.Res]; !known || free {
				continue
			}
			for _, a := range e.Args {
				x := a
				for x.op == OIface {
					x = x.args[0]
				}
				if x == o {
					// asked when the restriction was complete
					c := e.St.heap[o.num]
					i := fieldIndex(q.st.otype[o.num], "Restriction")
					if c != nil && c.op == OStruct && c.args[i] == b.field(o, "Restriction") {
						closed = true
					}
				}
				if x.op == OCall && l.rootNamed(callName(x)) != nil {
					// asked about the only reading that the restriction has
					res := b.field(o, "Restriction")
					all, hit := true, false
					b.scan(res, func(y *V) bool {
						if y == x {
							hit = true
							return false
						}
						if y.op == OCall || y.op == OExtract {
							all = false
						}
						return true
					})
					if all && hit {
						closed = true
					}
				}
			}
		}
		r.check(closed, "moved", b.name+" closed", b.where, "a binding is moved to the top without having found it free of variables that are bound below, on "+q.st.factString())
	}
	for _, o := range hi {
		if !r.check(b.objNamed(o, "Binding"), "moved", b.name+" hiScope", b.where, "something else than a new binding is moved to the top of a clause") {
			continue
		}
		s, _ := quant(o)
		r.check(s == hiQ, "moved", b.name+" question", b.where, "a binding that is not a question is moved to the top of its clause: "+s)
	}
	if !l.pushes(q.fn) {
		return
	}
	// a phrase whose binding has moved is remembered
	for _, o := range append(append([]*V(nil), the...), hi...) {
		if !b.objNamed(o, "Binding") {
			continue
		}
		hit, asked := false, false
		for _, e := range q.st.events {
			if e.Kind == "mapset" && len(e.Args) == 3 && e.Args[2] == o {
				key := e.Args[1]
				hit = strip(key) == strip(b.field(o, "AST"))
				for a, t := range q.st.facts {
					if !t && a.op == OExtract && a.args[0].op == OLookup && a.args[0].args[0] == e.Args[0] && a.args[0].args[1] == key {
						asked = true
					}
				}
			}
		}
		r.check(hit, "remembered", b.name, b.where, "a phrase whose binding was moved is not remembered, so that it is bound again in another branch")
		r.check(asked, "remembered", b.name+" asked", b.where, "a binding is moved without asking whether the phrase has moved already")
	}
	for a, t := range q.st.facts {
		if t && a.op == OExtract && a.num == 1 && a.args[0].op == OLookup && types.Identical(a.args[0].typ, l.bindT) {
			ok := len(the) == 0 && len(hi) == 0 && len(q.o.Vals) == 2 && q.o.Vals[0].op == ONil
			if ok {
				w := strip(q.o.Vals[1])
				ok = b.objNamed(w, "Variable") && b.field(w, "Def") == a.args[0]
			}
			r.check(ok, "remembered", b.name+" again", b.where, "a phrase whose binding has moved is not read as the variable of that binding")
		}
	}
	// a definite binding that is handed to the caller is universal
	for _, t := range b.toks {
		if !t.own || len(q.o.Vals) == 0 || q.o.Vals[0] != t.v {
			continue
		}
		if len(b.bases("varScope")) > 0 && l.field(q.st, "varScope") != l.entry("varScope") {
			continue // a named variable
		}
		s, v := quant(t.v)
		if s == "" && v != nil {
			ok := true
			for _, c := range []string{theQ, hiQ} {
				if f, known := q.st.facts[eqAtom(v, vStr(c))]; !known || f {
					ok = false
				}
			}
			r.check(ok, "moved", b.name+" left in place", b.where, "a definite binding or a question is left in place: "+q.st.factString())
		} else {
			r.check(s != theQ && s != hiQ, "moved", b.name+" left in place", b.where, "a definite binding or a question is left in place")
		}
	}
}

func strip(v *V) *V {
	for v != nil && v.op == OIface {
		v = v.args[0]
	}
	return v
}

// nested: moved bindings are put over the whole in the order in which they arose.
func (b *binder) nested() {
	l, q, r := b.l, b.q, b.r
	top := false
	for _, p := range q.fn.Params {
		for _, n := range []string{"Discourse", "Text"} {
			if t := l.p.typ("ast", n); t != nil && types.Identical(derefT(p.Type()), t) {
				top = true
			}
		}
	}
	if top && len(q.o.Vals) == 1 {
		if len(b.calls) == 1 {
			e := &q.st.events[b.calls[0]]
			if f := l.rootNamed(e.Name); f != nil && strip(q.o.Vals[0]) == e.Res {
				for _, p := range f.Params {
					if t := l.p.typ("ast", "Discourse"); t != nil && types.Identical(derefT(p.Type()), t) {
						return // passed on
					}
				}
			}
		}
		list := l.field(q.st, "theScope")
		b.chain(list, q.o.Vals[0], "definite bindings")
	}
	n := 0
	for _, i := range b.calls {
		pushed, ok := b.hiAt(i)
		if !pushed || !ok {
			continue
		}
		n++
		e := &q.st.events[i]
		h := l.hav[e.Res]["hiScope"]
		k, known := q.st.shape[h]
		if !known || k == 0 {
			continue
		}
		list := q.st.load(indexAddr(h, vInt(k-1)), nil)
		b.chain(list, q.o.Vals[0], "questions")
		r.check(b.same(q.st, l.field(q.st, "hiScope"), l.entry("hiScope")), "restored", b.name+" clause", b.where, "a clause is not left: its questions would go to the clause that encloses the next statement")
		b.questions(list, i)
	}
	r.check(n <= 1, "order", b.name+" one clause", b.where, "one function reads two clauses")
}

// chain: v is the bindings of the list, first outermost, over the rest.
func (b *binder) chain(list, v *V, what string) {
	l, q, r := b.l, b.q, b.r
	es, ok := listElems(q.st, list)
	if !r.check(ok, "order", b.name+" "+what, b.where, "the moved "+what+" are not put over the result: on "+q.st.factString()) {
		return
	}
	x := strip(v)
	for i, e := range es {
		if !(x.op == OCall && l.bindFn != nil && callName(x) == fnName(l.bindFn) && len(x.args) == 2 && x.args[0] == e) {
			r.bad("order", b.name+" "+what, b.where, fmt.Sprintf("moved binding %d of %d is not number %d from the outside: %s", i, len(es), i, q.st.resolve(v).String()))
			return
		}
		x = strip(x.args[1])
	}
	if x.op == OCall && callName(x) == fnName(l.bindFn) && x.args[0].op == OLoad && x.args[0].args[0].op == OIAddr {
		r.bad("order", b.name+" "+what, b.where, "a moved binding is put over the result twice")
		return
	}
	r.ok("order", fmt.Sprintf("%s %s %d", b.name, what, len(es)))
}

// questions: when a question is put over its clause, only variables whose binding
// it has left are un-bound in it, and its phrase is forgotten.
func (b *binder) questions(list *V, call int) {
	l, q, r := b.l, b.q, b.r
	es, _ := listElems(q.st, list)
	vt := l.ist.Underlying().(*types.Struct).Field(fieldIndex(l.ist, "varScope")).Type()
	for i, el := range es {
		for _, e := range q.st.events[call+1:] {
			if e.Kind != "call" || e.St == nil || l.isRootEvent(&e) {
				continue
			}
			var sc *V
			mine := false
			for _, a := range e.Args {
				if a == el {
					mine = true
				}
				if a.typ != nil && types.Identical(a.typ, vt) || a.op == OSlice {
					sc = a
				}
			}
			if !mine || sc == nil {
				continue
			}
			have, ok := listElems(e.St, sc)
			if !ok {
				continue
			}
			names, okN := listElems(e.St, l.entry("varScope"))
			miss := ""
			if okN {
				for _, n := range names {
					hit := false
					for _, h := range have {
						if h == n {
							hit = true
						}
					}
					if !hit {
						miss = "a name in scope"
					}
				}
			}
			for j := 0; j <= i; j++ {
				hit := false
				for _, h := range have {
					if contains(h, es[j]) {
						hit = true
					}
				}
				if !hit {
					miss = fmt.Sprintf("question %d", j)
				}
			}
			r.check(miss == "", "un-bound", b.name+fmt.Sprintf(" question %d of %d", i, len(es)), b.where, "variables of "+miss+" are un-bound in a question within its scope")
		}
		forgotten := false
		for _, e := range q.st.events[call+1:] {
			if e.Kind == "mapdelete" && len(e.Args) == 2 {
				k := e.Args[1]
				for k.op == OIface || k.op == OAs {
					k = k.args[0]
				}
				if isFieldLoad(k, "AST") && k.args[0].args[0] == el {
					forgotten = true
				}
			}
		}
		r.check(forgotten, "remembered", b.name+" forgotten", b.where, "a phrase whose question was put over its clause stays marked as moved, so that the clause in another branch has the variable only")
	}
}

// variables: a variable has the number of its binding; other numbers are new.
func (b *binder) variables() {
	l, q, r := b.l, b.q, b.r
	fresh := map[*V]string{}
	stored := map[*V]bool{}
	na := l.fieldAddr("n")
	for _, e := range q.st.events {
		if e.Kind == "store" && len(e.Args) == 2 && e.Args[0] == na {
			stored[e.Args[1]] = true
		}
	}
	isFresh := func(n *V, who string) {
		if n == nil {
			return
		}
		ok := stored[n] || stored[addInts(n, vInt(1), 1)]
		r.check(ok, "number", b.name+" new", b.where, "the number of "+who+" is not a new one: "+n.String()+" on "+q.st.factString())
		if w, dup := fresh[n]; dup {
			r.bad("number", b.name+" distinct", b.where, who+" and "+w+" have the same number")
		}
		fresh[n] = who
	}
	var ids []int64
	for id := range q.st.otype {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	obj := func(id int64) *V { return mk(V{op: OObj, num: id, typ: q.st.otype[id]}) }
	for _, id := range ids {
		if o := obj(id); b.objNamed(o, "Binding") && q.st.heap[id].op == OStruct {
			isFresh(b.field(o, "N"), "a binding")
		}
	}
	var names, hoas []*V // what lookups found
	for _, id := range ids {
		o := obj(id)
		if !b.objNamed(o, "Variable") || q.st.heap[id].op != OStruct {
			continue
		}
		def, n := b.field(o, "Def"), b.field(o, "N")
		if def.op == ONil {
			isFresh(n, "an unbound variable")
			continue
		}
		var want *V
		if def.op == OObj {
			want = b.field(def, "N")
		} else {
			want = q.st.load(fieldAddr(def, fieldIndex(derefT(l.bindT), "N"), derefT(l.bindT)), nil)
		}
		r.check(n == want, "number", b.name+" bound", b.where, "a variable does not have the number of its binding: "+n.String()+" but "+fmt.Sprint(want))
		if isFieldLoad(def, "def") {
			names = append(names, def)
		}
		if def.op == OLoad && def.args[0].op == OIAddr && def.args[0].args[0] == l.entry("hoaScope") {
			hoas = append(hoas, def)
		}
	}
	// names: the innermost binding of the name
	scope := l.entry("varScope")
	for _, d := range names {
		el := d.args[0].args[0]
		if el.op != OIAddr || el.args[0] != scope {
			r.bad("name", b.name, b.where, "a name is looked up somewhere else than among the names in scope: "+d.String())
			continue
		}
		i, _ := el.args[1].intVal()
		k := q.st.shape[scope]
		same := func(j int64) (bool, bool) {
			for a, t := range q.st.facts {
				if isEq(a) {
					for _, x := range a.args {
						if isFieldLoad(x, "v") && x.args[0].args[0] == indexAddr(scope, vInt(j)) {
							return t, true
						}
					}
				}
			}
			return false, false
		}
		t, known := same(i)
		r.check(known && t, "name", b.name+" same", b.where, "a variable gets the binding of another name")
		for j := i + 1; j < k; j++ {
			t, known := same(j)
			r.check(known && !t, "name", b.name+" innermost", b.where, "a variable gets an outer binding of its name although an inner one may be in scope")
		}
	}
	for _, d := range hoas {
		i, isC := d.args[0].args[1].intVal()
		k, known := q.st.shape[l.entry("hoaScope")]
		r.check(isC && known && i == k-1, "hoa", b.name+" innermost", b.where, "hoa does not stand for the innermost variable")
	}
	b.found(names, hoas)
}

// found: a name that is in scope is read as its binding, and so is hoa.
func (b *binder) found(names, hoas []*V) {
	l, q, r := b.l, b.q, b.r
	scope := l.entry("varScope")
	k, known := q.st.shape[scope]
	pushed := l.pushes(q.fn) && l.field(q.st, "varScope") != scope && len(b.bases("varScope")) == 1
	isVar, isHoa := false, false
	for a, t := range q.st.facts {
		if t && a.op == OExtract && a.num == 2 && a.args[0].op == OCall && strings.HasSuffix(callName(a.args[0]), "isVariablePredicate") {
			isVar = true
		}
		if t && a.op == OCall && strings.HasSuffix(callName(a), "isHoaPredicate") {
			isHoa = true
		}
	}
	if isVar && !pushed {
		if !known {
			r.bad("name", b.name+" looked up", b.where, "a variable is read without looking for its name among those in scope")
			return
		}
		any := false
		for a, t := range q.st.facts {
			if isEq(a) && t {
				for _, x := range a.args {
					if isFieldLoad(x, "v") {
						any = true
					}
				}
			}
		}
		if any {
			r.check(len(names) > 0, "name", b.name+" found", b.where, "a variable whose name is in scope is not read as its binding")
		} else {
			none := 0
			for a, t := range q.st.facts {
				if isEq(a) && !t {
					for _, x := range a.args {
						if isFieldLoad(x, "v") {
							none++
						}
					}
				}
			}
			r.check(int64(none) >= k, "name", b.name+" all looked at", b.where, "a variable is read as unbound although not all names in scope were looked at")
		}
	}
	if isHoa && !isVar {
		k, known := q.st.shape[l.entry("hoaScope")]
		if !known {
			r.bad("hoa", b.name+" looked up", b.where, "hoa is read without looking at what it stands for")
		} else if k > 0 {
			r.check(len(hoas) > 0, "hoa", b.name+" found", b.where, "hoa is not read as the variable that it stands for")
		}
	}
}

// checkBindFn: a scope goes below the innermost binding of a chain.
func (l *lgen) checkBindFn(r *Report) {
	if l.bindFn == nil {
		r.assumption("no function puts a binding over a statement; bindings get their scope where they are made")
		return
	}
	bt := derefT(l.bindT)
	si := fieldIndex(bt, "Scope")
	for n := 0; n <= 3; n++ {
		e := newEng(l.p)
		e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
			if fn == l.bindFn && len(e.stack) < 8 {
				return ActInline
			}
			return ActDefault
		}
		st := newState()
		stmt := vSym("stmt", l.stT)
		var objs []*V
		for i := 0; i < n; i++ {
			objs = append(objs, st.newObj(bt, st.expand(vSym(fmt.Sprintf("b%d", i), bt), bt), 0))
		}
		for i, o := range objs {
			next := vNil
			if i+1 < n {
				next = mkIface(l.bindT, objs[i+1])
			}
			st.storeObj(fieldAddr(o, si, bt), next)
		}
		arg := vNil
		if n > 0 {
			arg = objs[0]
		}
		name := fmt.Sprintf("%s over %d", fnName(l.bindFn), n)
		where := l.p.pos(l.bindFn.Pos())
		outs := e.Run(l.bindFn, st, arg, stmt)
		cnt := 0
		for _, o := range outs {
			if o.Kind != Ret {
				r.bad("bind", name, where, "the function does not return")
				continue
			}
			cnt++
			got := strip(o.Vals[0])
			if n == 0 {
				r.check(got == stmt, "bind", name, where, "without a binding the statement is not returned as it is")
				continue
			}
			ok := got == objs[0]
			for i, x := range objs {
				c := o.St.heap[x.num]
				for f, a := range c.args {
					want := fieldOf(vSym(fmt.Sprintf("b%d", i), bt), f, bt)
					if f == si {
						want = stmt
						if i+1 < n {
							want = objs[i+1]
						}
						a = strip(a)
					}
					if a != want {
						ok = false
					}
				}
			}
			r.check(ok, "bind", name, where, "the statement is not put below the innermost binding, with everything else as before: "+o.St.resolve(o.Vals[0]).String())
		}
		r.check(cnt > 0, "bind", name+" paths", where, "no path")
	}
}

// checkFree: the search for variables that are bound below.
func (l *lgen) checkFree(r *Report) {
	used := map[string]bool{}
	for _, ps := range l.runs {
		for _, q := range ps {
			for _, e := range q.st.events {
				if e.Kind == "call" {
					used[e.Name] = true
				}
			}
		}
	}
	for _, f := range l.p.allFuncs("logic") {
		if !l.visitQ[f] || f.Parent() != nil || !used[fnName(f)] {
			continue
		}
		l.checkWalker(f, r)
	}
}

// checkWalker: a function that walks a formula to look for variables whose
// binding is not among those that it was given or that it passed.
func (l *lgen) checkWalker(f *ssa.Function, r *Report) {
	name := fnName(f)
	where := l.p.pos(f.Pos())
	e := l.eng()
	base := e.Policy
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		if fn == f {
			return ActDefault
		}
		return base(fn, args, st)
	}
	type visit struct {
		st *State
		cl *V
	}
	var vs []visit
	e.After = func(st *State, nm string, fn *ssa.Function, args []*V, res *V) {
		for _, a := range args {
			if a.op == OClosure {
				vs = append(vs, visit{st.clone(), a})
				for i, fv := range a.fn.FreeVars {
					if i < len(a.args) && a.args[i].op == OObj && storesTo(a.fn, fv) {
						st.heap[a.args[i].num] = vSym("walked", st.otype[a.args[i].num])
					}
				}
			}
		}
	}
	st := newState()
	var args []*V
	for _, q := range f.Params {
		if types.Identical(q.Type(), l.iptr) {
			args = append(args, vSym("p:interp", l.iptr))
			continue
		}
		args = append(args, vSym("p:"+q.Name(), q.Type()))
	}
	outs := e.Run(f, st, args...)
	isSearch := f.Signature.Results().Len() == 1 && f.Signature.Results().At(0).Type() == types.Typ[types.Bool]
	for _, o := range outs {
		if o.Kind == Ret && isSearch {
			v := o.Vals[0]
			r.check(v.op == OSym && v.aux == "walked", "free", name+" result", where, "the result is not what the walk found: "+v.String())
		}
	}
	if !r.check(len(vs) > 0, "free", name+" walk", where, "the formula is not walked") {
		return
	}
	mapOf := func(st *State, cl *V) *V {
		for _, a := range cl.args {
			x := a
			if x.op == OObj {
				x = st.heap[x.num]
			}
			if x != nil && x.op == OMap {
				return x
			}
		}
		return nil
	}
	for _, v := range vs {
		m := mapOf(v.st, v.cl)
		if m == nil {
			r.assumption(name + " keeps the bindings that it passes in something else than a map and is not analysed")
			return
		}
		// what counts as bound at the start
		var keys []*V
		for _, en := range v.st.maps {
			if en.m == m {
				r.check(en.v == vTrue, "free", name+" start", where, "a binding is noted as not bound")
				keys = append(keys, en.k)
			}
		}
		has := func(k *V) bool {
			for _, x := range keys {
				if x == k {
					return true
				}
			}
			return false
		}
		nkeys := 0
		inList := func(lst *V, what string, def bool) {
			n, known := v.st.shape[lst]
			if !r.check(known, "free", name+" start "+what, where, "the bindings in "+what+" are not looked at") {
				return
			}
			for i := int64(0); i < n; i++ {
				el := loadOf(indexAddr(lst, vInt(i)))
				hit := false
				for _, k := range keys {
					if k == el || contains(k, indexAddr(lst, vInt(i))) {
						hit = true
						nkeys++
					}
				}
				r.check(hit, "free", name+" start "+what, where, "a binding in "+what+" does not count as bound")
			}
		}
		_ = has
		inList(l.entry("theScope"), "theScope", false)
		if !isSearch {
			inList(l.entry("hoaScope"), "hoaScope", false)
			for i, q := range f.Params {
				if sl, ok := q.Type().Underlying().(*types.Slice); ok && fieldIndex(sl.Elem(), "def") >= 0 {
					inList(args[i], "the given scope", true)
				}
			}
		} else {
			r.check(nkeys == len(keys), "free", name+" start others", where, "something that is not bound at the top counts as bound")
		}
		l.walkSteps(f, e, v.st, v.cl, m, isSearch, len(keys), r)
	}
}

func (l *lgen) walkSteps(f *ssa.Function, e *Eng, st0 *State, cl, m *V, isSearch bool, nkeys int, r *Report) {
	name := fnName(f)
	where := l.p.pos(cl.fn.Pos())
	nodeI, _ := l.p.typ("logic", "Node").Underlying().(*types.Interface)
	sc := l.p.pkgs["logic"].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		if _, isS := tn.Type().Underlying().(*types.Struct); !isS {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if nodeI == nil || !types.Implements(pt, nodeI) {
			continue
		}
		node := vSym("p:node", pt)
		st := st0.clone()
		ne := len(st.events)
		e.steps = 0
		for _, o := range e.exec(cl.fn, cl.args, []*V{mkIface(pt, node)}, st) {
			what := name + " at " + n
			if o.Kind != Ret {
				r.bad("free", what, where, "the step does not return")
				continue
			}
			// the flag
			changed := false
			for _, a := range cl.args {
				if a.op == OObj && types.Identical(o.St.otype[a.num], types.Typ[types.Bool]) {
					b0, b1 := st0.heap[a.num], o.St.heap[a.num]
					if b0 != b1 {
						changed = true
						r.check(isSearch && b1 == vTrue, "free", what+" flag", where, "the search is set to something else than found")
					}
				}
			}
			noted := false
			var stores []*Event
			for i := ne; i < len(o.St.events); i++ {
				ev := &o.St.events[i]
				switch {
				case ev.Kind == "mapset" && ev.Args[0] == m && ev.Args[1] == node && ev.Args[2] == vTrue && n == "Binding":
					noted = true
				case ev.Kind == "store" && rootIsInterp(ev.Args[0]):
				case ev.Kind == "store":
					stores = append(stores, ev)
				case ev.Kind == "mapset" || ev.Kind == "mapdelete":
					r.bad("free", what+" notes", where, "something else than a passed binding is noted as bound")
				}
			}
			if n == "Binding" {
				r.check(noted, "free", what, where, "a binding that is passed does not count as bound for the variables below it")
			}
			if n != "Variable" {
				r.check(!changed && len(stores) == 0, "free", what+" only", where, "a node that is not a variable counts as a free variable, or is changed")
				continue
			}
			def := loadOf(fieldAddr(node, fieldIndex(tn.Type(), "Def"), tn.Type()))
			isNil, nilKnown := o.St.facts[eqAtom(def, vNil)]
			bound, asked := false, nkeys == 0
			for a, t := range o.St.facts {
				x := a
				if x.op == OExtract {
					x = x.args[0]
				}
				if (x.op == OCall || x.op == OLookup) && len(x.args) == 2 && x.args[0] == m && x.args[1] == def {
					bound, asked = t, true
				}
			}
			free := !isNil && !bound
			r.check(!free || nilKnown, "free", what+" unbound", where, "a variable that was unbound from the start counts as one that a binding has left")
			if isSearch {
				r.check(changed == free && (isNil || asked), "free", what+" found", where, fmt.Sprintf("a variable counts as free: %v, but it is: %v", changed, free))
				r.check(len(stores) == 0, "free", what+" read only", where, "a variable is changed by the search")
				continue
			}
			if !free {
				r.check(len(stores) == 0, "free", what+" kept", where, "a variable that is bound, or was unbound before, is changed")
				continue
			}
			def1 := o.St.load(fieldAddr(node, fieldIndex(tn.Type(), "Def"), tn.Type()), nil)
			n1 := o.St.load(fieldAddr(node, fieldIndex(tn.Type(), "N"), tn.Type()), nil)
			stored := false
			for i := ne; i < len(o.St.events); i++ {
				ev := &o.St.events[i]
				if ev.Kind == "store" && ev.Args[0] == l.fieldAddr("n") && (ev.Args[1] == n1 || ev.Args[1] == addInts(n1, vInt(1), 1)) {
					stored = true
				}
			}
			r.check(def1.op == ONil && stored, "free", what+" un-bound", where, "a variable that the binding has left is not un-bound under a new number")
		}
	}
}

func rootIsInterp(a *V) bool {
	for a.op == OFAddr || a.op == OIAddr {
		a = a.args[0]
	}
	return a.op == OSym && a.aux == "p:interp"
}
