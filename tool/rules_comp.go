package main

// C23: what a phrase means is composed of the readings of its parts.
//
// For every path of every interpretation function: each part of each phrase that
// the path takes apart occurs in what the path makes (rule "part"); each binding
// that the path makes is restricted by the readings of the parts of its phrase and
// by nothing else (rule "restriction"), under the quantifier of its phrase (rule
// "quantifier"); the argument that stands for a phrase is the variable of its
// binding (rule "stands-for"); λ-functions are made of a λ-binding and what is in
// its scope (rule "lambda"); the halves of serial predicates keep their sides
// (rule "side").

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type comp struct {
	p     *Program
	l     *lgen
	r     *Report
	nodeI *types.Interface
	read  map[*ssa.Function]map[int]bool
	paths map[*ssa.Function][]*lpath
	reach map[*lpath][]*V
	says  map[*ssa.Function]map[string]bool
	sides map[*ssa.Function]map[int]map[string]bool
}

func newComp(p *Program, r *Report) *comp {
	l := newLgen(p, r)
	if l == nil {
		return nil
	}
	nt := p.typ("ast", "Node")
	if !r.check(nt != nil, "anchor", "ast.Node", "-", "the type is missing") {
		return nil
	}
	x := &comp{p: p, l: l, r: r, read: map[*ssa.Function]map[int]bool{}, paths: map[*ssa.Function][]*lpath{}, reach: map[*lpath][]*V{},
		says: map[*ssa.Function]map[string]bool{}, sides: map[*ssa.Function]map[int]map[string]bool{}}
	x.nodeI = nt.Underlying().(*types.Interface)
	for _, f := range l.interps {
		for _, q := range l.paths(f, r) {
			switch q.o.Kind {
			case Cut:
				r.bad("undecided", fnName(f), p.pos(f.Pos()), "a path is not followed to its end")
			case Ret:
				x.paths[f] = append(x.paths[f], q)
			}
		}
	}
	return x
}

func ruleComp(p *Program, r *Report) {
	x := newComp(p, r)
	if x == nil {
		return
	}
	if os.Getenv("C23DUMP") != "" {
		x.dump()
		return
	}
	x.readers()
	x.roles()
	for _, f := range x.l.interps {
		for _, q := range x.paths[f] {
			x.parts(q)
			x.restricted(q)
			x.standsFor(q)
			x.lambdas(q)
			x.serials(q)
			x.quotes(q)
			x.plurals(q)
		}
	}
	r.assumption("lists of terms, sentences and moved bindings are followed up to length 3")
	r.assumption("an argument that is an operand of a connected predicate has only a predicate (the grammar)")
	r.atLeast("part", 60)
	r.atLeast("restriction", 15)
	r.atLeast("quantifier", 15)
	r.atLeast("stands-for", 15)
	r.atLeast("lambda", 5)
	r.atLeast("side", 1)
	r.atLeast("quote", 2)
	r.atLeast("plural", 1)
}

// ---- what a path makes

// made lists the values that what the path returns, or binds, is made of.
func (x *comp) made(q *lpath) []*V {
	if vs, ok := x.reach[q]; ok {
		return vs
	}
	seen := map[*V]bool{}
	var out []*V
	var walk func(v *V)
	walk = func(v *V) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		out = append(out, v)
		switch v.op {
		case OObj:
			c, t := q.st.heap[v.num], q.st.otype[v.num]
			if c == nil {
				return
			}
			s, isStruct := t.Underlying().(*types.Struct)
			if c.op == OStruct && isStruct {
				logic := x.isLogic(t)
				for i, a := range c.args {
					if logic && i < s.NumFields() && s.Field(i).Name() == "AST" {
						continue
					}
					walk(a)
				}
				return
			}
			walk(c)
		case OSlice:
			if es, ok := listElems(q.st, v); ok {
				for _, e := range es {
					walk(e)
				}
			}
			for _, a := range v.args {
				walk(a)
			}
		case OCall:
			g := x.l.rootNamed(callName(v))
			for i, a := range v.args {
				if g != nil && i < len(g.Params) {
					if types.Identical(g.Params[i].Type(), x.l.iptr) || x.isAst(g.Params[i].Type()) && !isList(g.Params[i].Type()) && x.read[g] != nil && !x.read[g][i] {
						continue
					}
				}
				walk(a)
			}
		case OStruct:
			for i, a := range v.args {
				if s, ok := v.typ.Underlying().(*types.Struct); ok && x.isLogic(v.typ) && i < s.NumFields() && s.Field(i).Name() == "AST" {
					continue
				}
				walk(a)
			}
		default:
			for _, a := range v.args {
				walk(a)
			}
		}
	}
	for _, v := range q.o.Vals {
		walk(v)
	}
	for _, o := range x.objects(q, "Binding") {
		walk(o)
	}
	x.reach[q] = out
	return out
}

func (x *comp) isLogic(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() == x.l.ist.(*types.Named).Obj().Pkg()
}

// isAst tells whether values of t are syntax nodes.
func (x *comp) isAst(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
		return false
	}
	return types.Implements(t, x.nodeI) || types.Implements(types.NewPointer(n), x.nodeI)
}

// objects lists the values of a type of package logic that the path makes.
func (x *comp) objects(q *lpath, name string) []*V {
	var out []*V
	for id, t := range q.st.otype {
		n := namedOf(t)
		if _, ptr := t.(*types.Pointer); ptr || n == nil || n.Obj().Name() != name || !x.isLogic(t) || q.st.heap[id] == nil || q.st.heap[id].op != OStruct {
			continue
		}
		out = append(out, mk(V{op: OObj, num: id, typ: t}))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].num < out[j].num })
	return out
}

func (x *comp) field(q *lpath, o *V, name string) *V {
	o = core(o)
	if o == nil || o.op != OObj {
		return nil
	}
	c, t := q.st.heap[o.num], q.st.otype[o.num]
	i := fieldIndex(t, name)
	if c == nil || c.op != OStruct || i < 0 {
		return nil
	}
	return c.args[i]
}

// isMade tells whether v is a made value of the named type.
func (x *comp) isMade(q *lpath, v *V, name string) bool {
	v = core(v)
	if v == nil || v.op != OObj {
		return false
	}
	n := namedOf(q.st.otype[v.num])
	return n != nil && n.Obj().Name() == name && x.isLogic(n)
}

// ---- phrases and their parts

// phraseParts names the fields of a phrase that have a meaning of their own:
// not words and what is attached to them, and not the terms of a prenex, which
// are passed on as a list (C22).
func (x *comp) phraseParts(t types.Type) []string {
	n := namedOf(t)
	if n == nil || !x.isAst(n) {
		return nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []string
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		ft := f.Type()
		if x.l.isWord(ft) || !x.isAst(ft) || f.Name() == "Prenex" || ptrName(ft) == "Mod" {
			continue
		}
		out = append(out, f.Name())
	}
	return out
}

// isPart tells whether v is the named part of a phrase, or its address.
func isPart(v, phrase *V, name string) bool {
	v = core(v)
	if v.op == OLoad {
		v = v.args[0]
	}
	if v.op != OFAddr || v.typ == nil || fieldName(derefT(v.typ), int(v.num)) != name {
		return false
	}
	return core(v.args[0]) == phrase
}

// anyPart tells whether v is a part of a phrase, and which.
func anyPart(v *V) (phrase *V, name string) {
	v = core(v)
	if v.op == OLoad {
		v = v.args[0]
	}
	if v.op != OFAddr || v.typ == nil {
		return nil, ""
	}
	return core(v.args[0]), fieldName(derefT(v.typ), int(v.num))
}

// phrases lists the phrases that the path knows the kind of.
func (x *comp) phrases(q *lpath) map[*V]types.Type {
	out := map[*V]types.Type{}
	for v, t := range q.st.dyn {
		if _, ok := t.(*types.Pointer); ok && x.isAst(t) && len(x.phraseParts(t)) > 0 {
			out[core(v)] = derefT(t)
		}
	}
	for i, f := range q.fn.Params {
		t := f.Type()
		if _, ok := t.(*types.Pointer); ok && x.isAst(t) && x.read[q.fn][i] && len(x.phraseParts(t)) > 0 {
			out[q.params[i]] = derefT(t)
		}
	}
	return out
}

// isNil tells what the path knows of whether a part is absent.
func (x *comp) isNil(q *lpath, phrase *V, name string) (isNil, known bool) {
	for v, n := range q.st.shape {
		if n == 0 && core(v).op == OLoad && isPart(v, phrase, name) {
			return true, true
		}
	}
	for a, b := range q.st.facts {
		if !isEq(a) {
			continue
		}
		for k := 0; k < 2; k++ {
			if a.args[k] == vNil && a.args[1-k].op == OLoad && isPart(a.args[1-k], phrase, name) {
				return b, true
			}
		}
	}
	return false, false
}

// readers finds out which of their syntax parameters the functions read; others
// are only what formula nodes refer to (C19).
func (x *comp) readers() {
	for _, f := range x.l.interps {
		m := map[int]bool{}
		for i, pr := range f.Params {
			if !x.isAst(pr.Type()) {
				continue
			}
			for _, q := range x.paths[f] {
				if _, ok := q.st.dyn[q.params[i]]; ok {
					m[i] = true
				}
				for a := range q.st.facts {
					if a.op == OImpl && a.args[0] == q.params[i] {
						m[i] = true
					}
				}
			}
		}
		x.read[f] = m
	}
	for again := true; again; {
		again = false
		x.reach = map[*lpath][]*V{}
		for _, f := range x.l.interps {
			for i, pr := range f.Params {
				if !x.isAst(pr.Type()) || x.read[f][i] {
					continue
				}
				for _, q := range x.paths[f] {
					if x.readsOn(q, q.params[i]) {
						x.read[f][i] = true
						again = true
						break
					}
				}
			}
		}
	}
	x.reach = map[*lpath][]*V{}
}

func (x *comp) readsOn(q *lpath, param *V) bool {
	for _, v := range x.made(q) {
		if v.op == OFAddr && core(v.args[0]) == param || v.op == OLoad && v.args[0] == param {
			return true
		}
		if v.op == OCall && x.passes(v, param) {
			return true
		}
	}
	return false
}

// passes tells whether a call reads the whole of a phrase.
func (x *comp) passes(c, phrase *V) bool {
	g := x.l.rootNamed(callName(c))
	for i, a := range c.args {
		if core(a) != phrase {
			continue
		}
		if g == nil || i < len(g.Params) && x.read[g][i] {
			return g != nil || x.l.bindFn == nil || callName(c) != fnName(x.l.bindFn)
		}
	}
	return false
}

// parts: each part of a phrase occurs in what is made of it.
func (x *comp) parts(q *lpath) {
	where := x.p.pos(q.o.Pos)
	ps := x.phrases(q)
	var keys []*V
	for v := range ps {
		keys = append(keys, v)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	used := x.made(q)
next:
	for _, v := range keys {
		t := ps[v]
		for _, u := range used {
			if u.op == OCall && x.passes(u, v) {
				continue next
			}
		}
		if x.lifted(q, v) {
			continue
		}
		kind := ""
		if ptrName(t) == "PredicateArgument" {
			kind = x.argKind(q, v)
		}
		for _, name := range x.phraseParts(t) {
			if n, known := x.isNil(q, v, name); known && n {
				continue
			}
			if name == "Predicate" && (kind == "variable" || kind == "hoa") {
				continue
			}
			if ptrName(t) == "PredicateArgument" && name != "Predicate" && x.asPredicate(q, v) {
				continue
			}
			if x.passedWhole(q, v, used) {
				continue
			}
			hit := x.takesPart(q, v, t, name, used)
			x.r.check(hit, "part", fnName(q.fn)+" "+ptrName(t)+"."+name, where,
				"a part of the phrase does not take part in what is made of it, on "+trunc(pathFacts(q.st), 900))
		}
	}
	// sentences of a discourse
	sent := x.p.typ("ast", "Sentence")
	if sent == nil {
		return
	}
	for a, b := range q.st.facts {
		if a.op != OImpl || !b || !types.Identical(a.typ, sent) {
			continue
		}
		e := core(a.args[0])
		if frag := x.p.typ("ast", "Fragment"); frag != nil && x.knownImpl(q, e, frag) {
			continue
		}
		hit := false
		for _, u := range used {
			if core(u) == e {
				hit = true
				break
			}
		}
		x.r.check(hit, "part", fnName(q.fn)+" sentence", where, "a sentence does not take part in what is made of the discourse, on "+trunc(pathFacts(q.st), 900))
	}
}

// takesPart tells whether a part of a phrase is in what is made. Of a part that is
// a phrase in place, either the whole is, or each part.
func (x *comp) takesPart(q *lpath, v *V, t types.Type, name string, used []*V) bool {
	var ft types.Type
	if i := fieldIndex(t, name); i >= 0 {
		ft = t.Underlying().(*types.Struct).Field(i).Type()
	}
	hit := false
	for _, u := range used {
		if !isPart(u, v, name) {
			continue
		}
		if ft == nil || len(x.phraseParts(ft)) == 0 {
			return true
		}
		if _, ok := ft.Underlying().(*types.Struct); !ok {
			return true
		}
		// a phrase in place
		if core(u).op == OLoad {
			return true
		}
		all := true
		for _, p := range x.phraseParts(ft) {
			if n, known := x.isNil(q, core(u), p); known && n {
				continue
			}
			all = all && x.takesPart(q, core(u), ft, p, used)
		}
		hit = hit || all
		for _, c := range used {
			if c.op == OCall && x.passes(c, core(u)) {
				return true
			}
		}
	}
	return hit
}

func (x *comp) knownImpl(q *lpath, v *V, it types.Type) bool {
	for a, b := range q.st.facts {
		if a.op == OImpl && b && core(a.args[0]) == v && types.Identical(a.typ, it) {
			return true
		}
	}
	return false
}

// passedWhole tells whether the phrase v is an element of a list or a part that
// is passed on without its parts being told apart.
func (x *comp) passedWhole(q *lpath, v *V, used []*V) bool {
	for _, u := range used {
		if u.op != OObj {
			continue
		}
		t := q.st.otype[u.num]
		s, isStruct := t.Underlying().(*types.Struct)
		if c := q.st.heap[u.num]; c != nil && c.op == OStruct && isStruct {
			for i, a := range c.args {
				if core(a) == v && !(x.isLogic(t) && s.Field(i).Name() == "AST") {
					return true
				}
			}
		}
	}
	return false
}

// asPredicate tells whether the path reads an argument as a predicate.
func (x *comp) asPredicate(q *lpath, v *V) bool {
	arg := x.p.typ("logic", "Argument")
	rs := q.fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if arg != nil && types.Identical(rs.At(i).Type(), arg) || types.Identical(rs.At(i).Type(), x.l.stT) {
			return false
		}
	}
	return true
}

// lifted tells whether the path found the binding of v among those moved up.
func (x *comp) lifted(q *lpath, v *V) bool {
	for a, b := range q.st.facts {
		if b && a.op == OExtract && a.num == 1 && a.args[0].op == OLookup && len(a.args[0].args) == 2 && core(a.args[0].args[1]) == v {
			if m := a.args[0].args[0].typ; m != nil {
				if mt, ok := m.Underlying().(*types.Map); ok && types.Identical(mt.Elem(), x.l.bindT) {
					return true
				}
			}
		}
	}
	return false
}

// consts lists the constant strings that a function mentions, itself or by the
// functions of the repository that it calls.
func (x *comp) consts(f *ssa.Function) map[string]bool {
	if m, ok := x.says[f]; ok {
		return m
	}
	m := map[string]bool{}
	x.says[f] = m
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, o := range in.Operands(nil) {
				if c, ok := (*o).(*ssa.Const); ok && c.Value != nil && isString(c.Type()) {
					m[strings.Trim(c.Value.ExactString(), `"`)] = true
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && x.p.inRepo(g) && strings.HasSuffix(g.Pkg.Pkg.Path(), "/logic") {
					for k := range x.consts(g) {
						m[k] = true
					}
				}
			}
		}
	}
	return m
}

// asks tells which question about an argument's predicate a fact answers.
func (x *comp) asks(q *lpath, a, v *V) string {
	pred, name, said := false, false, map[string]bool{}
	walkTerm(a, func(y *V) bool {
		if y.op == OLoad || y.op == OFAddr {
			if isPart(y, v, "Predicate") {
				pred = true
			}
		}
		if s, ok := y.strVal(); ok {
			said[s] = true
		}
		if y.op == OCall {
			if g := x.fn(callName(y)); g != nil {
				rs := g.Signature.Results()
				for i := 0; i < rs.Len(); i++ {
					if isString(rs.At(i).Type()) && rs.Len() > 1 {
						name = true
					}
				}
				for k := range x.consts(g) {
					said[k] = true
				}
			}
		}
		return true
	}, map[*V]bool{})
	switch {
	case !pred:
		return ""
	case name:
		return "variable"
	case said["hoa"]:
		return "hoa"
	}
	return ""
}

func (x *comp) fn(name string) *ssa.Function {
	for _, f := range x.p.allFuncs("logic") {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

// argKind tells what kind of argument v is: one whose predicate is a variable, is
// hoa, or is another predicate; "" if the path does not tell.
func (x *comp) argKind(q *lpath, v *V) string {
	no := map[string]bool{}
	for a, b := range q.st.facts {
		if a.op == OTypeIs && isPart(a.args[0], v, "Predicate") && strings.HasSuffix(shortType(a.typ), "WordPredicate") && !b {
			return "plain"
		}
		k := x.asks(q, a, v)
		if k == "" || a.op == OTypeIs {
			continue
		}
		if b {
			return k
		}
		no[k] = true
	}
	if no["hoa"] && no["variable"] {
		return "plain"
	}
	return ""
}

// ---- bindings

func flattenAnd(x *comp, q *lpath, v *V) []*V {
	v = core(v)
	if v == nil || v == vNil {
		return nil
	}
	if x.isMade(q, v, "Connection") {
		and, _ := x.l.constStr("logic", "And")
		if s, ok := x.field(q, v, "Connector").strVal(); ok && s == and {
			return append(flattenAnd(x, q, x.field(q, v, "Left")), flattenAnd(x, q, x.field(q, v, "Right"))...)
		}
	}
	return []*V{v}
}

// variables lists the variables that v is made of, outside of other bindings.
func (x *comp) variables(q *lpath, v *V) []*V {
	var out []*V
	seen := map[*V]bool{}
	var walk func(v *V)
	walk = func(v *V) {
		v = core(v)
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch v.op {
		case OObj:
			if x.isMade(q, v, "Variable") {
				out = append(out, v)
				return
			}
			if x.isAst(q.st.otype[v.num]) || x.isMade(q, v, "Binding") {
				return
			}
			if c := q.st.heap[v.num]; c != nil {
				walk(c)
			}
		case OSlice:
			if es, ok := listElems(q.st, v); ok {
				for _, e := range es {
					walk(e)
				}
			}
		case OStruct:
			for _, a := range v.args {
				walk(a)
			}
		}
	}
	walk(v)
	return out
}

func (x *comp) isVar(q *lpath, v, b *V) bool {
	return x.isMade(q, v, "Variable") && core(x.field(q, v, "Def")) == b
}

// conjunct tells what a part of the restriction of the binding b for the phrase n
// says of it.
func (x *comp) conjunct(q *lpath, c, b, n *V) string {
	if c.op == OCall && x.l.rootNamed(callName(c)) != nil {
		hasPred, hasRel, hasL, hasR := false, false, false, false
		vars := map[*V]bool{}
		for _, a := range c.args {
			hasPred = hasPred || core(a).op == OLoad && isPart(a, n, "Predicate")
			hasRel = hasRel || core(a).op == OLoad && isPart(a, n, "Relative")
			hasL = hasL || core(a).op == OLoad && isPart(a, n, "Left")
			hasR = hasR || core(a).op == OLoad && isPart(a, n, "Right")
			for _, v := range x.variables(q, a) {
				vars[v] = true
			}
		}
		one := false
		if len(vars) == 1 {
			for v := range vars {
				one = x.isVar(q, v, b)
			}
		}
		switch {
		case hasPred && one && !hasRel:
			return "predicate"
		case hasRel && !hasPred && len(vars) == 0:
			return "relative"
		case hasL && hasR && one:
			return "plural"
		}
		return ""
	}
	if !x.isMade(q, c, "Predication") {
		return ""
	}
	pred := core(x.field(q, c, "Predicate"))
	args, ok := listElems(q.st, x.field(q, c, "Arguments"))
	if !ok || pred == nil {
		return ""
	}
	if x.isMade(q, pred, "Pred") {
		name, _ := x.field(q, pred, "Name").strVal()
		among, _ := x.l.constStr("logic", "Among")
		equal, _ := x.l.constStr("logic", "Equal")
		switch {
		case name == among && len(args) == 2 && x.isVar(q, args[0], b) && x.isMade(q, args[1], "Variable") && !x.isVar(q, args[1], b):
			return "among"
		case name == equal && len(args) == 2 && x.isVar(q, args[0], b) && x.isMade(q, args[1], "Plurality"):
			return "plural"
		}
		return ""
	}
	if x.isMade(q, pred, "Abstraction") && len(args) == 1 && x.isVar(q, args[0], b) {
		if x.contentOf(q, pred) {
			return "content"
		}
	}
	return ""
}

// contentOf tells whether an abstraction is the λ-function of being some clause.
func (x *comp) contentOf(q *lpath, a *V) bool {
	lam := core(x.field(q, a, "Statement"))
	if !x.isMade(q, lam, "Binding") {
		return false
	}
	eq := core(x.field(q, lam, "Scope"))
	if !x.isMade(q, eq, "Predication") {
		return false
	}
	equal, _ := x.l.constStr("logic", "Equal")
	pred := core(x.field(q, eq, "Predicate"))
	args, ok := listElems(q.st, x.field(q, eq, "Arguments"))
	if !ok || len(args) != 2 || !x.isMade(q, pred, "Pred") || !x.isVar(q, args[0], lam) || !x.isMade(q, args[1], "Abstraction") {
		return false
	}
	if n, _ := x.field(q, pred, "Name").strVal(); n != equal {
		return false
	}
	return x.reading(q, x.field(q, args[1], "Statement"))
}

// reading tells whether v is what a clause was read as.
func (x *comp) reading(q *lpath, v *V) bool {
	v = core(v)
	if v == nil || v.op != OCall {
		return false
	}
	if x.l.bindFn != nil && callName(v) == fnName(x.l.bindFn) {
		return len(v.args) == 2 && x.reading(q, v.args[1])
	}
	return x.l.rootNamed(callName(v)) != nil && v.typ != nil && types.Identical(v.typ, x.l.stT)
}

func (x *comp) restricted(q *lpath) {
	lam, _ := x.l.constStr("logic", "Lambda")
	all, _ := x.l.constStr("logic", "All")
	the, _ := x.l.constStr("logic", "The")
	where := x.p.pos(q.o.Pos)
	b := x.l.binder(q, newReport("C23"), map[*ssa.Function]bool{})
	tops, _ := b.additions("theScope")
	for _, o := range x.objects(q, "Binding") {
		name := fnName(q.fn)
		qv := x.field(q, o, "Quantifier")
		if qv == nil {
			continue
		}
		n := core(x.field(q, o, "AST"))
		restr := x.field(q, o, "Restriction")
		if s, ok := qv.strVal(); ok && s == lam {
			x.r.check(core(restr) == vNil, "restriction", name+" λ", where, "a λ-binding has a restriction")
			continue
		}
		kind := dynName(q.st, n)
		if kind == "" && n.typ != nil {
			if _, ptr := n.typ.(*types.Pointer); ptr {
				kind = ptrName(n.typ)
			}
		}
		top := false
		for _, t := range tops {
			top = top || core(t) == o
		}
		// the quantifier
		s, isConst := qv.strVal()
		good, why := false, ""
		switch {
		case !isConst:
			walkTerm(qv, func(y *V) bool {
				if (y.op == OLoad || y.op == OFAddr) && isPart(y, n, "Quantifier") {
					good = true
				}
				return !good
			}, map[*V]bool{})
			why = "the quantifier is not that of the phrase"
		case kind == "PredicateArgument":
			absent, known := x.isNil(q, n, "Quantifier")
			good = s == all && (known && absent || x.readsThe(q, n, the)) || s == the && (known && absent || x.readsThe(q, n, the))
			why = "the quantifier of the phrase is not kept"
		case kind == "CoPArgument":
			good, why = s == the, "the things together are not definite"
		default:
			good = s == the && top || s == all && !top
			why = "what a clause describes is not definite at the top, or quantified over by all within"
		}
		x.r.check(good, "quantifier", fmt.Sprintf("%s %s", name, kind), where, why+": "+qv.String()+" on "+trunc(pathFacts(q.st), 600))
		// the restriction
		cs := flattenAnd(x, q, restr)
		got := map[string]int{}
		for _, c := range cs {
			k := x.conjunct(q, c, o, n)
			if !x.r.check(k != "", "restriction", name+" "+kind+" conjunct", where,
				"the restriction has a part that is not the reading of a part of the phrase for this binding: "+trunc(x.show(q, c, map[int64]bool{}), 500)) {
				k = "?"
			}
			got[k]++
		}
		want := map[string]bool{}
		may := map[string]bool{}
		switch kind {
		case "PredicateArgument":
			noQuant, knownQ := x.isNil(q, n, "Quantifier")
			switch x.argKind(q, n) {
			case "plain":
				want["predicate"] = true
			case "hoa":
				want["among"] = true
			case "variable":
				if !(knownQ && !noQuant) {
					want["among"] = true
				}
			default:
				may["predicate"], may["among"] = true, true
				x.r.check(got["predicate"]+got["among"] == 1, "restriction", name+" argument", where, "the predicate of the phrase is not in the restriction of its binding")
			}
			if absent, known := x.isNil(q, n, "Relative"); !(known && absent) {
				want["relative"] = true
			}
		case "CoPArgument":
			want["plural"] = true
		default:
			want["content"] = true
		}
		for _, k := range []string{"predicate", "relative", "among", "plural", "content"} {
			switch {
			case want[k]:
				x.r.check(got[k] == 1, "restriction", name+" "+kind+" "+k, where,
					fmt.Sprintf("the restriction has %d instead of one %s, on %s", got[k], k, trunc(pathFacts(q.st), 600)))
			case !may[k]:
				x.r.check(got[k] == 0, "restriction", name+" "+kind+" no "+k, where,
					fmt.Sprintf("the restriction has a %s, which is not in the phrase, on %s", k, trunc(pathFacts(q.st), 600)))
			}
		}
	}
}

// readsThe tells whether the path knows that the quantifier word is a definite one.
func (x *comp) readsThe(q *lpath, n *V, the string) bool {
	for a, b := range q.st.facts {
		if !b || !isEq(a) {
			continue
		}
		for k := 0; k < 2; k++ {
			if s, ok := a.args[k].strVal(); ok && s == the {
				hit := false
				walkTerm(a.args[1-k], func(y *V) bool {
					if (y.op == OLoad || y.op == OFAddr) && isPart(y, n, "Quantifier") {
						hit = true
					}
					return !hit
				}, map[*V]bool{})
				if hit {
					return true
				}
			}
		}
	}
	return false
}

// standsFor: the argument that is returned for a phrase is the variable of the
// binding that was made for it.
func (x *comp) standsFor(q *lpath) {
	at := x.p.typ("logic", "Argument")
	rs := q.fn.Signature.Results()
	if at == nil || !x.l.pushes(q.fn) {
		return
	}
	where := x.p.pos(q.o.Pos)
	for i := 0; i < rs.Len(); i++ {
		if !types.Identical(rs.At(i).Type(), at) {
			continue
		}
		v := core(q.o.Vals[i])
		var own []*V
		var n *V
		for j, pr := range q.fn.Params {
			if _, ok := pr.Type().(*types.Pointer); !ok || !x.isAst(pr.Type()) {
				continue
			}
			n = q.params[j]
			for _, o := range x.objects(q, "Binding") {
				if core(x.field(q, o, "AST")) == n {
					own = append(own, o)
				}
			}
		}
		name := fnName(q.fn)
		if len(own) > 0 {
			x.r.check(len(own) == 1 && x.isVar(q, v, own[0]), "stands-for", name+" bound", where,
				"the argument is not the variable of the binding that was made for the phrase: "+trunc(x.show(q, v, map[int64]bool{}), 400))
			continue
		}
		if n == nil || v.op != OObj {
			continue
		}
		if x.lifted(q, n) {
			d := core(x.field(q, v, "Def"))
			x.r.check(d != nil && d != vNil && contains(d, n), "stands-for", name+" moved", where, "the argument is not the variable of the binding that was moved up")
			continue
		}
		if ptrName(n.typ) != "PredicateArgument" {
			x.r.bad("stands-for", name, where, "no binding is made for the phrase")
			continue
		}
		k := x.argKind(q, n)
		absent, known := x.isNil(q, n, "Quantifier")
		noRel, knownR := x.isNil(q, n, "Relative")
		x.r.check((k == "hoa" || k == "variable") && known && absent && knownR && noRel, "stands-for", name+" plain", where,
			"a phrase that is not just a variable is read without a binding of its own, on "+trunc(pathFacts(q.st), 600))
	}
}

// lambdas: an abstraction is of what a clause was read as, or a λ-function, whose
// first argument is its variable.
func (x *comp) lambdas(q *lpath) {
	lam, _ := x.l.constStr("logic", "Lambda")
	where := x.p.pos(q.o.Pos)
	for _, a := range x.objects(q, "Abstraction") {
		s := core(x.field(q, a, "Statement"))
		name := fnName(q.fn)
		if x.reading(q, s) {
			x.r.ok("lambda", name+" clause")
			// a λ-binding around it
			continue
		}
		if !x.isMade(q, s, "Binding") {
			x.r.bad("lambda", name, where, "an abstraction is not of a clause or a λ-function: "+trunc(x.show(q, s, map[int64]bool{}), 400))
			continue
		}
		if v, ok := x.field(q, s, "Quantifier").strVal(); !x.r.check(ok && v == lam, "lambda", name+" λ", where, "a function is not bound by λ") {
			continue
		}
		body := core(x.field(q, s, "Scope"))
		if x.reading(q, body) {
			hit := false
			for _, arg := range body.args {
				for _, v := range x.variables(q, arg) {
					hit = hit || x.isVar(q, v, s)
				}
			}
			for i := range q.st.events {
				// hoa stands for it
				if e := &q.st.events[i]; x.l.isRootEvent(e) && e.Res == body {
					if es, ok := listElems(e.St, x.l.field(e.St, "hoaScope")); ok && len(es) > 0 && core(es[len(es)-1]) == s {
						hit = true
					}
				}
			}
			x.r.check(hit, "lambda", name+" variable", where, "the variable of a λ-function is not in it")
			continue
		}
		args, ok := []*V(nil), x.isMade(q, body, "Predication")
		if ok {
			args, ok = listElems(q.st, x.field(q, body, "Arguments"))
		}
		x.r.check(ok && len(args) == 2 && x.isVar(q, args[0], s) && !x.isVar(q, args[1], s), "lambda", name+" arguments", where,
			"a λ-function does not apply a predicate to its variable and another thing: "+trunc(x.show(q, body, map[int64]bool{}), 400))
		if pred := core(x.field(q, body, "Predicate")); ok && x.isMade(q, pred, "Pred") {
			eq, _ := x.l.constStr("logic", "Equal")
			if v, isC := x.field(q, pred, "Name").strVal(); isC {
				x.r.check(v == eq, "lambda", name+" predicate", where, "a predicate without a word of its own is not that of being equal: "+v)
			}
		}
	}
	// the λ-bindings that are made are around something
	for _, o := range x.objects(q, "Binding") {
		if v, ok := x.field(q, o, "Quantifier").strVal(); !ok || v != lam {
			continue
		}
		hit := false
		for _, u := range x.made(q) {
			if u.op == OObj && x.isMade(q, u, "Abstraction") {
				s := core(x.field(q, u, "Statement"))
				if s == o {
					hit = true
				}
				if s != nil && s.op == OCall && x.l.bindFn != nil && callName(s) == fnName(x.l.bindFn) && core(s.args[0]) == o {
					hit = true
				}
			}
		}
		x.r.check(hit, "lambda", fnName(q.fn)+" bound", where, "a λ-binding is made and not put around a clause")
	}
}

// made0 is what the returned values are made of.
func (x *comp) made0(q *lpath) []*V { return x.made(q) }

// quotes: a quote has the text of the phrase that it quotes, and tells whether it
// is a whole text.
func (x *comp) quotes(q *lpath) {
	where := x.p.pos(q.o.Pos)
	for _, o := range x.objects(q, "Quote") {
		text, full := x.field(q, o, "Text"), x.field(q, o, "FullText")
		if text == nil || full == nil {
			continue
		}
		var what *V
		part := ""
		if text.op == OCall && len(text.args) == 1 {
			what = core(text.args[0])
			if _, name := anyPart(what); name == "Phrase" || name == "Discourse" {
				part = name
			}
		}
		name := fnName(q.fn) + " quote"
		if !x.r.check(part != "", "quote", name, where, "the text of a quote is not that of what is quoted: "+trunc(text.String(), 300)) {
			continue
		}
		x.r.check(full == vBool(part == "Discourse"), "quote", name+" "+part, where, "a quote of a phrase is taken for one of a whole text or the other way round")
	}
}

// plurals: things together are said to be equal to the variable that stands for
// them.
func (x *comp) plurals(q *lpath) {
	eq, _ := x.l.constStr("logic", "Equal")
	for _, o := range x.objects(q, "Plurality") {
		good := false
		for _, p := range x.objects(q, "Predication") {
			args, ok := listElems(q.st, x.field(q, p, "Arguments"))
			if !ok || len(args) != 2 || core(args[1]) != o || core(args[0]) == o {
				continue
			}
			pred := core(x.field(q, p, "Predicate"))
			if x.isMade(q, pred, "Pred") {
				n, _ := x.field(q, pred, "Name").strVal()
				good = n == eq
			}
		}
		x.r.check(good, "plural", fnName(q.fn), x.p.pos(q.o.Pos), "what stands for things together is not said to be equal to them")
	}
}

// ---- serial predicates

// roles finds which parameters come from which half of a serial predicate.
func (x *comp) roles() {
	add := func(f *ssa.Function, i int, s string) bool {
		if x.sides[f] == nil {
			x.sides[f] = map[int]map[string]bool{}
		}
		if x.sides[f][i] == nil {
			x.sides[f][i] = map[string]bool{}
		}
		if x.sides[f][i][s] {
			return false
		}
		x.sides[f][i][s] = true
		return true
	}
	for again := true; again; {
		again = false
		for _, f := range x.l.interps {
			for _, q := range x.paths[f] {
				for i := range q.st.events {
					e := &q.st.events[i]
					g := x.l.rootNamed(e.Name)
					if e.Kind != "call" || g == nil {
						continue
					}
					for j, a := range e.Args {
						for s := range x.sideOf(q, a) {
							if add(g, j, s) {
								again = true
							}
						}
					}
				}
			}
		}
	}
}

// sideOf tells which half of a serial predicate a predicate is of.
func (x *comp) sideOf(q *lpath, v *V) map[string]bool {
	out := map[string]bool{}
	pt := x.p.typ("logic", "Predicate")
	walkTerm(v, func(y *V) bool {
		if ph, name := anyPart(y); ph != nil && (name == "Left" || name == "Right") {
			k := dynName(q.st, ph)
			if k == "" && ph.typ != nil {
				k = ptrName(ph.typ)
			}
			if k == "SerialPredicate" {
				out[name] = true
			}
		}
		if y.op == OSym {
			for i, p := range q.params {
				if p == y {
					t := q.fn.Params[i].Type()
					it, isI := t.Underlying().(*types.Interface)
					if isI && (it.NumMethods() == 0 || pt != nil && types.Identical(t, pt)) {
						for s := range x.sides[q.fn][i] {
							out[s] = true
						}
					}
				}
			}
		}
		return true
	}, map[*V]bool{})
	return out
}

func (x *comp) serials(q *lpath) {
	for _, o := range x.objects(q, "Serial") {
		l, r := x.sideOf(q, x.field(q, o, "Left")), x.sideOf(q, x.field(q, o, "Right"))
		x.r.check(len(l) == 1 && l["Left"] && len(r) == 1 && r["Right"], "side", fnName(q.fn), x.p.pos(q.o.Pos),
			fmt.Sprintf("the halves of a serial predicate do not keep their sides: the left one is of %v, the right one of %v", sortedKeys(l), sortedKeys(r)))
	}
}

// ---- development

func (x *comp) dump() {
	for _, f := range x.l.interps {
		fmt.Println("==", fnName(f))
		if w := os.Getenv("C23DUMP"); w != "1" && !strings.HasSuffix(fnName(f), w) {
			continue
		}
		seen := map[string]bool{}
		for _, q := range x.paths[f] {
			s := ""
			for _, v := range q.o.Vals {
				s += " | " + x.show(q, v, map[int64]bool{})
			}
			if seen[s] {
				continue
			}
			seen[s] = true
			fmt.Println("  ", trunc(pathFacts(q.st), 300))
			fmt.Println("      ", s)
		}
	}
}

// show writes a formula in full.
func (x *comp) show(q *lpath, v *V, open map[int64]bool) string {
	v = core(v)
	if v == nil {
		return "-"
	}
	if v.op == OObj {
		t := q.st.otype[v.num]
		c := q.st.heap[v.num]
		n := namedOf(t)
		if n == nil || c == nil {
			return v.String()
		}
		name := fmt.Sprintf("%s#%d", n.Obj().Name(), v.num)
		if open[v.num] || !x.isLogic(n) {
			return name
		}
		open[v.num] = true
		return name + x.show(q, c, open)
	}
	if v.op == OStruct {
		s := "{"
		st, _ := v.typ.Underlying().(*types.Struct)
		for i, a := range v.args {
			if st != nil {
				if n := st.Field(i).Name(); n == "AST" {
					continue
				} else {
					s += n + ":"
				}
			}
			s += x.show(q, a, open) + " "
		}
		return s + "}"
	}
	if es, ok := listElems(q.st, v); ok && v != vNil {
		s := "["
		for _, e := range es {
			s += x.show(q, e, open) + " "
		}
		return s + "]"
	}
	return v.String()
}
