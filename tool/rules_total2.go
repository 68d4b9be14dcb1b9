package main

// C13, the interpretation.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fns are the functions that are analysed one by one.
func (t *total) fns() []*ssa.Function {
	out := append([]*ssa.Function(nil), t.l.interps...)
	if t.l.bindFn != nil {
		out = append(out, t.l.bindFn)
	}
	return out
}

func (t *total) pathsOf(f *ssa.Function) []*lpath {
	if ps, ok := t.runs[f]; ok {
		return ps
	}
	l := t.l
	e := l.eng()
	e.MayNil = func(st *State, v *V) bool {
		switch v.op {
		case OLoad, OCall, OExtract, OAs, OField:
			return true
		case OSym:
			return !strings.HasPrefix(v.aux, "p:") || types.Identical(v.typ, l.bindT)
		}
		return false
	}
	pol := e.Policy
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		if t.placesArgs(fn) {
			return ActOpaque
		}
		return pol(fn, args, st)
	}
	st := newState()
	var args []*V
	for _, q := range f.Params {
		if types.Identical(q.Type(), l.iptr) {
			args = append(args, vSym("p:interp", l.iptr))
			continue
		}
		args = append(args, vSym("p:"+q.Name(), q.Type()))
	}
	outs := e.Run(f, st, args...)
	t.r.analysed["functions"] += len(e.funcs)
	t.r.analysed["paths"] += len(outs)
	if e.over {
		t.r.bad("undecided", fnName(f), t.p.pos(f.Pos()), "too many paths")
	}
	var ps []*lpath
	for _, o := range outs {
		if infeasibleWords(o.St) {
			continue
		}
		ps = append(ps, &lpath{fn: f, o: o, st: o.St, params: args})
	}
	t.runs[f] = ps
	return ps
}

// placesArgs tells whether f makes the list of the arguments of a predication (C22).
func (t *total) placesArgs(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 || t.l.hasInterp(f) || f.Parent() != nil {
		return false
	}
	a := t.p.typ("logic", "Argument")
	sl, ok := rs.At(0).Type().Underlying().(*types.Slice)
	if a == nil || !ok || !types.Identical(sl.Elem(), a) {
		return false
	}
	for _, q := range f.Params {
		if isList(q.Type()) {
			return true
		}
	}
	return false
}

func (t *total) paramIndex(f *ssa.Function, name string) int {
	for i, q := range f.Params {
		if q.Name() == name {
			return i
		}
	}
	return -1
}

// listOf names the list of bindings of the interpreter that v is an element of.
func (t *total) listOf(v *V) string {
	if v.op != OLoad || v.args[0].op != OIAddr {
		return ""
	}
	x := v.args[0].args[0]
	for i := 0; i < 20; i++ {
		switch {
		case t.l.pred[x] != nil:
			if k := strings.IndexByte(x.aux, '<'); k > 0 {
				return x.aux[:k]
			}
			return ""
		case x.op == OLoad && x.args[0].op == OIAddr:
			x = x.args[0].args[0]
		case x.op == OSub, x.op == OSlice:
			x = x.args[0]
		case x.op == OLoad && x.args[0].op == OFAddr && x.args[0].typ != nil && types.Identical(derefT(x.args[0].typ), t.l.ist):
			return fieldName(t.l.ist, int(x.args[0].num))
		default:
			return ""
		}
	}
	return ""
}

// moved records the bindings in the lists of the interpreter.
func (t *total) moved(st *State) {
	for _, f := range []string{"theScope", "hiScope", "hoaScope"} {
		t.elems(st, f, t.l.field(st, f), 0)
	}
	for a, v := range st.over {
		// a list of the bindings of a clause that was there before
		if a.op == OIAddr && t.isStack(a.args[0]) {
			t.elems(st, "hiScope", v, 1)
		}
	}
}

// isStack tells whether v is the stack of clauses, or a part of it.
func (t *total) isStack(v *V) bool {
	if v.typ != nil {
		if s, ok := derefT(v.typ).Underlying().(*types.Slice); ok {
			if _, ok := s.Elem().Underlying().(*types.Slice); !ok {
				return false
			}
		}
	}
	return t.listOf(mk(V{op: OLoad, args: []*V{mk(V{op: OIAddr, args: []*V{v, vInt(0)}})}})) == "hiScope"
}

func (t *total) elems(st *State, f string, v *V, d int) {
	if v == nil || d > 4 {
		return
	}
	if v.op != OSlice {
		return
	}
	es, ok := listElems(st, v)
	if !ok {
		t.lists[f].top = true
		return
	}
	for _, e := range es {
		if t.listOf(e) == f {
			continue
		}
		if T, ok := typeOfSlice(e); d == 0 && f == "hiScope" && (e.op == OSlice || ok && strings.HasPrefix(T, "[]")) {
			t.elems(st, f, e, d+1)
			continue
		}
		if e == vNil && d == 0 && f == "hiScope" {
			continue
		}
		s := t.of(st, e, 0)
		if s == nil {
			s = &shp{top: true}
		}
		if t.lists[f].join(s) {
			t.ch = true
		}
	}
}

// symbol describes the parameters and the results of calls of the current function.
func (t *total) symbol(st *State, v *V) *shp {
	switch v.op {
	case OSym:
		if !strings.HasPrefix(v.aux, "p:") {
			return nil
		}
		i := t.paramIndex(t.cur, v.aux[2:])
		if i < 0 || types.Identical(t.cur.Params[i].Type(), t.l.iptr) {
			return nil
		}
		if ps := t.par[t.cur]; i < len(ps) {
			return ps[i]
		}
		return newShp()
	case OLoad:
		if f := t.listOf(v); f != "" && t.lists[f] != nil && v.typ != nil && types.Identical(v.typ, t.l.bindT) {
			return t.lists[f]
		}
	case OCall, OExtract:
		c, i := v, 0
		if v.op == OExtract {
			c, i = v.args[0], int(v.num)
		}
		if c.op != OCall {
			return nil
		}
		f := t.fnOf[callName(c)]
		if f == nil {
			return nil
		}
		if f == t.l.bindFn && len(c.args) == 2 {
			b := t.of(st, c.args[0], 1)
			if b == nil || b.top {
				return t.ret[f][0]
			}
			r := newShp()
			if len(b.nodes) > 0 {
				r.node(t.l.bindT)
			}
			if b.nils {
				x := t.of(st, c.args[1], 1)
				if x == nil {
					return t.ret[f][0]
				}
				r.join(x.flat())
			}
			return r
		}
		if rs := t.ret[f]; i < len(rs) {
			return rs[i]
		}
		return newShp() // it has not returned yet
	}
	return nil
}

// tracked tells whether the parts of a struct are known from the places that make one.
func (t *total) tracked(T types.Type) bool {
	n := namedOf(T)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if types.Identical(T, t.l.ist) {
		return false
	}
	return strings.HasSuffix(p, "/ast") || strings.HasSuffix(p, "/logic")
}

// depth is the least number of clauses on the stack v.
func (t *total) depth(st *State, v *V) int {
	for i := 0; i < 50; i++ {
		if n, ok := st.shape[v]; ok {
			if v == t.l.entry("hiScope") && int(n) < t.hi[t.cur] {
				return t.hi[t.cur]
			}
			return int(n)
		}
		switch {
		case v == t.l.entry("hiScope"):
			return t.hi[t.cur]
		case v.op == OSlice:
			return int(v.num2 - v.num)
		case t.l.pred[v] != nil:
			v = t.l.pred[v]
		default:
			return 0
		}
	}
	return 0
}

func (t *total) possibleDepth(st *State) bool {
	e := t.l.entry("hiScope")
	for v, n := range st.shape {
		for t.l.pred[v] != nil {
			v = t.l.pred[v]
		}
		if v == e && int(n) < t.hi[t.cur] && n < 2 {
			return false
		}
	}
	return true
}

// stores are the lists of bindings that a path leaves in the fields of the interpreter.
func (t *total) at(snap, end *State) *State {
	if snap == nil {
		return end
	}
	x := snap.clone()
	x.facts, x.dyn, x.excl, x.shape, x.eqc = end.facts, end.dyn, end.excl, end.shape, end.eqc
	return x
}

func (t *total) joinAt(m map[*ssa.Function][]*shp, f *ssa.Function, n, i int, s *shp) {
	if m[f] == nil {
		for k := 0; k < n; k++ {
			m[f] = append(m[f], newShp())
		}
	}
	if m[f][i].join(s) {
		t.ch = true
	}
}

// given is the description of a value of type T.
func (t *total) given(st *State, v *V, T types.Type) *shp {
	s := t.of(st, v, 0)
	if s == nil {
		return t.unknown(T)
	}
	if _, ok := T.Underlying().(*types.Interface); ok {
		return s
	}
	if s.top {
		return t.unknown(T)
	}
	return t.as(s, T)
}

func (t *total) unknown(T types.Type) *shp {
	r := newShp()
	switch T.Underlying().(type) {
	case *types.Basic, *types.Struct:
		r.node(T)
	default:
		r.top = true
	}
	return r
}

// interpretation finds the parameters, results and parts of formulas.
func (t *total) interpretation() {
	l := t.l
	t.env = t.symbol
	t.lists = map[string]*shp{"theScope": newShp(), "hiScope": newShp(), "hoaScope": newShp()}
	t.fnOf = map[string]*ssa.Function{}
	for _, f := range t.fns() {
		t.fnOf[fnName(f)] = f
	}
	entry := map[*ssa.Function]bool{}
	for _, f := range t.fns() {
		if !l.roots[f] && f != l.bindFn {
			entry[f] = true
		}
	}
	for f := range entry {
		for i, q := range f.Params {
			s := newShp()
			if types.Identical(q.Type(), l.iptr) {
				s.top = true
			} else {
				s.node(q.Type())
			}
			t.joinAt(t.par, f, len(f.Params), i, s)
		}
	}
	for _, f := range t.fns() {
		t.hi[f] = 1 << 20
		if entry[f] {
			t.hi[f] = 0
		}
	}
	for round := 0; round < 60; round++ {
		t.ch = false
		for _, f := range t.fns() {
			t.cur = f
			for _, q := range t.pathsOf(f) {
				if !t.reached(f) || !t.possiblePath(q) {
					continue
				}
				t.flow(q)
			}
		}
		if !t.ch {
			t.r.analysed["rounds over the interpretation"] = round + 1
			return
		}
	}
	t.r.bad("undecided", "interpretation", "logic/interp.go", "the kinds of the values of the interpretation are not found")
}

// reached tells whether f is called with something for every parameter.
func (t *total) reached(f *ssa.Function) bool {
	ps := t.par[f]
	if ps == nil {
		return false
	}
	for i, p := range ps {
		if !types.Identical(f.Params[i].Type(), t.l.iptr) && p.bottom() {
			return false
		}
	}
	return true
}

func (t *total) possiblePath(q *lpath) bool {
	return t.possibleDepth(q.st) && t.feasible(q.st)
}

func (t *total) flow(q *lpath) {
	l, st := t.l, q.st
	if q.o.Kind == Ret {
		for id, T := range st.otype {
			if t.tracked(T) && st.heap[id] != nil {
				t.record(t.of(st, vObj(st, id), 0))
			}
		}
	}
	for a, v := range st.over {
		t.store(st, a, v)
	}
	for i := range st.events {
		ev := &st.events[i]
		f := l.rootNamed(ev.Name)
		if ev.Kind != "call" || f == nil && (l.bindFn == nil || ev.Name != fnName(l.bindFn)) {
			continue
		}
		if f == nil {
			f = l.bindFn
		}
		x := t.at(ev.St, st)
		t.moved(x)
		// what the call can see of nodes that are being made
		if ev.St != nil {
			seen := map[*V]bool{}
			for _, a := range append([]*V{l.field(x, "theScope"), l.field(x, "hiScope"), l.field(x, "hoaScope"), l.field(x, "varScope")}, ev.Args...) {
				t.recordFrom(x, a, seen)
			}
		}
		for k, a := range ev.Args {
			if k >= len(f.Params) || types.Identical(f.Params[k].Type(), l.iptr) {
				t.joinAt(t.par, f, len(f.Params), k, &shp{top: true})
				continue
			}
			t.joinAt(t.par, f, len(f.Params), k, t.given(x, a, f.Params[k].Type()))
		}
		if d := t.depth(x, l.field(x, "hiScope")); d < t.hi[f] {
			t.hi[f] = d
			t.ch = true
		}
	}
	t.moved(st)
	if q.o.Kind == Ret {
		rs := q.fn.Signature.Results()
		for i := 0; i < rs.Len() && i < len(q.o.Vals); i++ {
			t.joinAt(t.ret, q.fn, rs.Len(), i, t.given(st, q.o.Vals[i], rs.At(i).Type()))
		}
	}
}

// recordFrom records the nodes that can be reached from v.
func (t *total) recordFrom(st *State, v *V, seen map[*V]bool) {
	walkTerm(v, func(y *V) bool {
		if y.op == OObj {
			if T := st.otype[y.num]; T != nil && t.tracked(T) && st.heap[y.num] != nil {
				t.record(t.of(st, y, 0))
			}
			if c := st.heap[y.num]; c != nil && !seen[c] {
				t.recordFrom(st, c, seen)
			}
		}
		return true
	}, seen)
}

// store records a write to a part of a node that was there before.
func (t *total) store(st *State, a, v *V) {
	if a.op != OFAddr || a.typ == nil {
		return
	}
	T := derefT(a.typ)
	stt, ok := T.Underlying().(*types.Struct)
	if !ok || !t.tracked(T) || int(a.num) >= stt.NumFields() {
		return
	}
	if t.parts(T)[a.num].join(t.given(st, v, stt.Field(int(a.num)).Type()).flat()) {
		t.ch = true
	}
}

// dumpInterp shows what was found.
func (t *total) dumpInterp() {
	for _, k := range sortedKeys(t.lists) {
		fmt.Println("list", k, t.lists[k])
	}
	for _, f := range t.fns() {
		fmt.Println("fn", fnName(f), "clauses", t.hi[f])
		for i, q := range f.Params {
			if i < len(t.par[f]) {
				fmt.Println("   param", q.Name(), t.par[f][i])
			}
		}
		for i, s := range t.ret[f] {
			fmt.Println("   result", i, s)
		}
	}
}

// words prepares the readings of function words.
func (t *total) words() bool {
	t.fw = &fwords{p: t.p, l: t.l, r: newReport("C13"), s: newStatics(t.p), byName: map[string]*ssa.Function{}, tables: map[string]bool{},
		spell: map[string]map[string][]string{}, memo: map[string]*fwRes{}, want: map[string]map[string]string{}, used: map[string]bool{}}
	t.fw.s.deep = true
	for _, pk := range []string{"logic", "ast", "tone"} {
		for _, f := range t.p.allFuncs(pk) {
			t.fw.byName[fnName(f)] = f
		}
	}
	return t.r.check(t.fw.expected() && t.fw.spellings(), "anchor", "words", "tone", "the spellings of the words are not known")
}

// unsupported tells whether a word is a connective that is reported in its place.
func (t *total) unsupported(w *V, text string) bool {
	if t.fw.wordOf(w) != "RA" {
		return false
	}
	switch owner := ptrName(derefT(w.typ)); {
	case owner == "CoPSentence":
		return text != "ru"
	case text == "roi":
		if owner == "CoP" {
			owner = ptrName(derefT(rootPhrase(w).typeOr(w.typ)))
		}
		return owner != "CoPArgument"
	}
	return text == "ro" || text == "re"
}

// spellings of the words at w that what the path has asked allows.
//
// With asked, a question that fails for a word does not exclude the word.
func (t *total) allowed(q *lpath, w *V, asked bool) map[string][]string {
	x := t.fw
	var fs []*V
	for f := range q.st.facts {
		for _, y := range x.words(f) {
			if y == w {
				fs = append(fs, f)
				break
			}
		}
	}
	out := map[string][]string{}
	for _, text := range x.options(w) {
		ss := x.spell[x.wordOf(w)][text]
		if text == noWord {
			ss = []string{noWord}
		}
	next:
		for _, s := range ss {
			for _, f := range fs {
				r := x.fold(f, w, s)
				if r.d == "panic" && !asked {
					continue next // reported where it is called
				}
				if r.v == nil {
					continue
				}
				if b, known := r.v.boolVal(); known && b != q.st.facts[f] {
					continue next
				}
			}
			out[text] = append(out[text], s)
		}
	}
	return out
}

// wordsOf lists the words that the decisions of a path depend on.
func (t *total) wordsOf(st *State) []*V {
	set := map[*V]bool{}
	var ws []*V
	add := func(v *V) {
		for _, w := range t.fw.words(v) {
			if !set[w] {
				set[w] = true
				ws = append(ws, w)
			}
		}
	}
	for f := range st.facts {
		add(f)
	}
	for _, c := range t.readings(st) {
		add(c)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].id < ws[j].id })
	return ws
}

// readings lists what a path computes from words alone.
func (t *total) readings(st *State) []*V {
	seen := map[*V]bool{}
	var cs []*V
	visit := func(v *V) {
		walkTerm(v, func(c *V) bool {
			if c.op == OCall && len(c.args) > 0 && t.fw.byName[callName(c)] != nil && !strings.Contains(c.aux, "interpreter") && len(t.fw.words(c)) == 1 {
				cs = append(cs, c)
			}
			return true
		}, seen)
	}
	for f := range st.facts {
		visit(f)
	}
	for _, c := range st.heap {
		if c != nil {
			visit(c)
		}
	}
	for i := range st.events {
		for _, a := range st.events[i].Args {
			visit(a)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	return cs
}

// failures: no possible path fails.
func (t *total) failures() {
	for _, k := range sortedKeys(t.lists) {
		t.r.check(!t.lists[k].bottom(), "anchor", "bindings in "+k, "logic/interp.go", "no binding is ever put into "+k)
	}
	n, reached := 0, 0
	for _, f := range t.fns() {
		t.cur = f
		if !t.reached(f) {
			continue
		}
		reached++
		for _, q := range t.pathsOf(f) {
			if t.possiblePath(q) {
				n++
				t.failPath(q, fnName(f))
			} else if q.o.Kind == Panicked {
				t.r.ok("failure", fnName(f)+": "+t.message(q)+" when "+pathFacts(q.st))
			}
		}
	}
	t.r.analysed["possible paths"] = n
	t.r.check(reached >= 15, "anchor", "functions reached", "logic/interp.go", fmt.Sprintf("only %d functions of the interpretation are reached", reached))
}

func (t *total) message(q *lpath) string {
	if len(q.o.Vals) > 0 {
		return q.o.Vals[0].String()
	}
	return "failure"
}

func (t *total) failPath(q *lpath, name string) {
	st := q.st
	where := t.p.pos(q.fn.Pos())
	for i := range st.events {
		if ev := &st.events[i]; q.o.Kind == Panicked && ev.Kind == "hazard" && ev.Name == "slice bounds out of range" && t.ownStack(ev.Args[0]) {
			return // the stacks are after a call as they were before (C14)
		}
	}
	may := map[*V]map[string][]string{}
	ws := t.wordsOf(st)
	for _, c := range t.readings(st) {
		t.wordCall(q, c, name)
	}
	for _, w := range ws {
		if s := t.of(st, loadOf(w), 0); s != nil && s.nils && types.Identical(wordType(w), t.l.wordT) {
			t.r.bad("word", fmt.Sprintf("empty %s in %s", fieldName(derefT(w.typ), int(w.num)), name), where, fmt.Sprintf("%v may be empty", w))
			return
		}
		may[w] = t.allowed(q, w, false)
		if len(may[w]) == 0 {
			// no word takes this path
			if q.o.Kind == Panicked {
				t.r.ok("failure", name+": "+t.message(q)+" when "+pathFacts(st))
			}
			return
		}
	}
	for i := range st.events {
		ev := &st.events[i]
		if ev.Kind != "hazard" {
			continue
		}
		if strings.Contains(ev.Name, "possibl") {
			b := ev.Args[0]
			s := t.of1(st, b, 0)
			good := s != nil && !s.nils && !s.top
			t.r.check(good, "present", name+" "+b.String(), t.p.pos(ev.Pos), fmt.Sprintf("%v may be absent where it is used (%v), when %s", b, s, pathFacts(st)))
			continue
		}
		if q.o.Kind != Panicked {
			t.r.bad("failure", name+" "+ev.Name, t.p.pos(ev.Pos), ev.Name+" when "+pathFacts(st))
		}
	}
	if q.o.Kind != Panicked {
		return
	}
	good := false
	for _, w := range ws {
		all := true
		for text := range may[w] {
			if !t.unsupported(w, text) {
				all = false
			}
		}
		if all {
			good = true
		}
	}
	t.r.check(good, "failure", name+" fails", where, "the interpretation fails ("+t.message(q)+") when "+pathFacts(st))
}

// ownStack tells whether v is a stack of the interpreter after a call.
func (t *total) ownStack(v *V) bool {
	if t.l.pred[v] == nil {
		return false
	}
	for t.l.pred[v] != nil {
		v = t.l.pred[v]
	}
	return v.op == OLoad && v.args[0].op == OFAddr && v.args[0].typ != nil && types.Identical(derefT(v.args[0].typ), t.l.ist)
}

// wordType is the type of the place w.
func wordType(w *V) types.Type {
	if s, ok := derefT(w.typ).Underlying().(*types.Struct); ok && int(w.num) < s.NumFields() {
		return s.Field(int(w.num)).Type()
	}
	return w.typ
}

// wordCall: a function of a word has an answer for every word that can be there.
func (t *total) wordCall(q *lpath, c *V, name string) {
	x := t.fw
	w := x.words(c)[0]
	// what is asked with this reading, or after it, does not excuse it
	may := t.allowed(q, w, true)
	for _, text := range sortedKeys(may) {
		if t.unsupported(w, text) {
			continue
		}
		for _, s := range may[text] {
			d := x.fold(c, w, s).d
			if !t.r.check(d != "panic", "word", fmt.Sprintf("%s in %s: %s", callName(c), name, x.show(s)), t.p.pos(q.fn.Pos()),
				fmt.Sprintf("%s fails for %s of %s when %s", callName(c), x.show(s), ptrName(derefT(w.typ)), pathFacts(q.st))) {
				break
			}
		}
	}
}

// absent: what is taken to be present is never absent.
func (t *total) absent() {
	for _, f := range t.fns() {
		if !t.reached(f) {
			continue
		}
		at := t.p.pos(f.Pos())
		for i, q := range f.Params {
			switch q.Type().Underlying().(type) {
			case *types.Interface, *types.Pointer:
			default:
				continue
			}
			if types.Identical(q.Type(), t.l.bindT) || types.Identical(q.Type(), t.l.iptr) || f == t.l.bindFn {
				continue
			}
			s := t.par[f][i]
			t.r.check(!s.nils && !s.top, "present", fnName(f)+" parameter "+q.Name(), at, "it is called with nothing: "+s.String())
		}
		rs := f.Signature.Results()
		for i := 0; i < rs.Len() && t.ret[f] != nil; i++ {
			if _, ok := rs.At(i).Type().Underlying().(*types.Interface); !ok || f == t.l.bindFn || f.Name() == "discourse" || f.Name() == "text" {
				continue
			}
			s := t.ret[f][i]
			t.r.check(!s.nils && !s.top, "present", fmt.Sprintf("%s result %d", fnName(f), i), at, "the result may be absent: "+s.String())
		}
	}
}
