package main

// C13: every accepted text can be interpreted.
//
// (a) For every rule of the grammar the kinds of values that its actions make, and from
// these the kinds, absence and least lengths of every part of every syntax node, by a
// fixpoint over the actions.
// (b) The same for the parameters and results of the interpretation functions and the
// parts of the nodes that they make, by a fixpoint over their paths.
// (c) No path that these kinds leave possible fails: no default case, failing type
// assertion, absent part, or empty list; and every function of a word has an answer for
// every word of its class, or reports that the connective is not supported.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shp describes the values of a place.
type shp struct {
	nils  bool
	top   bool
	nodes map[string]*snode
}

// snode describes values of one dynamic type.
type snode struct {
	T    types.Type
	f    []*shp // parts of a struct (or of what a pointer points to); nil: those of the type
	elem *shp   // of a list
	min  int
}

const noMin = 1 << 20

func newShp() *shp { return &shp{nodes: map[string]*snode{}} }

func (s *shp) bottom() bool { return s == nil || !s.nils && !s.top && len(s.nodes) == 0 }

func tkey(t types.Type) string { return types.TypeString(t, nil) }

func (s *shp) node(t types.Type) *snode {
	k := tkey(t)
	n := s.nodes[k]
	if n == nil {
		n = &snode{T: t, min: noMin}
		s.nodes[k] = n
	}
	return n
}

// join adds o to s; it tells whether s has changed.
func (s *shp) join(o *shp) bool {
	if o == nil {
		return false
	}
	ch := false
	if o.nils && !s.nils {
		s.nils, ch = true, true
	}
	if o.top && !s.top {
		s.top, ch = true, true
	}
	for k, m := range o.nodes {
		n, had := s.nodes[k]
		if !had {
			n = &snode{T: m.T, min: noMin}
			s.nodes[k] = n
			ch = true
		}
		switch {
		case m.f == nil:
			if n.f != nil {
				n.f, ch = nil, true
			}
		case !had:
			n.f = make([]*shp, len(m.f))
			for i := range m.f {
				n.f[i] = newShp()
				n.f[i].join(m.f[i])
			}
		case n.f != nil:
			for i := range m.f {
				if n.f[i].join(m.f[i]) {
					ch = true
				}
			}
		}
		if m.min < n.min {
			n.min, ch = m.min, true
		}
		if m.elem != nil {
			if n.elem == nil {
				n.elem = newShp()
			}
			if n.elem.join(m.elem) {
				ch = true
			}
		}
	}
	return ch
}

// flat is s without the parts of its nodes.
func (s *shp) flat() *shp {
	if s == nil {
		return nil
	}
	r := newShp()
	r.nils, r.top = s.nils, s.top
	for k, n := range s.nodes {
		r.nodes[k] = &snode{T: n.T, elem: n.elem.flat(), min: n.min}
	}
	return r
}

func (s *shp) String() string {
	if s == nil {
		return "?"
	}
	var out []string
	for _, k := range sortedKeys(s.nodes) {
		n := s.nodes[k]
		x := shortType(n.T)
		if n.elem != nil || n.min < noMin {
			x += fmt.Sprintf("{%d+ of %v}", n.min, n.elem)
		}
		out = append(out, x)
	}
	if s.nils {
		out = append(out, "nil")
	}
	if s.top {
		out = append(out, "any")
	}
	return strings.Join(out, "|")
}

type total struct {
	p     *Program
	r     *Report
	w     *wordsCheck
	l     *lgen
	fw    *fwords
	rule  map[string]*shp            // values of a rule
	lit   map[*wordsLit]*shp         // values of an action
	fld   map[string][]*shp          // parts by struct type
	par   map[*ssa.Function][]*shp   // parameters
	ret   map[*ssa.Function][]*shp   // results
	hi    map[*ssa.Function]int      // least depth of the stack of clauses
	env   func(st *State, v *V) *shp // values of symbols
	cur   *ssa.Function
	ch    bool
	runs  map[*ssa.Function][]*lpath
	lists map[string]*shp // bindings in the lists of the interpreter
	fnOf  map[string]*ssa.Function
}

func ruleTotal(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	s := newASTSpec(p)
	if specErrors(r, s) {
		return
	}
	if e := s.initMods(); e != "" {
		r.bad("anchor", e, "ast", e)
		return
	}
	t := &total{p: p, r: r, l: l, w: &wordsCheck{p: p, r: newReport("C13"), s: s, zero: map[string]bool{}},
		rule: map[string]*shp{}, lit: map[*wordsLit]*shp{}, fld: map[string][]*shp{}, par: map[*ssa.Function][]*shp{}, ret: map[*ssa.Function][]*shp{}, hi: map[*ssa.Function]int{}, runs: map[*ssa.Function][]*lpath{}}
	t.w.grammar()
	t.grammar()
	if os.Getenv("C13DUMP") != "" {
		t.dump()
	}
	t.interpretation()
	if os.Getenv("C13DUMP") != "" {
		t.dumpInterp()
	}
	if !t.words() {
		return
	}
	t.failures()
	t.absent()
	r.atLeast("value", 300)
	r.atLeast("failure", 60)
	r.atLeast("word", 100)
	r.atLeast("present", 30)
	r.assumption("A method that attaches a modifier to a node returns a node of the same kind with the same parts (C01).")
	r.assumption("Lists have up to 3 elements; elements beyond the third are like the third.")
	r.assumption("A binding gets its scope once, and the scope of a binding that is bound further is another binding; the stacks of names and bindings hold present bindings and are after a call as they were before (C14).")
	r.assumption("bindScope returns the statement if there is no binding and otherwise the binding (C14).")
	r.assumption("Putting arguments into places (C22) and simplifying (C15) do not fail: this is what those rules decide.")
	r.assumption("Syntax trees are made by the grammar. Interpret is called with a text.")
	r.analysed["rules"] = len(t.rule)
}

func (t *total) parts(T types.Type) []*shp {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	k := tkey(T)
	f := t.fld[k]
	if f == nil {
		for i := 0; i < st.NumFields(); i++ {
			f = append(f, newShp())
		}
		t.fld[k] = f
	}
	return f
}

// record adds the parts of nodes to those of their types.
func (t *total) record(s *shp) {
	if s == nil {
		return
	}
	for _, n := range s.nodes {
		if n.f == nil || !t.tracked(derefT(n.T)) {
			continue
		}
		for i, x := range t.parts(derefT(n.T)) {
			if i < len(n.f) && x.join(n.f[i].flat()) {
				t.ch = true
			}
		}
	}
}

// part is part i of the struct of type T in s.
func (t *total) part(s *shp, T types.Type, i int) *shp {
	if t.cur != nil && t.cur == t.l.bindFn && types.Identical(T, derefT(t.l.bindT)) && fieldName(T, i) == "Scope" {
		// a binding gets its scope once (C14); what is added to is another binding
		r := newShp()
		r.nils = true
		r.node(t.l.bindT)
		return r
	}
	if s != nil && !s.top {
		var n *snode
		for _, m := range s.nodes {
			if types.Identical(derefT(m.T), T) || len(s.nodes) == 1 {
				n = m
			}
		}
		if n == nil {
			return newShp()
		}
		if n.f != nil && i < len(n.f) {
			return n.f[i]
		}
	}
	if !t.tracked(T) {
		return nil
	}
	if f := t.parts(T); i < len(f) {
		return f[i]
	}
	return nil
}

// of describes a term; nil: not known.
func (t *total) of(st *State, v *V, d int) *shp {
	if v == nil || d > 25 {
		return nil
	}
	r := t.of1(st, v, d)
	if r == nil {
		return nil
	}
	return refine(st, v, r)
}

// refine is r without what the path has excluded for v.
func refine(st *State, v *V, r *shp) *shp {
	known, isNil := false, false
	if b, ok := st.facts[eqAtom(v, vNil)]; ok {
		known, isNil = true, b
	}
	T, dyn := st.dyn[v]
	var impl []*V
	for a := range st.facts {
		if a.op == OImpl && a.args[0] == v {
			impl = append(impl, a)
		}
	}
	if !known && !dyn && len(st.excl[v]) == 0 && len(impl) == 0 {
		return r
	}
	x := newShp()
	x.top = r.top
	x.nils = r.nils && !(known && !isNil) && !dyn
	for k, n := range r.nodes {
		ok := !(known && isNil) && !(dyn && !types.Identical(n.T, T))
		for _, e := range st.excl[v] {
			if types.Identical(e, n.T) {
				ok = false
			}
		}
		for _, a := range impl {
			if it, isI := a.typ.Underlying().(*types.Interface); isI && types.Implements(n.T, it) != st.facts[a] {
				ok = false
			}
		}
		if ok {
			x.nodes[k] = n
		}
	}
	for _, a := range impl {
		if st.facts[a] {
			x.nils = false
		}
	}
	if r.top && dyn {
		x.top = false
		if x.nodes[tkey(T)] == nil {
			x.node(T)
		}
	}
	if known && isNil && x.top {
		x.top, x.nils = false, true
	}
	return x
}

func (t *total) of1(st *State, v *V, d int) *shp {
	switch v.op {
	case ONil:
		return &shp{nils: true, nodes: map[string]*snode{}}
	case OFAddr:
		if v.typ == nil {
			return nil
		}
		T := derefT(v.typ)
		stt, ok := T.Underlying().(*types.Struct)
		if !ok || int(v.num) >= stt.NumFields() {
			return nil
		}
		FT := stt.Field(int(v.num)).Type()
		in := t.of(st, st.load(v, FT), d+1)
		r := newShp()
		n := r.node(types.NewPointer(FT))
		if in != nil {
			in = t.as(in, FT)
			if in.bottom() {
				return newShp()
			}
			switch FT.Underlying().(type) {
			case *types.Interface, *types.Pointer:
				n.elem = in
			default:
				for _, m := range in.nodes {
					n.f, n.elem, n.min = m.f, m.elem, m.min
				}
				if in.nils && n.min > 0 {
					n.min = 0
				}
			}
		}
		return r
	case OIface:
		in := t.of(st, v.args[0], d+1)
		r := newShp()
		if _, ok := v.typ.Underlying().(*types.Pointer); ok && in != nil && in.nils {
			// it holds a pointer to nothing
			return &shp{top: true}
		}
		n := r.node(v.typ)
		if in != nil && len(in.nodes) == 1 {
			for _, m := range in.nodes {
				n.f, n.elem, n.min = m.f, m.elem, m.min
			}
		}
		if in != nil && in.bottom() {
			return newShp()
		}
		return r
	case OObj:
		T, c := st.otype[v.num], st.heap[v.num]
		if T == nil || c == nil {
			return nil
		}
		r := newShp()
		n := r.node(types.NewPointer(T))
		in := t.of(st, c, d+1)
		if in != nil {
			if in.bottom() {
				return newShp()
			}
			for _, m := range in.nodes {
				if types.Identical(m.T, T) || len(in.nodes) == 1 {
					n.f, n.elem, n.min = m.f, m.elem, m.min
				}
			}
		}
		return r
	case OStruct:
		if v.typ == nil {
			return nil
		}
		stt, ok := v.typ.Underlying().(*types.Struct)
		if !ok || stt.NumFields() != len(v.args) {
			return nil
		}
		r := newShp()
		if i := fieldIndex(v.typ, "T"); types.Identical(v.typ, t.l.wordT) && i >= 0 && v.args[i] == vStr("") {
			r.nils = true // no word
			return r
		}
		n := r.node(v.typ)
		n.f = make([]*shp, len(v.args))
		for i, a := range v.args {
			n.f[i] = t.of(st, a, d+1).flat()
			if n.f[i] == nil {
				n.f[i] = t.plain(stt.Field(i).Type())
			}
			if n.f[i].bottom() {
				return newShp()
			}
		}
		return r
	case OConst:
		return t.plain(v.typ)
	case OSlice:
		es, ok := listElems(st, v)
		if !ok {
			return nil
		}
		var T types.Type
		if v.args[0].op != OObj {
			b := t.of(st, v.args[0], d+1)
			if b == nil || b.top {
				return b
			}
			r := newShp()
			for _, n := range b.nodes {
				if isList(n.T) {
					r.join(t.list(st, n.T, es, d))
				}
			}
			return r
		}
		if v.typ != nil {
			T = v.typ
		} else if o := v.args[0]; o.op == OObj {
			if a, ok := st.otype[o.num].Underlying().(*types.Array); ok {
				T = types.NewSlice(a.Elem())
			}
		}
		if T == nil {
			return nil
		}
		return t.list(st, T, es, d)
	case OAs:
		in := t.of(st, v.args[0], d+1)
		if in == nil {
			return nil
		}
		r := newShp()
		if in.top {
			r.node(v.typ)
			return r
		}
		for k, n := range in.nodes {
			if types.Identical(n.T, v.typ) {
				r.nodes[k] = n
			}
		}
		return r
	case OField:
		s := t.of(st, v.args[0], d+1)
		if v.typ == nil {
			return nil
		}
		return t.part(s, v.typ, int(v.num))
	case OLoad:
		a := v.args[0]
		switch a.op {
		case OFAddr:
			T := derefT(a.typ)
			base := a.args[0]
			if base.op == OFAddr || base.op == OIAddr {
				return t.part(nil, T, int(a.num))
			}
			return t.part(t.of(st, base, d+1), T, int(a.num))
		case OIAddr:
			if t.env != nil {
				if s := t.env(st, v); s != nil {
					return s
				}
			}
			return t.elem(st, a.args[0], d)
		}
		// what a pointer points to
		s := t.of(st, a, d+1)
		if s == nil || s.top {
			return nil
		}
		r := newShp()
		for _, n := range s.nodes {
			if pt, ok := n.T.Underlying().(*types.Pointer); ok {
				switch pt.Elem().Underlying().(type) {
				case *types.Interface, *types.Pointer:
					if n.elem == nil {
						return nil
					}
					r.join(n.elem)
					continue
				}
				m := r.node(pt.Elem())
				m.f, m.elem, m.min = n.f, n.elem, n.min
				if m.f == nil {
					if _, ok := pt.Elem().Underlying().(*types.Slice); ok && m.elem == nil {
						return nil
					}
				}
			}
		}
		return r
	case OSub:
		s := t.of(st, v.args[0], d+1)
		if s == nil || s.top {
			return s
		}
		r := newShp()
		for k, n := range s.nodes {
			r.nodes[k] = &snode{T: n.T, elem: n.elem, min: 0}
		}
		return r
	case OCall:
		n := callName(v)
		if i := strings.LastIndexByte(n, '.'); i >= 0 && strings.HasPrefix(n[i+1:], "mod") && len(v.args) == 2 {
			// attaching a modifier keeps the kind (C01)
			in := t.of(st, v.args[0], d+1)
			if in == nil || in.top || v.typ == nil {
				return in
			}
			if _, ok := v.typ.Underlying().(*types.Interface); ok {
				return in
			}
			r := newShp()
			for k, m := range in.nodes {
				if types.Identical(m.T, v.typ) {
					r.nodes[k] = m
				}
			}
			if len(r.nodes) == 0 && len(in.nodes) > 0 {
				return nil
			}
			return r
		}
	}
	if t.env != nil {
		return t.env(st, v)
	}
	return nil
}

// plain describes values that have no parts of interest.
func (t *total) plain(T types.Type) *shp {
	r := newShp()
	if T == nil {
		r.top = true
		return r
	}
	switch u := T.Underlying().(type) {
	case *types.Basic:
		r.node(T)
	case *types.Struct:
		n := r.node(T)
		_ = u
		_ = n
	default:
		r.top = true
	}
	return r
}

func (t *total) list(st *State, T types.Type, es []*V, d int) *shp {
	r := newShp()
	n := r.node(T)
	n.min = len(es)
	n.elem = newShp()
	for _, e := range es {
		x := t.of(st, e, d+1)
		if x == nil {
			x = &shp{top: true}
		}
		if x.bottom() {
			return newShp()
		}
		n.elem.join(x.flat())
	}
	return r
}

// elem describes the elements of a list.
func (t *total) elem(st *State, v *V, d int) *shp {
	if v.op == OFAddr || v.op == OIAddr {
		return nil
	}
	s := t.of(st, v, d+1)
	if s == nil || s.top {
		return nil
	}
	r := newShp()
	for _, n := range s.nodes {
		if n.elem != nil {
			r.join(n.elem)
		}
	}
	return r
}

// feasible tells whether what the path has found out is possible.
func (t *total) feasible(st *State) bool {
	seen := map[*V]bool{}
	look := func(x *V) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		s := t.of(st, x, 0)
		return s == nil || !s.bottom()
	}
	for f := range st.facts {
		switch f.op {
		case OTypeIs, OImpl:
			if !look(f.args[0]) {
				return false
			}
		case OBin:
			if f.aux == "==" && (f.args[0] == vNil || f.args[1] == vNil) {
				x := f.args[0]
				if x == vNil {
					x = f.args[1]
				}
				if !look(x) {
					return false
				}
			}
		}
	}
	for x, n := range st.shape {
		s := t.of(st, x, 0)
		if s == nil || s.top {
			continue
		}
		ok := n == 0 && s.nils
		for _, m := range s.nodes {
			if m.min >= noMin && m.elem == nil || (int(n) >= m.min || n >= 3) && (n == 0 || !m.elem.bottom()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// grammar finds the values of all rules.
func (t *total) grammar() {
	var names []string
	for n, w := range t.w.rules {
		names = append(names, n)
		t.rule[n] = newShp()
		for _, l := range w.lits {
			t.w.evalLit(w, l)
			t.lit[l] = newShp()
		}
	}
	sort.Strings(names)
	for round := 0; round < 60; round++ {
		t.ch = false
		for _, n := range names {
			w := t.w.rules[n]
			for _, l := range w.lits {
				if t.lit[l].join(t.litShape(w, l)) {
					t.ch = true
				}
			}
			if t.rule[n].join(t.ruleShape(w)) {
				t.ch = true
			}
		}
		if !t.ch {
			t.r.analysed["rounds over the grammar"] = round + 1
			t.made(names)
			return
		}
	}
	t.r.bad("undecided", "grammar", "ast/toaq.go", "the kinds of the values of the rules are not found")
}

// made checks that every rule has values and no action fails.
func (t *total) made(names []string) {
	for _, n := range names {
		w := t.w.rules[n]
		at := "ast/toaq.go"
		if fn := t.w.g.byRule[n]["Action"]; fn != nil {
			at = t.p.pos(fn.Pos())
		}
		t.r.check(!t.rule[n].bottom() && w.err == "", "value", n, at, "no value of the rule is found "+w.err)
		for _, l := range w.lits {
			t.r.check(!strings.Contains(l.bad, "fails"), "failure", fmt.Sprintf("%s action %d", n, l.id), t.p.pos(l.fn.Pos()), l.bad)
		}
	}
}

// ruleShape describes the values of a rule.
func (t *total) ruleShape(w *wordsRule) *shp {
	r := newShp()
	fn := t.w.g.byRule[w.name]["Action"]
	var T types.Type
	if fn != nil && fn.Signature.Results().Len() == 2 {
		T = derefT(fn.Signature.Results().At(1).Type())
	}
	var el types.Type
	if T != nil {
		if sl, ok := T.Underlying().(*types.Slice); ok {
			el = sl.Elem()
		}
	}
	for _, s := range sortedKeys(w.rets) {
		if s != "text" {
			r.join(t.source(w, s))
			continue
		}
		// repeated pieces, or the text itself
		switch {
		case T == nil:
			r.top = true
		case isString(T):
			r.node(T)
		case el != nil:
			x := newShp()
			for _, l := range w.lits {
				if types.Identical(l.fn.Signature.Results().At(0).Type(), el) {
					x.join(t.lit[l])
				}
			}
			if len(w.lits) == 0 {
				for q := range w.uses {
					x.join(t.rule[q])
				}
			}
			n := r.node(T)
			n.min = 0
			n.elem = x.flat()
		default:
			r.top = true
		}
	}
	// lists that are made of the pieces of the rule, not by an action
	if el != nil {
		x := newShp()
		lists := newShp()
		x.nils, x.top = r.nils, r.top
		for _, n := range r.nodes {
			if sl, ok := n.T.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), el) {
				m := *n
				m.T = T
				y := newShp()
				y.nodes[tkey(T)] = &m
				x.join(y)
			} else {
				lists.nodes[tkey(n.T)] = n
			}
		}
		if len(lists.nodes) > 0 {
			n := x.node(T)
			n.min = 0
			y := newShp()
			y.node(T).elem = lists.flat()
			y.nodes[tkey(T)].min = 0
			x.join(y)
			_ = n
		}
		return x
	}
	return r
}

// source describes the values with the given name: of a rule or an action of w.
func (t *total) source(w *wordsRule, s string) *shp {
	var id int
	if k, _ := fmt.Sscanf(s, "lit %d", &id); k == 1 && id < len(w.lits) {
		return t.lit[w.lits[id]]
	}
	if x := t.rule[s]; x != nil {
		return x
	}
	r := newShp()
	if s == "nothing" {
		r.nils = true
		return r
	}
	r.node(types.Typ[types.String])
	return r
}

func (t *total) litShape(w *wordsRule, l *wordsLit) *shp {
	r := newShp()
	if l.bad != "" || w.err != "" {
		r.top = true
		return r
	}
	fn := l.fn
	src := map[string]*shp{}
	typ := map[string]types.Type{}
	for i, q := range fn.Params {
		if i >= len(l.args) || l.args[i].k != gSeg && l.args[i].k != gPSeg {
			continue
		}
		s := t.source(w, l.args[i].s)
		if s.bottom() {
			return r // not made yet
		}
		src[q.Name()], typ[q.Name()] = s, q.Type()
	}
	t.env = func(st *State, v *V) *shp {
		if v.op != OSym {
			return nil
		}
		name := strings.TrimSuffix(v.aux, "*")
		s := src[name]
		if s == nil {
			return nil
		}
		if v.typ == nil {
			return s
		}
		if _, ok := v.typ.Underlying().(*types.Interface); ok {
			return s
		}
		return t.as(s, v.typ)
	}
	defer func() { t.env = nil }()
	rt := fn.Signature.Results().At(0).Type()
	for _, o := range l.outs {
		if !t.feasible(o.St) {
			continue
		}
		for id := range o.St.heap {
			t.record(t.of(o.St, vObj(o.St, id), 0))
		}
		s := t.of(o.St, o.Vals[0], 0)
		if s == nil {
			if isString(rt) {
				s = t.plain(rt)
			} else {
				s = &shp{top: true}
			}
		}
		if _, ok := rt.Underlying().(*types.Interface); !ok && !s.top {
			x := newShp()
			x.nils = s.nils
			for _, n := range s.nodes {
				x.nodes[tkey(rt)] = &snode{T: rt, f: n.f, elem: n.elem, min: n.min}
			}
			s = x
		}
		t.record(s)
		r.join(s)
	}
	return r
}

func isList(T types.Type) bool {
	_, ok := T.Underlying().(*types.Slice)
	return ok
}

// as is s as a value of type T: itself, what a pointer points to, or a pointer to it.
func (t *total) as(s *shp, T types.Type) *shp {
	x := newShp()
	x.nils = s.nils
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		switch pt.Elem().Underlying().(type) {
		case *types.Interface, *types.Pointer:
			in := newShp()
			in.join(s)
			in.nils = false
			if _, ok := pt.Elem().Underlying().(*types.Pointer); ok {
				in = t.as(in, pt.Elem())
			}
			if !in.bottom() {
				x.node(T).elem = in
			}
			return x
		}
	}
	for _, n := range s.nodes {
		switch {
		case types.Identical(n.T, T):
			x.nodes[tkey(n.T)] = n
		case types.Identical(derefT(n.T), derefT(T)), isList(n.T) && isList(T) && types.Identical(n.T.Underlying(), T.Underlying()):
			x.nodes[tkey(T)] = &snode{T: T, f: n.f, elem: n.elem, min: n.min}
		case isString(T):
			x.node(T)
		}
	}
	return x
}

func vObj(st *State, id int64) *V { return mk(V{op: OObj, num: id}) }

func (t *total) dump() {
	for _, n := range sortedKeys(t.rule) {
		fmt.Println("rule", n, t.rule[n])
	}
	for _, n := range sortedKeys(t.fld) {
		for i, s := range t.fld[n] {
			fmt.Println("field", n, i, s)
		}
	}
}
