package main

// C01: the tree keeps every word of the text, once and in order.
//
// (a) Every method that attaches a modifier returns a node of the same kind whose words are those of
// the receiver followed by the modifier.
// (b) In every action of the grammar the labelled pieces cover the text of the action, without gaps
// and overlaps, and the words of the value that the action makes are the words of its pieces in the
// order of the text.
// (c) The value that a rule returns covers the text that the rule matched.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type wordsCheck struct {
	p     *Program
	r     *Report
	s     *astSpec
	g     *gram
	rules map[string]*wordsRule
	lossy map[string]string
	zero  map[string]bool
	reach map[string]bool
}

type wordsLit struct {
	id   int
	fn   *ssa.Function
	args []gval // positions renamed to ranks
	ord  []int
	bad  string
	outs []Outcome
}

type wordsRule struct {
	name  string
	lits  []*wordsLit
	rets  map[string]bool // shapes of the values returned
	bad   []string        // results that do not cover the text
	uses  map[string]bool // rules called
	junk  map[string]bool // rules whose lossy values are used
	err   string
	n     int
	took  bool // some match takes text
	tmpl  *wordsTmpl
	tdone bool
}

// wordsTmpl: fields that are always absent in the values of a rule; whether the values are pointers to fresh nodes.
type wordsTmpl struct {
	empty map[int]bool
	ptr   bool
}

func ruleWords(p *Program, r *Report) {
	s := newASTSpec(p)
	if specErrors(r, s) {
		return
	}
	if e := s.initMods(); e != "" {
		r.bad("anchor", e, "ast", e)
		return
	}
	c := &wordsCheck{p: p, r: r, s: s, zero: map[string]bool{}}
	c.modMethods()
	c.grammar()
	r.atLeast("attach", 100)
	r.atLeast("action", 100)
	r.atLeast("piece", 100)
	r.atLeast("result", 200)
	r.assumption("Lists are materialised with up to 3 elements; elements beyond the third are taken to be handled like the third.")
	r.assumption("A method called on a part of a node through an interface attaches the modifier after the part: this is what is checked for every kind of node (induction over the size of the tree).")
	r.assumption("A call of a rule's function from another rule returns a value that covers the text between the two positions: this is what is checked for every rule (induction over the length of the parse). That parser functions agree on what they match is C11; that values are not shared between two places is C07.")
	r.assumption("Spellings of words may be normalised (C09); the classification of values as made from a piece of the text does not look inside strings.")
}

// dyn restricts the elements of a discourse to sentences and fragments.
func (c *wordsCheck) dyn(st *State, v *V) []types.Type {
	ds := c.s.nodeDyn(st, v)
	if v.op == OLoad && v.args[0].op == OIAddr && v.typ != nil && types.Identical(v.typ, c.s.nodeT) {
		sen, fra := c.p.typ("ast", "Sentence"), c.p.typ("ast", "Fragment")
		if sen == nil || fra == nil {
			return ds
		}
		var out []types.Type
		for _, t := range ds {
			if types.Implements(t, sen.Underlying().(*types.Interface)) || types.Implements(t, fra.Underlying().(*types.Interface)) {
				out = append(out, t)
			}
		}
		return out
	}
	return ds
}

func (c *wordsCheck) eng() *Eng {
	e := newEng(c.p)
	e.invokes = true
	e.DynSet = c.dyn
	return e
}

// initial is the state without the writes to the memory that was there before.
func initial(st *State) *State {
	n := st.clone()
	n.over = map[*V]*V{}
	return n
}

func (c *wordsCheck) modMethods() {
	r := c.r
	for i := range c.s.kinds {
		k := &c.s.kinds[i]
		fns := c.s.modMethods(k)
		if len(fns) == 0 {
			r.bad("anchor", k.name, "ast", "no method of "+k.name+" attaches a modifier")
		}
		for _, fn := range fns {
			c.modMethod(k, fn)
		}
	}
}

func (c *wordsCheck) modMethod(k *nodeKind, fn *ssa.Function) {
	r := c.r
	e := c.eng()
	st := newState()
	pp, _ := k.root(st, "n")
	if k.list {
		delete(st.facts, eqAtom(pp, vNil))
	}
	m := vSym("m", c.s.modPtr)
	name := k.name + "." + fn.Name()
	at := c.p.pos(fn.Pos())
	if o := fn.Object(); o != nil {
		at = c.p.pos(o.Pos())
	}
	outs := e.Run(fn, st, pp, m)
	r.analysed["paths"] += len(outs)
	r.analysed["methods"]++
	n := 0
	for _, o := range outs {
		if c.s.infeasibleEmpty(o.St, k, pp) || c.emptyRoot(o.St, k, pp) {
			continue
		}
		when := o.St.factString()
		switch o.Kind {
		case Cut:
			if e.over {
				r.bad("undecided", name, at, "analysis budget exceeded")
			}
			continue
		case Panicked:
			r.bad("attach", name, c.p.pos(o.Pos), "attaching a modifier fails ("+o.Vals[0].String()+") when "+when)
			continue
		}
		n++
		got := &yielder{o.St, c.s}
		want := &yielder{initial(o.St), c.s}
		w := append(want.of(pp, k.T, 0), want.of(m, c.s.modPtr, 0)...)
		g := got.of(o.Vals[0], fn.Signature.Results().At(0).Type(), 0)
		bad := ""
		if !sameYield(g, w) {
			bad = "the result " + diffYield(g, w) + " when " + when
		} else if len(o.St.over) > 0 {
			bad = "the receiver or a node that it shares is changed in place when " + when
		}
		r.check(bad == "", "attach", name, at, bad)
	}
	if n == 0 {
		r.bad("attach", name, at, "no path returns")
	}
}

// emptyRoot: the receiver is a list without elements, which the grammar does not make.
func (c *wordsCheck) emptyRoot(st *State, k *nodeKind, pp *V) bool {
	if k.name == "Text" {
		// a text is not a part of anything, and nothing attaches a modifier to one without sentences
		for x, n := range st.shape {
			if n == 0 && x.op == OLoad && x.args[0].op == OFAddr && x.args[0].args[0] == pp {
				return true
			}
		}
	}
	if !k.list {
		return false
	}
	list := pp
	if _, ok := k.T.(*types.Pointer); ok {
		list = initial(st).load(pp, k.elem)
	}
	if n, ok := st.shape[list]; ok && n == 0 {
		return true
	}
	b, ok := st.knownNil(list)
	return ok && b
}

// ---- grammar

func (c *wordsCheck) grammar() {
	r := c.r
	c.g = newGram(c.p)
	for _, e := range c.g.errs {
		r.bad("grammar", e, "-", e)
	}
	c.rules = map[string]*wordsRule{}
	c.lossy = map[string]string{}
	entries := c.entries()
	if len(entries) == 0 {
		r.bad("anchor", "Parser", "ast/parser.go", "no method of Parser returns a tree made by a rule")
		return
	}
	full := map[string]bool{}
	for _, en := range entries {
		c.walk(en.rule, full, en.text)
	}
	c.reach = map[string]bool{}
	for n, t := range full {
		if t {
			c.reach[n] = true
		}
	}
	for _, n := range sortedKeys(full) {
		if bad := c.ruleBad(c.rules[n]); bad != "" {
			c.lossy[n] = bad
		}
	}
	if len(c.lossy) > 0 {
		// again, to see who uses the values that leave something out
		for _, n := range sortedKeys(full) {
			if c.usesLossy(c.rules[n]) {
				delete(c.rules, n)
				c.rule(n)
			}
		}
	}
	used := map[string]string{}
	for _, n := range sortedKeys(full) {
		for q := range c.rules[n].junk {
			used[q] = n
		}
	}
	for _, en := range entries {
		used[en.rule] = "the parser's " + en.method + " method"
	}
	for _, n := range sortedKeys(full) {
		w := c.rules[n]
		at := c.fnPos(n)
		r.analysed["rules"]++
		r.analysed["states"] += w.n
		if w.err != "" {
			r.bad("undecided", n+"Action", at, w.err)
			continue
		}
		c.ruleBad(w)
		if bad := c.lossy[n]; bad != "" {
			if by := used[n]; by != "" {
				r.bad("result", n+"Action", at, bad+"; the value is used by "+by)
			} else {
				r.ok("unused", n+"Action")
			}
			continue
		}
		for _, l := range w.lits {
			for i, a := range l.args {
				if a.k == gSeg || a.k == gPSeg {
					r.ok("piece", fmt.Sprintf("%s %s %s", n, l.fn.Name(), l.fn.Params[i].Name()))
				}
			}
			for range l.outs {
				r.ok("action", n+" "+l.fn.Name())
			}
		}
		for s := range w.rets {
			r.ok("result", n+"Action "+s)
		}
	}
}

func (c *wordsCheck) fnPos(n string) string {
	if f := c.g.byRule[n]["Action"]; f != nil {
		return c.p.pos(f.Pos())
	}
	return "-"
}

type wordsEntry struct {
	rule, method string
	text         bool
}

// entries are the rules whose values the exported methods of Parser return.
func (c *wordsCheck) entries() []wordsEntry {
	var out []wordsEntry
	pt := c.p.typ("ast", "Parser")
	if pt == nil {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(pt))
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		fn := c.p.prog.MethodValue(ms.At(i))
		if fn == nil {
			continue
		}
		for _, q := range c.callsTo(fn, map[*ssa.Function]bool{}) {
			text := false
			if res := f.Type().(*types.Signature).Results(); res.Len() > 0 {
				if nm := namedOf(deref(res.At(0).Type())); nm != nil {
					text = nm.Obj().Name() == "Text"
				}
			}
			out = append(out, wordsEntry{q, f.Name(), text})
		}
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// callsTo lists the rules whose action functions fn calls or passes on, outside the generated parser.
func (c *wordsCheck) callsTo(fn *ssa.Function, seen map[*ssa.Function]bool) []string {
	if seen[fn] || !c.p.inRepo(fn) {
		return nil
	}
	seen[fn] = true
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				f, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if n := c.g.rules[f]; n != "" {
					if c.g.kind[f] == "Action" {
						out = append(out, n)
					}
					continue
				}
				out = append(out, c.callsTo(f, seen)...)
			}
		}
	}
	return out
}

// walk marks the rules reachable from n; the value tells whether they are part of a full text.
func (c *wordsCheck) walk(n string, seen map[string]bool, text bool) {
	if t, ok := seen[n]; ok && (t || !text) {
		return
	}
	seen[n] = text
	w := c.rule(n)
	for q := range w.uses {
		c.walk(q, seen, text)
	}
}

func (c *wordsCheck) usesLossy(w *wordsRule) bool {
	if w == nil {
		return true
	}
	for q := range w.uses {
		if c.lossy[q] != "" {
			return true
		}
	}
	return false
}

// rule explores the action function of a rule.
func (c *wordsCheck) rule(n string) *wordsRule {
	if w := c.rules[n]; w != nil {
		return w
	}
	w := &wordsRule{name: n, rets: map[string]bool{}, uses: map[string]bool{}, junk: map[string]bool{}}
	c.rules[n] = w
	g := c.g
	fn := g.byRule[n]["Action"]
	if fn == nil {
		w.err = "the rule " + n + " has no action function"
		return w
	}
	save, saveLit := g.cur, g.lit
	g.cur = n
	ids := map[string]*wordsLit{}
	g.lit = func(fn *ssa.Function, args []gval) gval {
		return c.lit(w, ids, fn, args)
	}
	defer func() { g.lit = saveLit; g.cur = save }()
	runes := g.runesOf(n)
	seen := map[string]bool{}
	var work []*gm
	push := func(m *gm) {
		g.mapErr(m, func([]gval) []gval { return nil })
		cn := &canon{g: g, tok: map[int]int{}}
		cn.scan(m)
		x := cn.state(m)
		if k := cn.b.String(); !seen[k] {
			seen[k] = true
			work = append(work, x)
			w.n++
		}
	}
	push(g.start(fn))
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if w.n > 6000 {
			w.err = "too many states"
			return w
		}
		for _, o := range g.joinOuts(g.run(x)) {
			if o.err != "" {
				w.err = o.err
				return w
			}
			if o.isRet {
				c.ret(w, o)
				continue
			}
			if o.q.kind == "rule" {
				w.uses[o.q.name] = true
			}
			nt := 1000 + w.n
			for _, a := range g.answers(o.q, runes) {
				m := o.m.clone()
				to := nt
				if o.q.kind == "rule" && c.zeroWidth(o.q.name) {
					to = o.q.pos
				}
				v := a.val(m, o.q, to)
				if o.q.kind == "rule" && a.name == "ok" && c.lossy[o.q.name] != "" && v.k == gTup && len(v.el) == 2 {
					v.el = []gval{v.el[0], {k: gJunk, s: "value of " + o.q.name}}
				}
				push(g.resume(m, v))
			}
		}
	}
	return w
}

// zeroWidth: a rule that calls no rule and takes no text when it matches.
func (c *wordsCheck) zeroWidth(n string) bool {
	if z, ok := c.zero[n]; ok {
		return z
	}
	fn := c.g.byRule[n]["Action"]
	if fn == nil {
		return false
	}
	c.zero[n] = false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if f := call.Common().StaticCallee(); f != nil && c.g.rules[f] != "" {
					return false
				}
			}
		}
	}
	w := c.rule(n)
	z := w.err == "" && len(w.bad) == 0 && !w.took && len(w.rets) > 0
	c.zero[n] = z
	return z
}

func (w *wordsRule) note(s string) {
	for _, x := range w.bad {
		if x == s {
			return
		}
	}
	if len(w.bad) < 4 {
		w.bad = append(w.bad, s)
	}
}

// ret looks at a value that the rule returns.
func (c *wordsCheck) ret(w *wordsRule, o gout) {
	if len(o.ret) != 2 || o.ret[1].k == gNil || o.ret[1].k == gMemo {
		return
	}
	end := -1
	if o.ret[0].k == gPos {
		end = o.ret[0].a
	}
	if o.ret[0].k == gMemo {
		return // remembered: see C07 and C11
	}
	if end != 0 {
		w.took = true
	}
	v := o.ret[1]
	switch v.k {
	case gAddr, gPSeg, gJunk:
		for i := 0; v.k == gAddr && i < 4; i++ {
			v = c.g.load(o.m, v)
		}
	}
	if v.k == gPSeg {
		v.k = gSeg
	}
	switch {
	case v.k == gJunk:
		if q := strings.TrimPrefix(v.s, "value of "); q != v.s {
			w.junk[q] = true
		} else {
			w.note("the value that is returned is not made from the text that was matched: " + v.s)
		}
	case v.k == gSeg && v.a == 0 && v.b == end:
		s := v.s
		if s == "" {
			s = "text"
		}
		w.rets[s] = true
	case (v.k == gEmpty || v.k == gNil) && end == 0:
		w.rets["nothing"] = true
	default:
		w.note(fmt.Sprintf("the value that is returned is %v, the rule matched text[@0:@%d]", v, end))
	}
}

// lit records a call of an action.
func (c *wordsCheck) lit(w *wordsRule, ids map[string]*wordsLit, fn *ssa.Function, args []gval) gval {
	// rename positions to their ranks: positions made later lie further on
	l := &wordsLit{fn: fn}
	var from, to *gval
	var segs []int
	for i, a := range args {
		if i < len(fn.Params) && len(*fn.Params[i].Referrers()) == 0 && a.k != gPos {
			// a piece that is not used: its text must be in another piece
			args[i] = gval{k: gNil}
			continue
		}
		switch a.k {
		case gPos:
			x := args[i]
			if from == nil {
				from = &x
			} else {
				to = &x
			}
		case gSeg, gPSeg:
			segs = append(segs, i)
		case gNil, gEmpty:
		case gJunk:
			if q := strings.TrimPrefix(a.s, "value of "); q != a.s {
				w.junk[q] = true
			} else {
				l.bad = "piece " + fn.Params[i].Name() + ": " + a.s
			}
			segs = nil
		default:
			if l.bad == "" {
				l.bad = fmt.Sprintf("argument %s of an action is not a piece of the text: %v", fn.Params[i].Name(), a)
			}
		}
	}
	if from == nil && to == nil && len(segs) > 0 {
		// without the positions of its text: from the first piece to the last
		first, last := map[int]bool{}, map[int]bool{}
		for _, i := range segs {
			if args[i].a != args[i].b {
				last[args[i].a], first[args[i].b] = true, true
			}
		}
		for _, i := range segs {
			if !first[args[i].a] && from == nil {
				from = &gval{k: gPos, a: args[i].a}
			}
			if !last[args[i].b] {
				to = &gval{k: gPos, a: args[i].b}
			}
		}
	}
	// chain the pieces
	if from == nil || to == nil {
		l.bad = "an action is called without the positions of its text"
	} else if l.bad == "" {
		at := from.a
		left := append([]int(nil), segs...)
		for len(left) > 0 {
			hit := -1
			for j, i := range left {
				if args[i].a == at && args[i].a != args[i].b {
					hit = j
				}
			}
			for j, i := range left { // pieces of nothing
				if hit < 0 && args[i].a == at {
					hit = j
				}
			}
			if hit < 0 {
				break
			}
			i := left[hit]
			at = args[i].b
			l.ord = append(l.ord, i)
			left = append(left[:hit:hit], left[hit+1:]...)
		}
		if len(left) > 0 {
			l.bad = fmt.Sprintf("the piece %s does not follow the others in the text (%v)", fn.Params[left[0]].Name(), gval{k: gTup, el: args})
		} else if strRes := fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()); at != to.a && len(w.junk) == 0 && !(strRes && len(l.ord) > 0) {
			// (what a string is made of besides its pieces: see C09)
			var ns []string
			for _, i := range l.ord {
				ns = append(ns, fn.Params[i].Name())
			}
			l.bad = fmt.Sprintf("the pieces [%s] do not reach the end of the text that was matched: some of it is in no piece", strings.Join(ns, " "))
		}
	}
	// key
	rank := map[int]int{}
	if from != nil {
		rank[from.a] = 0
	}
	for _, i := range l.ord {
		for _, t := range []int{args[i].a, args[i].b} {
			if _, ok := rank[t]; !ok {
				rank[t] = len(rank)
			}
		}
	}
	k := fn.String() + "|" + l.bad
	for _, a := range args {
		if a.k == gPos || a.k == gSeg || a.k == gPSeg {
			a.a = rank[a.a]
		}
		if a.k == gSeg || a.k == gPSeg {
			a.b = rank[a.b]
		}
		l.args = append(l.args, a)
		k += fmt.Sprintf("|%d,%d,%d,%s", a.k, a.a, a.b, a.s)
	}
	if x, ok := ids[k]; ok {
		l = x
	} else {
		l.id = len(w.lits)
		ids[k] = l
		w.lits = append(w.lits, l)
	}
	if from == nil || to == nil {
		return gval{k: gJunk, s: "the value of an action that is not understood"}
	}
	return gval{k: gSeg, a: from.a, b: to.a, s: fmt.Sprintf("lit %d", l.id)}
}

// template describes the values of a rule as far as absent parts go.
func (c *wordsCheck) template(n string) *wordsTmpl {
	w := c.rule(n)
	if w.tdone {
		return w.tmpl
	}
	w.tdone = true // recursion: nothing is known
	var t *wordsTmpl
	first := true
	meet := func(x *wordsTmpl) {
		if first {
			t, first = x, false
			return
		}
		if t == nil || x == nil || t.ptr != x.ptr {
			t = nil
			return
		}
		m := map[int]bool{}
		for f := range t.empty {
			if x.empty[f] {
				m[f] = true
			}
		}
		t = &wordsTmpl{m, t.ptr}
	}
	var ss []string
	for s := range w.rets {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		var id int
		if k, _ := fmt.Sscanf(s, "lit %d", &id); k == 1 && id < len(w.lits) {
			meet(c.litTmpl(w, w.lits[id]))
		} else if c.g.byRule[s] != nil {
			meet(c.template(s))
		} else {
			meet(nil)
		}
	}
	w.tmpl = t
	return t
}

func (c *wordsCheck) litTmpl(w *wordsRule, l *wordsLit) *wordsTmpl {
	c.evalLit(w, l)
	var t *wordsTmpl
	for i, o := range l.outs {
		x := c.valTmpl(o)
		if i == 0 {
			t = x
			continue
		}
		if t == nil || x == nil || t.ptr != x.ptr {
			return nil
		}
		for f := range t.empty {
			if !x.empty[f] {
				delete(t.empty, f)
			}
		}
	}
	return t
}

func (c *wordsCheck) valTmpl(o Outcome) *wordsTmpl {
	if o.Kind != Ret || len(o.Vals) != 1 {
		return nil
	}
	v := o.Vals[0]
	t := &wordsTmpl{empty: map[int]bool{}}
	if v.op == OObj {
		t.ptr = true
		v = o.St.load(v, nil)
	}
	if v.op != OStruct {
		return nil
	}
	for i, a := range v.args {
		if isZero(a) {
			t.empty[i] = true
		} else if b, ok := o.St.knownNil(a); ok && b {
			t.empty[i] = true
		}
	}
	return t
}

// param makes the abstract value of a piece.
func (c *wordsCheck) param(st *State, q *ssa.Parameter, a gval) *V {
	if a.k == gNil || a.k == gEmpty {
		return zero(q.Type())
	}
	t := q.Type()
	sym := vSym(q.Name(), t)
	var tm *wordsTmpl
	if c.g.byRule[a.s] != nil {
		tm = c.template(a.s)
	}
	el := t
	p, isPtr := t.Underlying().(*types.Pointer)
	if isPtr {
		el = p.Elem()
	}
	_, isStruct := el.Underlying().(*types.Struct)
	if tm != nil && isStruct && (!isPtr || tm.ptr || a.k == gPSeg) {
		content := c.shaped(vSym(q.Name()+"*", el), el, tm)
		if !isPtr {
			return c.shaped(sym, el, tm)
		}
		return st.newObj(el, content, q.Pos())
	}
	if isPtr && a.k == gPSeg {
		st.facts[eqAtom(sym, vNil)] = false
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		st.facts[eqAtom(sym, vNil)] = false
	}
	return sym
}

func (c *wordsCheck) shaped(base *V, t types.Type, tm *wordsTmpl) *V {
	stt := t.Underlying().(*types.Struct)
	v := mk(V{op: OStruct, typ: t, aux: zero(t).aux, args: append([]*V(nil), zero(t).args...)})
	for i := 0; i < stt.NumFields(); i++ {
		if !tm.empty[i] {
			f := fieldOf(base, i, t)
			v = withArg(v, i, f)
		}
	}
	return v
}

// evalLit analyses an action with its pieces and compares the words.
func (c *wordsCheck) evalLit(w *wordsRule, l *wordsLit) {
	if l.outs != nil || l.bad != "" {
		return
	}
	fn := l.fn
	if len(l.args) != len(fn.Params) {
		l.bad = "the action has captured values"
		return
	}
	st := newState()
	var args []*V
	var pos []*V
	for i, q := range fn.Params {
		if l.args[i].k == gPos {
			v := vSym(q.Name(), q.Type())
			args = append(args, v)
			pos = append(pos, v)
			continue
		}
		args = append(args, c.param(st, q, l.args[i]))
	}
	if len(pos) == 0 {
		pos = []*V{vSym("?", nil), vSym("?", nil)}
	}
	if len(pos) != 2 {
		l.bad = "the action is not called with two positions"
		return
	}
	// a list that a rule makes is not empty
	before := st.clone()
	e := c.eng()
	outs := e.Run(fn, st, args...)
	if e.over {
		l.bad = "analysis budget exceeded"
		return
	}
	res := fn.Signature.Results()
	strRes := res.Len() == 1 && isString(res.At(0).Type())
	for _, o := range outs {
		if o.Kind == Cut || c.emptyList(o.St) {
			continue
		}
		if o.Kind == Panicked {
			if strRes {
				continue // a look-up in a tone table: see C09
			}
			l.bad = "the action fails (" + o.Vals[0].String() + ") when " + o.St.factString()
			return
		}
		l.outs = append(l.outs, o)
		if strRes {
			continue
		}
		// the words of the pieces
		ini := initial(o.St)
		for id, v := range before.heap {
			ini.heap[id] = v
		}
		y := &yielder{ini, c.s}
		var want []*V
		for _, i := range l.ord {
			q, a := fn.Params[i], l.args[i]
			if isString(q.Type()) {
				S, E := pos[0], pos[1]
				if a.a != 0 {
					S = vSym("?", nil)
				}
				if a.b != c.endRank(l) {
					E = vSym("?", nil)
				}
				want = append(want, tok(args[i], S, E))
				continue
			}
			want = append(want, y.of(args[i], q.Type(), 0)...)
		}
		got := (&yielder{o.St, c.s}).of(o.Vals[0], res.At(0).Type(), 0)
		if !c.sameWords(got, want, w) {
			l.bad = "the value " + diffYield(got, want)
			if f := o.St.factString(); f != "" {
				l.bad += " when " + f
			}
			return
		}
		if len(o.St.over) > 0 {
			l.bad = "the action changes a value in place that may be shared"
			return
		}
		for id, v := range before.heap {
			if o.St.heap[id] != v {
				// a piece is changed in place: only this rule may call the one that made it
				for _, i := range l.ord {
					if args[i].op == OObj && args[i].num == id {
						if by := c.otherCallers(l.args[i].s, w.name); by != "" {
							l.bad = fmt.Sprintf("the action changes the value of %s in place, which %s uses too", l.args[i].s, by)
							return
						}
					}
				}
			}
		}
	}
	if len(l.outs) == 0 {
		l.bad = "the action is not followed to its end"
	}
}

func (c *wordsCheck) endRank(l *wordsLit) int {
	n := 0
	for _, a := range l.args {
		if a.k == gPos && a.a > n {
			n = a.a
		}
	}
	return n
}

func (c *wordsCheck) sameWords(got, want []*V, w *wordsRule) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		a, b := got[i], want[i]
		if a == b {
			continue
		}
		// outside full texts, the end of a single word may include the spaces after it
		if !c.inText(w) && a.op == OCall && b.op == OCall && a.aux == b.aux && len(a.args) == 3 && len(b.args) == 3 && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
			continue
		}
		return false
	}
	return true
}

func (c *wordsCheck) inText(w *wordsRule) bool { return c.reach == nil || c.reach[w.name] }

func (c *wordsCheck) emptyList(st *State) bool {
	for x, n := range st.shape {
		if n == 0 && x.op != OObj && x.typ != nil {
			if types.Implements(x.typ, c.s.node) || types.Implements(types.NewPointer(x.typ), c.s.node) {
				return true
			}
			if sl, ok := x.typ.Underlying().(*types.Slice); ok && types.Implements(sl.Elem(), c.s.node) {
				return true
			}
		}
	}
	return false
}

func (c *wordsCheck) otherCallers(rule, but string) string {
	for _, n := range sortedKeys(c.rules) {
		if w := c.rules[n]; w != nil && n != but && w.uses[rule] {
			return n
		}
	}
	return ""
}

// ruleBad checks the actions and results of a rule.
func (c *wordsCheck) ruleBad(w *wordsRule) string {
	if w == nil || w.err != "" {
		return ""
	}
	var bad []string
	bad = append(bad, w.bad...)
	for _, l := range w.lits {
		c.evalLit(w, l)
		if l.bad != "" {
			bad = append(bad, fmt.Sprintf("%s: %s", c.p.pos(l.fn.Pos()), l.bad))
		}
	}
	if len(bad) > 3 {
		bad = bad[:3]
	}
	return strings.Join(bad, "; ")
}
