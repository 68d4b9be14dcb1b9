package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: termination of the generated parser.
//
// For every function of every rule the graph of its abstract states is built, with the answers of
// the text and of the rules it calls as edges. A rule that can match nothing has the extra answer
// "ok, nothing consumed". Every position that an answer makes lies strictly after the one asked at.

type tnode struct {
	m     *gm
	slots map[string]int // position variable -> token
	out   []*tedge
	scc   int
	q     string
	rule  string // rule called
	trace *gtrace
}

type tedge struct {
	from, to *tnode
	raw      map[string]int // position variable of to -> token of from, or fresh
	fresh    int
	up       int // token strictly before fresh
	name     string
	dead     bool
}

type termFn struct {
	nodes []*tnode
	left  map[string]string // rule called at the start -> where
	null  bool
	err   string
	errAt string
	trace *gtrace
}

func (g *gram) slotsOf(m *gm) map[string]int {
	c := &canon{g: g}
	r := map[string]int{}
	for i, f := range m.frames {
		for _, v := range c.live(f) {
			x := f.env[v]
			n := fmt.Sprintf("%d:%s", i, v.Name())
			if x.k == gAddr {
				x = getPath(m.cells[x.a], x.s)
				n += "*"
			}
			if x.k == gPos {
				r[n] = x.a
			}
		}
	}
	return r
}

// explore builds the state graph of a function of a rule.
func (g *gram) explore(rule, kind string, nullable map[string]bool, p *Program) *termFn {
	fn := g.byRule[rule][kind]
	g.cur = rule
	t := &termFn{left: map[string]string{}}
	runes := g.runesOf(rule)
	byKey := map[string]*tnode{}
	mk := func(m *gm, tr *gtrace) (*tnode, *canon, bool) {
		g.mapErr(m, func([]gval) []gval { return nil })
		c := &canon{g: g, tok: map[int]int{}}
		c.scan(m)
		n := c.state(m)
		k := c.b.String()
		if x, ok := byKey[k]; ok {
			return x, c, false
		}
		x := &tnode{m: n, slots: g.slotsOf(n), trace: tr}
		byKey[k] = x
		t.nodes = append(t.nodes, x)
		return x, c, true
	}
	st := g.start(fn)
	st.ord = map[int]int{}
	first, _, _ := mk(st, nil)
	work := []*tnode{first}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if len(t.nodes) > 6000 {
			t.err = "too many states"
			return t
		}
		outs := g.joinOuts(g.run(x.m.clone()))
		for _, o := range outs {
			if o.err != "" {
				t.err, t.trace = o.err, x.trace
				if o.errPos.IsValid() {
					t.errAt = p.pos(o.errPos)
				}
				return t
			}
			if o.isRet {
				if kind == "Accepts" && len(o.ret) == 2 && o.ret[0].k == gDelta && o.ret[0].a == o.ret[0].b {
					t.null = true
				}
				continue
			}
			if o.q.kind == "rule" && o.q.pos == 0 {
				if _, ok := t.left[o.q.name]; !ok {
					t.left[o.q.name] = p.pos(o.errPos)
				}
			}
			x.q = o.q.desc()
			if o.q.kind == "rule" {
				x.rule = o.q.name
			}
			nt := 1
			for k := range o.m.ord {
				if k >= nt {
					nt = k + 1
				}
			}
			for _, v := range g.slotsOf(x.m) {
				if v >= nt {
					nt = v + 1
				}
			}
			nt += 1000
			ans := g.answers(o.q, runes)
			if o.q.kind == "rule" && nullable[o.q.name] {
				ans = append(ans, ganswer{name: "ok, nothing consumed", same: true, val: func(m *gm, q *gquery, _ int) gval { return g.ruleVal(m, q, q.pos, true) }})
			}
			for _, a := range ans {
				m := o.m.clone()
				v := a.val(m, o.q, nt)
				if !a.same {
					m.ord[nt] = o.q.pos
				}
				n := 1
				if x.trace != nil {
					n = x.trace.len + 1
				}
				tr := &gtrace{up: x.trace, s: o.q.desc() + ": " + a.name, len: n}
				m2 := g.resume(m, v)
				raw := g.slotsOf(m2)
				y, _, isNew := mk(m2, tr)
				e := &tedge{from: x, to: y, raw: raw, fresh: nt, up: o.q.pos, name: tr.s}
				x.out = append(x.out, e)
				if isNew {
					work = append(work, y)
				}
			}
		}
	}
	return t
}

// progress checks that no cycle of the state graph is without progress.
// It returns the edges of a cycle for which there is no argument.
func (t *termFn) progress() []*tedge {
	return cycles(t.nodes, map[*tnode]bool{}, 0)
}

func sccs(nodes []*tnode, in map[*tnode]bool) [][]*tnode {
	index := map[*tnode]int{}
	low := map[*tnode]int{}
	on := map[*tnode]bool{}
	var stack []*tnode
	var out [][]*tnode
	n := 0
	var rec func(v *tnode)
	rec = func(v *tnode) {
		n++
		index[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, e := range v.out {
			if e.dead || !in[e.to] {
				continue
			}
			if index[e.to] == 0 {
				rec(e.to)
				if low[e.to] < low[v] {
					low[v] = low[e.to]
				}
			} else if on[e.to] && index[e.to] < low[v] {
				low[v] = index[e.to]
			}
		}
		if low[v] == index[v] {
			var c []*tnode
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			out = append(out, c)
		}
	}
	for _, v := range nodes {
		if index[v] == 0 {
			rec(v)
		}
	}
	return out
}

func cycles(nodes []*tnode, _ map[*tnode]bool, depth int) []*tedge {
	in := map[*tnode]bool{}
	for _, n := range nodes {
		in[n] = true
	}
	for _, c := range sccs(nodes, in) {
		cin := map[*tnode]bool{}
		for _, n := range c {
			cin[n] = true
		}
		var edges []*tedge
		for _, n := range c {
			for _, e := range n.out {
				if !e.dead && cin[e.to] {
					edges = append(edges, e)
				}
			}
		}
		if len(edges) == 0 {
			continue
		}
		if depth > 20 {
			return edges
		}
		// variables that keep their position on every edge
		inv := map[string]bool{}
		for k := range c[0].slots {
			inv[k] = true
		}
		for _, n := range c {
			for k := range inv {
				if _, ok := n.slots[k]; !ok {
					delete(inv, k)
				}
			}
		}
		for _, e := range edges {
			for k := range inv {
				if e.raw[k] != e.from.slots[k] {
					delete(inv, k)
				}
			}
		}
		strict := 0
		for _, e := range edges {
			switch step(e, inv) {
			case 1:
				strict++
			case -1:
				return []*tedge{e}
			}
		}
		if strict == 0 {
			return edges
		}
		for _, e := range edges {
			if step(e, inv) == 1 {
				e.dead = true
			}
		}
		if r := cycles(c, nil, depth+1); r != nil {
			return r
		}
	}
	return nil
}

// step compares the least position of the variables that change: 1 if it goes forward, 0 if it
// stays or goes forward, -1 if it may go back.
func step(e *tedge, inv map[string]bool) int {
	after := func(a, b int) (ge, gt bool) { // a after b, in tokens of from and the fresh one
		if a == b {
			return true, false
		}
		ord := e.from.m.ord
		for n := 0; n < 1000; n++ {
			var p int
			var ok bool
			if a == e.fresh {
				p, ok = e.up, true
			} else {
				p, ok = ord[a]
			}
			if !ok {
				return false, false
			}
			if p == b {
				return true, true
			}
			a = p
		}
		return false, false
	}
	var min []int
	for k, x := range e.from.slots {
		if inv[k] {
			continue
		}
		min = append(min, x)
	}
	sort.Ints(min)
	var mins []int
	for i, x := range min {
		if i > 0 && x == min[i-1] {
			continue
		}
		least := true
		for _, y := range min {
			if _, gt := after(x, y); gt {
				least = false
			}
		}
		if least {
			mins = append(mins, x)
		}
	}
	if len(mins) == 0 {
		return 0
	}
	strict := len(mins) == 1
	n := 0
	for k, x := range e.raw {
		if inv[k] {
			continue
		}
		n++
		ok := false
		for _, m := range mins {
			ge, gt := after(x, m)
			ok = ok || ge
			if !gt {
				strict = false
			}
		}
		if !ok {
			return -1
		}
	}
	if n == 0 {
		return 0
	}
	if strict {
		return 1
	}
	return 0
}

func ruleTerminates(p *Program, r *Report) {
	g := newGram(p)
	for _, e := range g.errs {
		r.bad("grammar", e, "-", e)
	}
	// rules that can match nothing
	nullable := map[string]bool{}
	graphs := map[string]*termFn{}
	for changed := true; changed; {
		changed = false
		for _, n := range g.names {
			if g.byRule[n]["Accepts"] == nil {
				continue
			}
			if t := graphs[n]; t != nil {
				// look again only if a rule it calls has become nullable
				again := false
				for q := range t.calls() {
					again = again || nullable[q]
				}
				if !again {
					continue
				}
			}
			t := g.explore(n, "Accepts", nullable, p)
			graphs[n] = t
			if t.null && !nullable[n] {
				nullable[n] = true
				changed = true
			}
		}
	}
	for _, n := range g.names {
		for _, k := range gramSuffix {
			if g.byRule[n][k] == nil {
				continue
			}
			t := g.explore(n, k, nullable, p)
			fn := n + k
			at := t.errAt
			if at == "" {
				at = p.pos(g.byRule[n][k].Pos())
			}
			if t.err != "" {
				r.bad("progress", fn, at, t.err+" after ["+t.trace.String()+"]")
				continue
			}
			if k == "Accepts" {
				graphs[n] = t
			} else {
				for q, at := range t.left {
					r.check(graphs[n].left[q] != "", "same calls at the start", fn+" "+q, at, fn+" calls "+q+" at its start, where the recognising pass does not")
				}
			}
			if c := t.progress(); c != nil {
				var ss []string
				for i, e := range c {
					if i < 6 {
						ss = append(ss, e.name)
					}
				}
				r.bad("progress", fn, at, "a repetition can go round without consuming text: "+joinComma(ss)+" after ["+c[0].from.trace.String()+"]")
			} else {
				r.ok("progress", fn)
			}
		}
	}
	// left recursion
	state := map[string]int{}
	var path []string
	var rec func(n string)
	rec = func(n string) {
		state[n] = 1
		path = append(path, n)
		t := graphs[n]
		if t != nil {
			for _, q := range sortedKeys(t.left) {
				switch state[q] {
				case 0:
					rec(q)
				case 1:
					i := 0
					for path[i] != q {
						i++
					}
					r.bad("left recursion", n, t.left[q], "the rule "+q+" calls itself at the same position: "+joinArrow(append(append([]string(nil), path[i:]...), q)))
				}
			}
		}
		path = path[:len(path)-1]
		state[n] = 2
		r.ok("left recursion", n)
	}
	for _, n := range g.names {
		if state[n] == 0 {
			rec(n)
		}
	}
	ruleHelpersEnd(p, r, g)
	r.assumption(fmt.Sprintf("rules that can match nothing: %s", joinComma(sortedKeys(nullable))))
	r.atLeast("progress", 100)
}

// calls are the rules that a rule's functions refer to.
func (t *termFn) calls() map[string]bool {
	r := map[string]bool{}
	for _, n := range t.nodes {
		if n.rule != "" {
			r[n.rule] = true
		}
	}
	return r
}

// natLoop is a natural loop: its header, its blocks and the blocks that jump back to the header.
type natLoop struct {
	head    *ssa.BasicBlock
	in      map[*ssa.BasicBlock]bool
	latches []*ssa.BasicBlock
}

func loopsOf(f *ssa.Function) []*natLoop {
	var out []*natLoop
	for _, h := range f.Blocks {
		l := &natLoop{head: h, in: map[*ssa.BasicBlock]bool{h: true}}
		for _, q := range h.Preds {
			if h.Dominates(q) {
				l.latches = append(l.latches, q)
			}
		}
		if l.latches == nil {
			continue
		}
		work := append([]*ssa.BasicBlock(nil), l.latches...)
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if l.in[b] {
				continue
			}
			l.in[b] = true
			work = append(work, b.Preds...)
		}
		out = append(out, l)
	}
	return out
}

func (l *natLoop) pos() token.Pos {
	for _, in := range l.head.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.in {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

// everyRound: b is on every way round the loop.
func (l *natLoop) everyRound(b *ssa.BasicBlock) bool {
	for _, q := range l.latches {
		if !b.Dominates(q) {
			return false
		}
	}
	return true
}

// bounded: the loop ranges over something, or leaves when a counter that goes one way in every
// round has reached a bound that stays, or when a slice or string that gets shorter in every round
// is empty.
func (l *natLoop) bounded() bool {
	for b := range l.in {
		if !l.everyRound(b) {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.in[b.Succs[0]] && l.in[b.Succs[1]] {
			continue
		}
		switch c := iff.Cond.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok && l.in[c.Block()] {
				return true
			}
		case *ssa.BinOp:
			for i, x := range []ssa.Value{c.X, c.Y} {
				y := []ssa.Value{c.Y, c.X}[i]
				if l.counter(x, c.Op == token.NEQ || c.Op == token.EQL) && l.stays(y) || l.shrinks(x) && isConst(y) {
					return true
				}
			}
		}
	}
	return false
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// phiOf is the header's phi that v is, or is one step away from.
func (l *natLoop) phiOf(v ssa.Value) *ssa.Phi {
	for n := 0; n < 4; n++ {
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() == l.head {
				return x
			}
			return nil
		case *ssa.BinOp:
			if !isConst(x.Y) {
				return nil
			}
			v = x.X
		case *ssa.Convert:
			v = x.X
		default:
			return nil
		}
	}
	return nil
}

// counter: v goes up, or down, by a constant in every round (by one if the exit needs it exactly).
func (l *natLoop) counter(v ssa.Value, exact bool) bool {
	ph := l.phiOf(v)
	if ph == nil {
		return false
	}
	sign := 0
	var steps func(e ssa.Value, d int64, seen map[ssa.Value]bool) bool
	steps = func(e ssa.Value, d int64, seen map[ssa.Value]bool) bool {
		if e == ssa.Value(ph) {
			s := 1
			if d < 0 {
				s = -1
			}
			if d == 0 || exact && d != 1 && d != -1 || sign != 0 && sign != s {
				return false
			}
			sign = s
			return true
		}
		switch x := e.(type) {
		case *ssa.BinOp:
			k, ok := x.Y.(*ssa.Const)
			if !ok || x.Op != token.ADD && x.Op != token.SUB {
				return false
			}
			n := k.Int64()
			if x.Op == token.SUB {
				n = -n
			}
			return steps(x.X, d+n, seen)
		case *ssa.Phi:
			if seen[x] || !l.in[x.Block()] {
				return false
			}
			seen[x] = true
			for _, e := range x.Edges {
				if !steps(e, d, seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if l.in[l.head.Preds[i]] && !steps(e, 0, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

// shrinks: v is the length of, or is itself, a slice or string that loses a part in every round.
func (l *natLoop) shrinks(v ssa.Value) bool {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return false
		}
		v = c.Call.Args[0]
	}
	ph := l.phiOf(v)
	if ph == nil || isInteger(ph.Type()) {
		return false
	}
	for i, e := range ph.Edges {
		if !l.in[l.head.Preds[i]] {
			continue
		}
		s, ok := e.(*ssa.Slice)
		if !ok || s.X != ssa.Value(ph) {
			return false
		}
		if k, ok := s.Low.(*ssa.Const); ok && k.Int64() > 0 && s.High == nil {
			continue
		}
		if h, ok := s.High.(*ssa.BinOp); ok && s.Low == nil && h.Op == token.SUB && isConst(h.Y) {
			continue
		}
		return false
	}
	return true
}

// stays: v is the same in every round.
func (l *natLoop) stays(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	if !ok || !l.in[in.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return l.stays(x.X) && l.stays(x.Y)
	case *ssa.Convert:
		return l.stays(x.X)
	case *ssa.Field:
		return l.stays(x.X)
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap") && l.stays(x.Call.Args[0])
	case *ssa.FieldAddr:
		return l.stays(x.X)
	case *ssa.UnOp:
		if x.Op != token.MUL || !l.stays(x.X) {
			return x.Op != token.MUL && l.stays(x.X)
		}
		for b := range l.in {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && types.Identical(st.Val.Type(), x.Type()) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// ruleHelpersEnd checks the functions other than rules that the parser runs: loops go over the
// elements of something, and recursion goes to a part.
func ruleHelpersEnd(p *Program, r *Report, g *gram) {
	seen := map[*ssa.Function]bool{}
	var all []*ssa.Function
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !p.inRepo(f) {
			return
		}
		seen[f] = true
		all = append(all, f)
		for _, c := range callees(p, f) {
			rec(c)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range targets(p, c) {
						rec(h)
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	for _, n := range g.names {
		for _, k := range gramSuffix {
			rec(g.byRule[n][k])
		}
	}
	errT, _ := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	sc := p.pkgs["ast"].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		pt := types.NewPointer(tn.Type())
		if n != "Parser" && !types.Implements(pt, errT) {
			continue
		}
		ms := types.NewMethodSet(pt)
		for i := 0; i < ms.Len(); i++ {
			if m := p.prog.MethodValue(ms.At(i)); m != nil {
				rec(m)
			}
		}
	}
	plain := map[*ssa.Function][]plainCall{}
	for _, f := range all {
		if g.rules[f] != "" {
			continue
		}
		name := f.String()
		r.ok("function", name)
		for _, l := range loopsOf(f) {
			r.check(l.bounded(), "loop", name, p.pos(l.pos()), name+" has a loop for which there is no bound on the number of rounds")
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, h := range targets(p, c) {
					if g.rules[h] != "" || !reachesHelper(p, g, h, f) {
						continue
					}
					part := false
					for _, a := range callArgs(c) {
						for _, q := range f.Params {
							_, strict := partOf(a, q, 0)
							part = part || strict
						}
					}
					if !part {
						plain[f] = append(plain[f], plainCall{h, in.Pos()})
					} else {
						r.ok("recursion", name+" calls "+h.Name())
					}
				}
			}
		}
	}
	// calls that do not go to a part must not form a cycle
	for _, f := range all {
		for _, c := range plain[f] {
			again := false
			seen := map[*ssa.Function]bool{}
			var rec func(h *ssa.Function)
			rec = func(h *ssa.Function) {
				again = again || h == f
				if !seen[h] {
					seen[h] = true
					for _, d := range plain[h] {
						rec(d.fn)
					}
				}
			}
			rec(c.fn)
			r.check(!again, "recursion", f.String()+" calls "+c.fn.Name(), p.pos(c.pos), f.String()+" comes to call itself through "+c.fn.Name()+" with arguments that are not parts of its own")
		}
	}
}

type plainCall struct {
	fn  *ssa.Function
	pos token.Pos
}

// targets are the functions of the repository that a call may run.
func targets(p *Program, c ssa.CallInstruction) []*ssa.Function {
	cc := c.Common()
	if f := cc.StaticCallee(); f != nil {
		if p.inRepo(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if !cc.IsInvoke() {
		return nil
	}
	var out []*ssa.Function
	iface, _ := cc.Value.Type().Underlying().(*types.Interface)
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if iface != nil && types.Implements(t, iface) {
					if m := p.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil && p.inRepo(m) {
						out = append(out, m)
					}
				}
			}
		}
	}
	return out
}

func callArgs(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

// reachesHelper: from comes to call to without going through a rule.
func reachesHelper(p *Program, g *gram, from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] || g.rules[f] != "" {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, h := range targets(p, c) {
						if rec(h) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(from)
}

// partOf: v is q or a part of it; strict: a field or an element of it, or of a part of it.
func partOf(v ssa.Value, q ssa.Value, d int) (rel, strict bool) {
	for n := 0; n < 30; n++ {
		if v == q {
			return true, strict
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v, strict = x.X, true
		case *ssa.Field:
			v, strict = x.X, true
		case *ssa.IndexAddr:
			v, strict = x.X, true
		case *ssa.Index:
			v, strict = x.X, true
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false, false
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				// a local copy, stored once
				var st *ssa.Store
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						if st != nil {
							return false, false
						}
						st = s
					}
				}
				if st == nil {
					return false, false
				}
				v = st.Val
				continue
			}
			v = x.X
		case *ssa.Alloc:
			var st *ssa.Store
			for _, r := range *x.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
					if st != nil {
						return false, false
					}
					st = s
				}
			}
			if st == nil {
				return false, false
			}
			v = st.Val
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Extract:
			switch t := x.Tuple.(type) {
			case *ssa.TypeAssert:
				v = t.X
			case *ssa.Next:
				rg, ok := t.Iter.(*ssa.Range)
				if !ok {
					return false, false
				}
				v, strict = rg.X, true
			default:
				return false, false
			}
		case *ssa.Phi:
			if d > 4 {
				return false, false
			}
			all := true
			for _, e := range x.Edges {
				if e == v {
					continue
				}
				rel, s := partOf(e, q, d+1)
				if !rel {
					return false, false
				}
				all = all && s
			}
			return true, strict || all
		default:
			return false, false
		}
	}
	return false, false
}

func joinArrow(ss []string) string { return strings.Join(ss, " → ") }
func joinComma(ss []string) string { return strings.Join(ss, ", ") }
