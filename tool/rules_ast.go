package main

// C02 extents, C03 equality, C04 walks.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func evString(p *Program, evs []Event) string {
	var ss []string
	for _, e := range evs {
		var as []string
		for _, a := range e.Args {
			as = append(as, a.String())
		}
		ss = append(ss, e.Name+"("+strings.Join(as, ", ")+")")
	}
	return "[" + strings.Join(ss, "; ") + "]"
}

// rootPtr makes the pointer of a node of kind k.
func (k *nodeKind) root(st *State, name string) (p, n *V) {
	p = vSym(name, k.T)
	st.facts[eqAtom(p, vNil)] = false
	return p, mkIface(k.T, p)
}

func specErrors(r *Report, s *astSpec) bool {
	for _, e := range s.errs {
		r.bad("anchor", e, "ast", e)
	}
	return len(s.errs) > 0
}

// ---------------------------------------------------------------- C04

func ruleVisit(p *Program, r *Report) {
	s := newASTSpec(p)
	if specErrors(r, s) {
		return
	}
	fn := p.fn("ast", "Visit")
	if fn == nil || len(fn.Params) != 2 {
		r.bad("anchor", "ast.Visit", "ast", "function ast.Visit(Node, Visitor) not found")
		return
	}
	vt := p.typ("ast", "Visitor")
	mkEng := func() *Eng {
		e := newEng(p)
		e.DynSet = s.nodeDyn
		return e
	}
	sel := func(st *State) []Event {
		var out []Event
		for _, ev := range st.events {
			if ev.Kind == "call" && (ev.Name == ".Visit" || ev.Name == "ast.Visit" || ev.Name == "dyn") {
				out = append(out, ev)
			}
		}
		return out
	}
	// absent nodes
	type abs struct {
		n    *V
		name string
	}
	var absent []abs
	absent = append(absent, abs{vNil, "nil"})
	for _, k := range s.kinds {
		absent = append(absent, abs{mkIface(k.T, vNil), "nil " + k.name})
	}
	for _, a := range absent {
		e := mkEng()
		st := newState()
		outs := e.Run(fn, st, a.n, vSym("v", vt))
		for _, o := range outs {
			ev := sel(o.St)
			r.check(o.Kind == Ret && len(ev) == 0, "absent", "Visit("+a.name+", v)", p.pos(fn.Pos()),
				fmt.Sprintf("walking an absent node must do nothing, but this path ends with %v after %s", o.Kind, evString(p, ev)))
		}
		if len(outs) == 0 {
			r.bad("absent", "Visit("+a.name+", v)", p.pos(fn.Pos()), "no path")
		}
	}
	for i := range s.kinds {
		k := &s.kinds[i]
		e := mkEng()
		st := newState()
		pp, n := k.root(st, "n")
		v := vSym("v", vt)
		st.facts[eqAtom(v, vNil)] = false
		outs := e.Run(fn, st, n, v)
		r.analysed["paths"] += len(outs)
		r.analysed["node kinds"]++
		sawPrune, sawFull := false, false
		for _, o := range outs {
			where := fmt.Sprintf("Visit of %s when %s", k.name, o.St.factString())
			ev := sel(o.St)
			if o.Kind == Cut {
				continue
			}
			if o.Kind == Panicked {
				r.bad("walk", "Visit of "+k.name, p.pos(o.Pos), "walking panics: "+o.Vals[0].String()+"; path: "+o.St.factString())
				continue
			}
			if len(ev) == 0 || ev[0].Name != ".Visit" || len(ev[0].Args) != 2 || ev[0].Args[0] != v || ev[0].Args[1] != n {
				r.bad("first", "Visit of "+k.name, p.pos(fn.Pos()), "the visitor is not first called with the node: "+evString(p, ev)+"; path: "+where)
				continue
			}
			r.ok("first", k.name)
			ret := ev[0].Res
			if b, ok := o.St.knownNil(ret); !ok {
				r.bad("prune", "Visit of "+k.name, p.pos(fn.Pos()), "the visitor returned by the visitor is not examined; path: "+where)
				continue
			} else if b {
				sawPrune = true
				r.check(len(ev) == 1, "prune", "Visit of "+k.name, p.pos(fn.Pos()), "calls although the visitor returned nil: "+evString(p, ev))
				continue
			}
			sawFull = true
			// expected
			var want []part
			if k.list {
				es, list, known := s.elemsOf(o.St, k, pp)
				if !known {
					r.bad("parts", "Visit of "+k.name, p.pos(fn.Pos()), "the elements of "+list.String()+" are not walked; path: "+where)
					continue
				}
				for j, x := range es {
					want = append(want, part{name: fmt.Sprintf("element %d", j), node: x, subj: x})
				}
			} else {
				ps, err := s.parts(o.St, k, pp)
				if err != nil {
					r.bad("anchor", k.name, p.pos(fn.Pos()), err.Error())
					continue
				}
				want = ps
			}
			var wantN []*V
			amb := ""
			for _, w := range want {
				if ab, known := w.absent(o.St); known && ab {
					continue
				} else if !known && w.len0 != nil {
					amb = w.name
				}
				wantN = append(wantN, w.node)
			}
			got := ev[1:]
			if len(got) == 0 || got[len(got)-1].Name != ".Visit" || got[len(got)-1].Args[0] != ret || got[len(got)-1].Args[1] != vNil {
				r.bad("close", "Visit of "+k.name, p.pos(fn.Pos()), "the last call is not the returned visitor's Visit(nil): "+evString(p, ev)+"; path: "+where)
				continue
			}
			r.ok("close", k.name)
			got = got[:len(got)-1]
			var gotN []*V
			bad := ""
			for _, g := range got {
				if g.Name != "ast.Visit" {
					bad = "call other than a walk of a part: " + evString(p, []Event{g})
					break
				}
				if g.Args[1] != ret {
					bad = "part " + g.Args[0].String() + " is walked with visitor " + g.Args[1].String() + " instead of the one that the visitor returned"
					break
				}
				x := g.Args[0]
				if x.op == ONil {
					continue
				}
				if x.op == OIface {
					if b, ok := o.St.knownNil(x.args[0]); ok && b {
						continue
					}
				} else if b, ok := o.St.knownNil(x); ok && b {
					continue
				}
				gotN = append(gotN, x)
			}
			if bad == "" && amb != "" {
				// an undecided list must not be walked when empty
				bad = "part " + amb + " is walked without regard to whether it is absent"
			}
			if bad == "" && len(gotN) != len(wantN) {
				bad = fmt.Sprintf("%d parts are walked, %d are present", len(gotN), len(wantN))
			}
			if bad == "" {
				for j := range wantN {
					if gotN[j] != wantN[j] {
						bad = fmt.Sprintf("part %d in the walk is %s, in the text it is %s", j+1, gotN[j], wantN[j])
						break
					}
				}
			}
			r.check(bad == "", "parts", "Visit of "+k.name, p.pos(fn.Pos()), bad+"; calls: "+evString(p, ev)+"; path: "+where)
		}
		r.check(sawPrune, "prune-path", "Visit of "+k.name, p.pos(fn.Pos()), "there is no path for a visitor that returns nil")
		r.check(sawFull, "walk-path", "Visit of "+k.name, p.pos(fn.Pos()), "there is no path on which the parts are walked")
		if e.over {
			r.bad("budget", "Visit of "+k.name, p.pos(fn.Pos()), "analysis budget exceeded")
		}
	}
	// FuncVisitor
	fv := p.typ("ast", "FuncVisitor")
	m := p.method(fv, "Visit")
	if m == nil {
		r.bad("anchor", "FuncVisitor.Visit", "ast", "method not found")
	} else {
		e := mkEng()
		f := vSym("f", fv)
		n := vSym("n", p.typ("ast", "Node"))
		for _, o := range e.Run(m, newState(), f, n) {
			ev := sel(o.St)
			ok := o.Kind == Ret && len(ev) == 1 && ev[0].Name == "dyn" && len(ev[0].Args) == 2 && ev[0].Args[0] == f && ev[0].Args[1] == n &&
				len(o.Vals) == 1 && o.Vals[0].op == OIface && o.Vals[0].args[0] == f
			r.check(ok, "funcvisitor", "FuncVisitor.Visit", p.pos(m.Pos()), "a FuncVisitor must call its function once with the node and return itself; got "+evString(p, ev)+", path: "+o.St.factString())
		}
	}
	r.atLeast("parts", 40)
	r.atLeast("absent", 30)
	r.atLeast("funcvisitor", 1)
	r.assumption("Lists are materialised with up to 3 elements; elements beyond the third are taken to be handled like the third.")
	r.assumption("The dynamic type of an interface in a tree is one of the node kinds of package ast; interfaces in a tree hold no nil pointers except for the optional parts.")
}

// ---------------------------------------------------------------- C02

type extentSpec struct {
	s    *astSpec
	last bool
}

func (x extentSpec) m() string {
	if x.last {
		return "End"
	}
	return "Start"
}

// of computes the expected extent of node n on the path st.
func (x extentSpec) of(st *State, n *V) (*V, error) {
	if n.op != OIface {
		return mk(V{op: OCall, aux: "." + x.m() + "#0", args: []*V{n}}), nil
	}
	var k *nodeKind
	for i := range x.s.kinds {
		if types.Identical(x.s.kinds[i].T, n.typ) {
			k = &x.s.kinds[i]
		}
	}
	if k == nil {
		return nil, fmt.Errorf("unknown node type %s", shortType(n.typ))
	}
	p := n.args[0]
	if k.list {
		es, list, known := x.s.elemsOf(st, k, p)
		if !known {
			return nil, fmt.Errorf("the length of %s is not examined", list)
		}
		if len(es) == 0 {
			return nil, errSkip
		}
		if x.last {
			return x.of(st, es[len(es)-1])
		}
		return x.of(st, es[0])
	}
	if w := wrapOf[k.name]; w != "" {
		return x.of(st, mkIface(x.s.kind(w).T, p))
	}
	if k.name == "Word" {
		f := "S"
		if x.last {
			f = "E"
		}
		i := fieldIndex(k.elem, f)
		return st.load(fieldAddr(p, i, k.elem), nil), nil
	}
	if k.name == "Text" {
		d, err := x.s.field(st, k.elem, p, "Discourse?")
		if err != nil {
			return nil, err
		}
		l, err := x.s.field(st, k.elem, p, "Leading?")
		if err != nil {
			return nil, err
		}
		ab, known := d.absent(st)
		if !known {
			return nil, fmt.Errorf("whether there is a discourse is not examined")
		}
		if !ab {
			return x.of(st, d.node)
		}
		ab, known = l.absent(st)
		if !known {
			return nil, fmt.Errorf("whether there is leading space is not examined")
		}
		if !ab {
			return x.of(st, l.node)
		}
		return vInt(0), nil
	}
	ps, err := x.s.parts(st, k, p)
	if err != nil {
		return nil, err
	}
	if k.name == "CoP" && !x.last {
		// the first part is TO0 or Left
		if ps[0].subj != nil {
			if _, known := st.knownNil(ps[0].subj); !known {
				return nil, fmt.Errorf("whether TO0 is present is not examined")
			}
		}
	}
	for i := range ps {
		pt := ps[i]
		if x.last {
			pt = ps[len(ps)-1-i]
		}
		ab, known := pt.absent(st)
		if !known {
			return nil, fmt.Errorf("whether %s is present is not examined", pt.name)
		}
		if ab {
			continue
		}
		return x.of(st, pt.node)
	}
	return nil, fmt.Errorf("no part")
}

var errSkip = fmt.Errorf("skip")

func ruleExtents(p *Program, r *Report) {
	s := newASTSpec(p)
	if specErrors(r, s) {
		return
	}
	for i := range s.kinds {
		k := &s.kinds[i]
		for _, last := range []bool{false, true} {
			x := extentSpec{s, last}
			fn := p.method(k.T, x.m())
			name := k.name + "." + x.m()
			if fn == nil {
				r.bad("anchor", name, "ast", "method not found")
				continue
			}
			e := newEng(p)
			e.invokes = true
			e.MaxLen = 3
			st := newState()
			pp, n := k.root(st, "n")
			if k.list {
				delete(st.facts, eqAtom(pp, vNil))
			}
			e.MayNil = func(st *State, v *V) bool { return s.optional(v) }
			outs := e.Run(fn, st, pp)
			r.analysed["paths"] += len(outs)
			r.analysed["methods"]++
			cnt := 0
			for _, o := range outs {
				if o.Kind == Cut {
					continue
				}
				if s.infeasibleEmpty(o.St, k, pp) {
					continue
				}
				want, err := x.of(o.St, n)
				if err == errSkip {
					continue
				}
				cnt++
				if o.Kind == Panicked {
					r.bad("extent", name, p.pos(fn.Pos()), "asking for the extent fails ("+o.Vals[0].String()+") when "+o.St.factString())
					continue
				}
				hz := ""
				for _, ev := range o.St.events {
					if ev.Kind == "hazard" {
						hz = ev.Name + " of " + ev.Args[0].String()
					}
				}
				if hz != "" {
					r.bad("extent", name, p.pos(fn.Pos()), "asking for the extent can fail: "+hz+" when "+o.St.factString())
					continue
				}
				if err != nil {
					r.bad("extent", name, p.pos(fn.Pos()), fmt.Sprintf("%v: returns %s on the path %s", err, o.Vals[0], o.St.factString()))
					continue
				}
				r.check(o.Vals[0] == want, "extent", name, p.pos(fn.Pos()),
					fmt.Sprintf("returns %s, but the %s is %s when %s", o.Vals[0], strings.ToLower(x.m()), want, o.St.factString()))
			}
			if cnt == 0 {
				r.bad("extent", name, p.pos(fn.Pos()), "no path returns")
			}
		}
	}
	r.atLeast("extent", 70)
	r.assumption("Interface and list parts that the grammar always fills are not nil or empty (see C01).")
}

// optional reports whether an access path is an optional part of a node.
func (s *astSpec) optional(v *V) bool {
	if v.op != OLoad || v.args[0].op != OFAddr {
		return false
	}
	a := v.args[0]
	n := namedOf(a.typ)
	if n == nil {
		return false
	}
	name := n.Obj().Name()
	if w := wrapOf[name]; w != "" {
		name = w
	}
	f := fieldName(a.typ, int(a.num))
	for _, x := range partOrder[name] {
		if x == f+"?" {
			return true
		}
	}
	return false
}

// infeasibleEmpty: lists are never empty, except for the discourse of a text.
func (s *astSpec) infeasibleEmpty(st *State, k *nodeKind, pp *V) bool {
	for x, n := range st.shape {
		if n != 0 {
			continue
		}
		if x.op == OLoad && x.args[0].op == OFAddr {
			nm := namedOf(x.args[0].typ)
			if nm != nil && nm.Obj().Name() == "Text" {
				continue
			}
			if s.optional(x) {
				if b, ok := st.knownNil(x); ok && !b {
					return true
				}
				continue
			}
		}
		return true
	}
	// required lists that are nil
	for a, b := range st.facts {
		if b && a.op == OBin && a.aux == "==" && (a.args[0] == vNil || a.args[1] == vNil) {
			x := a.args[0]
			if x == vNil {
				x = a.args[1]
			}
			if x.typ == nil {
				continue
			}
			if _, ok := x.typ.Underlying().(*types.Slice); ok && !s.optional(x) {
				nm := (*types.Named)(nil)
				if x.op == OLoad && x.args[0].op == OFAddr {
					nm = namedOf(x.args[0].typ)
				}
				if nm == nil || nm.Obj().Name() != "Text" {
					return true
				}
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- C03

type eqSpec struct {
	s  *astSpec
	st *State
	e  *Eng
}

func (q eqSpec) fact(c *V) (bool, bool) {
	if b, ok := c.boolVal(); ok {
		return b, true
	}
	return q.e.decide(q.st, c)
}

// equalCall looks for a decided comparison of x and y by Equal.
func (q eqSpec) equalCall(x, y *V) (bool, bool) {
	for _, as := range [][]*V{{x, y}, {y, x}} {
		c := mk(V{op: OCall, aux: "ast.Equal#0", args: as})
		if b, ok := q.st.facts[c]; ok {
			return b, true
		}
	}
	return false, false
}

func isNodeIface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// compare returns whether the path's facts establish that x and y are equal (1), different (-1), or neither (0).
func (q eqSpec) compare(x, y *V, opt bool, d int) (int, string) {
	if b, ok := q.equalCall(x, y); ok {
		if b {
			return 1, ""
		}
		return -1, ""
	}
	nx, kx := q.nilness(x)
	ny, ky := q.nilness(y)
	if kx && ky {
		if nx && ny {
			return 1, ""
		}
		if nx != ny {
			return -1, ""
		}
	}
	if opt && !(kx && ky) {
		return 0, x.String() + " and " + y.String() + " are not compared"
	}
	tx, vx := q.dyn(x)
	ty, vy := q.dyn(y)
	if tx == nil || ty == nil {
		return 0, x.String() + " and " + y.String() + " are not compared"
	}
	if !types.Identical(tx, ty) {
		return -1, ""
	}
	if b, ok := q.st.knownNil(vy); ok && b && x.op == OIface {
		if a, ok := q.st.knownNil(vx); ok && !a {
			return -1, ""
		}
	}
	var k *nodeKind
	for i := range q.s.kinds {
		if types.Identical(q.s.kinds[i].T, tx) {
			k = &q.s.kinds[i]
		}
	}
	if k == nil || d > 6 {
		return 0, "unknown node type " + shortType(tx)
	}
	if k.list {
		ex, lx, okx := q.s.elemsOf(q.st, k, vx)
		ey, ly, oky := q.s.elemsOf(q.st, k, vy)
		if !okx || !oky {
			return 0, "the lengths of " + lx.String() + " and " + ly.String() + " are not compared"
		}
		if len(ex) != len(ey) {
			return -1, ""
		}
		why, res := "", 1
		for i := range ex {
			c, w := q.compare(ex[i], ey[i], false, d+1)
			if c < 0 {
				return -1, ""
			}
			if c == 0 {
				res, why = 0, w
			}
		}
		return res, why
	}
	if w := wrapOf[k.name]; w != "" {
		wt := q.s.kind(w).T
		return q.compare(mkIface(wt, vx), mkIface(wt, vy), false, d+1)
	}
	res, why := 1, ""
	note := func(c int, w string) bool {
		if c < 0 {
			res = -1
			return true
		}
		if c == 0 {
			res, why = 0, w
		}
		return false
	}
	if k.name == "Word" {
		i := fieldIndex(k.elem, "T")
		tx := q.st.load(fieldAddr(vx, i, k.elem), nil)
		ty := q.st.load(fieldAddr(vy, i, k.elem), nil)
		b, ok := q.fact(eqAtom(tx, ty))
		switch {
		case !ok:
			note(0, "the texts of "+vx.String()+" and "+vy.String()+" are not compared")
		case !b:
			return -1, ""
		}
	}
	for _, f := range partOrder[k.name] {
		px, e1 := q.s.field(q.st, k.elem, vx, f)
		py, e2 := q.s.field(q.st, k.elem, vy, f)
		if e1 != nil || e2 != nil {
			return 0, fmt.Sprint(e1, e2)
		}
		if px.len0 != nil { // possibly empty discourse: compared as a list
			px.subj, py.subj = nil, nil
		}
		c, w := q.compare(px.node, py.node, px.subj != nil, d+1)
		if note(c, w) {
			return -1, ""
		}
	}
	return res, why
}

func (q eqSpec) nilness(x *V) (bool, bool) {
	if x.op == OIface {
		switch x.typ.Underlying().(type) {
		case *types.Pointer, *types.Slice:
			if n, ok := q.st.shape[x.args[0]]; ok && n > 0 {
				return false, true
			}
			return q.st.knownNil(x.args[0])
		}
	}
	return q.st.knownNil(x)
}

func (q eqSpec) dyn(x *V) (types.Type, *V) {
	if x.op == OIface {
		return x.typ, x.args[0]
	}
	if t, ok := q.st.dyn[x]; ok {
		return t, mkAs(x, t)
	}
	return nil, nil
}

func ruleEqual(p *Program, r *Report) {
	s := newASTSpec(p)
	if specErrors(r, s) {
		return
	}
	fn := p.fn("ast", "Equal")
	if fn == nil || len(fn.Params) != 2 {
		r.bad("anchor", "ast.Equal", "ast", "function ast.Equal(Node, Node) not found")
		return
	}
	nt := p.typ("ast", "Node")
	mkEng := func() *Eng {
		e := newEng(p)
		e.MaxLen = 2
		e.Policy = func(f *ssa.Function, args []*V, st *State) Action {
			if f == fn {
				return ActPure
			}
			return ActDefault
		}
		e.MayNil = func(st *State, v *V) bool { return s.optional(v) }
		e.invokes = true
		return e
	}
	runCase := func(label string, k *nodeKind, mkA func(st *State) *V) {
		e := mkEng()
		st := newState()
		a := mkA(st)
		b := vSym("b", nt)
		outs := e.Run(fn, st, a, b)
		// a returned comparison is decided both ways
		var all []Outcome
		for _, o := range outs {
			if o.Kind == Ret {
				for _, al := range e.branch(o.St, o.Vals[0]) {
					all = append(all, Outcome{Kind: Ret, Vals: []*V{vBool(al.b)}, St: al.st, Pos: o.Pos})
				}
				continue
			}
			all = append(all, o)
		}
		r.analysed["paths"] += len(all)
		r.analysed["node kinds"]++
		sawT, sawF := false, false
		for _, o := range all {
			if o.Kind == Cut {
				continue
			}
			if o.Kind == Panicked {
				r.bad("answer", "Equal of "+label, p.pos(o.Pos), "comparing panics ("+o.Vals[0].String()+") when "+o.St.factString())
				continue
			}
			hz := ""
			for _, ev := range o.St.events {
				if ev.Kind == "hazard" {
					hz = ev.Name + ": " + ev.Args[0].String()
				}
			}
			if hz != "" {
				r.bad("answer", "Equal of "+label, p.pos(fn.Pos()), "comparing can fail, "+hz+", when "+o.St.factString())
				continue
			}
			q := eqSpec{s, o.St, e}
			res, _ := o.Vals[0].boolVal()
			// the type of b
			var c int
			why := ""
			nb, kb := o.St.knownNil(b)
			if k == nil {
				if !kb {
					c, why = 0, "whether the other node is nil is not examined"
				} else if nb {
					c = 1
				} else {
					c = -1
				}
			} else if kb && nb {
				c = -1
			} else if _, ok := o.St.dyn[b]; !ok {
				for _, ex := range o.St.excl[b] {
					if types.Identical(ex, k.T) {
						c = -1
					}
				}
				if c == 0 {
					why = "the kind of the other node is not examined"
				}
			} else {
				c, why = q.compare(a, b, false, 0)
			}
			if res {
				sawT = true
				if c == 1 {
					r.ok("true-means-equal", label)
				} else if c == 0 {
					r.bad("true-means-equal", "Equal of "+label, p.pos(fn.Pos()), "reports equal although "+why+"; path: "+o.St.factString())
				} else {
					r.bad("true-means-equal", "Equal of "+label, p.pos(fn.Pos()), "reports equal on a path where the nodes differ: "+o.St.factString())
				}
			} else {
				sawF = true
				r.check(c == -1, "false-means-different", "Equal of "+label, p.pos(fn.Pos()), "reports different on a path where no part is found to differ: "+o.St.factString())
			}
		}
		r.check(sawT && sawF, "answer", "Equal of "+label, p.pos(fn.Pos()), "does not have both answers")
		if e.over {
			r.bad("budget", "Equal of "+label, p.pos(fn.Pos()), "analysis budget exceeded")
		}
	}
	runCase("nil", nil, func(st *State) *V { return vNil })
	for i := range s.kinds {
		k := &s.kinds[i]
		runCase(k.name, k, func(st *State) *V {
			_, n := k.root(st, "a")
			return n
		})
	}
	r.atLeast("true-means-equal", 30)
	r.atLeast("false-means-different", 60)
	r.assumption("Lists are materialised with up to 2 elements in the comparison of lists.")
	r.assumption("A nested comparison of parts is taken to be exact (induction over the height of the trees).")
}
