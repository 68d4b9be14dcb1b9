package main

// C16: printing and walking a formula.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lkind is a node kind of the formula tree.
type lkind struct {
	t     *types.Named
	st    *types.Struct
	parts []int // fields that hold nodes or lists of nodes, in order of declaration
	heads []int // fields that are written as text
}

func (k *lkind) ptr() types.Type    { return types.NewPointer(k.t) }
func (k *lkind) name() string       { return k.t.Obj().Name() }
func (k *lkind) fname(i int) string { return k.st.Field(i).Name() }

type logicSpec struct {
	p     *Program
	node  *types.Interface
	kinds []*lkind
}

func isLogicIface(t types.Type, node *types.Interface) bool {
	it, ok := t.Underlying().(*types.Interface)
	return ok && it.NumMethods() > 0 && types.Implements(t, node)
}

func newLogicSpec(p *Program, r *Report) *logicSpec {
	nt := p.typ("logic", "Node")
	if nt == nil {
		r.bad("anchor", "logic.Node", "-", "type not found")
		return nil
	}
	s := &logicSpec{p: p, node: nt.Underlying().(*types.Interface)}
	sc := p.pkgs["logic"].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := nm.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(nm), s.node) {
			continue
		}
		embeds := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				embeds = true // a wrapper of a node, not a node
			}
		}
		if embeds {
			continue
		}
		k := &lkind{t: nm, st: st}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if isLogicIface(ft, s.node) {
				k.parts = append(k.parts, i)
				continue
			}
			if sl, ok := ft.Underlying().(*types.Slice); ok && isLogicIface(sl.Elem(), s.node) {
				k.parts = append(k.parts, i)
				continue
			}
			if isString(ft) || (isInteger(ft) && st.Field(i).Name() == "N") {
				k.heads = append(k.heads, i)
			}
		}
		s.kinds = append(s.kinds, k)
	}
	r.check(len(s.kinds) >= 8, "anchor", "formula node kinds", "-", "fewer than eight kinds of formula nodes")
	return s
}

// dyn gives the possible kinds of a formula value.
func (s *logicSpec) dyn(st *State, v *V) []types.Type {
	if v.typ == nil || !isLogicIface(v.typ, s.node) {
		return nil
	}
	it := v.typ.Underlying().(*types.Interface)
	var out []types.Type
	for _, k := range s.kinds {
		if types.Implements(k.ptr(), it) {
			out = append(out, k.ptr())
		}
	}
	return out
}

// start makes a state with a node whose required parts are present.
func (s *logicSpec) start(k *lkind) (*State, *V) {
	st := newState()
	n := vSym("n", k.ptr())
	st.facts[eqAtom(n, vNil)] = false
	for _, i := range k.parts {
		if _, ok := k.st.Field(i).Type().Underlying().(*types.Slice); ok || k.fname(i) == "Restriction" {
			continue
		}
		st.facts[eqAtom(s.part(st, k, n, i), vNil)] = false
	}
	return st, n
}

func (s *logicSpec) part(st *State, k *lkind, n *V, i int) *V {
	v := st.load(fieldAddr(n, i, k.t), k.st.Field(i).Type())
	if v.typ == nil {
		v.typ = k.st.Field(i).Type()
	}
	return v
}

// present lists the node values of n on a path: its parts in order, with nil for absent list elements.
func (s *logicSpec) present(st *State, k *lkind, n *V, i int) (vs []*V, list, ok bool) {
	ft := k.st.Field(i).Type()
	v := s.part(st, k, n, i)
	if sl, isl := ft.Underlying().(*types.Slice); isl {
		l, known := st.shape[v]
		if !known {
			if b, kn := st.knownNil(v); kn && b {
				l, known = 0, true
			}
		}
		if !known {
			return nil, true, false
		}
		for j := int64(0); j < l; j++ {
			e := st.load(indexAddr(v, vInt(j)), sl.Elem())
			if e.typ == nil {
				e.typ = sl.Elem()
			}
			vs = append(vs, e)
		}
		return vs, true, true
	}
	return []*V{v}, false, true
}

// optionalPart: a node value that may be nil.
func (s *logicSpec) optionalPart(v *V) bool {
	if v.op != OLoad {
		return false
	}
	a := v.args[0]
	return a.op == OIAddr || a.op == OFAddr && strings.HasSuffix(v.String(), ".Restriction")
}

// strip removes the wrapping of a node value.
func stripNode(v *V) *V {
	for v.op == OAs || v.op == OIface {
		v = v.args[0]
	}
	return v
}

func (s *logicSpec) isMethod(fn *ssa.Function, name string) bool {
	if fn.Name() != name || fn.Signature.Recv() == nil {
		return false
	}
	return types.Implements(fn.Signature.Recv().Type(), s.node)
}

func (s *logicSpec) nodeMethod(name string) *types.Func {
	for i := 0; i < s.node.NumMethods(); i++ {
		if s.node.Method(i).Name() == name {
			return s.node.Method(i)
		}
	}
	return nil
}

func rulePrint(p *Program, r *Report) {
	s := newLogicSpec(p, r)
	if s == nil {
		return
	}
	r.assumption("writing to a strings.Builder does not fail; lists of arguments are followed up to length five when printing and three when walking")
	r.assumption("the parts of a node other than a binding's restriction and list elements are present (property C15 keeps them so)")
	// the method that prints: the one that takes a printer
	pm := ""
	for i := 0; i < s.node.NumMethods(); i++ {
		m := s.node.Method(i)
		sg := m.Type().(*types.Signature)
		if sg.Params().Len() >= 1 && !m.Exported() {
			if n := namedOf(sg.Params().At(0).Type()); n != nil {
				if st, ok := n.Underlying().(*types.Struct); ok {
					for j := 0; j < st.NumFields(); j++ {
						if isOutput(st.Field(j).Type()) {
							pm = m.Name()
						}
					}
				}
			}
			if isOutput(sg.Params().At(0).Type()) {
				pm = m.Name()
			}
		}
	}
	if !r.check(pm != "", "anchor", "print method", "-", "no method of logic.Node takes something to print to") {
		return
	}
	for _, k := range s.kinds {
		s.checkVisit(r, k)
		s.checkPrint(r, k, pm)
	}
	s.checkStrings(r, pm)
	r.atLeast("walk", 20)
	r.atLeast("print", 40)
	r.atLeast("parens", 8)
	r.atLeast("whole", 2)
}

func (s *logicSpec) checkVisit(r *Report, k *lkind) {
	p := s.p
	fn := p.method(k.ptr(), "Visit")
	if fn == nil {
		r.bad("anchor", k.name()+".Visit", "-", "not found")
		return
	}
	e := newEng(p)
	e.DynSet = s.dyn
	e.MayNil = func(st *State, v *V) bool { return s.optionalPart(v) }
	e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
		if s.isMethod(g, "Visit") {
			if g == fn && len(e.stack) == 0 {
				return ActDefault
			}
			return ActOpaque
		}
		return ActDefault
	}
	st, n := s.start(k)
	f := vSym("f", fn.Params[1].Type())
	st.facts[eqAtom(f, vNil)] = false
	outs := e.Run(fn, st, n, f)
	r.analysed["functions"] += len(e.funcs)
	r.analysed["paths"] += len(outs)
	if e.over {
		r.bad("undecided", fnName(fn), p.pos(fn.Pos()), "too many paths")
	}
	for _, o := range outs {
		where := p.pos(fn.Pos())
		id := o.St.factString()
		if o.Kind != Ret {
			r.bad("walk", k.name()+".Visit fails", where, fmt.Sprintf("a path ends in a %v: %s", o.Kind, id))
			continue
		}
		var got []string
		bad := ""
		for _, ev := range o.St.events {
			switch {
			case ev.Kind == "hazard":
				bad = ev.Name + " " + ev.Args[0].String()
			case ev.Kind == "call" && ev.Name == "dyn" && len(ev.Args) == 2 && ev.Args[0] == f:
				if stripNode(ev.Args[1]) == n {
					got = append(got, "the node")
				} else {
					got = append(got, "f("+ev.Args[1].String()+")")
				}
			case ev.Kind == "call" && (ev.Name == ".Visit" || strings.HasSuffix(ev.Name, ").Visit")) && len(ev.Args) == 2:
				if ev.Args[1] != f {
					bad = "a part is walked with another function"
				}
				got = append(got, stripNode(ev.Args[0]).String())
			case ev.Kind == "go" || ev.Kind == "send":
				bad = "walks concurrently"
			}
		}
		want := []string{"the node"}
		for _, i := range k.parts {
			vs, _, ok := s.present(o.St, k, n, i)
			if !ok {
				bad = "does not look at " + k.fname(i)
			}
			for _, v := range vs {
				if b, kn := o.St.knownNil(v); kn && b {
					continue
				}
				want = append(want, v.String())
			}
		}
		if bad == "" && strings.Join(got, "; ") != strings.Join(want, "; ") {
			bad = fmt.Sprintf("visits %s instead of %s", strings.Join(got, "; "), strings.Join(want, "; "))
		}
		r.check(bad == "", "walk", k.name()+".Visit", where, bad+" (when "+id+")")
	}
}

type ptok struct {
	c    string // constant text
	text *V     // other text
	node *V
}

func (s *logicSpec) checkPrint(r *Report, k *lkind, pm string) {
	p := s.p
	fn := p.method(k.ptr(), pm)
	if fn == nil {
		r.bad("anchor", k.name()+"."+pm, "-", "not found")
		return
	}
	e := newEng(p)
	e.DynSet = s.dyn
	e.MayNil = func(st *State, v *V) bool { return s.optionalPart(v) }
	e.MaxIter = 40
	e.MaxLen = 5
	e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
		if s.isMethod(g, pm) {
			return ActOpaque
		}
		if p.inRepo(g) && len(g.Blocks) > 0 && len(e.stack) < 30 {
			sg := g.Signature
			if sg.Recv() == nil && sg.Params().Len() == 1 && isString(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isString(sg.Results().At(0).Type()) {
				return ActPure // a spelling
			}
			return ActInline
		}
		return ActDefault
	}
	e.After = func(st *State, name string, fn *ssa.Function, args []*V, res *V) {
		if _, _, ok, _ := writeTexts(st, Event{Kind: "call", Name: name, Args: args}); ok {
			st.facts[eqAtom(mk(V{op: OExtract, num: 1, args: []*V{res}, typ: types.Universe.Lookup("error").Type()}), vNil)] = true
		}
		if res.typ != nil && types.Identical(res.typ, types.Universe.Lookup("error").Type()) {
			st.facts[eqAtom(res, vNil)] = true
		}
	}
	st, n := s.start(k)
	pr := vSym("pr", fn.Params[1].Type())
	st.facts[eqAtom(pr, vNil)] = false
	args := []*V{n, pr}
	for _, q := range fn.Params[2:] {
		args = append(args, vSym(q.Name(), q.Type()))
	}
	outs := e.Run(fn, st, args...)
	r.analysed["functions"] += len(e.funcs)
	r.analysed["paths"] += len(outs)
	if e.over {
		r.bad("undecided", fnName(fn), p.pos(fn.Pos()), "too many paths")
	}
	where := p.pos(fn.Pos())
	for _, o := range outs {
		id := o.St.factString()
		if len(id) > 500 {
			id = id[:500] + "…"
		}
		if o.Kind == Cut {
			r.bad("undecided", fnName(fn), where, "a path is not followed to its end")
			continue
		}
		if o.Kind == Panicked {
			r.bad("print", k.name()+" panics", where, "a path ends in a panic: "+o.Vals[0].String()+" when "+id)
			continue
		}
		bad := ""
		var toks []ptok
		addc := func(c string) {
			if c == "" {
				return
			}
			if len(toks) > 0 && toks[len(toks)-1].node == nil && toks[len(toks)-1].text == nil {
				toks[len(toks)-1].c += c
				return
			}
			toks = append(toks, ptok{c: c})
		}
		for _, ev := range o.St.events {
			if ev.Kind == "hazard" {
				bad = ev.Name + " " + ev.Args[0].String()
			}
			if ev.Kind != "call" {
				continue
			}
			w, texts, isw, known := writeTexts(o.St, ev)
			if isw {
				if !known {
					bad = "writes something that the analysis does not follow: " + ev.Name
					continue
				}
				if !derives(w, pr) {
					continue
				}
				for _, t := range texts {
					var pieces []*V
					if t.op == OConcat {
						pieces = t.args
					} else {
						pieces = []*V{t}
					}
					for _, x := range pieces {
						if c, ok := o.St.eqc[x]; ok {
							// a value known on this path is still the value
							_ = c
						}
						if c, ok := x.strVal(); ok {
							addc(c)
						} else {
							toks = append(toks, ptok{text: x})
						}
					}
				}
				continue
			}
			if ev.Name == "."+pm || strings.HasSuffix(ev.Name, ")."+pm) {
				if len(ev.Args) < 2 || !derives(ev.Args[1], pr) {
					bad = "prints a part to something else"
				}
				toks = append(toks, ptok{node: stripNode(ev.Args[0])})
			}
		}
		if bad == "" {
			bad = s.matchPrint(o.St, k, n, toks)
		}
		if bad == "" && k.name() == "Connection" {
			b := s.parens(e, o.St, k, n, toks)
			r.check(b == "", "parens", "Connection", where, b+" (when "+id+")")
		}
		r.check(bad == "", "print", k.name(), where, bad+" in "+ptokString(toks)+" (when "+id+")")
	}
}

func ptokString(ts []ptok) string {
	var ss []string
	for _, t := range ts {
		switch {
		case t.node != nil:
			ss = append(ss, "<"+t.node.String()+">")
		case t.text != nil:
			ss = append(ss, t.text.String())
		default:
			ss = append(ss, fmt.Sprintf("%q", t.c))
		}
	}
	return strings.Join(ss, " ")
}

// matchPrint compares what is written with the parts of the node.
func (s *logicSpec) matchPrint(st *State, k *lkind, n *V, toks []ptok) string {
	// heads: each exactly once
	headAt := map[int]int{}
	rest := append([]ptok(nil), toks...)
	used := make([]bool, len(rest))
	for _, h := range k.heads {
		v := s.part(st, k, n, h)
		cnt := 0
		for i, t := range rest {
			switch {
			case t.text != nil && allTermsOf(t.text)[v]:
				cnt++
				used[i] = true
				headAt[h] = i
			case t.text == nil && t.node == nil && !used[i]:
				// a constant spelling of a known value
				if spells(st, v, t.c) {
					cnt++
					headAt[h] = i
				}
			case t.node != nil && k.name() == "":
			}
		}
		if cnt == 0 {
			return "does not write its " + k.fname(h)
		}
		if cnt > 1 {
			return "writes its " + k.fname(h) + " more than once"
		}
	}
	for i, t := range rest {
		if t.text != nil && !used[i] && !s.infixName(st, k, n, t.text) {
			return "writes " + t.text.String()
		}
	}
	// parts
	type item struct {
		v    *V
		list int // field of a list, or -1
		idx  int
	}
	var want []item
	lists := map[int]int{}
	for _, i := range k.parts {
		vs, list, ok := s.present(st, k, n, i)
		if !ok {
			return "does not look at " + k.fname(i)
		}
		for j, v := range vs {
			b, kn := st.knownNil(v)
			if kn && b {
				if list {
					lists[i]++
				}
				continue
			}
			l := -1
			if list {
				l = i
			}
			want = append(want, item{v, l, j})
		}
	}
	pos := map[*V][]int{}
	for i, t := range rest {
		if t.node != nil {
			pos[t.node] = append(pos[t.node], i)
		} else if t.text != nil && s.infixName(st, k, n, t.text) {
			pv := s.part(st, k, n, k.parts[0])
			pos[pv] = append(pos[pv], i)
		}
	}
	last := -1
	for x, at := range pos {
		found := false
		for _, w := range want {
			if w.v == x {
				found = true
			}
		}
		if !found {
			return "writes " + x.String() + ", which is not one of its parts"
		}
		_ = at
	}
	infix := false
	if k.name() == "Predication" && len(want) > 0 {
		// the predicate may stand between exactly two places
		vs, _, _ := s.present(st, k, n, k.parts[len(k.parts)-1])
		if at := pos[want[0].v]; len(vs) == 2 && len(at) == 1 {
			for _, w := range want[1:] {
				if a := pos[w.v]; w.idx == 0 && len(a) == 1 && a[0] < at[0] {
					infix = true
				}
				if a := pos[w.v]; len(want) == 2 && w.idx == 1 && len(a) == 1 && a[0] > at[0] {
					// only the second is present: infix if the first place is marked before
					for i := 0; i < at[0]; i++ {
						if strings.Contains(rest[i].c, "·") {
							infix = true
						}
					}
				}
			}
			if len(want) == 1 && at[0] > 0 {
				infix = true
			}
		}
	}
	for i, w := range want {
		at := pos[w.v]
		if len(at) == 0 {
			return "does not write " + w.v.String()
		}
		if len(at) > 1 {
			return "writes " + w.v.String() + " more than once"
		}
		if infix && i == 0 {
			continue
		}
		if at[0] < last {
			return "writes " + w.v.String() + " out of order"
		}
		last = at[0]
	}
	// heads before parts; a connector between
	switch k.name() {
	case "Connection":
		for _, h := range headAt {
			if !(pos[want[0].v][0] < h && h < pos[want[1].v][0]) {
				return "the connector is not between the operands"
			}
		}
	case "Binding":
		for h, at := range headAt {
			for _, w := range want {
				if pos[w.v][0] < at {
					return "the " + k.fname(h) + " is not before the parts"
				}
			}
		}
	}
	// marks and separators of lists
	for _, i := range k.parts {
		vs, list, _ := s.present(st, k, n, i)
		if !list {
			continue
		}
		// constant text between the neighbours of the list
		marks := 0
		for _, t := range rest {
			marks += strings.Count(t.c, "·")
		}
		absent := 0
		for _, v := range vs {
			if b, kn := st.knownNil(v); kn && b {
				absent++
			}
		}
		if marks != absent {
			return fmt.Sprintf("writes %d marks for %d absent arguments", marks, absent)
		}
		if infix {
			// the marks must be on the right side
			at := pos[want[0].v][0]
			for side := 0; side < 2; side++ {
				b, kn := st.knownNil(vs[side])
				m := 0
				for j, t := range rest {
					if (side == 0) == (j < at) {
						m += strings.Count(t.c, "·")
					}
				}
				if (kn && b) != (m == 1) {
					return "an absent argument is not marked in its place"
				}
			}
			continue
		}
		if len(vs) < 2 {
			continue
		}
		// walk the list
		gap := ""
		started := false
		var gaps []string
		var upto []int // number of list elements seen before each gap
		seen := 0
		for _, t := range rest {
			if t.node != nil {
				isEl := false
				for j, v := range vs {
					if v == t.node {
						isEl = true
						seen = j + 1
					}
				}
				if isEl {
					gaps = append(gaps, gap)
					upto = append(upto, seen-1)
					gap = ""
					started = true
				}
				continue
			}
			gap += t.c
		}
		_ = started
		gaps = append(gaps, gap)
		upto = append(upto, len(vs))
		prev := 0
		for g, txt := range gaps {
			between := upto[g] - prev // absent elements in this gap
			m, c := strings.Count(txt, "·"), strings.Count(txt, ",")
			wantC := between + 1
			if g == 0 || g == len(gaps)-1 {
				wantC = between
			}
			if g == 0 && g == len(gaps)-1 {
				wantC = between - 1
			}
			if m != between {
				return "an absent argument is not marked in its place"
			}
			if c < wantC {
				return "arguments are not separated"
			}
			prev = upto[g] + 1
		}
	}
	return ""
}

// infixName: the text is the predicate word of a predication.
func (s *logicSpec) infixName(st *State, k *lkind, n *V, t *V) bool {
	if k.name() != "Predication" {
		return false
	}
	pv := s.part(st, k, n, k.parts[0])
	return t.op == OLoad && derives(t, pv) && strings.HasSuffix(t.String(), ".Name")
}

// spells: the constant text is how the value, known on this path, is written.
func spells(st *State, v *V, c string) bool {
	k, ok := st.eqc[v]
	if !ok {
		return false
	}
	sv, ok := k.strVal()
	if !ok {
		return false
	}
	if strings.Contains(c, sv) {
		return true
	}
	return sv == "ι" && strings.ContainsRune(c, '\u2129')
}

// parens: the operands of a connection are enclosed exactly where needed.
func (s *logicSpec) parens(e *Eng, st *State, k *lkind, n *V, toks []ptok) string {
	con := -1
	for _, h := range k.heads {
		con = h
	}
	own := s.part(st, k, n, con)
	for _, i := range k.parts {
		v := s.part(st, k, n, i)
		need := map[bool]bool{}
		for _, t := range e.possible(st, v) {
			switch namedOf(t).Obj().Name() {
			case "Predication":
				need[false] = true
			case "Connection":
				inner := st.load(fieldAddr(mkAs(v, t), con, k.t), k.st.Field(con).Type())
				b, ok := st.decideEq(inner, own)
				if !ok {
					b, ok = st.facts[eqAtom(inner, own)], true
					if _, has := st.facts[eqAtom(inner, own)]; !has {
						ok = false
					}
				}
				if ok {
					need[!b] = true
				} else {
					need[true], need[false] = true, true
				}
			default:
				need[true] = true
			}
		}
		if len(need) != 1 {
			return "the operand " + k.fname(i) + " is written the same way whether or not it has to be enclosed"
		}
		at := -1
		for j, t := range toks {
			if t.node == v {
				at = j
			}
		}
		if at < 0 {
			return ""
		}
		open := at > 0 && strings.HasSuffix(strings.TrimSpace(toks[at-1].c), "(")
		cl := at+1 < len(toks) && strings.HasPrefix(strings.TrimSpace(toks[at+1].c), ")")
		if need[true] && !(open && cl) {
			return "the operand " + k.fname(i) + " is not enclosed"
		}
		if need[false] && (open || cl) {
			return "the operand " + k.fname(i) + " is enclosed without need"
		}
	}
	return ""
}

// checkStrings: the exported functions print the whole node to what they return.
func (s *logicSpec) checkStrings(r *Report, pm string) {
	p := s.p
	for _, fn := range p.allFuncs("logic") {
		sg := fn.Signature
		if fn.Parent() != nil || sg.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || sg.Params().Len() != 1 || sg.Results().Len() != 1 {
			continue
		}
		if !types.Identical(sg.Params().At(0).Type(), p.typ("logic", "Node")) || !isString(sg.Results().At(0).Type()) {
			continue
		}
		e := newEng(p)
		e.MaxIter = 2
		e.MaxLen = 1
		e.DynSet = nil
		e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
			if s.isMethod(g, pm) || s.isMethod(g, "Visit") {
				return ActOpaque
			}
			return ActDefault
		}
		n := vSym("n", sg.Params().At(0).Type())
		st := newState()
		st.facts[eqAtom(n, vNil)] = false
		outs := e.Run(fn, st, n)
		r.analysed["functions"] += len(e.funcs)
		r.analysed["paths"] += len(outs)
		done := 0
		for _, o := range outs {
			if o.Kind != Ret {
				continue
			}
			cnt, other := 0, ""
			var to *V
			for _, ev := range o.St.events {
				if ev.Kind == "call" && ev.Name == "."+pm {
					if ev.Args[0] == n {
						cnt++
						to = ev.Args[1]
					} else {
						other = ev.Args[0].String()
					}
				}
			}
			bad := ""
			if cnt != 1 {
				bad = fmt.Sprintf("prints the formula %d times", cnt)
			}
			if other != "" {
				bad = "prints " + other
			}
			if bad == "" {
				// what is returned is what was printed to
				res := o.Vals[0]
				okw := false
				var objs []int64
				for x := range allTermsOf(res) {
					if x.op == OObj {
						objs = append(objs, x.num)
					}
				}
				sort.Slice(objs, func(i, j int) bool { return objs[i] < objs[j] })
				for _, ob := range objs {
					if holds(o.St, to, len(o.St.events), func(v *V) bool { return v.op == OObj && v.num == ob }) {
						okw = true
					}
				}
				if !okw {
					bad = "returns something other than what is printed"
				}
			}
			done++
			r.check(bad == "", "whole", fnName(fn), p.pos(fn.Pos()), bad)
		}
		r.check(done > 0, "whole", fnName(fn)+" returns", p.pos(fn.Pos()), "no path was followed to its end")
	}
}
