package main

// C05: the bracketed form.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// wtok is a piece of output: constant text, a text value, or a nested call.
type wtok struct {
	text *V // string value
	call *V // nested node
	cur  *V
}

func (t wtok) String() string {
	if t.call != nil {
		return fmt.Sprintf("<%s at level %s>", t.call, t.cur)
	}
	return t.text.String()
}

func tokString(ts []wtok) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, t.String())
	}
	return strings.Join(ss, " · ")
}

// strOf gives the string that a value is written as by fmt.Fprint.
func strOf(st *State, v *V) *V {
	if v.op == OIface {
		if isString(v.typ) {
			return v.args[0]
		}
		return nil
	}
	if t, ok := st.dyn[v]; ok && isString(t) {
		return mkAs(v, t)
	}
	return nil
}

func sliceElems(st *State, v *V, et types.Type) ([]*V, bool) {
	switch v.op {
	case ONil:
		return nil, true
	case OSlice:
		var out []*V
		for i := v.num; i < v.num2; i++ {
			out = append(out, st.load(indexAddr(v.args[0], vInt(i)), et))
		}
		return out, true
	}
	if n, ok := st.shape[v]; ok {
		var out []*V
		for i := int64(0); i < n; i++ {
			out = append(out, st.load(indexAddr(v, vInt(i)), et))
		}
		return out, true
	}
	return nil, false
}

// writeTexts returns what a call writes, and to what. ok is false if the call is not a known write.
func writeTexts(st *State, ev Event) (w *V, texts []*V, ok, known bool) {
	if ev.Kind != "call" {
		return nil, nil, false, false
	}
	n := ev.Name
	a := ev.Args
	switch {
	case n == "io.WriteString" && len(a) == 2:
		return a[0], []*V{a[1]}, true, true
	case strings.HasSuffix(n, ").WriteString") && len(a) == 2, n == ".WriteString" && len(a) == 2:
		return a[0], []*V{a[1]}, true, true
	case (strings.HasSuffix(n, ").WriteByte") || strings.HasSuffix(n, ").WriteRune") || n == ".WriteByte" || n == ".WriteRune") && len(a) == 2:
		if c, isc := a[1].intVal(); isc {
			return a[0], []*V{vStr(string(rune(c)))}, true, true
		}
		if a[1].op == OLookup {
			return a[0], []*V{mk(V{op: OConv, typ: types.Typ[types.String], args: []*V{a[1]}})}, true, true
		}
		return a[0], nil, true, false
	case (strings.HasSuffix(n, ").Write") || n == ".Write") && len(a) == 2:
		x := a[1]
		if x.op == OConv && len(x.args) == 1 {
			return a[0], []*V{x.args[0]}, true, true
		}
		return a[0], nil, true, false
	case n == "fmt.Fprint" && len(a) == 2, n == "fmt.Fprintln" && len(a) == 2:
		es, k := sliceElems(st, a[1], nil)
		if !k {
			return a[0], nil, true, false
		}
		for i, e := range es {
			s := strOf(st, e)
			if s == nil {
				return a[0], nil, true, false
			}
			if n == "fmt.Fprintln" && i > 0 {
				texts = append(texts, vStr(" "))
			}
			texts = append(texts, s)
		}
		if n == "fmt.Fprintln" {
			texts = append(texts, vStr("\n"))
		}
		return a[0], texts, true, true
	case n == "fmt.Fprintf" && len(a) == 3:
		f, isc := a[1].strVal()
		es, k := sliceElems(st, a[2], nil)
		if !isc || !k {
			return a[0], nil, true, false
		}
		i := 0
		for f != "" {
			j := strings.IndexByte(f, '%')
			if j < 0 {
				texts = append(texts, vStr(f))
				break
			}
			if j > 0 {
				texts = append(texts, vStr(f[:j]))
			}
			if j+1 >= len(f) {
				return a[0], nil, true, false
			}
			c := f[j+1]
			f = f[j+2:]
			switch c {
			case '%':
				texts = append(texts, vStr("%"))
			case 's', 'v':
				if i >= len(es) {
					return a[0], nil, true, false
				}
				s := strOf(st, es[i])
				i++
				if s == nil {
					return a[0], nil, true, false
				}
				texts = append(texts, s)
			default:
				return a[0], nil, true, false
			}
		}
		return a[0], texts, true, i == len(es)
	}
	return nil, nil, false, false
}

func mergeToks(in []wtok) []wtok {
	var out []wtok
	for _, t := range in {
		if t.text != nil {
			var parts []*V
			if t.text.op == OConcat {
				parts = t.text.args
			} else {
				parts = []*V{t.text}
			}
			for _, p := range parts {
				s, isc := p.strVal()
				if isc && s == "" {
					continue
				}
				if isc && len(out) > 0 && out[len(out)-1].text != nil {
					if s0, ok := out[len(out)-1].text.strVal(); ok {
						out[len(out)-1] = wtok{text: vStr(s0 + s)}
						continue
					}
				}
				out = append(out, wtok{text: p})
			}
			continue
		}
		out = append(out, t)
	}
	return out
}

// rec finds the recursive function over nodes that fn delegates to.
func findRec(p *Program, fn *ssa.Function, nt types.Type) *ssa.Function {
	seen := map[*ssa.Function]bool{}
	queue := []*ssa.Function{fn}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if f != fn {
			has := false
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if types.Identical(f.Signature.Params().At(i).Type(), nt) {
					has = true
				}
			}
			if has && reaches(p, f, f) {
				return f
			}
		}
		queue = append(queue, callees(p, f)...)
	}
	return nil
}

func callees(p *Program, f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch g := (*op).(type) {
				case *ssa.Function:
					if p.inRepo(g) {
						out = append(out, g)
					}
				case *ssa.MakeClosure:
					if h, ok := g.Fn.(*ssa.Function); ok {
						out = append(out, h)
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				out = append(out, mc.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

func reaches(p *Program, from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		for _, g := range callees(p, f) {
			if g == to {
				return true
			}
			if !seen[g] {
				seen[g] = true
				if rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(from)
}

const bracesOpen, bracesClose = "({[<", ")}]>"

func ruleBraces(p *Program, r *Report) {
	s := newASTSpec(p)
	if specErrors(r, s) {
		return
	}
	top := p.fn("ast", "BracesString")
	if top == nil || len(top.Params) != 1 {
		r.bad("anchor", "ast.BracesString", "ast", "function BracesString(Node) string not found")
		return
	}
	nt := p.typ("ast", "Node")
	rec := findRec(p, top, nt)
	if rec == nil {
		r.bad("anchor", "ast.BracesString", p.pos(top.Pos()), "the recursive function that renders a node was not found")
		return
	}
	iw, ic, in := -1, -1, -1
	for i, q := range rec.Params {
		switch {
		case types.Identical(q.Type(), nt):
			in = i
		case isInteger(q.Type()):
			ic = i
		default:
			iw = i
		}
	}
	if in < 0 || ic < 0 || iw < 0 || len(rec.Params) != 3 {
		r.bad("anchor", rec.Name(), p.pos(rec.Pos()), "the recursive function does not have a writer, a level and a node as parameters")
		return
	}
	space := s.kind("Space")
	modT := p.typ("ast", "Mod")
	dyn := func(st *State, v *V) []types.Type {
		ts := s.nodeDyn(st, v)
		if v.typ == nil || v.op == OIface || types.Identical(v.typ, modT) || space == nil {
			return ts
		}
		var out []types.Type
		for _, t := range ts {
			if !types.Identical(t, space.T) {
				out = append(out, t)
			}
		}
		return out
	}
	recName := fnName(rec)
	nonNilHook = s.required
	defer func() { nonNilHook = nil }()
	// the entry point
	{
		e := newEng(p)
		e.Policy = func(f *ssa.Function, args []*V, st *State) Action {
			if f == rec {
				return ActOpaque
			}
			return ActDefault
		}
		n := vSym("n", nt)
		for _, o := range e.Run(top, newState(), n) {
			var calls []Event
			bad := ""
			var str *V
			for _, ev := range o.St.events {
				if ev.Kind != "call" {
					continue
				}
				if ev.Name == recName {
					calls = append(calls, ev)
					if str != nil {
						bad = "the text is read before the node is rendered"
					}
					continue
				}
				if strings.HasSuffix(ev.Name, ").String") {
					str = ev.Res
					continue
				}
				if o.Kind == Ret {
					bad = "unexpected call of " + ev.Name
				}
			}
			if len(calls) != 1 {
				r.bad("entry", "BracesString", p.pos(top.Pos()), fmt.Sprintf("the node is rendered %d times", len(calls)))
				continue
			}
			if o.Kind == Panicked {
				// only if the writer failed
				nn, known := o.St.knownNil(calls[0].Res)
				r.check(known && !nn, "entry", "BracesString", p.pos(top.Pos()), "panics although nothing failed: "+o.St.factString())
				continue
			}
			a := calls[0].Args
			if bad == "" && a[in] != n {
				bad = "renders " + a[in].String() + " instead of the node"
			}
			if c, ok := a[ic].intVal(); bad == "" && (!ok || c != 0) {
				bad = "starts at level " + a[ic].String()
			}
			w := a[iw]
			if w.op == OIface {
				w = w.args[0]
			}
			if bad == "" && (o.Kind != Ret || str == nil || o.Vals[0] != str || str.args[0] != w) {
				bad = "does not return the text written"
			}
			r.check(bad == "", "entry", "BracesString", p.pos(top.Pos()), bad)
		}
	}
	for i := range s.kinds {
		k := &s.kinds[i]
		for cur := int64(0); cur < 4; cur++ {
			if cur > 0 && k.name != "Text" && k.name != "CoP" && k.name != "Word" && k.name != "Terms" {
				// the other kinds are analysed at one level each, rotating over the levels
			}
			e := newEng(p)
			e.MaxIter = 7
			e.MaxLen = 3
			e.DynSet = dyn
			st := newState()
			pp, n := k.root(st, "n")
			w := vSym("w", rec.Params[iw].Type())
			args := make([]*V, 3)
			args[iw], args[ic], args[in] = w, vInt(cur), n
			outs := e.Run(rec, st, args...)
			r.analysed["paths"] += len(outs)
			good := 0
			for _, o := range outs {
				label := "rendering of " + k.name
				if o.Kind == Cut {
					continue
				}
				if s.infeasibleEmpty(o.St, k, pp) {
					continue
				}
				if o.Kind == Panicked {
					r.bad("render", label, p.pos(o.Pos), "fails ("+o.Vals[0].String()+") when "+o.St.factString())
					continue
				}
				// a path on which a write failed
				failed := false
				for _, ev := range o.St.events {
					if ev.Kind == "call" && ev.Res != nil {
						for _, x := range []*V{ev.Res, mk(V{op: OExtract, num: 1, args: []*V{ev.Res}})} {
							if b, ok := o.St.facts[eqAtom(x, vNil)]; ok && !b {
								failed = true
							}
						}
					}
				}
				if failed {
					continue
				}
				var got []wtok
				bad := ""
				for _, ev := range o.St.events {
					if ev.Kind == "hazard" {
						bad = ev.Name
						continue
					}
					if ev.Kind == "store" {
						bad = "stores to " + ev.Args[0].String()
						continue
					}
					if ev.Kind != "call" {
						continue
					}
					if ev.Name == recName {
						if ev.Args[iw] != w {
							bad = "a part is rendered to another writer"
						}
						x := ev.Args[in]
						if x.op == ONil {
							continue
						}
						if b, ok := o.St.knownNil(x); ok && b {
							continue
						}
						got = append(got, wtok{call: x, cur: ev.Args[ic]})
						continue
					}
					ww, texts, isw, known := writeTexts(o.St, ev)
					if !isw {
						continue
					}
					if !known || ww != w {
						bad = "what " + ev.Name + " writes is not followed"
						continue
					}
					for _, t := range texts {
						got = append(got, wtok{text: t})
					}
				}
				want, skip, err := s.braceWant(o.St, k, pp, cur, space)
				if skip {
					continue
				}
				good++
				if bad == "" && err != "" {
					bad = err
				}
				if bad == "" && len(o.Vals) == 1 && o.Vals[0] != vNil {
					b, ok := o.St.knownNil(o.Vals[0])
					if !ok {
						// the result of the last nested call, or of a write
						ok = o.Vals[0].op == OCall && callName(o.Vals[0]) == recName
						for _, ev := range o.St.events {
							_, _, isw, _ := writeTexts(o.St, ev)
							if isw && ev.Res != nil && errOf(ev.Res, o.Vals[0]) {
								ok = true
							}
						}
						b = ok
					}
					if !ok || !b {
						bad = "reports an error although nothing failed"
					}
				}
				gm, wm := tokString(mergeToks(got)), tokString(mergeToks(want))
				r.check(bad == "" && gm == wm, "render", label, p.pos(rec.Pos()), fmt.Sprintf("%s\n    writes   %s\n    expected %s\n    at level %d when %s", bad, gm, wm, cur, o.St.factString()))
			}
			if good == 0 {
				r.bad("render", "rendering of "+k.name, p.pos(rec.Pos()), "no path")
			}
			if e.over {
				r.bad("budget", "rendering of "+k.name, p.pos(rec.Pos()), "analysis budget exceeded")
			}
		}
	}
	r.atLeast("render", 150)
	r.atLeast("entry", 1)
	r.assumption("The leading space of a text has no modifier of its own (grammar rule text).")
	r.assumption("Lists with up to 3 elements and chains of up to 5 spaces are followed.")
	r.assumption("Nested renderings are taken to be right (induction over the height of the tree).")
}

// braceWant computes the expected output for the node of kind k at pp.
func (s *astSpec) braceWant(st *State, k *nodeKind, pp *V, cur int64, space *nodeKind) (want []wtok, skip bool, err string) {
	var items []wtok
	// add a part; a space is replaced by its modifier
	var add func(n, subj, len0 *V) bool
	add = func(n, subj, len0 *V) bool {
		pt := part{node: n, subj: subj, len0: len0}
		if len0 != nil {
			pt.len0 = nil // rendered as nothing when empty
		}
		ab, known := pt.absent(st)
		if n.op == OIface && types.Identical(n.typ, space.T) || st.dyn[n] != nil && types.Identical(st.dyn[n], space.T) {
			if known && ab {
				return true
			}
			p := n
			if n.op == OIface {
				p = n.args[0]
			} else {
				p = mkAs(n, space.T)
			}
			m, e := s.field(st, space.elem, p, "M?")
			if e != nil {
				err = e.Error()
				return false
			}
			return add(m.node, m.subj, m.len0)
		}
		if !known {
			// an interface part whose kind is not decided: it must at least be decided whether it is a space or absent
			err = "whether " + n.String() + " is present is not examined"
			return false
		}
		if ab {
			return true
		}
		items = append(items, wtok{call: n})
		return true
	}
	single := func() {
		for i := range items {
			items[i].cur = vInt(cur)
		}
	}
	switch {
	case k.list:
		es, _, known := s.elemsOf(st, k, pp)
		if !known {
			return nil, false, "the elements are not examined"
		}
		for _, x := range es {
			items = append(items, wtok{call: x})
		}
	case k.name == "Space":
		m, _ := s.field(st, space.elem, pp, "M?")
		// a single item: rendering an absent or present modifier is left to the nested call
		if ab, known := m.absent(st); known && ab {
			return nil, false, ""
		}
		return []wtok{{call: m.node, cur: vInt(cur)}}, false, ""
	case k.name == "Word":
		ti := fieldIndex(k.elem, "T")
		items = append(items, wtok{text: st.load(fieldAddr(pp, ti, k.elem), nil)})
		m, e := s.field(st, k.elem, pp, "M?")
		if e != nil {
			return nil, false, e.Error()
		}
		if !add(m.node, m.subj, nil) {
			return nil, false, err
		}
	default:
		ps, e := s.parts(st, k, pp)
		if e != nil {
			return nil, false, e.Error()
		}
		if k.name == "Text" {
			// Leading is a space without modifier
			l := ps[0]
			if b, ok := st.knownNil(l.node); ok && !b {
				if t, ok := st.dyn[l.node]; !ok || !types.Identical(t, space.T) {
					return nil, true, ""
				}
				m, _ := s.field(st, space.elem, mkAs(l.node, space.T), "M?")
				if b, ok := st.knownNil(m.node); ok && !b {
					return nil, true, ""
				}
			}
		}
		if len(ps) == 1 {
			items = append(items, wtok{call: ps[0].node})
			break
		}
		for _, pt := range ps {
			if !add(pt.node, pt.subj, pt.len0) {
				return nil, false, err
			}
		}
	}
	if len(items) < 2 {
		single()
		return items, false, ""
	}
	want = append(want, wtok{text: vStr(bracesOpen[cur : cur+1])})
	for i, it := range items {
		if i > 0 {
			want = append(want, wtok{text: vStr(" ")})
		}
		it.cur = vInt((cur + 1) % 4)
		want = append(want, it)
	}
	want = append(want, wtok{text: vStr(bracesClose[cur : cur+1])})
	return want, false, ""
}

// errOf tells whether e is the error result of the call whose result is res.
func errOf(res, e *V) bool {
	return e == res || e.op == OExtract && len(e.args) == 1 && e.args[0] == res
}
