package main

// C19: every formula node refers to the phrase it came from.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type refs struct {
	p     *Program
	l     *lgen
	r     *Report
	nodeI *types.Interface // ast.Node
	// places that may hold a phrase that was made up while interpreting: function
	// parameters, their elements, and fields, with the kind of the phrase. The value
	// tells whether some of these phrases are not noted in any map.
	synth  map[string]bool
	change bool
	nilF   map[string]map[string]bool // kind of made-up phrase -> fields that it lacks
	under  map[string]int             // "function|i|j": 1 parameter j is within phrase i at all calls, 2 it is not
}

func ruleRefs(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	x := &refs{p: p, l: l, r: r, synth: map[string]bool{}, nilF: map[string]map[string]bool{}, under: map[string]int{}}
	t := p.typ("ast", "Node")
	if !r.check(t != nil, "anchor", "ast.Node", "-", "the type is missing") {
		return
	}
	x.nodeI, _ = t.Underlying().(*types.Interface)
	for _, f := range l.interps {
		l.paths(f, r)
	}
	for i := 0; i < 20; i++ {
		x.change = false
		for _, f := range l.interps {
			for _, q := range l.paths(f, r) {
				x.flow(q)
			}
		}
		if !x.change {
			break
		}
	}
	for _, f := range l.interps {
		for _, q := range l.paths(f, r) {
			if q.o.Kind == Ret {
				x.path(q)
			}
		}
	}
	x.simplified()
	x.accessors()
	r.assumption("the nodes of the syntax tree that interpretation functions are given are present (C13)")
	r.atLeast("refers", 100)
	r.atLeast("noted", 3)
	r.atLeast("covers", 10)
	r.atLeast("accessor", 10)
}

func (x *refs) isAst(t types.Type) bool {
	if t == nil {
		return false
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/ast")
}

// refMap tells whether m is a map of the interpreter from phrases to phrases.
func (x *refs) refMap(m *V) bool {
	if m.op != OLoad || m.args[0].op != OFAddr || m.args[0].typ == nil || !types.Identical(derefT(m.args[0].typ), x.l.ist) {
		return false
	}
	st := x.l.ist.Underlying().(*types.Struct)
	mt, ok := st.Field(int(m.args[0].num)).Type().Underlying().(*types.Map)
	return ok && x.isAst(mt.Elem()) && types.Implements(mt.Elem(), x.nodeI)
}

// place is the parameter or field that a value was read from.
func (x *refs) place(q *lpath, v *V) string {
	v = core(v)
	switch v.op {
	case OSym:
		for i, p := range q.params {
			if p == v {
				return fnName(q.fn) + "|" + q.fn.Params[i].Name()
			}
		}
	case OLoad:
		a := v.args[0]
		switch a.op {
		case OFAddr:
			if a.typ != nil {
				return ptrName(derefT(a.typ)) + "." + fieldName(derefT(a.typ), int(a.num))
			}
		case OIAddr:
			b := a.args[0]
			if b.op == OSlice || b.op == OSub {
				b = b.args[0]
			}
			if s := x.place(q, b); s != "" {
				return s + "[]"
			}
		}
	}
	return ""
}

// kinds returns the kinds of made-up phrases that v may be on this path.
func (x *refs) kinds(q *lpath, v *V) map[string]bool {
	st := q.st
	out := map[string]bool{}
	v = core(v)
	if v.op == OObj && x.isAst(st.otype[v.num]) && types.Implements(types.NewPointer(st.otype[v.num]), x.nodeI) {
		out[ptrName(st.otype[v.num])] = false
		return out
	}
	pl := x.place(q, v)
	if pl == "" {
		return out
	}
	for k, u := range x.synth {
		if !strings.HasPrefix(k, pl+"|") || strings.Contains(k[len(pl)+1:], "|") {
			continue
		}
		kind := k[len(pl)+1:]
		t := x.p.typ("ast", kind)
		if t == nil {
			continue
		}
		pt := types.NewPointer(t)
		if d := dynName(st, v); d != "" && d != kind {
			continue
		}
		no := false
		for _, e := range st.excl[v] {
			if types.Identical(e, pt) {
				no = true
			}
		}
		for a, b := range st.facts {
			if a.op == OImpl && a.args[0] == v {
				if it, ok := a.typ.Underlying().(*types.Interface); ok && types.Implements(pt, it) != b {
					no = true
				}
			}
		}
		if v.typ != nil {
			if it, ok := v.typ.Underlying().(*types.Interface); ok && !types.Implements(pt, it) {
				no = true
			}
		}
		// a made-up phrase lacks the part that this one has
		o := v
		if o.typ == nil || !types.Identical(o.typ, pt) {
			o = mkAs(v, pt)
		}
		for f := range x.nilF[kind] {
			fv := loadOf(fieldAddr(o, fieldIndex(t, f), t))
			if b, ok := st.facts[eqAtom(fv, vNil)]; ok && !b || st.shape[fv] > 0 {
				no = true
			}
		}
		if !no {
			out[kind] = u
		}
	}
	return out
}

func (x *refs) mark(place, kind string, unnoted bool) {
	k := place + "|" + kind
	u, ok := x.synth[k]
	if !ok || unnoted && !u {
		x.synth[k] = unnoted || u
		x.change = true
	}
}

// noted tells whether the path has put v into a map to its original before event i.
func (x *refs) noted(q *lpath, v *V, i int) bool {
	for k := 0; k < i; k++ {
		ev := &q.st.events[k]
		if ev.Kind == "mapset" && x.refMap(ev.Args[0]) && core(ev.Args[1]) == core(v) {
			return true
		}
	}
	return false
}

// flow: where made-up phrases go.
func (x *refs) flow(q *lpath) {
	st := q.st
	// what is put into made-up phrases and other objects
	for id, t := range st.otype {
		c := st.heap[id]
		sT, ok := t.Underlying().(*types.Struct)
		if !ok || c == nil || c.op != OStruct {
			continue
		}
		name := ptrName(t)
		if x.isAst(t) && types.Implements(types.NewPointer(t), x.nodeI) {
			lacks := map[string]bool{}
			for i := 0; i < sT.NumFields(); i++ {
				if i < len(c.args) && c.args[i].op == ONil {
					lacks[sT.Field(i).Name()] = true
				}
			}
			if old, ok := x.nilF[name]; ok {
				for f := range old {
					if !lacks[f] {
						delete(old, f)
						x.change = true
					}
				}
			} else {
				x.nilF[name] = lacks
				x.change = true
			}
		}
		if astField(t) >= 0 {
			continue // a formula node
		}
		for i := 0; i < sT.NumFields() && i < len(c.args); i++ {
			if x.isAst(sT.Field(i).Type()) {
				for k, u := range x.kinds(q, c.args[i]) {
					x.mark(name+"."+sT.Field(i).Name(), k, u || core(c.args[i]).op == OObj && !x.noted(q, c.args[i], len(st.events)))
				}
			}
		}
	}
	for i := range st.events {
		ev := &st.events[i]
		if ev.Kind != "call" {
			continue
		}
		g := x.l.rootNamed(ev.Name)
		if g == nil {
			continue
		}
		for j, a := range ev.Args {
			if j >= len(g.Params) {
				break
			}
			pl := fnName(g) + "|" + g.Params[j].Name()
			for k, u := range x.kinds(q, a) {
				x.mark(pl, k, u || core(a).op == OObj && !x.noted(q, a, i))
			}
			s := ev.St
			if s == nil {
				s = st
			}
			if _, ok := g.Params[j].Type().Underlying().(*types.Slice); ok {
				if es, ok := listElems(s, strip(a)); ok {
					for _, el := range es {
						for k, u := range x.kinds(q, el) {
							x.mark(pl+"[]", k, u || core(el).op == OObj)
						}
					}
				}
				for b := strip(a); ; {
					for k, u := range x.elemKinds(q, b) {
						x.mark(pl+"[]", k, u)
					}
					if b.op == OSlice || b.op == OSub {
						b = b.args[0]
						continue
					}
					break
				}
			}
		}
	}
}

func (x *refs) elemKinds(q *lpath, list *V) map[string]bool {
	out := map[string]bool{}
	pl := x.place(q, list)
	if pl == "" {
		return out
	}
	for k, u := range x.synth {
		if strings.HasPrefix(k, pl+"[]|") {
			out[k[len(pl)+3:]] = u
		}
	}
	return out
}

// syntax tells whether v is a phrase of the text: read from what the function was
// given, by way of phrases only.
func (x *refs) syntax(q *lpath, v *V) bool {
	v = core(v)
	for {
		switch v.op {
		case OLoad, OFAddr, OIAddr, OAs, OIface, OSlice, OSub:
			v = v.args[0]
		case OSym:
			for _, p := range q.params {
				if p == v {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// within tells whether the access path of v leads through base.
func within(v, base *V) bool {
	base = core(base)
	for v != nil {
		if core(v) == base {
			return true
		}
		switch v.op {
		case OLoad, OFAddr, OIAddr, OAs, OIface, OSlice, OSub:
			v = v.args[0]
		default:
			return false
		}
	}
	return false
}

func (x *refs) path(q *lpath) {
	r, l, st := x.r, x.l, q.st
	name := fnName(q.fn)
	var ids []int64
	for id := range st.otype {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		t := st.otype[id]
		ai := astField(t)
		if ai < 0 {
			continue
		}
		c := st.heap[id]
		where := x.p.pos(st.opos[id])
		what := name + " " + ptrName(t)
		if !r.check(c != nil && c.op == OStruct, "refers", what, where, "the node is not followed") {
			continue
		}
		a := core(c.args[ai])
		own := false // the predicate is not what the phrase is read as
		if k := fieldIndex(t, "Predicate"); k >= 0 {
			v := core(c.args[k])
			own = v.op != OSym
			for i := range st.events {
				ev := &st.events[i]
				if ev.Kind != "call" || ev.Res != v || l.rootNamed(ev.Name) == nil {
					continue
				}
				for _, b := range ev.Args {
					if core(b) == a {
						own = false
					}
				}
			}
		}
		if !x.refers(q, a, own, what, where) {
			continue
		}
		x.owner(q, t, c, a, what, where)
		x.covers(q, t, c, a, what, where)
		// a binding and its variable come from one phrase
		if d := fieldIndex(t, "Def"); d >= 0 {
			b := strip(c.args[d])
			if b.op == OObj && astField(st.otype[b.num]) >= 0 && st.heap[b.num].op == OStruct {
				ba := core(st.heap[b.num].args[astField(st.otype[b.num])])
				r.check(ba == a, "owner", what+" and its binding", where, "a variable refers to "+a.String()+" and the binding made for it to "+ba.String())
			}
		}
	}
	// what is noted in the maps
	for i := range st.events {
		ev := &st.events[i]
		switch {
		case ev.Kind == "mapset" && x.refMap(ev.Args[0]):
			k, v := core(ev.Args[1]), core(ev.Args[2])
			good := x.syntax(q, v) && len(x.kinds(q, v)) == 0
			r.check(good, "noted", name+" original", x.p.pos(ev.Pos), "something else than a phrase of the text is noted as the original: "+v.String())
			rel := within(k, v) && k != v
			if k.op == OObj {
				rel = x.holds(q, k, v)
			}
			r.check(rel, "noted", name+" part", x.p.pos(ev.Pos), "the phrase noted as the original is not the one that the other was taken from: "+k.String()+" of "+v.String())
		case ev.Kind == "mapdelete" && x.refMap(ev.Args[0]):
			r.bad("noted", name+" deleted", x.p.pos(ev.Pos), "the original of a phrase is forgotten")
		case ev.Kind == "store" && ev.Args[0].op == OFAddr && ev.Args[0].typ != nil && astField(derefT(ev.Args[0].typ)) == int(ev.Args[0].num) && rootObj(ev.Args[0]) == nil:
			r.bad("refers", name+" changed", x.p.pos(ev.Pos), "the reference of a node that was made elsewhere is changed")
		case ev.Kind == "call":
			if g := l.rootNamed(ev.Name); g != nil {
				x.handed(q, i, ev)
			}
		}
	}
}

// refers: a is a phrase of the text.
func (x *refs) refers(q *lpath, a *V, own bool, what, where string) bool {
	r, st := x.r, q.st
	if a.op == ONil || isNilIn(st, a) {
		return r.check(false, "refers", what, where, "the node refers to no phrase")
	}
	// the reference of another node
	if a.op == OLoad && a.args[0].op == OFAddr && a.args[0].typ != nil && astField(derefT(a.args[0].typ)) == int(a.args[0].num) && !x.isAst(derefT(a.args[0].typ)) {
		// of a node that is given to the function, not of one that is looked up
		of := rootOf(a)
		good := of.op == OObj
		for _, p := range q.params {
			if p == of && !types.Identical(derefT(p.typ), x.l.ist) {
				good = true
			}
		}
		return r.check(good, "refers", what, where, "the node refers to the phrase of another node that is found in the state: "+a.String())
	}
	// the original of a made-up phrase
	if a.op == OLookup && x.refMap(a.args[0]) {
		ok := st.facts[mk(V{op: OExtract, num: 1, args: []*V{a}, typ: types.Typ[types.Bool]})] || nonNilIn(st, a)
		r.check(ok, "refers", what, where, "the node refers to what may not be in the map")
		return ok
	}
	if !r.check(x.syntax(q, a), "refers", what, where, "the node does not refer to a phrase of the text but to "+a.String()) {
		return false
	}
	for k, unnoted := range x.kinds(q, a) {
		asked := false
		for f, b := range st.facts {
			if !b && f.op == OExtract && f.args[0].op == OLookup && x.refMap(f.args[0].args[0]) && core(f.args[0].args[1]) == a {
				asked = true
			}
		}
		if !r.check(asked && !unnoted, "refers", what, where, "the node may refer to a "+k+" that is not in the text but was made up while interpreting") {
			return false
		}
	}
	// the predicate of a phrase that is noted as its original
	if !own && strings.HasSuffix(what, " Predication") && a.typ != nil && x.keyType(a.typ) {
		asked := false
		for f, b := range st.facts {
			if !b && f.op == OExtract && f.args[0].op == OLookup && x.refMap(f.args[0].args[0]) && core(f.args[0].args[1]) == a {
				asked = true
			}
		}
		if !r.check(asked, "refers", what+" of predicate", where, "the predication may refer to the predicate of a phrase that is noted as its original") {
			return false
		}
	}
	// an optional part that may be missing
	if a.op == OLoad {
		if ow, f := fieldOwner(a); ow != nil && x.isAst(ow) {
			_, isP := a.typeOr(types.Typ[types.Int]).Underlying().(*types.Pointer)
			if i := fieldIndex(ow, f); i >= 0 {
				_, isP = ow.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Pointer)
			}
			if isP && !r.check(nonNilIn(st, a), "refers", what, where, "the node refers to a part that may be missing") {
				return false
			}
		}
	}
	return r.check(true, "refers", what, where, "")
}

// keyType tells whether phrases of this type are noted with their originals.
func (x *refs) keyType(t types.Type) bool {
	st := x.l.ist.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if mt, ok := st.Field(i).Type().Underlying().(*types.Map); ok && x.isAst(mt.Elem()) && types.Implements(mt.Elem(), x.nodeI) {
			if _, isI := mt.Key().Underlying().(*types.Interface); isI && types.Identical(mt.Key(), t) {
				return true
			}
		}
	}
	return false
}

// covers: the phrase of a node that is made as a whole includes those of its parts.
func (x *refs) covers(q *lpath, t types.Type, c, a *V, what, where string) {
	var fs []string
	switch ptrName(t) {
	case "Binding":
		fs = []string{"Restriction"}
	case "Abstraction":
		fs = []string{"Statement"}
	case "Predication":
		fs = []string{"Predicate", "Arguments"}
	case "Plurality":
		fs = []string{"Arguments"}
	case "Serial":
		fs = []string{"Left", "Right"}
	case "Swap":
		fs = []string{"Predicate"}
	case "Connection":
		// one that is not made from a connective
		i := fieldIndex(t, "Connector")
		if i < 0 || c.args[i].op != OConst {
			return
		}
		fs = []string{"Left", "Right"}
	case "Quote":
		i := fieldIndex(t, "Text")
		if i < 0 {
			return
		}
		walkTerm(c.args[i], func(b *V) bool {
			if b = core(b); b.op != OConst && x.syntax(q, b) {
				x.r.check(within(b, a) && (b == a || !x.isPhrase(b)), "covers", what+" Text", where, "a quote of "+b.String()+" refers to "+a.String())
				return false
			}
			return true
		}, map[*V]bool{})
		return
	default:
		return
	}
	isRef := a.op == OLoad && a.args[0].op == OFAddr && !x.isAst(derefT(a.args[0].typ))
	if isRef {
		return
	}
	for _, f := range fs {
		i := fieldIndex(t, f)
		if i < 0 || i >= len(c.args) {
			continue
		}
		direct := ptrName(t) == "Predication"
		vs := []*V{c.args[i]}
		if f == "Arguments" {
			es, ok := listElems(q.st, strip(c.args[i]))
			if !ok {
				continue
			}
			vs = es
		}
		for _, v := range vs {
			if o := core(v); f == "Predicate" && o.op == OObj && ptrName(q.st.otype[o.num]) != "Pred" {
				continue // a clause that is said to hold of something else
			}
			x.cover(q, a, v, direct, what+" "+f, where)
		}
	}
}

func (x *refs) isPhrase(v *V) bool {
	if v.typ == nil {
		return true
	}
	return types.Implements(v.typ, x.nodeI) || types.Implements(types.NewPointer(v.typ), x.nodeI)
}

func (x *refs) orig(a *V) *V {
	a = core(a)
	if a.op == OLookup && x.refMap(a.args[0]) {
		return core(a.args[1])
	}
	return a
}

func (x *refs) cover(q *lpath, a, v *V, direct bool, what, where string) {
	r, st := x.r, q.st
	v, a = core(v), x.orig(a)
	switch v.op {
	case OObj:
		ai := astField(st.otype[v.num])
		if c := st.heap[v.num]; ai >= 0 && c.op == OStruct {
			pa := x.orig(c.args[ai])
			if pa.op == OLoad && !x.syntax(q, pa) || pa.op == ONil {
				return
			}
			if pa.op == OLoad && pa.args[0].op == OFAddr && !x.isAst(derefT(pa.args[0].typ)) {
				return
			}
			r.check(within(pa, a) || x.paramUnder(q, a, pa), "covers", what, where, "a part refers to "+pa.String()+", which is not in the phrase that the whole refers to: "+a.String())
		}
	case OSym:
		pi, pj := -1, -1
		for i, p := range q.params {
			if core(p) == a {
				pi = i
			}
			if core(p) == v {
				pj = i
			}
		}
		if pi < 0 || pj < 0 {
			return
		}
		key := fmt.Sprintf("cover %s %d %d %v", fnName(q.fn), pi, pj, direct)
		if x.under[key] != 0 {
			return
		}
		x.under[key] = 1
		for _, f := range x.l.interps {
			for _, p := range x.l.paths(f, r) {
				for k := range p.st.events {
					ev := &p.st.events[k]
					if ev.Kind == "call" && ev.Name == fnName(q.fn) && len(ev.Args) > pi && len(ev.Args) > pj {
						x.cover(p, ev.Args[pi], ev.Args[pj], direct, fnName(f)+" "+what, x.p.pos(ev.Pos))
					}
				}
			}
		}
	default:
		if direct {
			return
		}
		res := v
		if v.op == OExtract {
			res = v.args[0]
		}
		for k := range st.events {
			ev := &st.events[k]
			if ev.Kind != "call" || ev.Res != res {
				continue
			}
			for _, b := range ev.Args {
				b = x.orig(b)
				if b.typ == nil || !x.isAst(b.typ) || !x.syntax(q, b) || x.l.isWord(derefT(b.typ)) {
					continue
				}
				if _, isS := b.typ.Underlying().(*types.Slice); isS {
					continue
				}
				r.check(within(b, a) || x.paramUnder(q, a, b), "covers", what, where, "a part is made from "+b.String()+", which is not in the phrase that the whole refers to: "+a.String())
			}
		}
	}
}

// owner: what a node says is read from words of the phrase that it refers to.
func (x *refs) owner(q *lpath, t types.Type, c, a *V, what, where string) {
	r := x.r
	sT := t.Underlying().(*types.Struct)
	isRef := a.op == OLoad && a.args[0].op == OFAddr && !x.isAst(derefT(a.args[0].typ))
	for i := 0; i < sT.NumFields() && i < len(c.args); i++ {
		ft := sT.Field(i).Type()
		if _, ok := ft.Underlying().(*types.Basic); !ok {
			continue
		}
		v := c.args[i]
		fw := what + " " + sT.Field(i).Name()
		// copied from another node
		if v.op == OLoad && v.args[0].op == OFAddr && ptrName(ft) == "Connector" {
			r.check(isRef && a.args[0].args[0] == v.args[0].args[0], "owner", fw, where, "a connector is that of another node, the reference is "+a.String())
			continue
		}
		walkTerm(v, func(w *V) bool {
			if w.op == OLoad && x.isWordish(w) && x.syntax(q, w) {
				if isRef || a.op == OLookup {
					r.bad("owner", fw, where, "what is said here is read from "+w.String()+", the reference is "+a.String())
					return false
				}
				good := within(w, a)
				if !good {
					good = x.paramUnder(q, a, w)
				}
				r.check(good, "owner", fw, where, "what is said here is read from "+w.String()+", which is not in the phrase that the node refers to: "+a.String())
				return false
			}
			return true
		}, map[*V]bool{})
	}
}

func (x *refs) isWordish(w *V) bool {
	ow, f := fieldOwner(w)
	if ow == nil || !x.isAst(ow) {
		return false
	}
	i := fieldIndex(ow, f)
	if i < 0 {
		return false
	}
	return x.l.isWord(ow.Underlying().(*types.Struct).Field(i).Type())
}

// paramUnder: w is in one parameter, which all callers take from within the one that a is.
func (x *refs) paramUnder(q *lpath, a, w *V) bool {
	pi, pj := -1, -1
	for i, p := range q.params {
		if core(p) == a {
			pi = i
		}
		if within(w, p) {
			pj = i
		}
	}
	if pi < 0 || pj < 0 {
		return false
	}
	return x.isUnder(q.fn, pi, pj)
}

func (x *refs) isUnder(g *ssa.Function, pi, pj int) bool {
	key := fmt.Sprintf("%s|%d|%d", fnName(g), pi, pj)
	if k, ok := x.under[key]; ok {
		return k == 1
	}
	x.under[key] = 1 // for recursive calls
	n := 0
	for _, f := range x.l.interps {
		for _, q := range x.l.paths(f, x.r) {
			for i := range q.st.events {
				ev := &q.st.events[i]
				if ev.Kind != "call" || ev.Name != fnName(g) || len(ev.Args) <= pi || len(ev.Args) <= pj {
					continue
				}
				n++
				u, v := ev.Args[pi], ev.Args[pj]
				if f == g && core(u) == core(q.params[pi]) && within(v, q.params[pj]) {
					continue
				}
				if !within(v, u) || core(u) == core(v) {
					x.under[key] = 2
					return false
				}
			}
		}
	}
	if n == 0 {
		x.under[key] = 2
	}
	return n > 0
}

// holds tells whether the made-up phrase k consists of parts of v.
func (x *refs) holds(q *lpath, k, v *V) bool {
	hit := false
	seen := map[int64]bool{}
	var walk func(o *V)
	walk = func(o *V) {
		walkTerm(o, func(y *V) bool {
			if y.op == OObj && !seen[y.num] {
				seen[y.num] = true
				if c := q.st.heap[y.num]; c != nil {
					walk(c)
				}
			}
			if y.op == OLoad && within(y, v) && y != v {
				hit = true
			}
			return true
		}, map[*V]bool{})
	}
	walk(k)
	return hit
}

// handed: the predicate of a phrase that as a whole becomes a predication is
// interpreted only after the phrase has been noted as its original.
func (x *refs) handed(q *lpath, i int, ev *Event) {
	r, st := x.r, q.st
	try := func(v *V) {
		v = core(v)
		if v.op != OLoad || v.args[0].op != OFAddr || v.args[0].typ == nil {
			return
		}
		ow := derefT(v.args[0].typ)
		if !x.isAst(ow) || fieldName(ow, int(v.args[0].num)) != "Predicate" {
			return
		}
		kind := ptrName(ow)
		of := core(v.args[0].args[0])
		switch kind {
		case "PredicationPreposition", "PredicateAdverb":
		case "Predication":
			ts := loadOf(fieldAddr(v.args[0].args[0], fieldIndex(ow, "Terms"), ow))
			n, known := st.shape[ts]
			if isNilIn(st, ts) || known && n == 0 {
				return
			}
		default:
			return
		}
		hit := false
		for k := 0; k < i; k++ {
			e := &st.events[k]
			if e.Kind == "mapset" && x.refMap(e.Args[0]) && core(e.Args[1]) == v && core(e.Args[2]) == of {
				hit = true
			}
		}
		r.check(hit, "noted", fnName(q.fn)+" "+kind, x.p.pos(ev.Pos), "the predicate of a "+kind+" is interpreted without the phrase having been noted as its original")
	}
	s := ev.St
	if s == nil {
		s = st
	}
	seen := map[int64]bool{}
	var walk func(o *V)
	walk = func(o *V) {
		o = strip(o)
		if o.op == OObj {
			if seen[o.num] {
				return
			}
			seen[o.num] = true
			if c := s.heap[o.num]; c != nil && c.op == OStruct && x.isAst(st.otype[o.num]) {
				for _, a := range c.args {
					walk(a)
				}
			}
			return
		}
		if o.op == OStruct {
			for _, a := range o.args {
				walk(a)
			}
			return
		}
		try(o)
	}
	for _, a := range ev.Args {
		walk(a)
	}
}

// simplified: nodes that are made by the steps of a simplification.
func (x *refs) simplified() {
	s := &simp{p: x.p, l: x.l, r: newReport("C15"), parts: map[string]types.Type{}, steps: map[string]bool{}, fns: map[*ssa.Function]bool{}, rec: map[*ssa.Function]types.Type{}, subF: -1, predF: -1, hoas: map[*ssa.Function]types.Type{}}
	if !x.r.check(s.find(), "anchor", "steps of the simplification", "-", "the steps are not found") {
		return
	}
	base := nonNilHook
	nonNilHook = func(v *V) bool { return base(v) || s.nonNil(v) }
	defer func() { nonNilHook = base }()
	all := map[*ssa.Function]types.Type{}
	for f, t := range s.rec {
		all[f] = t
	}
	for f, t := range s.hoas {
		all[f] = t
	}
	var fns []*ssa.Function
	for f := range all {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		e := s.eng()
		n := vSym("p:n", types.NewPointer(all[f]))
		args := []*V{n}
		for _, p := range f.Params[1:] {
			args = append(args, vSym("p:"+p.Name(), p.Type()))
		}
		for _, o := range e.Run(f, newState(), args...) {
			x.r.analysed["paths"]++
			name := fnName(f)
			for id, t := range o.St.otype {
				ai := astField(t)
				if ai < 0 || o.St.heap[id].op != OStruct {
					continue
				}
				a := core(o.St.heap[id].args[ai])
				good := a.op == OLoad && a.args[0].op == OFAddr && a.args[0].typ != nil && astField(derefT(a.args[0].typ)) == int(a.args[0].num) && a.args[0].args[0] == n
				x.r.check(good, "refers", name+" "+ptrName(t), x.p.pos(o.St.opos[id]), "a node that simplification adds does not refer to the phrase of the node that it is added to but to "+a.String())
			}
			for i := range o.St.events {
				ev := &o.St.events[i]
				if ev.Kind == "store" && ev.Args[0].op == OFAddr && ev.Args[0].typ != nil && astField(derefT(ev.Args[0].typ)) == int(ev.Args[0].num) && rootObj(ev.Args[0]) == nil {
					x.r.check(ev.Args[1] == loadOf(ev.Args[0]), "refers", name+" changed", x.p.pos(ev.Pos), "simplification changes the reference of a node")
				}
			}
		}
	}
}

// accessors: the reference of a node is what its method returns.
func (x *refs) accessors() {
	sc := x.p.pkgs["logic"].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		ai := astField(tn.Type())
		nt, isN := tn.Type().(*types.Named)
		if ai < 0 || !isN {
			continue
		}
		pt := types.NewPointer(nt)
		ms := types.NewMethodSet(pt)
		for i := 0; i < ms.Len(); i++ {
			f := x.p.prog.MethodValue(ms.At(i))
			if f == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), nt.Underlying().(*types.Struct).Field(ai).Type()) {
				continue
			}
			e := newEng(x.p)
			recv := vSym("p:n", pt)
			for _, o := range e.Run(f, newState(), recv) {
				good := o.Kind == Ret && core(o.Vals[0]) == loadOf(fieldAddr(recv, ai, nt))
				x.r.check(good, "accessor", fnName(f), x.p.pos(f.Pos()), "the method does not return the reference of the node")
			}
		}
	}
}

// astField is the field of a formula node that refers to its phrase.
func astField(t types.Type) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if n, ok := st.Field(i).Type().(*types.Named); ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
			return i
		}
	}
	return -1
}

// rootOf is what an access path starts from.
func rootOf(v *V) *V {
	for {
		switch v.op {
		case OLoad, OFAddr, OIAddr, OAs, OIface, OSlice, OSub:
			v = v.args[0]
		default:
			return v
		}
	}
}
