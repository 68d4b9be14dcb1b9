package main

// C15: simplification never loses or changes a part of the meaning.
//
// Every simplification step is analysed on its own: the method of one node type,
// with the steps of its parts left uninterpreted. What it returns and leaves
// behind must be the node with its parts simplified in place, or one of the
// rewritings under the conditions that make them safe.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type simp struct {
	p     *Program
	l     *lgen
	r     *Report
	parts map[string]types.Type // Statement, Argument, Predicate
	steps map[string]bool       // names of the simplification methods
	fns   map[*ssa.Function]bool
	rec   map[*ssa.Function]types.Type // step -> node type
	stT   types.Type                   // the state that the steps share
	subF  int
	predF int
	hoaM  string
	hoas  map[*ssa.Function]types.Type
	nodes []*types.Named
}

func ruleSimplify(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	s := &simp{p: p, l: l, r: r, parts: map[string]types.Type{}, steps: map[string]bool{}, fns: map[*ssa.Function]bool{}, rec: map[*ssa.Function]types.Type{}, subF: -1, predF: -1, hoas: map[*ssa.Function]types.Type{}}
	if !s.find() {
		return
	}
	base := nonNilHook
	nonNilHook = func(x *V) bool { return base(x) || s.nonNil(x) }
	r.assumption("formulas are trees: the parts of a node are not shared with other nodes, and required parts are present (C12, C22)")
	r.assumption("chains of swaps and of variables of an abstraction are analysed up to two swaps and three variables, lists up to three elements; the code treats further links alike")
	r.assumption("the walks over a formula reach every node, a binding before its parts (C16)")
	var fns []*ssa.Function
	for f := range s.rec {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		s.step(f)
	}
	s.start()
	s.implied()
	s.numbers()
	s.whole()
	r.atLeast("kept", 40)
	r.atLeast("removed", 4)
	r.atLeast("unfolded", 3)
	r.atLeast("swapped", 4)
	r.atLeast("implied", 10)
	r.atLeast("numbered", 8)
}

func (s *simp) find() bool {
	p, r := s.p, s.r
	for _, n := range []string{"Statement", "Argument", "Predicate"} {
		t := p.typ("logic", n)
		if !r.check(t != nil, "anchor", "logic."+n, "-", "the type is missing") {
			return false
		}
		s.parts[n] = t
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		found := false
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sg := m.Type().(*types.Signature)
			if sg.Params().Len() != 1 {
				continue
			}
			pt := sg.Params().At(0).Type()
			if types.Identical(pt, s.l.bindT) && n == "Statement" {
				s.hoaM = m.Name()
			}
			if sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), t) && isMapState(pt) {
				s.steps[m.Name()] = true
				s.stT = derefT(pt)
				found = true
			}
		}
		if !found {
			r.bad("anchor", "simplification of logic."+n, "-", "no method of the interface takes the state of a simplification and returns the simplified node")
			return false
		}
	}
	if !r.check(s.hoaM != "", "anchor", "implied arguments", "-", "no method of Statement takes the binding whose restriction it is") {
		return false
	}
	st := s.stT.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			if types.Identical(m.Elem(), s.parts["Argument"]) {
				s.subF = i
			} else {
				s.predF = i
			}
		}
	}
	if !r.check(s.subF >= 0 && s.predF >= 0, "anchor", "the state of a simplification", "-", "it does not have the replacements of variables and the variables that are predicates") {
		return false
	}
	sc := p.pkgs["logic"].Types.Scope()
	nodeI, _ := p.typ("logic", "Node").Underlying().(*types.Interface)
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		if _, isS := nt.Underlying().(*types.Struct); !isS || nodeI == nil || !types.Implements(types.NewPointer(nt), nodeI) {
			continue
		}
		if embedsPart(nt) {
			continue // a wrapper of another node that is not in a formula itself
		}
		s.nodes = append(s.nodes, nt)
		ms := types.NewMethodSet(types.NewPointer(nt))
		for i := 0; i < ms.Len(); i++ {
			f := p.prog.MethodValue(ms.At(i))
			if f == nil || len(f.Blocks) == 0 {
				continue
			}
			if s.steps[f.Name()] && len(f.Params) == 2 {
				s.rec[f] = nt
				s.fns[f] = true
			}
			if f.Name() == s.hoaM {
				s.hoas[f] = nt
			}
		}
	}
	return r.check(len(s.nodes) >= 9, "anchor", "kinds of nodes", "-", "too few kinds of nodes")
}

func embedsPart(nt *types.Named) bool {
	st := nt.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Interface); ok && st.Field(i).Embedded() {
			return true
		}
	}
	return false
}

func isMapState(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			return true
		}
	}
	return false
}

func (s *simp) isPart(t types.Type) bool {
	for _, p := range s.parts {
		if types.Identical(t, p) {
			return true
		}
	}
	return false
}

func (s *simp) isList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && s.isPart(sl.Elem())
}

// nonNil: parts that are always there.
func (s *simp) nonNil(x *V) bool {
	switch x.op {
	case OCall:
		return s.steps[strings.TrimPrefix(callName(x), ".")]
	case OLoad:
		a := x.args[0]
		if a.op == OFAddr && a.typ != nil {
			t := derefT(a.typ)
			if st, ok := t.Underlying().(*types.Struct); ok && int(a.num) < st.NumFields() {
				f := st.Field(int(a.num))
				return s.isPart(f.Type()) && f.Name() != "Restriction" || types.Identical(derefT(f.Type()), s.stT)
			}
		}
		// elements of the lists: only those that are known
	}
	return false
}

// bounded: chains of swaps and of variables of an abstraction are followed for
// three links.
func (s *simp) bounded(st *State, x *V) []types.Type {
	ns, nb := 0, 0
	for y := x; y != nil; {
		switch y.op {
		case OLoad, OFAddr, OIface:
			y = y.args[0]
		case OAs:
			switch ptrName(y.typ) {
			case "Swap":
				ns++
			case "Binding":
				nb++
			}
			y = y.args[0]
		default:
			y = nil
		}
	}
	if ns < 2 && nb < 3 || x.op != OLoad {
		return nil
	}
	var out []types.Type
	for _, nt := range s.nodes {
		n := nt.Obj().Name()
		if n == "Swap" && ns >= 2 || n == "Binding" && nb >= 3 {
			continue
		}
		out = append(out, types.NewPointer(nt))
	}
	return out
}

func (s *simp) eng() *Eng {
	e := newEng(s.p)
	e.MaxIter = 30
	e.DynSet = s.bounded
	e.LenCap = func(x *V) int64 { return 3 }
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		switch {
		case s.fns[fn], s.hoas[fn] != nil:
			return ActOpaque
		case s.l.visitQ[fn]:
			return ActPure
		case fn.Name() == "Visit" && fn.Signature.Recv() != nil:
			return ActOpaque
		}
		return ActDefault
	}
	e.After = func(st *State, name string, fn *ssa.Function, args []*V, res *V) {
		st.events[len(st.events)-1].St = st.clone()
	}
	return e
}

// core strips what does not change which node a value is.
func core(v *V) *V {
	for v != nil && (v.op == OIface || v.op == OAs) {
		v = v.args[0]
	}
	return v
}

// simpOf returns what v is a simplification of.
func (s *simp) simpOf(v *V) *V {
	v = core(v)
	if v == nil || v.op != OCall || len(v.args) < 2 {
		return nil
	}
	n := callName(v)
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	if !s.steps[n] || core(v.args[1]) != vSym("p:s", types.NewPointer(s.stT)) {
		return nil
	}
	return core(v.args[0])
}

// simplified tells whether v is old after at least min simplifications.
func (s *simp) simplified(v, old *V, min int) bool {
	v, old = core(v), core(old)
	for n := 0; v != nil; n++ {
		if v == old {
			return n >= min
		}
		v = s.simpOf(v)
	}
	return false
}

func (s *simp) mapAt(st *State, f int) *V {
	return st.load(fieldAddr(vSym("p:s", types.NewPointer(s.stT)), f, s.stT), nil)
}

func isNilIn(st *State, v *V) bool {
	b, ok := st.knownNil(v)
	return ok && b
}

func nonNilIn(st *State, v *V) bool {
	b, ok := st.knownNil(v)
	return ok && !b
}

func ptrName(t types.Type) string {
	if t == nil {
		return ""
	}
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// dynName is the name of the dynamic type of v, if it is known.
func dynName(st *State, v *V) string {
	if v.op == OIface {
		return ptrName(v.typ)
	}
	return ptrName(st.dyn[core(v)])
}

func (s *simp) notDyn(st *State, v *V, name string) bool {
	if d := dynName(st, v); d != "" {
		return d != name
	}
	for _, t := range st.excl[core(v)] {
		if ptrName(t) == name {
			return true
		}
	}
	if ds := s.bounded(st, core(v)); ds != nil {
		for _, t := range ds {
			if ptrName(t) == name {
				return isNilIn(st, v)
			}
		}
		return true
	}
	return isNilIn(st, v)
}

// fld is the field of the node v of the named type.
func (s *simp) fld(st *State, v *V, typ, name string) *V {
	t := s.p.typ("logic", typ)
	if t == nil {
		return vSym("no type "+typ, nil)
	}
	i := fieldIndex(t, name)
	if i < 0 {
		return vSym("no field "+name, nil)
	}
	o := strip(v)
	if o.op != OObj && o.op != OSym && o.op != OAs {
		o = mkAs(o, types.NewPointer(t))
	}
	return st.load(fieldAddr(o, i, t), nil)
}

// is tells whether two values are known to be equal.
func isKnown(st *State, a, b *V) bool {
	if a == b {
		return true
	}
	if v, ok := st.facts[eqAtom(a, b)]; ok {
		return v
	}
	v, ok := st.decideEq(a, b)
	return ok && v
}

func isNotKnown(st *State, a, b *V) bool {
	if v, ok := st.facts[eqAtom(a, b)]; ok {
		return !v
	}
	v, ok := st.decideEq(a, b)
	return ok && !v
}

// isPredVar: the path has found that variable N is (not) a predicate.
func (s *simp) notPred(st *State, ns []*V) bool {
	pm := s.mapAt(st, s.predF)
	for a, t := range st.facts {
		x := a
		if x.op == OExtract {
			x = x.args[0]
		}
		if x.op == OLookup && x.args[0] == pm && !t {
			for _, n := range ns {
				if x.args[1] == n {
					return true
				}
			}
		}
	}
	return false
}

func (s *simp) step(f *ssa.Function) {
	T := s.rec[f]
	name := fnName(f)
	where := s.p.pos(f.Pos())
	tn := ptrName(T)
	runs := [][]int64{nil}
	if tn == "Predication" {
		runs = [][]int64{{1, 2, 1}, {2, 1, 1}}
	}
	for _, poss := range runs {
		e := s.eng()
		st := newState()
		n := vSym("p:n", types.NewPointer(T))
		sv := vSym("p:s", types.NewPointer(s.stT))
		if poss != nil {
			sw := s.p.typ("logic", "Swap")
			pr := loadOf(fieldAddr(n, fieldIndex(T, "Predicate"), T))
			for _, k := range poss {
				o := mkAs(pr, types.NewPointer(sw))
				st.over[fieldAddr(o, fieldIndex(sw, "Pos"), sw)] = vInt(k)
				pr = loadOf(fieldAddr(o, fieldIndex(sw, "Predicate"), sw))
			}
		}
		outs := e.Run(f, st, n, sv)
		s.r.analysed["functions"] += len(e.funcs)
		s.r.analysed["paths"] += len(outs)
		if e.over {
			s.r.bad("undecided", name, where, "too many paths")
			return
		}
		for _, o := range outs {
			s.outcome(f, T, n, o, name, where, poss)
		}
	}
}

func (s *simp) outcome(f *ssa.Function, T types.Type, n *V, o Outcome, name, where string, poss []int64) {
	r, st := s.r, o.St
	tn := ptrName(T)
	for i := range st.events {
		ev := &st.events[i]
		if ev.Kind == "hazard" {
			r.bad("fails", name, s.p.pos(ev.Pos), "simplification can fail: "+ev.Name+" "+ev.Args[0].String())
			return
		}
	}
	if o.Kind == Cut {
		r.bad("ends", name, where, "the step does not end")
		return
	}
	if o.Kind != Ret {
		r.bad("fails", name, where, "simplification can fail: "+fmt.Sprint(o.Vals))
		return
	}
	v := core(o.Vals[0])
	sub, pred := s.mapAt(st, s.subF), s.mapAt(st, s.predF)
	var sets []*Event
	for i := range st.events {
		ev := &st.events[i]
		if ev.Kind == "mapset" || ev.Kind == "mapdelete" {
			if ev.Kind == "mapset" && ev.Args[0] == sub {
				sets = append(sets, ev)
				continue
			}
			r.check(ev.Args[0] != pred && ev.Args[0] != sub, "kept", name+" state", s.p.pos(ev.Pos), "the state of the simplification is changed otherwise than by a replacement")
		}
	}
	switch {
	case tn == "Variable" && types.Identical(f.Signature.Results().At(0).Type(), s.parts["Argument"]):
		s.variable(T, n, v, st, sub, name, where)
		r.check(len(sets) == 0, "kept", name+" replacements", where, "a replacement is set")
		return
	case tn == "Predication":
		s.predication(T, n, v, st, sets, name, where, poss)
		return
	case tn == "Binding" && v != n:
		s.removed(T, n, v, st, sets, name, where)
		return
	}
	if !r.check(v == n, "kept", name, where, "a "+tn+" becomes "+o.Vals[0].String()) {
		return
	}
	r.check(len(sets) == 0, "kept", name+" replacements", where, "a variable is replaced although nothing is removed")
	s.fields(T, n, st, name, where, nil)
}

// fields: each part has been simplified in place, and nothing else has changed.
func (s *simp) fields(T types.Type, n *V, st *State, name, where string, skip map[string]bool) {
	r := s.r
	str := T.Underlying().(*types.Struct)
	for i := 0; i < str.NumFields(); i++ {
		fd := str.Field(i)
		if skip[fd.Name()] {
			continue
		}
		a := fieldAddr(n, i, T)
		f0, f1 := loadOf(a), st.load(a, nil)
		what := name + " " + fd.Name()
		switch {
		case s.isPart(fd.Type()):
			if isNilIn(st, f0) {
				r.check(f1 == f0 || f1.op == ONil, "kept", what, where, "a missing part becomes "+f1.String())
				continue
			}
			r.check(s.simplified(f1, f0, 1), "kept", what, where, "the part becomes "+f1.String()+" instead of its simplification")
		case s.isList(fd.Type()) && ptrName(T) == "Plurality":
			s.plural(f0, f1, st, what, where)
		case s.isList(fd.Type()):
			s.list(f0, f1, nil, st, what, where, 1)
		default:
			r.check(f1 == f0 || isKnown(st, f0, f1), "kept", what, where, "the field becomes "+f1.String())
		}
	}
}

// oldElems are the elements of an opaque list before the step.
func oldElems(st *State, f0 *V) ([]*V, bool) {
	k, ok := st.shape[f0]
	if !ok {
		return nil, isNilIn(st, f0)
	}
	var es []*V
	for i := int64(0); i < k; i++ {
		es = append(es, loadOf(indexAddr(f0, vInt(i))))
	}
	return es, true
}

// list: the arguments after the step are those before it, moved as perm says.
func (s *simp) list(f0, f1 *V, swaps []int64, st *State, what, where string, min int) bool {
	r := s.r
	if f1 == f0 && min == 0 && len(swaps) == 0 {
		r.ok("kept", what)
		return true
	}
	old, ok := oldElems(st, f0)
	if !r.check(ok, "kept", what, where, "the list is not looked at") {
		return false
	}
	for _, p := range swaps {
		for int64(len(old)) <= p {
			old = append(old, vNil)
		}
		old[0], old[p] = old[p], old[0]
	}
	got, ok := listElems(st, f1)
	if !r.check(ok, "kept", what, where, "the list becomes "+f1.String()) {
		return false
	}
	good := true
	for i := 0; i < len(old) || i < len(got); i++ {
		w, g := vNil, vNil
		if i < len(old) {
			w = old[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if isNilIn(st, w) {
			good = r.check(g == w || isNilIn(st, g), "kept", fmt.Sprintf("%s[%d]", what, i), where, "a gap becomes "+g.String()) && good
			continue
		}
		good = r.check(s.simplified(g, w, min), "kept", fmt.Sprintf("%s[%d]", what, i), where, "the element "+w.String()+" becomes "+g.String()) && good
	}
	return good
}

// plural: the elements of pluralities within a plurality take their place.
func (s *simp) plural(f0, f1 *V, st *State, what, where string) {
	r := s.r
	old, ok := oldElems(st, f0)
	if !r.check(ok, "kept", what, where, "the list is not looked at") {
		return
	}
	got, ok := listElems(st, f1)
	if !r.check(ok, "kept", what, where, "the list becomes "+f1.String()) {
		return
	}
	plT := s.p.typ("logic", "Plurality")
	fi := fieldIndex(plT, "Arguments")
	j := 0
	for i, w := range old {
		if isNilIn(st, w) {
			if j < len(got) && got[j] == w {
				j++
			}
			continue
		}
		if j < len(got) && s.simplified(got[j], w, 1) {
			// not replaced by its elements
			r.ok("kept", fmt.Sprintf("%s[%d]", what, i))
			j++
			continue
		}
		// the elements of a plurality, in order
		var c *V
		for k := range st.events {
			if ev := &st.events[k]; ev.Kind == "call" && s.simplified(ev.Res, w, 1) {
				c = ev.Res
			}
		}
		good := false
		if c != nil && dynName(st, c) == "Plurality" {
			in := st.load(fieldAddr(mkAs(c, types.NewPointer(plT)), fi, plT), nil)
			es, ok := listElems(st, in)
			good = ok
			for _, x := range es {
				if j < len(got) && got[j] == x {
					j++
				} else {
					good = false
				}
			}
		}
		if !r.check(good, "kept", fmt.Sprintf("%s[%d]", what, i), where, "an element of the plurality is lost or changed: the list becomes "+st.resolve(f1).String()) {
			return
		}
	}
	r.check(j == len(got), "kept", what+" others", where, "the plurality gets further elements")
}

func (s *simp) variable(T types.Type, n, v *V, st *State, sub *V, name, where string) {
	r := s.r
	nn := loadOf(fieldAddr(n, fieldIndex(T, "N"), T))
	look := mk(V{op: OLookup, args: []*V{sub, nn}, typ: s.parts["Argument"]})
	found, asked := st.facts[mk(V{op: OExtract, num: 1, args: []*V{look}, typ: types.Typ[types.Bool]})]
	if !asked {
		if isn, ok := st.knownNil(look); ok {
			found, asked = !isn, true
		}
	}
	if !r.check(asked, "kept", name+" replaced", where, "it is not looked up whether the variable is replaced") {
		return
	}
	if found {
		r.check(v == look, "kept", name+" replaced", where, "the variable becomes "+v.String()+" instead of its replacement")
		return
	}
	if r.check(v == n, "kept", name, where, "a variable that is not replaced becomes "+v.String()) {
		s.fields(T, n, st, name, where, nil)
	}
}

// removed: a binding is removed only if its variable is equal to a constant.
func (s *simp) removed(T types.Type, n, v *V, st *State, sets []*Event, name, where string) {
	r := s.r
	ld := func(f string) *V { return loadOf(fieldAddr(n, fieldIndex(T, f), T)) }
	if !r.check(s.simplified(v, ld("Scope"), 1), "removed", name+" scope", where, "a binding becomes "+v.String()+", which is not its simplified scope") {
		return
	}
	res := st.load(fieldAddr(n, fieldIndex(T, "Restriction"), T), nil)
	r.check(s.simplified(res, ld("Restriction"), 1), "removed", name+" restriction", where, "the restriction of a removed binding is not simplified")
	bad := func(d string) { r.bad("removed", name, where, "a binding is removed, but "+d) }
	q := ld("Quantifier")
	the, all := s.cstr("The"), s.cstr("All")
	if !isKnown(st, q, the) && !isKnown(st, q, all) {
		bad("its quantifier is not known to be definite or universal")
		return
	}
	if dynName(st, res) != "Predication" {
		bad("its restriction is not known to be a predication")
		return
	}
	pr := s.fld(st, res, "Predication", "Predicate")
	if dynName(st, pr) != "Pred" || !isKnown(st, s.fld(st, pr, "Pred", "Name"), s.cstr("Equal")) {
		bad("the predicate of its restriction is not known to be equality")
		return
	}
	args, ok := listElems(st, s.fld(st, res, "Predication", "Arguments"))
	if !ok || len(args) != 2 || !nonNilIn(st, args[0]) || !nonNilIn(st, args[1]) {
		bad("its restriction is not known to have exactly two present arguments")
		return
	}
	nn := ld("N")
	for i := 0; i < 2; i++ {
		x, c := args[i], args[1-i]
		if dynName(st, x) != "Variable" {
			continue
		}
		xn := s.fld(st, x, "Variable", "N")
		if !isKnown(st, xn, nn) && !isKnown(st, s.fld(st, x, "Variable", "Def"), n) {
			continue
		}
		switch dynName(st, c) {
		case "Quote", "Plurality", "Abstraction":
		default:
			continue
		}
		ns := []*V{xn, nn}
		if !s.notPred(st, ns) {
			bad("its variable is not known not to be a predicate somewhere")
			return
		}
		if !s.absent(st, c, ns) {
			bad("its variable may be within the constant")
			return
		}
		if len(sets) != 1 || sets[0].Args[1] != xn && sets[0].Args[1] != nn || core(sets[0].Args[2]) != core(c) {
			bad("its variable is not replaced by the constant")
			return
		}
		// before the scope is simplified
		before := false
		for i := range st.events {
			ev := &st.events[i]
			if ev == sets[0] {
				before = true
			}
			if ev.Kind == "call" && ev.Res == core(v) {
				break
			}
		}
		r.check(before, "removed", name, where, "the variable is replaced too late")
		return
	}
	bad("its restriction does not equate its own variable with a constant")
}

// absent: the path has found that the variable is not in c.
func (s *simp) absent(st *State, c *V, ns []*V) bool {
	for a, t := range st.facts {
		if t || a.op != OCall || len(a.args) != 2 {
			continue
		}
		if core(a.args[0]) != core(c) || a.args[1] != ns[0] && a.args[1] != ns[1] {
			continue
		}
		for f := range s.l.visitQ {
			if fnName(f) == callName(a) {
				s.searcher(f)
				return true
			}
		}
	}
	return false
}

// searcher checks a function that tells whether a variable is in a formula.
func (s *simp) searcher(f *ssa.Function) {
	if s.l.over[f] {
		return
	}
	s.l.over[f] = true
	r, name, where := s.r, fnName(f), s.p.pos(f.Pos())
	args, vs, outs := s.walk(f)
	for _, o := range outs {
		if r.check(o.Kind == Ret && len(o.Vals) == 1, "search", name, where, "the search does not return") {
			x := o.Vals[0]
			r.check(x.op == OSym && x.aux == "walked", "search", name+" result", where, "the result is not what the walk found: "+x.String())
		}
	}
	if !r.check(len(vs) > 0, "search", name+" walk", where, "the formula is not walked") {
		return
	}
	for _, v := range vs {
		if v.on != nil {
			r.check(core(v.on) == core(args[0]), "search", name+" walk", where, "something else than the constant is walked")
		}
		var flag *V
		for _, a := range v.cl.args {
			if a.op == OObj && types.Identical(v.st.otype[a.num], types.Typ[types.Bool]) {
				flag = a
			}
		}
		if !r.check(flag != nil && v.st.heap[flag.num] == vFalse, "search", name+" start", where, "the search does not start with nothing found") {
			return
		}
		s.each(v, func(nt *types.Named, node *V, o Outcome, evs []Event) {
			what := name + " at " + nt.Obj().Name()
			hit := o.St.heap[flag.num] == vTrue
			if nf := fieldIndex(nt, "N"); nf >= 0 && o.St.heap[flag.num] == eqAtom(loadOf(fieldAddr(node, nf, nt)), args[1]) {
				hit = true
			}
			if nt.Obj().Name() != "Variable" {
				r.ok("search", what)
				return
			}
			nn := loadOf(fieldAddr(node, fieldIndex(nt, "N"), nt))
			r.check(hit || isNotKnown(o.St, nn, args[1]), "search", what, where, "a variable that is searched for is not found")
		})
		v.st.heap[flag.num] = vTrue
		s.each(v, func(nt *types.Named, node *V, o Outcome, evs []Event) {
			r.check(o.St.heap[flag.num] == vTrue, "search", name+" at "+nt.Obj().Name()+" found before", where, "what was found before is forgotten")
		})
	}
}

type walkOf struct {
	st *State
	cl *V
	on *V
}

// walk runs a function that walks a formula and returns its walks.
func (s *simp) walk(f *ssa.Function) ([]*V, []walkOf, []Outcome) {
	e := s.eng()
	base := e.Policy
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		if fn == f {
			return ActDefault
		}
		return base(fn, args, st)
	}
	var vs []walkOf
	e.After = func(st *State, nm string, fn *ssa.Function, args []*V, res *V) {
		st.events[len(st.events)-1].St = st.clone()
		for i, a := range args {
			if a.op == OClosure {
				w := walkOf{st: st.clone(), cl: a}
				if i > 0 {
					w.on = args[0]
				}
				vs = append(vs, w)
				for i, fv := range a.fn.FreeVars {
					if i < len(a.args) && a.args[i].op == OObj && storesTo(a.fn, fv) {
						st.heap[a.args[i].num] = vSym("walked", st.otype[a.args[i].num])
					}
				}
			}
		}
	}
	st := newState()
	var args []*V
	for _, q := range f.Params {
		args = append(args, vSym("p:"+q.Name(), q.Type()))
	}
	outs := e.Run(f, st, args...)
	s.r.analysed["functions"] += len(e.funcs)
	s.r.analysed["paths"] += len(outs)
	return args, vs, outs
}

// each analyses the step of a walk at every kind of node.
func (s *simp) each(v walkOf, f func(nt *types.Named, node *V, o Outcome, evs []Event)) {
	for _, nt := range s.nodes {
		e := s.eng()
		pt := types.NewPointer(nt)
		node := vSym("p:node", pt)
		st := v.st.clone()
		ne := len(st.events)
		for _, o := range e.exec(v.cl.fn, v.cl.args, []*V{mkIface(pt, node)}, st) {
			s.r.analysed["paths"]++
			if o.Kind != Ret {
				s.r.bad("fails", fnName(v.cl.fn)+" at "+nt.Obj().Name(), s.p.pos(v.cl.fn.Pos()), "the step of the walk does not return")
				continue
			}
			f(nt, node, o, o.St.events[ne:])
		}
	}
}

// predication: arguments stay in their places, swaps are carried out, and an
// abstraction is unfolded if all its variables get arguments.
func (s *simp) predication(T types.Type, n, v *V, st *State, sets []*Event, name, where string, poss []int64) {
	r := s.r
	pi, ai := fieldIndex(T, "Predicate"), fieldIndex(T, "Arguments")
	p0, a0 := loadOf(fieldAddr(n, pi, T)), loadOf(fieldAddr(n, ai, T))
	sw := s.p.typ("logic", "Swap")
	chain := []*V{p0}
	for i := 0; i <= len(poss) && dynName(st, chain[i]) == "Swap"; i++ {
		if i == len(poss) {
			return // longer than the analysed chains
		}
		chain = append(chain, loadOf(fieldAddr(mkAs(chain[i], types.NewPointer(sw)), fieldIndex(sw, "Predicate"), sw)))
	}
	others := map[string]bool{"Predicate": true, "Arguments": true}
	if v == n {
		r.check(len(sets) == 0, "kept", name+" replacements", where, "a variable is replaced although nothing is unfolded")
		s.fields(T, n, st, name, where, others)
		p1, a1 := st.load(fieldAddr(n, pi, T), nil), st.load(fieldAddr(n, ai, T), nil)
		for k := len(chain) - 1; k >= 0; k-- {
			if s.simplified(p1, chain[k], 1) {
				what := name + " Arguments"
				if k > 0 {
					what += " swapped"
				}
				if s.list(a0, a1, poss[:k], st, what, where, 1) && k > 0 {
					r.ok("swapped", what)
				}
				r.ok("kept", name+" Predicate")
				return
			}
		}
		r.bad("kept", name+" Predicate", where, "the predicate becomes "+p1.String()+" instead of its simplification")
		return
	}
	// what is simplified instead
	in := s.simpOf(v)
	if !r.check(in != nil, "kept", name, where, "a predication becomes "+v.String()) {
		return
	}
	var call *Event
	for i := range st.events {
		if ev := &st.events[i]; ev.Kind == "call" && ev.Res == v {
			call = ev
		}
	}
	if !r.check(call != nil && call.St != nil, "kept", name, where, "the call is not found") {
		return
	}
	if in == n {
		cs := call.St
		r.check(len(sets) == 0, "kept", name+" replacements", where, "a variable is replaced although nothing is unfolded")
		s.fields(T, n, cs, name, where, others)
		p1, a1 := core(cs.load(fieldAddr(n, pi, T), nil)), cs.load(fieldAddr(n, ai, T), nil)
		for k := len(chain) - 1; k >= 1; k-- {
			if p1 == core(chain[k]) {
				if s.list(a0, a1, poss[:k], cs, name+" Arguments swapped", where, 0) {
					r.ok("swapped", name)
				}
				return
			}
		}
		r.bad("swapped", name, where, "the predication is simplified again with the predicate "+p1.String())
		return
	}
	s.unfolded(T, n, in, st, call, chain, sets, name, where, poss)
}

func (s *simp) unfolded(T types.Type, n, in *V, st *State, call *Event, chain []*V, sets []*Event, name, where string, poss []int64) {
	r := s.r
	bad := func(d string) { r.bad("unfolded", name, where, d) }
	k := len(chain) - 1
	if dynName(st, chain[k]) != "Abstraction" {
		bad("a predication whose predicate is not an abstraction becomes the simplification of " + in.String())
		return
	}
	cs := call.St
	a0 := loadOf(fieldAddr(n, fieldIndex(T, "Arguments"), T))
	old, ok := oldElems(st, a0)
	if !ok {
		bad("the arguments of an unfolded predication are not looked at")
		return
	}
	for _, p := range poss[:k] {
		for int64(len(old)) <= p {
			old = append(old, vNil)
		}
		old[0], old[p] = old[p], old[0]
	}
	body := s.fld(cs, chain[k], "Abstraction", "Statement")
	lam := s.cstr("Lambda")
	isLambda := func(b *V) bool {
		return dynName(st, b) == "Binding" && isKnown(st, s.fld(cs, b, "Binding", "Quantifier"), lam) && isNilIn(st, s.fld(cs, b, "Binding", "Restriction"))
	}
	var bs []*V
	for core(body) != in {
		if !isLambda(body) {
			bad("an abstraction is unfolded over something that is not known to be the binding of one of its variables: " + body.String())
			return
		}
		bs = append(bs, body)
		body = s.fld(cs, body, "Binding", "Scope")
		if len(bs) > 8 {
			break
		}
	}
	if len(bs) == 0 {
		bad("an abstraction without variables is unfolded")
		return
	}
	// no further variable
	more := !s.notDyn(st, body, "Binding") && !isNotKnown(st, s.fld(cs, body, "Binding", "Quantifier"), lam) && !nonNilIn(st, s.fld(cs, body, "Binding", "Restriction"))
	if more {
		bad("an abstraction is unfolded although it may have further variables")
		return
	}
	for i := 0; i < len(bs) || i < len(old); i++ {
		if i >= len(bs) {
			if !isNilIn(st, old[i]) {
				bad("an abstraction is unfolded although there may be more arguments than variables")
				return
			}
			continue
		}
		if i >= len(old) || !nonNilIn(st, old[i]) {
			bad("an abstraction is unfolded although one of its variables may get no argument")
			return
		}
		nn := s.fld(cs, bs[i], "Binding", "N")
		if !s.notPred(st, []*V{nn}) {
			bad("an abstraction is unfolded although one of its variables may be a predicate")
			return
		}
		hit := false
		for _, ev := range sets {
			if ev.Args[1] == nn && s.simplified(ev.Args[2], old[i], 1) {
				hit = true
			}
		}
		if !hit {
			bad(fmt.Sprintf("variable %d of an unfolded abstraction is not replaced by its simplified argument", i))
			return
		}
	}
	if len(sets) != len(bs) {
		bad("an unfolding replaces a variable that is not one of the abstraction")
		return
	}
	// all replacements are set before the body is simplified
	cnt := 0
	for i := range st.events {
		ev := &st.events[i]
		if ev == call {
			break
		}
		for _, x := range sets {
			if x == ev {
				cnt++
			}
		}
	}
	r.check(cnt == len(sets), "unfolded", name, where, "a variable is replaced too late")
}

// start: the variables that are predicates are noted before anything is simplified.
func (s *simp) start() {
	r := s.r
	var mk *ssa.Function
	for _, f := range s.p.allFuncs("logic") {
		if f.Parent() == nil && len(f.Blocks) > 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(s.stT)) {
			mk = f
		}
	}
	if !r.check(mk != nil, "anchor", "start of a simplification", "-", "no function makes the state of a simplification") {
		return
	}
	name, where := fnName(mk), s.p.pos(mk.Pos())
	args, vs, outs := s.walk(mk)
	var maps []*V
	for _, o := range outs {
		if !r.check(o.Kind == Ret, "noted", name, where, "the function does not return") {
			continue
		}
		x := strip(o.Vals[0])
		sub, pm := o.St.load(fieldAddr(x, s.subF, s.stT), nil), o.St.load(fieldAddr(x, s.predF, s.stT), nil)
		r.check(sub.op == OMap && pm.op == OMap && sub != pm, "noted", name+" new", where, "a simplification does not start with new maps")
		for _, en := range o.St.maps {
			r.check(en.m != sub, "noted", name+" empty", where, "a simplification starts with a replacement")
		}
		maps = append(maps, pm)
	}
	if !r.check(len(vs) > 0 && len(maps) > 0, "noted", name+" walk", where, "the formula is not walked for variables that are predicates") {
		return
	}
	for _, v := range vs {
		if v.on != nil && len(args) > 0 {
			r.check(core(v.on) == core(args[0]), "noted", name+" walk", where, "something else than the formula is walked")
		}
		s.each(v, func(nt *types.Named, node *V, o Outcome, evs []Event) {
			what := name + " at " + nt.Obj().Name()
			str := nt.Underlying().(*types.Struct)
			for i := 0; i < str.NumFields(); i++ {
				if !types.Identical(str.Field(i).Type(), s.parts["Predicate"]) {
					continue
				}
				f := loadOf(fieldAddr(node, i, nt))
				if s.notDyn(o.St, f, "Variable") {
					continue
				}
				nn := s.fld(o.St, f, "Variable", "N")
				hit := false
				for _, ev := range evs {
					if ev.Kind == "mapset" && ev.Args[0] == maps[0] && ev.Args[1] == nn && ev.Args[2] != vFalse {
						hit = true
					}
				}
				r.check(hit, "noted", what+" "+str.Field(i).Name(), where, "a variable that is the predicate of a "+nt.Obj().Name()+" is not noted as one that cannot be replaced")
			}
			for _, ev := range evs {
				r.check(ev.Kind != "store" && ev.Kind != "mapdelete", "noted", what+" read only", where, "the walk changes the formula")
			}
		})
	}
	r.atLeast("noted", 8)
}

// implied: a restriction without arguments gets the variable that it restricts.
func (s *simp) implied() {
	r := s.r
	var fns []*ssa.Function
	for f := range s.hoas {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	var resT types.Type
	for _, f := range fns {
		if f.Signature.Results().Len() == 1 {
			resT = f.Signature.Results().At(0).Type()
		}
	}
	var joins = map[*ssa.Function]bool{}
	for _, f := range s.p.allFuncs("logic") {
		sg := f.Signature
		if resT != nil && f.Parent() == nil && sg.Recv() == nil && sg.Params().Len() == 2 && sg.Results().Len() == 1 && types.Identical(sg.Params().At(0).Type(), resT) &&
			types.Identical(sg.Params().At(1).Type(), resT) && types.Identical(sg.Results().At(0).Type(), resT) {
			joins[f] = true
			s.join(f)
		}
	}
	for _, f := range fns {
		T := s.hoas[f]
		tn := ptrName(T)
		name, where := fnName(f), s.p.pos(f.Pos())
		e := s.eng()
		base := e.Policy
		e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
			if joins[fn] {
				return ActPure
			}
			return base(fn, args, st)
		}
		st := newState()
		n, b := vSym("p:n", types.NewPointer(T)), vSym("b", s.l.bindT)
		outs := e.Run(f, st, n, b)
		r.analysed["functions"] += len(e.funcs)
		r.analysed["paths"] += len(outs)
		if e.over {
			r.bad("undecided", name, where, "too many paths")
			continue
		}
		for _, o := range outs {
			s.hoaOut(f, T, tn, n, b, o, name, where)
		}
	}
}

func (s *simp) isHoa(v *V) bool {
	n := callName(v)
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		n = n[i+1:]
	}
	return v.op == OCall && n == s.hoaM
}

func (s *simp) hoaOut(f *ssa.Function, T types.Type, tn string, n, b *V, o Outcome, name, where string) {
	r, st := s.r, o.St
	for i := range st.events {
		if ev := &st.events[i]; ev.Kind == "hazard" {
			r.bad("fails", name, s.p.pos(ev.Pos), "the step can fail: "+ev.Name)
			return
		}
	}
	if !r.check(o.Kind == Ret, "implied", name, where, "the step does not return") {
		return
	}
	called := func(x *V) *V {
		for i := range st.events {
			if ev := &st.events[i]; ev.Kind == "call" && s.isHoa(ev.Res) && core(ev.Args[0]) == core(x) {
				return ev.Res
			}
		}
		return nil
	}
	var results []*V
	part := func(x *V, what string, want *V) {
		if isNilIn(st, x) {
			return
		}
		c := called(x)
		if !r.check(c != nil, "implied", what+" visited", where, "a part is left out") {
			return
		}
		results = append(results, c)
		g := strip(c.args[1])
		switch {
		case want.op == ONil:
			r.check(isNilIn(st, g), "implied", what+" owner", where, "a part that is not the restriction gets "+g.String())
		default:
			r.check(g == want || isNilIn(st, g) && isNilIn(st, want), "implied", what+" owner", where, "the restriction is handed on to "+g.String())
		}
	}
	str := T.Underlying().(*types.Struct)
	ai := -1
	for i := 0; i < str.NumFields(); i++ {
		fd := str.Field(i)
		a := fieldAddr(n, i, T)
		f0, f1 := loadOf(a), st.load(a, nil)
		what := name + " " + fd.Name()
		switch {
		case s.isPart(fd.Type()):
			want := vNil
			if tn == "Binding" && fd.Name() == "Restriction" {
				want = n
			}
			if tn == "Connection" {
				want = b
			}
			part(f0, what, want)
			r.check(f1 == f0, "implied", what+" kept", where, "the part becomes "+f1.String())
		case s.isList(fd.Type()):
			es, ok := oldElems(st, f0)
			if !r.check(ok, "implied", what, where, "the list is not looked at") {
				continue
			}
			for j, x := range es {
				part(x, fmt.Sprintf("%s[%d]", what, j), vNil)
				r.check(st.load(indexAddr(f0, vInt(int64(j))), nil) == x, "implied", what+" kept", where, "an element is changed")
			}
			if tn == "Predication" {
				ai = i
				continue
			}
			r.check(f1 == f0, "implied", what+" kept", where, "the list becomes "+f1.String())
		default:
			r.check(f1 == f0, "implied", what+" kept", where, "the field becomes "+f1.String())
		}
	}
	// what is used below
	if len(o.Vals) == 1 {
		ret := st.resolve(o.Vals[0])
		holds := func(x *V) bool { return contains(ret, x) || ret == x }
		for _, c := range results {
			r.check(holds(c), "implied", name+" used", where, "variables that are used in a part do not count as used")
		}
		if tn == "Variable" {
			r.check(holds(loadOf(fieldAddr(n, fieldIndex(T, "N"), T))), "implied", name+" used", where, "a variable does not count as used")
		}
	}
	if ai < 0 {
		return
	}
	a := fieldAddr(n, ai, T)
	f0, f1 := loadOf(a), st.load(a, nil)
	bn := loadOf(fieldAddr(b, fieldIndex(derefT(s.l.bindT), "N"), derefT(s.l.bindT)))
	es, _ := oldElems(st, f0)
	used, seen := false, false
	for _, c := range results {
		for x, t := range st.facts {
			if isEq(x) && (contains(x.args[0], bn) || contains(x.args[1], bn)) && (contains(x.args[0], c) || contains(x.args[1], c)) || !isEq(x) && contains(x, bn) && contains(x, c) {
				seen = true
				if t {
					used = true
				}
			}
		}
		for x, k := range st.shape {
			if k == 0 && contains(x, c) {
				seen = true
			}
		}
	}
	should := nonNilIn(st, b) && len(es) == 0 && !used
	what := name + " implied argument"
	if f1 == f0 {
		r.check(!should, "implied", what, where, "a restriction without arguments that does not use the variable is left without it")
		return
	}
	if !r.check(should && seen, "implied", what, where, "arguments are given to a predication that has some, that is not a restriction or that uses the variable") {
		return
	}
	g, ok := listElems(st, f1)
	if !r.check(ok && len(g) == 1, "implied", what, where, "the arguments become "+st.resolve(f1).String()) {
		return
	}
	x := strip(g[0])
	vt := s.p.typ("logic", "Variable")
	if !r.check(x.op == OObj && ptrName(st.otype[x.num]) == "Variable", "implied", what, where, "the argument is not a variable") {
		return
	}
	get := func(f string) *V { return st.load(fieldAddr(x, fieldIndex(vt, f), vt), nil) }
	r.check(get("N") == bn && strip(get("Def")) == b, "implied", what, where, "the argument is not the variable of the restricted binding")
}

// join: the union of two sorted lists, on small lists of constants.
func (s *simp) join(f *ssa.Function) {
	r, name, where := s.r, fnName(f), s.p.pos(f.Pos())
	if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return
	}
	lists := [][]int64{{}, {0}, {1}, {2}, {0, 1}, {1, 2}, {0, 2}, {0, 1, 2}, {1, 3}}
	for _, a := range lists {
		for _, b := range lists {
			e := s.eng()
			e.MaxIter = 24
			st := newState()
			list := func(xs []int64) *V {
				if len(xs) == 0 {
					return vNil
				}
				var es []*V
				for _, x := range xs {
					es = append(es, vInt(x))
				}
				at := types.NewArray(types.Typ[types.Int], int64(len(xs)))
				o := st.newObj(at, mk(V{op: OStruct, aux: "l", args: es}), 0)
				return mk(V{op: OSlice, args: []*V{o}, num: 0, num2: int64(len(xs)), typ: f.Signature.Results().At(0).Type()})
			}
			e.Model = func(e *Eng, st *State, nm string, fn *ssa.Function, args []*V) ([]mOut, bool) {
				if nm != "sort.Ints" && nm != "slices.Sort[[]int int]" && nm != "slices.Sort" {
					return nil, false
				}
				es, ok := listElems(st, args[0])
				if !ok {
					return nil, false
				}
				for _, x := range es {
					if _, ok := x.intVal(); !ok {
						return nil, false
					}
				}
				sort.Slice(es, func(i, j int) bool { x, _ := es[i].intVal(); y, _ := es[j].intVal(); return x < y })
				for i, x := range es {
					st.store(indexAddr(args[0].args[0], vInt(args[0].num+int64(i))), x)
				}
				return one(st, vNil), true
			}
			what := fmt.Sprintf("%s(%v, %v)", name, a, b)
			for _, o := range e.Run(f, st, list(a), list(b)) {
				if !r.check(o.Kind == Ret, "joined", what, where, "the lists are not joined") {
					continue
				}
				es, ok := listElems(o.St, o.Vals[0])
				if !r.check(ok, "joined", what, where, "the lists become "+o.Vals[0].String()) {
					continue
				}
				got, want := map[int64]bool{}, map[int64]bool{}
				for _, x := range append(append([]int64{}, a...), b...) {
					want[x] = true
				}
				good := true
				for _, x := range es {
					k, ok := x.intVal()
					good = good && ok && want[k]
					got[k] = true
				}
				r.check(good && len(got) == len(want), "joined", what, where, fmt.Sprintf("the lists become %v", o.St.resolve(o.Vals[0])))
			}
		}
	}
}

// numbers: each binding gets a number of its own, and each bound variable that of its binding.
func (s *simp) numbers() {
	r := s.r
	var f *ssa.Function
	for g := range s.l.visitQ {
		sg := g.Signature
		if g.Parent() == nil && sg.Results().Len() == 0 && sg.Params().Len() == 1 && s.isPartOrNode(sg.Params().At(0).Type()) {
			f = g
		}
	}
	if !r.check(f != nil, "anchor", "numbering of variables", "-", "no function renumbers the variables of a formula") {
		return
	}
	name, where := fnName(f), s.p.pos(f.Pos())
	args, vs, _ := s.walk(f)
	if !r.check(len(vs) == 1, "numbered", name+" walk", where, "the formula is not walked once") {
		return
	}
	v := vs[0]
	if v.on != nil {
		r.check(core(v.on) == core(args[0]), "numbered", name+" walk", where, "something else than the formula is walked")
	}
	var ctr *V
	for _, a := range v.cl.args {
		if a.op == OObj && types.Identical(v.st.otype[a.num], types.Typ[types.Int]) {
			ctr = a
		}
	}
	if !r.check(ctr != nil, "numbered", name+" counter", where, "there is no counter") {
		return
	}
	k := vSym("k", types.Typ[types.Int])
	v.st.heap[ctr.num] = k
	s.each(v, func(nt *types.Named, node *V, o Outcome, evs []Event) {
		tn := nt.Obj().Name()
		what := name + " at " + tn
		nf := fieldIndex(nt, "N")
		k1 := o.St.heap[ctr.num]
		var n1 *V
		if nf >= 0 {
			n1 = o.St.load(fieldAddr(node, nf, nt), nil)
		}
		fresh := func() bool {
			next := addInts(k, vInt(1), 1)
			return n1 == k && k1 == next || n1 == next && k1 == next
		}
		for _, ev := range evs {
			if ev.Kind == "store" && ev.Args[0] != ctr && !isUnder(ev.Args[0], ctr) {
				r.check(nf >= 0 && ev.Args[0] == fieldAddr(node, nf, nt), "numbered", what+" only", where, "something else than the number is changed")
			}
		}
		switch tn {
		case "Binding":
			r.check(fresh(), "numbered", what, where, "a binding does not get a number of its own")
		case "Variable":
			def := loadOf(fieldAddr(node, fieldIndex(nt, "Def"), nt))
			if isNilIn(o.St, def) {
				r.check(fresh(), "numbered", what+" unbound", where, "an unbound variable does not get a number of its own")
				return
			}
			want := loadOf(fieldAddr(def, fieldIndex(derefT(s.l.bindT), "N"), derefT(s.l.bindT)))
			r.check(nonNilIn(o.St, def) && n1 == want && k1 == k, "numbered", what+" bound", where, "a bound variable does not get the number of its binding")
		default:
			r.check(k1 == k || nf < 0, "numbered", what, where, "a number is used up")
		}
	})
}

func (s *simp) isPartOrNode(t types.Type) bool {
	return s.isPart(t) || ptrName(t) == "Node"
}

// whole: the steps are put together, and what Interpret returns went through them.
func (s *simp) whole() {
	r := s.r
	in := s.p.fn("logic", "Interpret")
	if !r.check(in != nil, "anchor", "logic.Interpret", "-", "the function is missing") {
		return
	}
	name, where := fnName(in), s.p.pos(in.Pos())
	e := s.eng()
	base := e.Policy
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		if s.l.roots[fn] || s.l.hasInterp(fn) {
			return ActOpaque
		}
		if s.l.visitQ[fn] {
			return ActOpaque
		}
		return base(fn, args, st)
	}
	outs := e.Run(in, newState(), vSym("p:text", in.Params[0].Type()))
	r.analysed["paths"] += len(outs)
	n := 0
	for _, o := range outs {
		if !r.check(o.Kind == Ret, "whole", name, where, "Interpret does not return") {
			continue
		}
		st := o.St
		v := core(o.Vals[0])
		var read *V // what the text is read as
		pos := map[string]int{}
		for i := range st.events {
			ev := &st.events[i]
			if ev.Kind != "call" {
				continue
			}
			if read == nil && types.Identical(typeOrNil(ev.Res), s.parts["Statement"]) && !s.isHoa(ev.Res) {
				read = ev.Res
			}
			nm := callName(ev.Res)
			switch {
			case s.isHoa(ev.Res) && core(ev.Args[0]) == read:
				if r.check(isNilIn(st, strip(ev.Args[1])), "whole", name+" implied", where, "the whole formula counts as a restriction") {
					pos["hoa"] = i + 1
				}
			case s.steps[lastName(nm)] && core(ev.Args[0]) == read:
				pos["step"] = i + 1
				sv := strip(ev.Args[1])
				ok := sv.op == OCall && len(sv.args) == 1 && core(sv.args[0]) == read
				r.check(ok, "whole", name+" state", where, "the simplification starts with the state of something else: "+sv.String())
			case ev.Res.typ == nil && len(ev.Args) == 1 && core(ev.Args[0]) == v:
				pos["num"] = i + 1
			}
		}
		if !r.check(read != nil, "whole", name, where, "the text is not read") {
			continue
		}
		if isNilIn(st, read) {
			r.check(isNilIn(st, o.Vals[0]), "whole", name+" nothing", where, "a text without statements becomes "+v.String())
			continue
		}
		n++
		okStep := v.op == OCall && s.steps[lastName(callName(v))] && core(v.args[0]) == read
		r.check(okStep, "whole", name+" simplified", where, "what is returned is not the simplification of the reading: "+v.String())
		r.check(pos["hoa"] > 0 && pos["hoa"] < pos["step"], "whole", name+" implied", where, "implied arguments are not added before the simplification")
		r.check(pos["num"] > pos["step"], "whole", name+" numbered", where, "the variables are not numbered after the simplification")
	}
	r.check(n > 0, "whole", name, where, "no path returns a formula")
}

func lastName(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

func typeOrNil(v *V) types.Type {
	if v.typ == nil {
		return types.Typ[types.Invalid]
	}
	return v.typ
}

func (s *simp) cstr(name string) *V {
	c, ok := s.l.constStr("logic", name)
	if !ok {
		return vSym("no constant "+name, nil)
	}
	return vStr(c)
}
