package main

// The specification of the syntax tree: for each kind of node, its parts in text order.

import (
	"fmt"
	"go/types"
)

type part struct {
	name string
	node *V // the part as a Node value
	subj *V // value whose nil-ness decides whether an optional part is present (nil: always present)
	len0 *V // slice whose length decides it
}

var partOrder = map[string][]string{
	"Text":                   {"Leading?", "Discourse?"},
	"StatementSentence":      {"JE?", "Statement", "DA?"},
	"Prenex":                 {"Terms", "BI"},
	"PrenexStatement":        {"Prenex", "Statement"},
	"Predication":            {"Predicate", "Terms?", "NA?"},
	"PrefixedPredicate":      {"MU", "Predicate"},
	"SerialPredicate":        {"Left", "Right"},
	"MIPredicate":            {"MI", "Phrase", "GA?"},
	"POPredicate":            {"PO", "Argument", "GA?"},
	"MOPredicate":            {"MO", "Discourse", "TEO"},
	"LinkedTerm":             {"GO", "Argument"},
	"PredicateArgument":      {"Focus?", "Quantifier?", "Predicate", "Relative?"},
	"PredicationRelative":    {"Predication"},
	"PredicateAdverb":        {"Predicate"},
	"PredicationPreposition": {"Predicate", "Argument"},
	"PredicationContent":     {"Predication"},
	"Parenthetical":          {"KIO", "Discourse", "KI"},
	"Incidental":             {"JU", "Statement"},
	"Vocative":               {"HU", "Argument"},
	"CoP":                    {"TO0?", "RU", "Left", "TO1?", "Right"},
	"LUPhrase":               {"LU", "Statement"},
	"Word":                   {"M?"},
}

var wrapOf = map[string]string{
	"CoPSentence": "CoP", "CoPStatement": "CoP", "CoPPredicate": "CoP", "TermSet": "CoP", "CoPArgument": "CoP",
	"CoPRelative": "CoP", "CoPAdverb": "CoP", "CoPPreposition": "CoP", "CoPContent": "CoP",
	"LUPredicate": "LUPhrase", "LURelative": "LUPhrase", "LUContent": "LUPhrase",
	"WordPredicate": "Word", "Interjection": "Word", "Space": "Word",
}

type nodeKind struct {
	name string
	T    types.Type // the type as a Node (pointer, or Terms)
	elem types.Type // the named type
	list bool
}

type astSpec struct {
	p     *Program
	node  *types.Interface
	kinds []nodeKind
	errs  []string

	modNames map[string]bool // names of the methods that attach a modifier
	modPtr   types.Type
	nodeT    types.Type
}

func newASTSpec(p *Program) *astSpec {
	s := &astSpec{p: p}
	nt := p.typ("ast", "Node")
	if nt == nil {
		s.errs = append(s.errs, "type ast.Node not found")
		return s
	}
	s.node, _ = nt.Underlying().(*types.Interface)
	sc := p.pkgs["ast"].Types.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, ok := t.Underlying().(*types.Interface); ok {
			continue
		}
		k := nodeKind{name: n, elem: t}
		switch t.Underlying().(type) {
		case *types.Slice:
			k.list = true
			if types.Implements(t, s.node) {
				k.T = t
			} else {
				k.T = types.NewPointer(t)
			}
		default:
			k.T = types.NewPointer(t)
		}
		if !types.Implements(k.T, s.node) {
			continue
		}
		if partOrder[n] == nil && wrapOf[n] == "" && !k.list {
			s.errs = append(s.errs, "node type "+n+" is not in the specification")
			continue
		}
		s.kinds = append(s.kinds, k)
	}
	return s
}

func (s *astSpec) kind(name string) *nodeKind {
	for i := range s.kinds {
		if s.kinds[i].name == name {
			return &s.kinds[i]
		}
	}
	return nil
}

func fieldIndex(t types.Type, name string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// field returns the Node value of a field of the struct at p.
func (s *astSpec) field(st *State, t types.Type, p *V, name string) (part, error) {
	opt := name[len(name)-1] == '?'
	if opt {
		name = name[:len(name)-1]
	}
	i := fieldIndex(t, name)
	if i < 0 {
		return part{}, fmt.Errorf("%s has no field %s", shortType(t), name)
	}
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	addr := fieldAddr(p, i, t)
	val := st.load(addr, ft)
	if val.op == OLoad && val.typ == nil {
		val.typ = ft
	}
	pt := part{name: name}
	switch u := ft.Underlying().(type) {
	case *types.Interface:
		pt.node, pt.subj = val, val
	case *types.Pointer:
		pt.node, pt.subj = mkIface(ft, val), val
	case *types.Slice:
		_ = u
		if types.Implements(ft, s.node) {
			pt.node, pt.subj = mkIface(ft, val), val
		} else {
			pt.node, pt.len0 = mkIface(types.NewPointer(ft), addr), val
		}
	case *types.Struct:
		pt.node = mkIface(types.NewPointer(ft), addr)
	default:
		return part{}, fmt.Errorf("%s.%s has type %s", shortType(t), name, shortType(ft))
	}
	if !opt {
		pt.subj, pt.len0 = nil, nil
	}
	return pt, nil
}

// absent reports whether the path's facts say that the part is absent.
func (pt part) absent(st *State) (absent, known bool) {
	if pt.subj != nil {
		if n, ok := st.shape[pt.subj]; ok {
			return n == 0, true
		}
		return st.knownNil(pt.subj)
	}
	if pt.len0 != nil {
		if n, ok := st.shape[pt.len0]; ok {
			return n == 0, true
		}
		return st.knownNil(pt.len0)
	}
	return false, true
}

// parts returns the parts of the node of kind k at p, in text order.
// The order of a connective phrase depends on TO0, which must be decided in st.
func (s *astSpec) parts(st *State, k *nodeKind, p *V) ([]part, error) {
	if w := wrapOf[k.name]; w != "" {
		wk := s.kind(w)
		if wk == nil {
			return nil, fmt.Errorf("no type %s", w)
		}
		return []part{{name: w, node: mkIface(wk.T, p)}}, nil
	}
	if k.list {
		return nil, fmt.Errorf("list")
	}
	var ps []part
	for _, f := range partOrder[k.name] {
		pt, err := s.field(st, k.elem, p, f)
		if err != nil {
			return nil, err
		}
		ps = append(ps, pt)
	}
	if k.name == "CoP" {
		if b, ok := st.knownNil(ps[0].subj); ok && b {
			ps = []part{ps[2], ps[1], ps[4]}
		}
	}
	return ps, nil
}

// elemsOf returns the elements of a list node on a path where its length is known.
func (s *astSpec) elemsOf(st *State, k *nodeKind, p *V) ([]*V, *V, bool) {
	list := p
	et := k.elem.Underlying().(*types.Slice).Elem()
	if _, ok := k.T.(*types.Pointer); ok {
		list = st.load(p, k.elem)
	}
	n, ok := st.shape[list]
	if !ok {
		if b, ok := st.knownNil(list); ok && b {
			return nil, list, true
		}
		return nil, list, false
	}
	var es []*V
	for i := int64(0); i < n; i++ {
		v := st.load(indexAddr(list, vInt(i)), et)
		if v.op == OLoad && v.typ == nil {
			v.typ = et
		}
		es = append(es, v)
	}
	return es, list, true
}

// nodeDyn gives the possible dynamic types of an interface value that holds a part of a tree.
func (s *astSpec) nodeDyn(st *State, v *V) []types.Type {
	t := v.typ
	switch v.op {
	case OIface:
		return []types.Type{v.typ}
	case OLoad, OSym, OCall, OExtract, OField, OLookup:
	default:
		return nil
	}
	if t == nil {
		return nil
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	if !types.Implements(t, s.node) {
		return nil
	}
	var out []types.Type
	for _, k := range s.kinds {
		if types.Implements(k.T, it) {
			out = append(out, k.T)
		}
	}
	return out
}

// required reports whether an access path is an interface part of a node that is always present.
func (s *astSpec) required(v *V) bool {
	if v.op == OAs {
		return s.required(v.args[0])
	}
	if v.op != OLoad {
		return false
	}
	a := v.args[0]
	switch a.op {
	case OFAddr:
		n := namedOf(a.typ)
		if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "ast" {
			return false
		}
		name := n.Obj().Name()
		if w := wrapOf[name]; w != "" {
			name = w
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok || int(a.num) >= st.NumFields() {
			return false
		}
		if _, ok := st.Field(int(a.num)).Type().Underlying().(*types.Interface); !ok {
			return false
		}
		f := st.Field(int(a.num)).Name()
		for _, x := range partOrder[name] {
			if x == f {
				return true
			}
		}
	case OIAddr:
		if v.typ == nil {
			return false
		}
		it, ok := v.typ.Underlying().(*types.Interface)
		return ok && types.Implements(v.typ, s.node) && it != nil
	}
	return false
}
