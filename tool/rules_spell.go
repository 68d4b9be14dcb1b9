package main

// C25: predicate words are read by what they are, however they are spelled; quoted
// text is the text of its words.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// a word without its tone. Syllables after the first have the tone of compounds.
type spWord struct {
	syl  []string
	kind string // hoa, variable, among, equal, plain
}

var spWords = []spWord{
	{[]string{"hoa"}, "hoa"},
	{[]string{"do"}, "variable"},
	{[]string{"do", "jai"}, "variable"},
	{[]string{"do", "ku", "sheq"}, "variable"},
	{[]string{"do", "chi"}, "variable"},
	{[]string{"do", "do"}, "variable"},
	{[]string{"do", "hoa"}, "variable"},
	{[]string{"mea"}, "among"},
	{[]string{"jeq", "tu"}, "equal"},
	// words that are like the special ones
	{[]string{"hoaq"}, "plain"}, {[]string{"hoai"}, "plain"}, {[]string{"hoe"}, "plain"}, {[]string{"ho"}, "plain"},
	{[]string{"hoi"}, "plain"}, {[]string{"choa"}, "plain"}, {[]string{"shoa"}, "plain"}, {[]string{"hua"}, "plain"},
	{[]string{"hoa", "ji"}, "plain"}, {[]string{"ji", "hoa"}, "plain"}, {[]string{"hoa", "hoa"}, "plain"},
	{[]string{"doi"}, "plain"}, {[]string{"doe"}, "plain"}, {[]string{"doq"}, "plain"}, {[]string{"doeq"}, "plain"},
	{[]string{"da", "do"}, "plain"}, {[]string{"ji", "do"}, "plain"}, {[]string{"du"}, "plain"},
	{[]string{"due"}, "plain"}, {[]string{"duo"}, "plain"}, {[]string{"dio"}, "plain"}, {[]string{"doi", "do"}, "plain"},
	{[]string{"go", "do"}, "plain"}, {[]string{"co"}, "plain"},
	{[]string{"me"}, "plain"}, {[]string{"mai"}, "plain"}, {[]string{"mea", "ji"}, "plain"}, {[]string{"ji", "mea"}, "plain"}, {[]string{"meo"}, "plain"},
	{[]string{"jeq"}, "plain"}, {[]string{"jeq", "tua"}, "plain"}, {[]string{"jeq", "tu", "jai"}, "plain"}, {[]string{"jai", "jeq", "tu"}, "plain"},
	{[]string{"je", "tu"}, "plain"}, {[]string{"jeq", "tuq"}, "plain"}, {[]string{"tu", "jeq"}, "plain"}, {[]string{"jeq", "tu", "jeq", "tu"}, "plain"},
	// other words, with all letters
	{[]string{"jai"}, "plain"}, {[]string{"shua"}, "plain"}, {[]string{"chuo"}, "plain"}, {[]string{"noq", "gi"}, "plain"}, {[]string{"muq"}, "plain"},
	{[]string{"lieq"}, "plain"}, {[]string{"ceo"}, "plain"}, {[]string{"pu", "fio"}, "plain"}, {[]string{"ruo", "bai", "liq"}, "plain"}, {[]string{"ko", "tao"}, "plain"},
}

type spell struct {
	p      *Program
	l      *lgen
	r      *Report
	s      *statics
	byName map[string]*ssa.Function
	predI  types.Type // ast.Predicate
	wpT    types.Type // ast.WordPredicate
	rows   map[rune]map[string][]string
	words  [][]string // spellings of spWords, the usual one first
	seen   map[string]bool
	memo   map[string]*V
	kinds  map[string]bool // what the recognisers that are found recognise
}

func newSpell(p *Program, l *lgen, r *Report) *spell {
	x := &spell{p: p, l: l, r: r, s: newStatics(p), byName: map[string]*ssa.Function{}, seen: map[string]bool{}, memo: map[string]*V{}, kinds: map[string]bool{}}
	x.s.deep = true
	for _, pk := range []string{"logic", "ast", "tone"} {
		for _, f := range p.allFuncs(pk) {
			x.byName[fnName(f)] = f
		}
	}
	return x
}

func ruleSpelling(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	x := newSpell(p, l, r)
	x.predI, x.wpT = p.typ("ast", "Predicate"), p.typ("ast", "WordPredicate")
	if !r.check(x.predI != nil && x.wpT != nil, "anchor", "ast.Predicate and ast.WordPredicate", "-", "a type is missing") || !x.spellings() {
		return
	}
	for _, f := range l.interps {
		for _, q := range l.paths(f, r) {
			if q.o.Kind == Ret {
				x.path(q)
			}
		}
	}
	for _, k := range []string{"hoa", "variable", "name", "variable name", "quote"} {
		r.check(x.kinds[k], "anchor", k, "logic/interp.go", "no function that decides the "+k+" is found")
	}
	r.assumption("the text of a word predicate is as the grammar gives it: letters in either case, a toned vowel in the first syllable and vowels with a macron in the later ones, each in any of its forms (C09), and ı for a small i without tone")
	r.atLeast("spelling", 1000)
}

// spellings of every word.
func (x *spell) spellings() bool {
	gl, ok := x.p.ssa["tone"].Members["Diacritic"].(*ssa.Global)
	if !x.r.check(ok, "anchor", "tone.Diacritic", "-", "the tone table is missing") {
		return false
	}
	t := x.s.global(gl)
	if !x.r.check(t != nil && t.m != nil, "anchor", "tone.Diacritic", "-", "the tone table is not built from literals") {
		return false
	}
	x.rows = map[rune]map[string][]string{}
	for _, k := range t.keys {
		n, _ := (&tval{c: k}).int()
		row := t.get(k)
		x.rows[rune(n)] = map[string][]string{}
		for _, lk := range row.keys {
			l, _ := (&tval{c: lk}).str()
			for _, f := range row.get(lk).l {
				if s, ok := f.str(); ok {
					x.rows[rune(n)][l] = append(x.rows[rune(n)][l], s)
				}
			}
		}
	}
	for _, w := range spWords {
		x.words = append(x.words, x.forms(w))
	}
	return true
}

func (x *spell) forms(w spWord) []string {
	var out []string
	seen := map[string]bool{}
	plain := strings.Join(w.syl, "")
	cases := []string{plain, strings.ToUpper(plain)}
	for i := range plain {
		cases = append(cases, plain[:i]+strings.ToUpper(plain[i:i+1])+plain[i+1:])
	}
	for ci, c := range cases {
		for _, t := range []rune("?/V^\\~") {
			if ci > 1 && len(plain) > 4 && t != '?' && t != 'V' {
				continue
			}
			// with each form of the first vowel
			for n := 0; n < 4; n++ {
				s, at, more := "", 0, false
				for si, syl := range w.syl {
					sy := c[at : at+len(syl)]
					at += len(syl)
					i := strings.IndexAny(sy, "aeiouAEIOU")
					tn := t
					if si > 0 {
						tn = '-'
					}
					fs := x.rows[tn][sy[i:i+1]]
					k := 0
					if si == 0 {
						k = n
					}
					if k >= len(fs) {
						more = true
						break
					}
					s += sy[:i] + fs[k] + strings.ReplaceAll(sy[i+1:], "i", "ı")
				}
				if more {
					break
				}
				if !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
	}
	return out
}

// subject is the word predicate that v is the text or the whole of.
func (x *spell) subject(v *V) *V {
	switch v.op {
	case OLoad:
		a := v.args[0]
		if a.op != OFAddr || a.typ == nil || fieldName(derefT(a.typ), int(a.num)) != "T" {
			return nil
		}
		c := core(a.args[0])
		for c.op == OConv {
			c = core(c.args[0])
		}
		if types.Identical(derefT(a.typ), x.wpT) || types.Identical(derefT(a.typ), x.l.wordT) && x.isSubject(a.args[0]) {
			return c
		}
	}
	if x.isSubject(v) {
		return core(v)
	}
	return nil
}

func (x *spell) isSubject(v *V) bool {
	for v != nil {
		switch v.op {
		case OAs, OIface:
			if p, ok := v.typ.(*types.Pointer); ok && types.Identical(p.Elem(), x.wpT) {
				return true
			}
			v = v.args[0]
		case OConv:
			v = v.args[0]
		default:
			return v.typ != nil && (types.Identical(v.typ, x.predI) || types.Identical(v.typ, types.NewPointer(x.wpT)))
		}
	}
	return false
}

// about is the predicate that v depends on, if it depends on nothing but its text
// and on constants.
func (x *spell) about(v *V) (subj *V, ok bool) {
	if v.isConst() {
		return nil, true
	}
	if x.subject(v) != nil && !x.isSubject(v) {
		return x.subject(v), true
	}
	var f *ssa.Function
	switch v.op {
	case OTypeIs:
		s := x.subject(v.args[0])
		return s, s != nil
	case OUn, OBin, OConv, OExtract, OConcat, OLen:
	case OLookup:
		return x.about(v.args[1])
	case OCall:
		if f = x.byName[callName(v)]; f == nil && strings.HasPrefix(v.aux, "(") || x.l.roots[f] {
			return nil, false
		}
	default:
		return nil, false
	}
	for i, a := range v.args {
		var s *V
		if f != nil && i < len(f.Params) && x.isSubject(a) {
			t := f.Params[i].Type()
			if !types.Identical(t, x.predI) && !types.Identical(t, types.NewPointer(x.wpT)) {
				return nil, false
			}
			s = core(a)
		} else {
			var k bool
			if s, k = x.about(a); !k {
				return nil, false
			}
		}
		if s != nil && subj != nil && s != subj {
			return nil, false
		}
		if s != nil {
			subj = s
		}
	}
	return subj, true
}

// fold is the constant that v is for a spelling of its predicate, or nil.
func (x *spell) fold(v, subj *V, text string) *V {
	key := fmt.Sprintf("%d %d %s", v.id, subj.id, text)
	if r, ok := x.memo[key]; ok {
		return r
	}
	r := x.fold1(v, subj, text)
	x.memo[key] = r
	return r
}

// arg is the predicate of that spelling as a value of type t.
func (x *spell) arg(st *State, text string, t types.Type) *V {
	z := zero(x.wpT)
	args := append([]*V(nil), z.args...)
	args[fieldIndex(x.wpT, "T")] = vStr(text)
	o := st.newObj(x.wpT, mk(V{op: OStruct, typ: z.typ, aux: z.aux, args: args}), 0)
	if _, ok := t.Underlying().(*types.Interface); ok {
		return mkIface(types.NewPointer(x.wpT), o)
	}
	return o
}

func (x *spell) fold1(v, subj *V, text string) *V {
	if v.isConst() {
		return v
	}
	switch v.op {
	case OLoad:
		if x.subject(v) == subj && !x.isSubject(v) {
			return vStr(text)
		}
	case OTypeIs:
		if x.subject(v.args[0]) == subj {
			return vBool(types.Identical(v.typ, types.NewPointer(x.wpT)))
		}
	case OUn:
		if v.aux == "!" {
			if r := x.fold(v.args[0], subj, text); r != nil {
				if b, ok := r.boolVal(); ok {
					return vBool(!b)
				}
			}
		}
	case OBin:
		a, b := x.fold(v.args[0], subj, text), x.fold(v.args[1], subj, text)
		if v.aux == "==" && a != nil && b != nil {
			return vBool(a == b)
		}
	case OConv:
		return x.fold(v.args[0], subj, text)
	case OExtract:
		r := x.fold(v.args[0], subj, text)
		if r != nil && r.op == OStruct && int(v.num) < len(r.args) {
			return r.args[v.num]
		}
	case OLookup:
		k := x.fold(v.args[1], subj, text)
		if k != nil && k.isConst() && v.typ != nil {
			if e, _, kn := x.s.lookup(v.args[0], k, v.typ); kn {
				return e
			}
		}
	case OCall:
		name := callName(v)
		st := newState()
		f := x.byName[name]
		var args []*V
		for i, a := range v.args {
			if x.isSubject(a) && f != nil && i < len(f.Params) && core(a) == subj {
				args = append(args, x.arg(st, text, f.Params[i].Type()))
				continue
			}
			r := x.fold(a, subj, text)
			if r == nil {
				return nil
			}
			args = append(args, r)
		}
		e := x.s.eng()
		if f == nil {
			return e.constCall(st, name, args)
		}
		outs := e.Run(f, st, args...)
		x.r.analysed["paths"] += len(outs)
		if e.over || len(outs) != 1 || outs[0].Kind != Ret {
			return nil
		}
		for _, r := range outs[0].Vals {
			if !r.isConst() {
				return nil
			}
		}
		if len(outs[0].Vals) == 1 {
			return outs[0].Vals[0]
		}
		return mk(V{op: OStruct, aux: "t", args: outs[0].Vals})
	}
	return nil
}

func (x *spell) path(q *lpath) {
	seen := map[*V]bool{}
	visit := func(v *V) {
		walkTerm(v, func(t *V) bool {
			switch {
			case t.op == OExtract && t.args[0].op == OCall && x.byName[callName(t.args[0])] != nil, t.op == OCall && x.byName[callName(t)] != nil:
				x.term(t, q)
			}
			return true
		}, seen)
	}
	var facts []*V
	for f := range q.st.facts {
		facts = append(facts, f)
	}
	sort.Slice(facts, func(i, j int) bool { return facts[i].id < facts[j].id })
	for _, f := range facts {
		x.term(f, q)
		visit(f)
	}
	var ids []int64
	for id := range q.st.otype {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		c, t := q.st.heap[id], q.st.otype[id]
		if c == nil {
			continue
		}
		visit(c)
		if c.op != OStruct {
			continue
		}
		switch ptrName(t) {
		case "Quote":
			if i := fieldIndex(t, "Text"); i >= 0 {
				x.quoted(c.args[i], q)
			}
		case "Pred":
			i, j := fieldIndex(t, "Name"), fieldIndex(t, "AST")
			if i < 0 || j < 0 {
				break
			}
			x.term(c.args[i], q)
			if a := core(c.args[j]); x.isSubject(c.args[j]) && q.wordOnly(c.args[j], x.wpT) {
				s, ok := x.about(c.args[i])
				x.r.check(ok && s == a && !c.args[i].isConst(), "named", fnName(q.fn)+" "+x.p.pos(q.st.opos[id]), x.p.pos(q.st.opos[id]), "the name of a predicate word is not computed from the word: "+trunc(c.args[i].String(), 200))
			}
		}
	}
	for i := range q.st.events {
		for _, a := range q.st.events[i].Args {
			visit(a)
		}
	}
}

// term checks what is computed from a word predicate alone.
func (x *spell) term(v *V, q *lpath) {
	id := ""
	c := v
	if v.op == OExtract {
		c = v.args[0]
		id = fmt.Sprintf(" result %d", v.num)
	}
	where := x.p.pos(q.o.Pos)
	if c.op == OCall {
		id = callName(c) + id
		f := x.byName[callName(c)]
		if f == nil {
			id = ""
		} else {
			if n := f.Signature.Results().Len(); n > 1 && v.op == OCall || x.l.roots[f] {
				return
			}
			where = x.p.pos(f.Pos())
		}
	}
	subj, ok := x.about(v)
	if !ok || subj == nil {
		return
	}
	key := id
	if id == "" {
		key = strings.ReplaceAll(v.String(), subj.String(), "word")
		id = "a decision in " + fnName(q.fn)
	} else {
		for _, a := range c.args {
			if a.isConst() {
				key += " " + a.String()
			}
		}
	}
	if x.seen[key] {
		return
	}
	x.seen[key] = true
	r0 := x.fold(v, subj, x.words[0][0])
	if r0 == nil {
		if v.op == OCall || v.op == OExtract {
			if v.op == OCall && v.typ != nil {
				if _, ok := v.typ.Underlying().(*types.Basic); !ok {
					return
				}
			}
			x.r.bad("decided", id, where, fmt.Sprintf("what it gives for the word %q is not decided", x.words[0][0]))
		}
		return
	}
	x.r.analysed["functions"]++
	switch {
	case isBool(r0):
		x.recogniser(v, subj, id, where)
	case isStr(r0):
		x.naming(v, subj, id, where)
	default:
		x.tone(v, subj, id, where)
	}
}

// wordOnly tells whether the path knows that v is a predicate word.
func (q *lpath) wordOnly(v *V, wp types.Type) bool {
	for u := v; u != nil && (u.op == OAs || u.op == OIface); u = u.args[0] {
		if types.Identical(u.typ, types.NewPointer(wp)) {
			return true
		}
	}
	t, ok := q.st.dyn[core(v)]
	return ok && types.Identical(t, types.NewPointer(wp))
}

func isBool(v *V) bool { _, ok := v.boolVal(); return ok }
func isStr(v *V) bool  { _, ok := v.strVal(); return ok }

// recogniser: a question about a word is true of all spellings of the words that it
// is about, and of no others.
func (x *spell) recogniser(v, subj *V, id, where string) {
	about := map[string]bool{}
	yes, no := 0, 0
	for i, w := range spWords {
		r := x.fold(v, subj, x.words[i][0])
		if !x.r.check(r != nil && isBool(r), "decided", id+" "+x.words[i][0], where, fmt.Sprintf("what it gives for the word %q is not decided", x.words[i][0])) {
			return
		}
		b, _ := r.boolVal()
		if b {
			yes++
		} else {
			no++
		}
		if w.kind != "plain" {
			about[w.kind] = about[w.kind] || b
		}
	}
	if yes == 0 || no == 0 {
		// the kind of the node, or a form that no word has
		x.r.check(v.op != OCall && v.op != OExtract || yes != 0, "recognised", id, where, "it is true of no word")
		return
	}
	plain := func() bool { r := x.fold(v, subj, x.wordOf("jai")); b, _ := r.boolVal(); return b }()
	var ks []string
	for _, k := range sortedKeys(about) {
		if about[k] != plain {
			ks = append(ks, k)
			x.kinds[k] = true
		}
	}
	what := strings.Join(ks, " or ")
	if plain {
		what = "not " + what
	}
	for i, w := range spWords {
		want := plain
		if w.kind != "plain" {
			want = about[w.kind]
		}
		for _, s := range x.words[i] {
			r := x.fold(v, subj, s)
			ok := r == vBool(want)
			if !x.r.check(ok, "spelling", id+" "+s, where, fmt.Sprintf("it asks whether a word is %s, and gives %s for %q (%s)", what, spShow(r), s, w.kind)) {
				break
			}
		}
	}
}

func (x *spell) wordOf(w string) string {
	for i, sw := range spWords {
		if strings.Join(sw.syl, "") == w {
			return x.words[i][0]
		}
	}
	return w
}

func spShow(v *V) string {
	if v == nil {
		return "nothing that is decided"
	}
	return v.String()
}

// naming: the name of a predicate is the word in small letters without tone, and
// that of a variable differs from those of the others; neither depends on the spelling.
func (x *spell) naming(v, subj *V, id, where string) {
	p := x.fold(v, subj, x.wordOf("jai"))
	ps := ""
	if p != nil {
		ps, _ = p.strVal()
	}
	names := map[string]string{}
	if ps == "" {
		x.kinds["variable name"] = true
		for i, w := range spWords {
			if w.kind != "variable" {
				continue
			}
			first := x.fold(v, subj, x.words[i][0])
			word := strings.Join(w.syl, "")
			if !x.r.check(first != nil && isStr(first), "decided", id+" "+word, where, "the name of the variable "+word+" is not decided") {
				continue
			}
			n, _ := first.strVal()
			x.r.check(n != "" && names[n] == "", "variable", id+" "+word, where, fmt.Sprintf("the variables %s and %s have the same name %q", word, names[n], n))
			names[n] = word
			for _, s := range x.words[i] {
				r := x.fold(v, subj, s)
				if !x.r.check(r == first, "spelling", id+" "+s, where, fmt.Sprintf("the variable %s is named %q, and spelled %q it is named %s", word, n, s, spShow(r))) {
					break
				}
			}
		}
		return
	}
	among, ok1 := x.l.constStr("logic", "Among")
	equal, ok2 := x.l.constStr("logic", "Equal")
	if !x.r.check(ok1 && ok2, "anchor", "logic.Among and logic.Equal", "-", "a constant is missing") {
		return
	}
	x.kinds["name"] = true
	for i, w := range spWords {
		want := strings.Join(w.syl, "")
		switch w.kind {
		case "among":
			want = among
		case "equal":
			want = equal
		case "hoa", "variable":
			continue
		}
		for _, s := range x.words[i] {
			r := x.fold(v, subj, s)
			if !x.r.check(r == vStr(want), "spelling", id+" "+s, where, fmt.Sprintf("the predicate %q is named %s and not %q", s, spShow(r), want)) {
				break
			}
		}
	}
}

// tone: a tone that is given with a variable is that of its first syllable.
func (x *spell) tone(v, subj *V, id, where string) {
	for i, w := range spWords {
		if w.kind != "variable" {
			continue
		}
		for _, s := range x.words[i] {
			r := x.fold(v, subj, s)
			if r == nil {
				return
			}
			n, ok := r.intVal()
			if !ok {
				return
			}
			d, _ := utf8.DecodeRuneInString(s[1:])
			want := rune(0)
			for t, row := range x.rows {
				for _, fs := range row {
					for _, f := range fs {
						if f == string(d) {
							want = t
						}
					}
				}
			}
			if !x.r.check(rune(n) == want, "spelling", id+" tone "+s, where, fmt.Sprintf("the tone of %q is given as %q and not as %q", s, rune(n), want)) {
				break
			}
		}
	}
}

// quoted: the text of a quote is the texts of the words in the quoted phrase, in
// their order, without the space around them.
func (x *spell) quoted(v *V, q *lpath) {
	if v.op != OCall || len(v.args) != 1 {
		return // what is quoted is C23's
	}
	name := callName(v)
	f := x.byName[name]
	if f == nil || len(f.Params) != 1 || x.seen["quote "+name] {
		return
	}
	x.seen["quote "+name] = true
	x.kinds["quote"] = true
	where := x.p.pos(f.Pos())
	visit := x.byName["ast.Visit"]
	nodeI := x.p.typ("ast", "Node")
	if !x.r.check(visit != nil && nodeI != nil, "anchor", "ast.Visit", "-", "the function or the type Node is missing") {
		return
	}
	type item = spItem
	w := func(s string) item { return item{"Word", s} }
	texts := []struct {
		items []item
		want  string
	}{
		{[]item{{"Space", " "}, w(" "), {"WordPredicate", "Jảı"}, w("Jảı"), {"", ""}, {"Space", " \n"}, w(" \n"), w("jí"), w(" "), {"", ""}}, "Jảı \n" + "jí"},
		{[]item{{"WordPredicate", "dó"}, w("dó")}, "dó"},
		{[]item{w("b"), w(","), w(" "), {"", ""}, w("a"), {"Word+", "b"}, w("?"), w(" ")}, "b, ab?"},
		{[]item{{"Interjection", "m"}, w("m"), {"Space", " "}, w("  "), {"WordPredicate", "HÚQ"}, w("HÚQ")}, "m  HÚQ"},
		{nil, ""},
	}
	for i, t := range texts {
		e := x.s.eng()
		subject := vSym("quoted", nodeI)
		whole := true
		e.Model = x.visiting(visit, t.items, func(node *V, _ []*V) { whole = whole && node == subject })
		outs := e.Run(f, newState(), subject)
		id := fmt.Sprintf("%s %d", name, i+1)
		if !x.r.check(!e.over && len(outs) == 1 && outs[0].Kind == Ret && len(outs[0].Vals) == 1, "decided", id, where, fmt.Sprintf("the text of what is quoted is not decided: %d paths", len(outs))) {
			return
		}
		got := e.constArg(outs[0].Vals[0])
		x.r.check(whole, "quoted", id+" whole", where, "it visits something else than what is quoted")
		if !x.r.check(got == vStr(t.want), "quoted", id, where, fmt.Sprintf("the text of the words %v is given as %s and not as %q", t.items, trunc(got.String(), 100), t.want)) {
			return
		}
	}
}

// spItem is a node that is met on a walk, or the end of one.
// A typ that ends in + has something after the word.
type spItem struct{ typ, text string }

// visiting models a walk that meets the items in their order. Objects of the items
// are passed to met after it.
func (x *spell) visiting(visit *ssa.Function, items []spItem, met func(node *V, objs []*V)) func(e *Eng, st *State, n string, fn *ssa.Function, args []*V) ([]mOut, bool) {
	return func(e *Eng, st *State, n string, fn *ssa.Function, args []*V) ([]mOut, bool) {
		if fn != visit {
			return nil, false
		}
		m := x.visitor(args[1])
		if m == nil {
			return nil, false
		}
		sts := []mOut{{st: st, v: vNil}}
		var objs []*V
		for _, it := range items {
			var next []mOut
			for _, s := range sts {
				node := vNil
				if it.typ != "" {
					T, after := x.p.typ("ast", strings.TrimSuffix(it.typ, "+")), x.p.typ("ast", "Space")
					if T == nil || after == nil {
						return nil, false
					}
					z := zero(T)
					k, m := fieldIndex(T, "T"), fieldIndex(T, "M")
					if z.op != OStruct || k < 0 || m < 0 {
						return nil, false
					}
					as := append([]*V(nil), z.args...)
					as[k] = vStr(it.text)
					if strings.HasSuffix(it.typ, "+") {
						as[m] = mkIface(types.NewPointer(after), s.st.newObj(after, zero(after), 0))
					}
					o := s.st.newObj(T, mk(V{op: OStruct, typ: z.typ, aux: z.aux, args: as}), 0)
					objs = append(objs, o)
					node = mkIface(types.NewPointer(T), o)
				}
				next = append(next, e.callFn(s.st, m, nil, []*V{core(args[1]), node}, 0)...)
			}
			sts = next
		}
		met(args[0], objs)
		for j := range sts {
			sts[j].v = vNil
		}
		return sts, true
	}
}

// visitor is the method that a visitor's nodes are passed to.
func (x *spell) visitor(v *V) *ssa.Function {
	if v.op != OIface {
		return nil
	}
	n := x.p.typ("ast", "Visitor")
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok || it.NumMethods() != 1 {
		return nil
	}
	m := it.Method(0)
	return x.p.prog.LookupMethod(v.typ, m.Pkg(), m.Name())
}
