package main

// C17: the readings of function words.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the words of each class, with their reading
var wordClasses = map[string]map[string]string{
	"RA": {"ru": "const And", "ra": "const Or", "ri": "const Ri", "roi": "panic", "ro": "panic", "re": "panic"},
	"TU": {"ke": "const The", "sa": "const Some", "tu": "const Each", "sia": "const None", "ja": "const Lambda", "hi": "const Hi"},
	"GO": {"fi": "1", "go": "2", "cu": "3", "ta": "4"},
	"PO": {"po": `"raq"`, "jei": "const Equal"},
	"MI": {"mi": `Swap 1 Pred "chua"`, "shu": "Pred const Equal"},
	"LU": {"lu": "", "li": "", "lo": "", "ma": "", "tio": ""},
	"BI": {"bi": "", "pa": ""},
}

// the fields of syntax nodes that hold a word of a class
var wordFields = map[string]string{"RU": "RA", "Quantifier": "TU", "GO": "GO", "PO": "PO", "MI": "MI", "LU": "LU", "BI": "BI"}

// classes whose words may have a tone
var tonedClass = map[string]bool{"PO": true, "MI": true, "LU": true}

type fwords struct {
	p      *Program
	l      *lgen
	r      *Report
	s      *statics
	byName map[string]*ssa.Function
	tables map[string]bool
	spell  map[string]map[string][]string // class -> word -> spellings
	memo   map[string]*fwRes
	want   map[string]map[string]string
	used   map[string]bool
}

// fwRes is what a function gives for a word.
type fwRes struct {
	d  string // description, "panic", or "?" with the reason
	v  *V
	st *State
}

func ruleFuncWords(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	x := &fwords{p: p, l: l, r: r, s: newStatics(p), byName: map[string]*ssa.Function{}, tables: map[string]bool{}, spell: map[string]map[string][]string{}, memo: map[string]*fwRes{}, want: map[string]map[string]string{}, used: map[string]bool{}}
	x.s.deep = true
	for _, pk := range []string{"logic", "ast", "tone"} {
		for _, f := range p.allFuncs(pk) {
			x.byName[fnName(f)] = f
		}
	}
	if !x.expected() || !x.spellings() {
		return
	}
	x.grammar()
	for _, f := range l.interps {
		for _, q := range l.paths(f, r) {
			if q.o.Kind == Ret {
				x.path(q)
			}
		}
	}
	for _, c := range sortedKeys(wordClasses) {
		r.check(x.used[c], "read", c, "logic/interp.go", "no reading of the words of the class "+c+" is found")
	}
	r.assumption("a word of a class has the spellings that the grammar accepts: letters in either case, i with or without dot, and where the grammar asks for a tone any form of the tone table (C09)")
	r.assumption("syntax nodes hold in RU, Quantifier, GO, PO, MI, LU and BI words of the classes RA, TU, GO, PO, MI, LU and BI")
	r.atLeast("reading", 20)
	r.atLeast("spelling", 100)
}

// expected resolves the readings that are named constants.
func (x *fwords) expected() bool {
	ok := true
	for c, t := range wordClasses {
		x.want[c] = map[string]string{}
		for w, d := range t {
			if i := strings.Index(d, "const "); i >= 0 {
				s, found := x.l.constStr("logic", d[i+6:])
				if !x.r.check(found, "anchor", "logic."+d[i+6:], "-", "the constant is missing") {
					ok = false
				}
				d = d[:i] + fmt.Sprintf("%q", s)
			}
			x.want[c][w] = d
		}
	}
	return ok
}

// spellings of every word.
func (x *fwords) spellings() bool {
	g := x.p.ssa["tone"].Members["Diacritic"]
	gl, ok := g.(*ssa.Global)
	if !x.r.check(ok, "anchor", "tone.Diacritic", "-", "the tone table is missing") {
		return false
	}
	t := x.s.global(gl)
	if !x.r.check(t != nil && t.m != nil, "anchor", "tone.Diacritic", "-", "the tone table is not built from literals") {
		return false
	}
	forms := func(letter string) []string {
		set := map[string]bool{}
		for _, row := range t.m {
			for id, fs := range row.m {
				if id == fmt.Sprintf("%q", letter) {
					for _, f := range fs.l {
						if s, ok := f.str(); ok {
							set[s] = true
						}
					}
				}
			}
		}
		return sortedKeys(set)
	}
	for c, ws := range wordClasses {
		x.spell[c] = map[string][]string{}
		for w := range ws {
			set := map[string]bool{}
			add := func(s string) {
				set[s] = true
				set[strings.ReplaceAll(s, "i", "ı")] = true
			}
			for _, s := range []string{w, strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w[:len(w)-1] + strings.ToUpper(w[len(w)-1:])} {
				add(s)
				if tonedClass[c] {
					i := strings.IndexAny(s, "aeiouAEIOU")
					for _, f := range forms(s[i : i+1]) {
						add(s[:i] + f + s[i+1:])
					}
				}
			}
			x.spell[c][w] = sortedKeys(set)
		}
	}
	return true
}

// grammar: the words that the grammar accepts in each class.
func (x *fwords) grammar() {
	r := x.r
	g := newGram(x.p)
	if g == nil {
		return
	}
	lang := newLang(g, nil)
	letter := func(it gitem) string {
		if it.rule == "" {
			return it.text
		}
		ts, err := lang.texts(it.rule, "Accepts")
		if err != "" {
			return "?"
		}
		for _, t := range ts {
			if len(t) == 1 && t[0] >= 'a' && t[0] <= 'z' {
				return t
			}
		}
		return "?"
	}
	for _, c := range sortedKeys(wordClasses) {
		rn := "_" + c
		if g.byRule[rn] == nil {
			r.bad("class", c, "ast/toaq.go", "the rule of the class is missing")
			continue
		}
		seqs, err := lang.seqs(rn, "Accepts")
		if err != "" {
			r.bad("class", c, "ast/toaq.go", err)
			continue
		}
		has := map[string]bool{}
		for _, s := range seqs {
			w := ""
			for _, it := range s {
				w += letter(it)
			}
			has[w] = true
		}
		for _, w := range sortedKeys(wordClasses[c]) {
			r.check(has[w], "class", c+" "+w, x.p.pos(g.byRule[rn]["Accepts"].Pos()), "the grammar does not accept the word")
		}
		for _, w := range sortedKeys(has) {
			r.check(hasKey(wordClasses[c], w), "class", c+" "+w, x.p.pos(g.byRule[rn]["Accepts"].Pos()), "the grammar accepts a word that has no reading")
		}
	}
}

func hasKey(m map[string]string, k string) bool { _, ok := m[k]; return ok }

// wordOf tells whether v is the place of a word in the syntax tree, and its class.
func (x *fwords) wordOf(v *V) string {
	if v.op != OFAddr || v.typ == nil {
		return ""
	}
	ow := derefT(v.typ)
	n := namedOf(ow)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
		return ""
	}
	st, ok := ow.Underlying().(*types.Struct)
	if !ok || int(v.num) >= st.NumFields() {
		return ""
	}
	f := st.Field(int(v.num))
	if !x.l.isWord(f.Type()) {
		return ""
	}
	return wordFields[f.Name()]
}

// words lists the words that v depends on.
func (x *fwords) words(v *V) []*V {
	var ws []*V
	walkTerm(v, func(t *V) bool {
		if x.wordOf(t) != "" {
			ws = append(ws, t)
			return false
		}
		return true
	}, map[*V]bool{})
	return ws
}

const noWord = "\x00none"

// value is the word as a value: the struct, or a pointer to it.
func (x *fwords) value(st *State, text string, ptr bool) *V {
	if text == noWord {
		return vNil
	}
	z := zero(x.l.wordT)
	args := append([]*V(nil), z.args...)
	args[fieldIndex(x.l.wordT, "T")] = vStr(text)
	c := mk(V{op: OStruct, typ: z.typ, aux: z.aux, args: args})
	if !ptr {
		return c
	}
	return st.newObj(x.l.wordT, c, 0)
}

// fold is what a term is when the word at w is text.
func (x *fwords) fold(v, w *V, text string) *fwRes {
	key := fmt.Sprintf("%d %d %s", v.id, w.id, text)
	if r, ok := x.memo[key]; ok {
		return r
	}
	r := x.fold1(v, w, text)
	x.memo[key] = r
	return r
}

func fwKnown(v *V) *fwRes { return &fwRes{d: v.String(), v: v} }

func (x *fwords) fold1(v, w *V, text string) *fwRes {
	if v.isConst() || v.op == ONil {
		return &fwRes{d: x.describe(nil, v), v: v}
	}
	st := newState()
	isPtr := false
	if fs, ok := derefT(w.typ).Underlying().(*types.Struct); ok {
		_, isPtr = fs.Field(int(w.num)).Type().Underlying().(*types.Pointer)
	}
	word := loadOf(w)
	unknown := func(why string) *fwRes { return &fwRes{d: "? " + why} }
	sub := func(t *V) *V {
		switch {
		case t == w && !isPtr:
			return x.value(st, text, true)
		case t == word && isPtr:
			return x.value(st, text, true)
		case t == word:
			return x.value(st, text, false)
		}
		if t.op == OLoad && t.args[0].op == OLoad && t.args[0] == word && isPtr && text != noWord {
			return x.value(st, text, false)
		}
		return nil
	}
	if s := sub(v); s != nil {
		return &fwRes{d: "word", v: s, st: st}
	}
	switch v.op {
	case OLoad:
		// the text of the word
		a := v.args[0]
		if a.op == OFAddr && a.typ != nil && fieldName(derefT(a.typ), int(a.num)) == "T" && (a.args[0] == w || a.args[0] == word) && text != noWord {
			return fwKnown(vStr(text))
		}
		return unknown("it is read from " + v.String())
	case OUn:
		if v.aux == "!" {
			r := x.fold(v.args[0], w, text)
			if r.v != nil {
				if b, ok := r.v.boolVal(); ok {
					return fwKnown(vBool(!b))
				}
			}
			return unknown("the operand is not known")
		}
	case OBin:
		a, b := v.args[0], v.args[1]
		if v.aux == "==" {
			if a == vNil || b == vNil {
				o := a
				if o == vNil {
					o = b
				}
				if o == word && isPtr {
					return fwKnown(vBool(text == noWord))
				}
			}
			ra, rb := x.fold(a, w, text), x.fold(b, w, text)
			if ra.v != nil && rb.v != nil && ra.v.isConst() && rb.v.isConst() {
				return fwKnown(vBool(ra.v == rb.v))
			}
			return unknown("it compares unknown values")
		}
	case OConv:
		return x.fold(v.args[0], w, text)
	case OExtract:
		c := v.args[0]
		if c.op == OLookup {
			k := x.fold(c.args[1], w, text)
			if k.v != nil && k.v.isConst() {
				if _, ok, kn := x.s.lookup(c.args[0], k.v, types.Typ[types.String]); kn && v.num == 1 {
					return fwKnown(vBool(ok))
				}
			}
			return unknown("the table is not known")
		}
		r := x.fold(c, w, text)
		if r.v != nil && r.v.op == OStruct && int(v.num) < len(r.v.args) {
			return &fwRes{d: x.describe(r.st, r.v.args[v.num]), v: r.v.args[v.num], st: r.st}
		}
		return r
	case OLookup:
		k := x.fold(v.args[1], w, text)
		if k.v != nil && k.v.isConst() && v.typ != nil {
			if e, _, kn := x.s.lookup(v.args[0], k.v, v.typ); kn {
				return &fwRes{d: x.describe(nil, e), v: e}
			}
		}
		return unknown("the table is not known")
	case OCall:
		name := callName(v)
		var args []*V
		for _, a := range v.args {
			if s := sub(a); s != nil {
				args = append(args, s)
				continue
			}
			r := x.fold(a, w, text)
			if r.d == "panic" {
				return r
			}
			if r.v == nil {
				return r
			}
			args = append(args, r.v)
		}
		f := x.byName[name]
		e := x.s.eng()
		if f == nil {
			if r := e.constCall(st, name, args); r != nil {
				return fwKnown(r)
			}
			return unknown("the function " + name + " is not known")
		}
		outs := e.Run(f, st, args...)
		x.r.analysed["paths"] += len(outs)
		fails := 0
		for _, o := range outs {
			for i := range o.St.events {
				if ev := &o.St.events[i]; ev.Kind == "hazard" && ev.Name == "nil dereference" {
					fails++
					break
				}
			}
		}
		if fails > 0 && fails == len(outs) {
			return &fwRes{d: "panic"}
		}
		if e.over || len(outs) != 1 {
			return unknown(fmt.Sprintf("%s is not decided by the word alone: %d paths", name, len(outs)))
		}
		switch o := outs[0]; {
		case o.Kind == Panicked:
			return &fwRes{d: "panic"}
		case o.Kind == Ret && len(o.Vals) == 1:
			return &fwRes{d: x.describe(o.St, o.Vals[0]), v: o.Vals[0], st: o.St}
		case o.Kind == Ret && len(o.Vals) > 1:
			return &fwRes{d: "tuple", v: mk(V{op: OStruct, aux: "t", args: o.Vals}), st: o.St}
		}
		return unknown(name + " is not followed to its end")
	}
	return unknown("it is " + v.String())
}

// describe names a constant or a formula node made of constants.
func (x *fwords) describe(st *State, v *V) string {
	if s, ok := v.strVal(); ok {
		return fmt.Sprintf("%q", s)
	}
	if n, ok := v.intVal(); ok {
		return fmt.Sprint(n)
	}
	if b, ok := v.boolVal(); ok {
		return fmt.Sprint(b)
	}
	o := core(v)
	if st != nil && o.op == OObj {
		c, t := st.heap[o.num], st.otype[o.num]
		if c != nil && c.op == OStruct {
			get := func(f string) string {
				if i := fieldIndex(t, f); i >= 0 {
					return x.describe(st, c.args[i])
				}
				return "?"
			}
			switch ptrName(t) {
			case "Pred":
				return "Pred " + get("Name")
			case "Swap":
				return "Swap " + get("Pos") + " " + get("Predicate")
			}
		}
	}
	return "? " + v.String()
}

func (x *fwords) options(w *V) []string {
	c := x.wordOf(w)
	ws := sortedKeys(wordClasses[c])
	if fs, ok := derefT(w.typ).Underlying().(*types.Struct); ok {
		if _, isPtr := fs.Field(int(w.num)).Type().Underlying().(*types.Pointer); isPtr {
			ws = append(ws, noWord)
		}
	}
	return ws
}

// possible are the words at w for which the path is taken.
func (x *fwords) possible(q *lpath, w *V) (texts []string, asked bool) {
	var fs []*V
	for f := range q.st.facts {
		for _, y := range x.words(f) {
			if y == w {
				fs = append(fs, f)
				break
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	for _, t := range x.options(w) {
		ok := true
		for _, f := range fs {
			r := x.fold(f, w, t)
			if r.d == "panic" {
				ok = false
				break
			}
			if r.v == nil {
				continue
			}
			b, known := r.v.boolVal()
			if !known {
				continue
			}
			asked = true
			if b != q.st.facts[f] {
				ok = false
				break
			}
		}
		// a value that the path computes from the word ends it
		if ok && x.panics(q, w, t) {
			ok = false
		}
		if ok {
			texts = append(texts, t)
		}
	}
	return texts, asked
}

func (x *fwords) panics(q *lpath, w *V, t string) bool {
	for i := range q.st.events {
		ev := &q.st.events[i]
		if ev.Kind == "call" && ev.Res != nil && ev.Res.op == OCall && x.byName[callName(ev.Res)] != nil && x.l.rootNamed(ev.Name) == nil {
			if ws := x.words(ev.Res); len(ws) == 1 && ws[0] == w && x.fold(ev.Res, w, t).d == "panic" {
				return true
			}
		}
	}
	return false
}

func (x *fwords) show(t string) string {
	if t == noWord {
		return "no word"
	}
	return t
}

// table checks a function of a word for all spellings.
func (x *fwords) table(v *V, where string) {
	ws := x.words(v)
	if len(ws) != 1 || v.op != OCall || x.byName[callName(v)] == nil {
		return
	}
	w := ws[0]
	c := x.wordOf(w)
	id := callName(v) + " " + c
	for _, a := range v.args {
		if a.isConst() {
			id += " " + a.String()
		}
	}
	if x.tables[id] {
		return
	}
	x.tables[id] = true
	f := x.byName[callName(v)]
	x.r.analysed["functions"]++
	at := x.p.pos(f.Pos())
	for _, t := range sortedKeys(wordClasses[c]) {
		base := x.fold(v, w, t)
		if !x.r.check(!strings.HasPrefix(base.d, "?"), "reading", id+" "+t, at, "the reading of "+t+" is not decided: "+base.d) {
			continue
		}
		for _, s := range x.spell[c][t] {
			d := x.fold(v, w, s)
			x.r.check(d.d == base.d, "spelling", id+" "+s, at, fmt.Sprintf("%s reads %q as %s and %q as %s", callName(v), t, base.d, s, d.d))
		}
	}
}

func (x *fwords) path(q *lpath) {
	st := q.st
	name := fnName(q.fn)
	// all functions of words
	seen := map[*V]bool{}
	visit := func(v *V, at string) {
		walkTerm(v, func(t *V) bool {
			if t.op == OCall && len(t.args) > 0 && x.byName[callName(t)] != nil && !strings.Contains(t.aux, "interpreter") {
				x.table(t, at)
			}
			return true
		}, seen)
	}
	var ids []int64
	for id := range st.otype {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for f := range st.facts {
		visit(f, "")
	}
	readBy := map[*V]bool{} // connectives that a connection of this path is made from
	for _, id := range ids {
		c, t := st.heap[id], st.otype[id]
		if c == nil {
			continue
		}
		where := x.p.pos(st.opos[id])
		visit(c, where)
		sT, ok := t.Underlying().(*types.Struct)
		if !ok || c.op != OStruct {
			continue
		}
		for i := 0; i < sT.NumFields() && i < len(c.args); i++ {
			class := ""
			switch ft := sT.Field(i).Type(); {
			case ptrName(ft) == "Connector":
				class = "RA"
			case ptrName(ft) == "Quantifier":
				class = "TU"
			case ptrName(t) == "Pred" && sT.Field(i).Name() == "Name":
				class = "PO"
			case isInteger(ft) && astField(t) < 0 && x.hasClass(c.args[i], "GO"):
				class = "GO"
			default:
				continue
			}
			x.field(q, t, c, i, class, name, where, readBy)
		}
		x.computed(c, name, where)
	}
	for i := range st.events {
		ev := &st.events[i]
		for _, a := range ev.Args {
			visit(a, x.p.pos(ev.Pos))
			x.computed(a, name, x.p.pos(ev.Pos))
		}
	}
	x.decisions(q, name, readBy)
}

func (x *fwords) hasClass(v *V, class string) bool {
	for _, w := range x.words(v) {
		if x.wordOf(w) == class {
			return true
		}
	}
	return false
}

// computed: what is computed from places and marks alone.
func (x *fwords) computed(v *V, name, where string) {
	walkTerm(v, func(t *V) bool {
		if t.op != OCall || x.byName[callName(t)] == nil {
			return true
		}
		ws := x.words(t)
		if len(ws) != 1 {
			return true
		}
		if c := x.wordOf(ws[0]); c == "GO" || c == "MI" {
			x.compare(t, ws[0], c, name, where)
			return false
		}
		return true
	}, map[*V]bool{})
}

// compare: a value that is computed from a word alone is its reading.
func (x *fwords) compare(v, w *V, class, name, where string) {
	x.used[class] = true
	key := fmt.Sprintf("cmp %d %d", v.id, w.id)
	if x.tables[key] {
		return
	}
	x.tables[key] = true
	for _, t := range sortedKeys(wordClasses[class]) {
		d := x.fold(v, w, t).d
		if d == "true" || d == "false" {
			return // a question about the word
		}
		x.r.check(d == x.want[class][t], "reading", class+" "+t+" in "+name, where, fmt.Sprintf("the word %s is read as %s, not as %s", t, d, x.want[class][t]))
	}
}

// field: the value of a field is the reading of the word that it stands for.
func (x *fwords) field(q *lpath, t types.Type, c *V, i int, class, name, where string, readBy map[*V]bool) {
	r, st := x.r, q.st
	v := c.args[i]
	fname := ptrName(t) + "." + fieldName(t, i)
	var w *V
	for _, y := range x.words(v) {
		if x.wordOf(y) == class {
			w = y
		}
	}
	if w == nil {
		// no word: does the node stand for a phrase with such a word?
		if !v.isConst() && len(x.words(v)) > 0 {
			return
		}
		ai := astField(t)
		if ai < 0 {
			return
		}
		a := core(c.args[ai])
		for f := range st.facts {
			for _, y := range x.words(f) {
				if x.wordOf(y) == class && rootPhrase(y) == a {
					w = y
				}
			}
		}
		if w == nil && a.typ != nil {
			// a phrase that holds the word itself
			pt := derefT(a.typ)
			if n := namedOf(pt); class == "TU" && n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
				if k := fieldIndex(pt, "Quantifier"); k >= 0 {
					w = fieldAddr(a, k, pt)
				}
			}
		}
		if w == nil || !v.isConst() && v.op != OCall {
			return
		}
	}
	x.used[class] = true
	if class == "RA" {
		readBy[w] = true
	}
	texts, _ := x.possible(q, w)
	for _, s := range texts {
		d := x.fold(v, w, s).d
		want := x.want[class][s]
		if s == noWord {
			want = x.want[class]["ke"]
		}
		if want == "panic" {
			good := d == "panic" && !(s == "roi" && (ptrName(derefT(w.typ)) == "CoPArgument" || ptrName(derefT(rootPhrase(w).typeOr(nil))) == "CoPArgument"))
			r.check(good, "reading", fname+" "+s+" in "+name, where, "the word "+s+", which is not a connective here, is read as "+d)
			continue
		}
		good := d == want
		if !good && class == "TU" && (s == "ke" || s == noWord) {
			// a definite argument that is not bound at the top
			all, _ := x.l.constStr("logic", "All")
			good = d == fmt.Sprintf("%q", all)
		}
		r.check(good, "reading", fname+" "+x.show(s)+" in "+name, where, fmt.Sprintf("%s is read as %s, not as %s", x.show(s), d, want))
	}
}

// rootPhrase is the phrase that holds the word at w.
func rootPhrase(w *V) *V {
	v := w.args[0]
	for v.op == OFAddr {
		v = v.args[0]
	}
	return core(v)
}

// decisions: what a path does depends on its words as stated.
func (x *fwords) decisions(q *lpath, name string, readBy map[*V]bool) {
	r, st := x.r, q.st
	ws := map[*V]bool{}
	for f := range st.facts {
		for _, y := range x.words(f) {
			ws[y] = true
		}
	}
	var list []*V
	for w := range ws {
		list = append(list, w)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	at := x.p.pos(q.fn.Pos())
	for _, w := range list {
		texts, asked := x.possible(q, w)
		if !asked {
			continue
		}
		class := x.wordOf(w)
		x.used[class] = true
		set := map[string]bool{}
		for _, t := range texts {
			set[t] = true
		}
		switch class {
		case "RA":
			if readBy[w] {
				break // compared with the connective
			}
			for _, t := range texts {
				r.check(t == "roi", "decision", "connective "+t+" in "+name, at, "a phrase with the connective "+t+" is read without it: "+pathFacts(st))
			}
		case "LU":
			lam := false
			lambda, _ := x.l.constStr("logic", "Lambda")
			for id, t := range st.otype {
				if ptrName(t) == "Binding" && st.heap[id].op == OStruct {
					if s, ok := st.heap[id].args[fieldIndex(t, "Quantifier")].strVal(); ok && s == lambda {
						lam = true
					}
				}
			}
			for _, t := range texts {
				r.check((t == "lu") == lam, "decision", "clause word "+t+" in "+name, at, fmt.Sprintf("a clause with the word %s binds hoa: %v", t, lam))
			}
		case "BI":
			r.check(len(set) < 2, "decision", "prenex particle in "+name, at, "both particles are treated alike where one is asked for")
		}
	}
}

func pathFacts(st *State) string {
	var out []string
	for f, b := range st.facts {
		out = append(out, fmt.Sprintf("%v=%v", f, b))
	}
	sort.Strings(out)
	s := strings.Join(out, "; ")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}
