package main

// C09: the tone table and the notations of tones that the parser accepts.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type toneInfo struct {
	sym   rune
	digit rune
	marks string // combining marks
	lower string // forms of a e i o u
	upper string
	more  string // further forms
	moreU string
}

const toneLetters = "aeiou"

var tones = []toneInfo{
	{'-', '1', "\u0304", "āēīōū", "ĀĒĪŌŪ", "", ""},
	{'/', '2', "\u0301", "áéíóú", "ÁÉÍÓÚ", "", ""},
	{'V', '3', "\u030C\u0306", "ǎěǐǒǔ", "ǍĚǏǑǓ", "ăĕĭŏŭ", "ĂĔĬŎŬ"},
	{'?', '4', "\u0309", "ảẻỉỏủ", "ẢẺỈỎỦ", "", ""},
	{'^', '5', "\u0302", "âêîôû", "ÂÊÎÔÛ", "", ""},
	{'\\', '6', "\u0300", "àèìòù", "ÀÈÌÒÙ", "", ""},
	{'~', '7', "\u0303", "ãẽĩõũ", "ÃẼĨÕŨ", "", ""},
}

// toneForms are all forms of a tone and letter: the first is the usual one.
func (t *toneInfo) forms(letter rune) []rune {
	i := strings.IndexRune(toneLetters, letter)
	src := []string{t.lower, t.more}
	if letter == 'ı' {
		i = strings.IndexRune(toneLetters, 'i')
	}
	if i < 0 {
		i = strings.IndexRune(strings.ToUpper(toneLetters), letter)
		src = []string{t.upper, t.moreU}
	}
	var out []rune
	for _, s := range src {
		if rs := []rune(s); i >= 0 && i < len(rs) {
			out = append(out, rs[i])
		}
	}
	return out
}

type formOf struct {
	tone   int
	letter rune // as written, upper or lower case
}

type toneCheck struct {
	p     *Program
	r     *Report
	g     *gram
	s     *statics
	l     *glang
	table map[rune]map[string][]string
	form  map[rune]formOf // built-in forms
}

func ruleTones(p *Program, r *Report) {
	c := &toneCheck{p: p, r: r, s: newStatics(p), form: map[rune]formOf{}}
	for i := range tones {
		for _, l := range toneLetters + strings.ToUpper(toneLetters) {
			for _, f := range tones[i].forms(l) {
				c.form[f] = formOf{i, l}
			}
		}
	}
	if !c.readTable() {
		return
	}
	c.checkDerived()
	c.g = newGram(p)
	for _, e := range c.g.errs {
		r.bad("grammar", e, "-", e)
	}
	c.checkGrammar()
	r.assumption("the combining marks, digits and symbols of the seven tones are those of the table in rules_tone.go")
	r.atLeast("form", 77)
}

func (c *toneCheck) readTable() bool {
	r := c.r
	sp := c.p.ssa["tone"]
	var g *ssa.Global
	if sp != nil {
		g, _ = sp.Members["Diacritic"].(*ssa.Global)
	}
	if !r.check(g != nil, "anchor", "tone.Diacritic", "-", "package variable not found") {
		return false
	}
	at := c.p.pos(g.Pos())
	t := c.s.global(g)
	if !r.check(t != nil && t.m != nil, "anchor", "tone.Diacritic value", at, "the table is not built from literals") {
		return false
	}
	c.table = map[rune]map[string][]string{}
	type tl struct {
		t rune
		l string
	}
	owner := map[string]tl{}
	for _, k := range t.keys {
		kt, ok := (&tval{c: k}).int()
		row := t.get(k)
		if !r.check(ok && row != nil && row.m != nil, "table", k.String(), at, "a row of the table is not a map from letters to forms") {
			return false
		}
		ti := -1
		for i := range tones {
			if tones[i].sym == rune(kt) {
				ti = i
			}
		}
		if !r.check(ti >= 0, "table", fmt.Sprintf("%q", rune(kt)), at, fmt.Sprintf("%q is not one of the seven tones", rune(kt))) {
			continue
		}
		c.table[rune(kt)] = map[string][]string{}
		for _, lk := range row.keys {
			l, _ := (&tval{c: lk}).str()
			for _, f := range row.get(lk).l {
				fs, _ := f.str()
				c.table[rune(kt)][l] = append(c.table[rune(kt)][l], fs)
				id := fmt.Sprintf("%q %s %s", rune(kt), l, fs)
				rs := []rune(fs)
				fo, known := formOf{}, false
				if len(rs) == 1 {
					fo, known = c.form[rs[0]]
				}
				same := known && fo.tone == ti && (string(fo.letter) == l || fo.letter == 'i' && l == "ı")
				r.check(same, "form", id, at, fmt.Sprintf("%q is listed as the letter %s with the tone %q, which it is not", fs, l, rune(kt)))
				base := l
				if base == "ı" {
					base = "i"
				}
				if o, ok := owner[fs]; ok && (o.t != rune(kt) || o.l != base) {
					r.bad("one meaning", id, at, fmt.Sprintf("%q stands for %s with %q and for %s with %q", fs, o.l, o.t, l, rune(kt)))
				}
				owner[fs] = tl{rune(kt), base}
			}
		}
	}
	for i := range tones {
		for _, l := range "aeiıouAEIOU" {
			fs := c.table[tones[i].sym][string(l)]
			want := string(tones[i].forms(l)[0])
			r.check(len(fs) > 0 && fs[0] == want, "complete", fmt.Sprintf("%q %c", tones[i].sym, l), at, fmt.Sprintf("the first form of %c with the tone %q is %q, not %q", l, tones[i].sym, fs, want))
		}
	}
	// nobody changes it
	for _, f := range c.s.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var m ssa.Value
				switch x := in.(type) {
				case *ssa.MapUpdate:
					m = x.Map
				case *ssa.Store:
					m = x.Addr
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") {
						m = x.Call.Args[0]
					}
				}
				if m != nil && m != ssa.Value(g) && derivedFrom(m, g, 0) {
					r.bad("table", f.String()+" changes the table", c.p.pos(in.Pos()), f.String()+" changes tone.Diacritic")
				}
			}
		}
	}
	return true
}

// derivedFrom: v is reached from the contents of the variable g.
func derivedFrom(v ssa.Value, g *ssa.Global, d int) bool {
	if d > 20 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x == g
	case *ssa.UnOp:
		return derivedFrom(x.X, g, d+1)
	case *ssa.Lookup:
		return derivedFrom(x.X, g, d+1)
	case *ssa.IndexAddr:
		return derivedFrom(x.X, g, d+1)
	case *ssa.Extract:
		return derivedFrom(x.Tuple, g, d+1)
	case *ssa.Next:
		return derivedFrom(x.Iter, g, d+1)
	case *ssa.Range:
		return derivedFrom(x.X, g, d+1)
	case *ssa.Slice:
		return derivedFrom(x.X, g, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && derivedFrom(e, g, d+5) {
				return true
			}
		}
	}
	return false
}

// ---- the grammar

// toneOf classifies a text that a rule accepts: the tone that it marks, the letter that it marks it
// on, and how.
func (c *toneCheck) classify(s string) (tone int, letter rune, how string) {
	rs := []rune(s)
	if len(rs) == 1 {
		if f, ok := c.form[rs[0]]; ok {
			return f.tone, f.letter, "form"
		}
		for i := range tones {
			if rs[0] == tones[i].sym || rs[0] == tones[i].digit || strings.ContainsRune(tones[i].marks, rs[0]) {
				return i, 0, "notation"
			}
		}
		if strings.ContainsRune("aeiıouAEIOU", rs[0]) {
			return -1, rs[0], "plain"
		}
	}
	if len(rs) == 2 && strings.ContainsRune("aeiıouAEIOU", rs[0]) {
		if t, l, how := c.classify(string(rs[1])); how == "notation" && l == 0 {
			return t, rs[0], "marked"
		}
	}
	return -1, 0, ""
}

func lowerVowel(l rune) rune {
	if l == 'ı' {
		return 'i'
	}
	return []rune(strings.ToLower(string(l)))[0]
}

func (c *toneCheck) checkGrammar() {
	g, r := c.g, c.r
	c.l = newLang(g, nil)

	vowel := map[string]formOf{} // rules of toned vowels
	plain := map[string]rune{}
	toneR := map[string]int{} // rules of notations
	for _, n := range g.names {
		hit := false
		for _, x := range g.runesOf(n) {
			_, _, how := c.classify(string(x))
			hit = hit || how != ""
		}
		if !hit {
			continue
		}
		ts, err := c.l.texts(n, "Accepts")
		if err != "" || len(ts) == 0 {
			continue
		}
		kinds := map[string]int{}
		for _, s := range ts {
			_, _, how := c.classify(s)
			kinds[how]++
		}
		switch {
		case kinds["form"] > 0:
			c.vowelRule(n, ts, vowel)
		case kinds["plain"] > 0:
			_, l, _ := c.classify(ts[0])
			for _, s := range ts {
				if _, x, how := c.classify(s); how == "plain" && x != 'ı' {
					l = x
				}
			}
			plain[n] = lowerVowel(l)
			c.plainRule(n, lowerVowel(l))
		case kinds["notation"] == len(ts):
			t, _, _ := c.classify(ts[0])
			toneR[n] = t
			c.notationRule(n, ts, t)
		}
	}
	for i := range tones {
		for _, l := range toneLetters {
			found := false
			for n, f := range vowel {
				_ = n
				found = found || f.tone == i && f.letter == l
			}
			r.check(found, "vowel rule", fmt.Sprintf("%q %c", tones[i].sym, l), "ast/toaq.go", fmt.Sprintf("no rule of the grammar accepts the letter %c with the tone %q", l, tones[i].sym))
		}
	}
	for _, l := range toneLetters {
		found := false
		for _, x := range plain {
			found = found || x == l
		}
		r.check(found, "vowel rule", "plain "+string(l), "ast/toaq.go", fmt.Sprintf("no rule of the grammar accepts the plain letter %c", l))
	}
	c.values(vowel, plain, toneR)
	c.groups(vowel, plain, toneR)
}

func (c *toneCheck) fnPos(n, kind string) string {
	if f := c.g.byRule[n][kind]; f != nil {
		return c.p.pos(f.Pos())
	}
	return "ast/toaq.go"
}

// sameTexts compares what a function of a rule accepts with what is wanted.
func (c *toneCheck) sameTexts(n, kind, what string, want map[string]bool) {
	ts, err := c.l.texts(n, kind)
	fn := n + kind
	if err != "" {
		c.r.bad("undecided", fn, c.fnPos(n, kind), err)
		return
	}
	var missing, extra []string
	has := map[string]bool{}
	for _, s := range ts {
		has[s] = true
		if !want[s] {
			extra = append(extra, fmt.Sprintf("%q", s))
		}
	}
	for _, s := range sortedKeys(want) {
		if !has[s] {
			missing = append(missing, fmt.Sprintf("%q", s))
		}
	}
	c.r.check(len(missing) == 0, "accepts all", fn, c.fnPos(n, kind), fn+", which stands for "+what+", does not accept "+strings.Join(missing, ", "))
	c.r.check(len(extra) == 0, "accepts only", fn, c.fnPos(n, kind), fn+", which stands for "+what+", accepts "+strings.Join(extra, ", "))
}

func (c *toneCheck) notations(t int) []string {
	out := []string{string(tones[t].sym), string(tones[t].digit)}
	for _, m := range tones[t].marks {
		out = append(out, string(m))
	}
	return out
}

func cases(l rune) []rune {
	out := []rune{l, []rune(strings.ToUpper(string(l)))[0]}
	if l == 'i' {
		out = append(out, 'ı')
	}
	return out
}

func (c *toneCheck) vowelRule(n string, ts []string, vowel map[string]formOf) {
	// the tone and letter of most of its forms
	count := map[formOf]int{}
	tonesOf := map[int]bool{}
	for _, s := range ts {
		if t, l, how := c.classify(s); how == "form" {
			count[formOf{t, lowerVowel(l)}]++
			tonesOf[t] = true
		}
	}
	seqs, _ := c.l.seqs(n, "Accepts")
	direct := false
	for _, s := range seqs {
		if len(s) == 1 && s[0].rule == "" {
			direct = true
		}
	}
	if !direct {
		return // a rule that gathers others
	}
	var best formOf
	max := 0
	for _, f := range sortedForms(count) {
		if count[f] > max {
			max, best = count[f], f
		}
	}
	vowel[n] = best
	want := map[string]bool{}
	for _, l := range cases(best.letter) {
		for _, f := range c.table[tones[best.tone].sym][string(l)] {
			want[f] = true
		}
		for _, m := range c.notations(best.tone) {
			want[string(l)+m] = true
		}
	}
	for _, k := range gramSuffix {
		c.sameTexts(n, k, fmt.Sprintf("%c with the tone %q", best.letter, tones[best.tone].sym), want)
	}
}

func sortedForms(m map[formOf]int) []formOf {
	var out []formOf
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].tone < out[j].tone || out[i].tone == out[j].tone && out[i].letter < out[j].letter
	})
	return out
}

func (c *toneCheck) plainRule(n string, l rune) {
	want := map[string]bool{}
	for _, x := range cases(l) {
		want[string(x)] = true
	}
	for _, k := range gramSuffix {
		c.sameTexts(n, k, "the plain letter "+string(l), want)
	}
}

// notationRule: all notations are of one tone.
func (c *toneCheck) notationRule(n string, ts []string, t int) {
	seqs, _ := c.l.seqs(n, "Accepts")
	all := map[int]bool{}
	for _, s := range ts {
		x, _, _ := c.classify(s)
		all[x] = true
	}
	gather := true
	for _, s := range seqs {
		gather = gather && len(s) == 1 && s[0].rule != ""
	}
	if gather && len(all) > 1 {
		c.r.check(len(all) == len(tones), "any tone", n, c.fnPos(n, "Accepts"), fmt.Sprintf("%s, which accepts the notations of several tones, has those of %d of the %d", n, len(all), len(tones)))
		return
	}
	for _, k := range gramSuffix {
		ts, err := c.l.texts(n, k)
		if err != "" {
			c.r.bad("undecided", n+k, c.fnPos(n, k), err)
			continue
		}
		for _, s := range ts {
			x, _, how := c.classify(s)
			c.r.check(x == t && how == "notation", "notation", fmt.Sprintf("%s%s %q", n, k, s), c.fnPos(n, k), fmt.Sprintf("%s%s accepts %q among the notations of the tone %q", n, k, s, tones[t].sym))
		}
		both := map[string]bool{}
		for _, s := range ts {
			both[s] = true
		}
		if both[string(tones[t].sym)] || both[string(tones[t].digit)] {
			c.r.check(both[string(tones[t].sym)] && both[string(tones[t].digit)], "notation", n+k+" both", c.fnPos(n, k), fmt.Sprintf("%s%s does not accept both %q and %q", n, k, tones[t].sym, tones[t].digit))
		}
	}
}

// ---- values

type litCall struct {
	fn   *ssa.Function
	args []gval
}

// litPaths lists the accepting paths of a rule's action function; the shape of a value that an
// action makes is "lit N", where N is the number of the call.
func (c *toneCheck) litPaths(n string) ([]*gpath, []litCall, string) {
	var calls []litCall
	ids := map[string]int{}
	c.g.lit = func(fn *ssa.Function, args []gval) gval {
		k := fn.String()
		for _, a := range args {
			k += " " + a.String() + a.s
		}
		id, ok := ids[k]
		if !ok {
			id = len(calls)
			ids[k] = id
			calls = append(calls, litCall{fn, args})
		}
		a, b, any := 0, 0, false
		for _, x := range args {
			if x.k == gSeg || x.k == gPSeg {
				if !any {
					a, any = x.a, true
				}
				b = x.b
			}
		}
		return gval{k: gSeg, a: a, b: b, s: fmt.Sprintf("lit %d", id)}
	}
	defer func() { c.g.lit = nil }()
	ps, err := c.g.paths(n, "Action", c.l.alphabet(n))
	return ps, calls, err
}

// evalLit analyses an action with some of its parameters known, on all its paths.
func (c *toneCheck) evalLit(fn *ssa.Function, args []*V) (res []*V, err string) {
	e := newEng(c.p)
	outs := e.Run(fn, newState(), args...)
	if e.over {
		return nil, "too many paths"
	}
	for _, o := range outs {
		if !c.feasible(o.St) {
			continue
		}
		switch {
		case o.Kind == Ret && len(o.Vals) == 1:
			res = append(res, o.Vals[0])
		case o.Kind == Panicked:
			return nil, "ends in a panic"
		default:
			return nil, "is not followed to its end"
		}
	}
	if len(res) == 0 {
		return nil, "returns nothing"
	}
	return res, ""
}

// feasible: the answers of look-ups in package tables that the path took are those of the tables.
func (c *toneCheck) feasible(st *State) bool {
	for a, b := range st.facts {
		if a.op == OExtract && a.num == 1 && a.args[0].op == OLookup {
			l := a.args[0]
			m, k := c.s.resolve(l.args[0]), c.s.resolve(l.args[1])
			if m != nil && m.m != nil && k != nil && k.c != nil && (m.get(k.c) != nil) != b {
				return false
			}
		}
	}
	for x, n := range st.shape {
		if x.op == OLookup {
			m, k := c.s.resolve(x.args[0]), c.s.resolve(x.args[1])
			if m != nil && m.m != nil && k != nil && k.c != nil {
				if l := m.get(k.c); l == nil && n != 0 || l != nil && l.l != nil && int64(len(l.l)) != n {
					return false
				}
			}
		}
	}
	return true
}

func (c *toneCheck) formFor(t int, letter string) string {
	if fs := c.table[tones[t].sym][letter]; len(fs) > 0 {
		return fs[0]
	}
	return ""
}

func segParams(call litCall) map[int]gval {
	out := map[int]gval{}
	for i, a := range call.args {
		if (a.k == gSeg || a.k == gPSeg) && i < len(call.fn.Params) && isString(call.fn.Params[i].Type()) {
			out[i] = a
		}
	}
	return out
}

func (c *toneCheck) litArgs(call litCall, vals map[int]*V) []*V {
	var args []*V
	for i, q := range call.fn.Params {
		if v, ok := vals[i]; ok {
			args = append(args, v)
		} else {
			args = append(args, vSym(q.Name(), q.Type()))
		}
	}
	return args
}

func (c *toneCheck) values(vowel map[string]formOf, plain map[string]rune, toneR map[string]int) {
	r := c.r
	// what plain vowels are turned into
	pval := map[string][]string{}
	for _, n := range sortedKeys(plain) {
		at := c.fnPos(n, "Action")
		ps, calls, err := c.litPaths(n)
		if err != "" {
			r.bad("undecided", n+"Action", at, err)
			continue
		}
		set := map[string]bool{}
		for _, p := range ps {
			ts, ok := p.taken()
			if !ok || len(ts) != 1 || ts[0].kind != "rune" {
				r.bad("undecided", n+"Action", at, "a plain vowel is not one letter of the text")
				continue
			}
			x := string(ts[0].r)
			id := fmt.Sprintf("%sAction %s", n, x)
			v := p.ret[1]
			got := ""
			var k int
			if cnt, _ := fmt.Sscanf(v.s, "lit %d", &k); cnt == 1 {
				vals := map[int]*V{}
				for i := range segParams(calls[k]) {
					vals[i] = vStr(x)
				}
				res, err := c.evalLit(calls[k].fn, c.litArgs(calls[k], vals))
				if err != "" || len(res) != 1 {
					r.bad("undecided", id, at, "the action for "+x+" "+err)
					continue
				}
				got, _ = c.s.resolve(res[0]).str()
			} else if v.k == gPSeg && v.a == 0 && v.b == p.end && v.s == "" {
				got = x
			}
			ok = got == x || lowerVowel(ts[0].r) == 'i' && x != "I" && (got == "i" || got == "ı")
			r.check(ok, "plain value", id, at, fmt.Sprintf("the letter %s is turned into %q", x, got))
			set[got] = true
		}
		pval[n] = sortedKeys(set)
	}
	for _, n := range sortedKeys(vowel) {
		f := vowel[n]
		at := c.fnPos(n, "Action")
		ps, calls, err := c.litPaths(n)
		if err != "" {
			r.bad("undecided", n+"Action", at, err)
			continue
		}
		for _, p := range ps {
			ts, ok := p.taken()
			if !ok {
				r.bad("undecided", n+"Action", at, "a path is not followed")
				continue
			}
			id := fmt.Sprintf("%sAction %s", n, seqString(items(ts)))
			v := p.ret[1]
			if len(ts) == 1 && ts[0].kind == "rune" {
				r.check(v.k == gPSeg && v.a == 0 && v.b == p.end && v.s == "", "form kept", id, at, fmt.Sprintf("the value of %q is not that form itself", ts[0].r))
				continue
			}
			var k int
			if cnt, _ := fmt.Sscanf(v.s, "lit %d", &k); cnt != 1 {
				r.bad("form made", id, at, "a letter with a mark is not turned into the form with that tone")
				continue
			}
			sp := segParams(calls[k])
			pi := -1
			for i, a := range sp {
				if len(pval[a.s]) > 0 {
					pi = i
				}
			}
			if pi < 0 {
				r.bad("undecided", id, at, "the action does not get the letter")
				continue
			}
			for _, x := range pval[sp[pi].s] {
				res, err := c.evalLit(calls[k].fn, c.litArgs(calls[k], map[int]*V{pi: vStr(x)}))
				want := c.formFor(f.tone, x)
				var got []string
				all := err == ""
				for _, y := range res {
					s, ok := c.s.resolve(y).str()
					all = all && ok && s == want && want != ""
					got = append(got, fmt.Sprintf("%q", s))
				}
				if err != "" {
					got = []string{err}
				}
				r.check(all, "form made", id+" "+x, at, fmt.Sprintf("%s with the tone %q becomes %s, not %q", x, tones[f.tone].sym, strings.Join(got, ", "), want))
			}
		}
	}
	// tones after the syllable
	found := map[int]bool{}
	for _, n := range c.g.names {
		fn := c.g.byRule[n]["Action"]
		if fn == nil || !c.callsAny(fn, toneR) || vowel[n].letter != 0 {
			continue
		}
		at := c.fnPos(n, "Action")
		ps, calls, err := c.litPaths(n)
		if err != "" {
			r.bad("undecided", n+"Action", at, err)
			continue
		}
		for _, p := range ps {
			ts, ok := p.taken()
			if !ok {
				r.bad("undecided", n+"Action", at, "a path is not followed")
				continue
			}
			for i, s := range ts {
				t, ok := toneR[s.name]
				if s.kind != "rule" || !ok || i == 0 {
					continue
				}
				// the call that gets this tone
				var call *litCall
				ti, di := -1, -1
				for k := range calls {
					for j, a := range segParams(calls[k]) {
						if a.a == s.from && a.b == s.to {
							call, ti = &calls[k], j
						}
					}
				}
				if call == nil {
					r.bad("tone used", fmt.Sprintf("%sAction %s", n, seqString(items(ts))), at, "a tone that follows the syllable is dropped")
					continue
				}
				for j, a := range segParams(*call) {
					if j != ti && a.b == s.from {
						di = j
					}
				}
				if di < 0 {
					r.bad("undecided", n+"Action", at, "the action that adds a tone does not get the syllable before it")
					continue
				}
				prev := ts[i-1].name
				c.addTone(n, at, *call, di, ti, prev, s.name, t, plain, pval)
				found[t] = true
				// other alternatives at the same place
				for _, st := range p.steps {
					if st.kind == "rule" && st.from == ts[i-1].from && st.name != prev {
						tt, err := c.firstTones(st.name, vowel, plain)
						if err == "" && len(tt) > 0 {
							for x := range tt {
								r.check(x == t || x < 0, "same tone", fmt.Sprintf("%s %s %s", n, st.name, s.name), at, fmt.Sprintf("%s takes %s with the tone %s, and the notations of the tone %q after the syllable", n, st.name, toneName(x), tones[t].sym))
							}
						}
					}
				}
			}
		}
	}
	for i := range tones {
		r.check(found[i], "tone after syllable", string(tones[i].sym), "ast/toaq.go", fmt.Sprintf("no rule adds the tone %q after a syllable", tones[i].sym))
	}
}

func toneName(t int) string {
	if t < 0 {
		return "none"
	}
	return fmt.Sprintf("%q", tones[t].sym)
}

func (c *toneCheck) callsAny(fn *ssa.Function, rules map[string]int) bool {
	for _, f := range callees(c.p, fn) {
		if n := c.g.rules[f]; n != "" {
			if _, ok := rules[n]; ok {
				return true
			}
		}
	}
	return false
}

// addTone checks the action that puts a tone that follows the syllable on its vowel.
func (c *toneCheck) addTone(n, at string, call litCall, di, ti int, des, toneRule string, t int, plain map[string]rune, pval map[string][]string) {
	r := c.r
	firsts, err := c.firstRules(des)
	if err != "" {
		r.bad("undecided", n+"Action", at, err)
		return
	}
	notes, err := c.l.texts(toneRule, "Action")
	if err != "" {
		r.bad("undecided", toneRule+"Action", at, err)
		return
	}
	rest := vSym("rest of the syllable", types.Typ[types.String])
	for _, f := range firsts {
		if len(pval[f]) == 0 {
			r.bad("tone added", n+" "+f, at, "a tone is added to a syllable that begins with "+f+", which is no plain vowel")
			continue
		}
		for _, x := range pval[f] {
			for _, note := range notes {
				id := fmt.Sprintf("%sAction %s %q", n, x, note)
				res, err := c.evalLit(call.fn, c.litArgs(call, map[int]*V{di: mkConcat(vStr(x), rest), ti: vStr(note)}))
				want := c.formFor(t, x)
				ok := err == "" && want != ""
				got := err
				for _, y := range res {
					got = y.String()
					if y.op != OConcat || y.args[len(y.args)-1] != rest {
						ok = false
						continue
					}
					s := ""
					for _, a := range y.args[:len(y.args)-1] {
						z, k := c.s.resolve(a).str()
						ok = ok && k
						s += z
					}
					got = fmt.Sprintf("%q and the rest", s)
					ok = ok && s == want
				}
				r.check(ok, "tone added", id, at, fmt.Sprintf("%s… with %q becomes %s, not %q and the rest", x, note, got, want))
			}
		}
	}
}

// firstRules are the rules that the texts of a rule begin with.
func (c *toneCheck) firstRules(n string) ([]string, string) {
	seqs, err := c.l.seqs(n, "Accepts")
	if err != "" {
		return nil, err
	}
	set := map[string]bool{}
	for _, s := range seqs {
		if len(s) == 0 || s[0].rule == "" {
			set[n] = true
			continue
		}
		if len(s) == 1 && len(seqs) == 1 {
			// a rule that only stands for another
			return c.firstRules(s[0].rule)
		}
		set[s[0].rule] = true
	}
	return sortedKeys(set), ""
}

func (c *toneCheck) firstTones(n string, vowel map[string]formOf, plain map[string]rune) (map[int]bool, string) {
	fs, err := c.firstRules(n)
	out := map[int]bool{}
	for _, f := range fs {
		if x, ok := vowel[f]; ok {
			out[x.tone] = true
		} else if _, ok := plain[f]; ok {
			out[-1] = true
		} else {
			return nil, "other"
		}
	}
	return out, err
}

// groups checks the rules that take vowels of one tone, or one vowel of all tones.
func (c *toneCheck) groups(vowel map[string]formOf, plain map[string]rune, toneR map[string]int) {
	r := c.r
	type shape struct {
		n    string
		seqs map[string]bool
	}
	var ds []shape
	for _, n := range c.g.names {
		if _, ok := vowel[n]; ok {
			continue
		}
		if _, ok := plain[n]; ok {
			continue
		}
		fn := c.g.byRule[n]["Accepts"]
		if fn == nil {
			continue
		}
		uses := 0
		for _, f := range callees(c.p, fn) {
			m := c.g.rules[f]
			_, a := vowel[m]
			_, b := plain[m]
			if a || b {
				uses++
			}
		}
		if uses < 4 {
			continue
		}
		seqs, err := c.l.seqs(n, "Accepts")
		if err != "" {
			continue
		}
		tones_ := map[int]bool{}
		letters := map[rune]bool{}
		sh := shape{n, map[string]bool{}}
		other, single := false, true
		for _, s := range seqs {
			if len(s) == 0 || s[0].rule == "" {
				other = true
				break
			}
			var l rune
			if f, ok := vowel[s[0].rule]; ok {
				tones_[f.tone] = true
				l = f.letter
			} else if x, ok := plain[s[0].rule]; ok {
				tones_[-1] = true
				l = x
			} else {
				other = true
				break
			}
			letters[l] = true
			single = single && len(s) == 1
			id := string(l)
			for _, it := range s[1:] {
				id += " " + it.rule + it.text
			}
			sh.seqs[id] = true
		}
		switch {
		case other:
		case len(letters) == 1 && single:
			r.check(len(tones_) == len(tones)+1, "all tones", n, c.fnPos(n, "Accepts"), fmt.Sprintf("%s takes one vowel with %d of the %d tones and none", n, len(tones_), len(tones)+1))
		case len(letters) > 1:
			r.check(len(tones_) == 1, "one tone", n, c.fnPos(n, "Accepts"), n+" takes vowels of different tones in the same place")
			ds = append(ds, sh)
		}
	}
	all := map[string]int{}
	for _, d := range ds {
		for s := range d.seqs {
			all[s]++
		}
	}
	for _, s := range sortedKeys(all) {
		for _, d := range ds {
			r.check(d.seqs[s] || 2*all[s] < len(ds), "same syllables", d.n+" "+s, c.fnPos(d.n, "Accepts"), fmt.Sprintf("%s does not take %q, which it takes with other tones", d.n, s))
			r.check(!d.seqs[s] || 2*all[s] >= len(ds), "same syllables", d.n+" only "+s, c.fnPos(d.n, "Accepts"), fmt.Sprintf("%s takes %q, which is not taken with other tones", d.n, s))
		}
	}
	r.check(len(ds) == len(tones)+1, "desinences", "ast/toaq.go", "ast/toaq.go", fmt.Sprintf("%d rules take the vowels of a syllable with one tone, not %d", len(ds), len(tones)+1))
}

// ---- tables made from the table

// descr says what a value is in terms of the table: D the table, T a tone, row, L a letter, forms,
// F a form; 1X is the first rune of X.
func (c *toneCheck) descr(v ssa.Value, env map[ssa.Value]string, d int) string {
	if d > 30 {
		return ""
	}
	if s, ok := env[v]; ok {
		return s
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return ""
		}
		if g, ok := x.X.(*ssa.Global); ok {
			if g.Name() == "Diacritic" && g.Pkg.Pkg.Name() == "tone" {
				return "D"
			}
			return ""
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok {
			if c.descr(ia.X, env, d+1) == "forms" {
				return "F"
			}
			if cv, ok := ia.X.(*ssa.Convert); ok && isRuneSlice(cv.Type()) {
				if k, ok := ia.Index.(*ssa.Const); ok && k.Int64() == 0 {
					return "1" + c.descr(cv.X, env, d+1)
				}
			}
		}
	case *ssa.Lookup:
		switch c.descr(x.X, env, d+1) + c.descr(x.Index, env, d+1) {
		case "DT":
			return "row"
		case "rowL":
			return "forms"
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			rg, ok := t.Iter.(*ssa.Range)
			if !ok {
				return ""
			}
			switch c.descr(rg.X, env, d+1) {
			case "D":
				return []string{"", "T", "row"}[x.Index]
			case "row":
				return []string{"", "L", "forms"}[x.Index]
			case "F":
				if x.Index == 2 {
					return "1F"
				}
			}
		case *ssa.Call:
			f := t.Call.StaticCallee()
			if f != nil && f.String() == "unicode/utf8.DecodeRuneInString" && x.Index == 0 {
				return "1" + c.descr(t.Call.Args[0], env, d+1)
			}
		}
	case *ssa.Convert:
		return c.descr(x.X, env, d+1)
	case *ssa.ChangeType:
		return c.descr(x.X, env, d+1)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !c.p.inRepo(f) || len(f.Blocks) != 1 {
			return ""
		}
		ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return ""
		}
		e2 := map[ssa.Value]string{}
		for i, a := range x.Call.Args {
			if s := c.descr(a, env, d+1); s != "" {
				e2[f.Params[i]] = s
			}
		}
		return c.descr(ret.Results[0], e2, d+1)
	}
	return ""
}

func (c *toneCheck) checkDerived() {
	r := c.r
	n := map[string]int{}
	for _, f := range append(c.p.allFuncs("tone"), c.p.ssa["tone"].Func("init")) {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				mt, ok := u.Map.Type().Underlying().(*types.Map)
				if !ok || !isInteger(mt.Key()) || !isInteger(mt.Elem()) {
					continue
				}
				k, v := c.descr(u.Key, nil, 0), c.descr(u.Value, nil, 0)
				at := c.p.pos(in.Pos())
				if k != "1F" || v != "T" && v != "1L" {
					r.bad("derived table", f.String(), at, "an entry of a table of runes is not a form of the tone table with its tone or its letter")
					continue
				}
				n[v]++
				r.ok("derived table", f.String()+" "+v)
				c.guards(f, u, v)
			}
		}
	}
	at := "tone/tone.go"
	r.check(n["T"] > 0, "derived table", "tones of forms", at, "no table from forms to their tones is made from the tone table")
	r.check(n["1L"] > 0, "derived table", "letters of forms", at, "no table from forms to their letters is made from the tone table")
	// lists of the tones' symbols
	for _, m := range sortedKeys(c.p.ssa["tone"].Members) {
		g, ok := c.p.ssa["tone"].Members[m].(*ssa.Global)
		if !ok {
			continue
		}
		s, ok := c.s.global(g).str()
		if !ok || len(s) < 4 {
			continue
		}
		c.symbols(s, "tone."+m, c.p.pos(g.Pos()))
	}
}

// symbols checks a list that consists of symbols of tones only.
func (c *toneCheck) symbols(s, id, at string) {
	set := map[rune]bool{}
	for _, x := range s {
		ok := false
		for i := range tones {
			ok = ok || tones[i].sym == x
		}
		if !ok {
			return
		}
		set[x] = true
	}
	c.r.check(len(set) == len(tones), "symbols", id, at, fmt.Sprintf("%s lists %d of the %d tones", id, len(set), len(tones)))
}

// guards: within the loops nothing but the dotless i keeps an entry from being made.
func (c *toneCheck) guards(f *ssa.Function, u *ssa.MapUpdate, v string) {
	dotless := false
	for _, l := range loopsOf(f) {
		if !l.in[u.Block()] {
			continue
		}
		for b := range l.in {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if isLoopCond(iff.Cond) {
				continue
			}
			// does it decide whether the entry is made?
			if b.Succs[0].Dominates(u.Block()) == b.Succs[1].Dominates(u.Block()) && !b.Dominates(u.Block()) {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			at := c.p.pos(iff.Cond.Pos())
			if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
				c.r.bad("derived table", f.String()+" guard", at, "some entries of the tone table may be left out of a table that is made from it")
				continue
			}
			isI := func(x, y ssa.Value) bool {
				d := c.descr(x, nil, 0)
				k, ok := y.(*ssa.Const)
				if !ok || d != "1L" && d != "L" {
					return false
				}
				if d == "L" {
					s, _ := constOf(k).str()
					return s == "ı"
				}
				n, _ := constOf(k).int()
				return n == 'ı'
			}
			made := 1 // successor on which the entry is made
			if bo.Op == token.NEQ {
				made = 0
			}
			good := (isI(bo.X, bo.Y) || isI(bo.Y, bo.X)) && b.Succs[made].Dominates(u.Block())
			c.r.check(good, "derived table", f.String()+" guard", at, "some entries of the tone table may be left out of a table that is made from it")
			dotless = dotless || good
		}
	}
	if v == "1L" {
		c.r.check(dotless, "derived table", f.String()+" dotless", c.p.pos(u.Pos()), "a form of i may be given the dotless letter as its plain letter")
	}
}

func isLoopCond(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Call)
		if ok {
			bi, ok := c.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len"
		}
	}
	return false
}
