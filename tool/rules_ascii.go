package main

// C26: the plain forms of words and texts.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ascWord struct {
	text  string
	ascii string
	plain string
	tone  rune
	with  func(t rune) string
}

func ruleASCII(p *Program, r *Report) {
	x := newSpell(p, nil, r)
	if !x.spellings() {
		return
	}
	fns := map[string]*ssa.Function{}
	for _, n := range []string{"tone.ToASCII", "tone.Strip", "tone.Tone", "tone.WithTone", "ast.ToASCII", "ast.Visit"} {
		if fns[n] = x.byName[n]; !r.check(fns[n] != nil && len(fns[n].Blocks) > 0, "anchor", n, "-", "the function is missing") {
			return
		}
	}
	nones := []rune{0}
	for t := range x.rows {
		nones = append(nones, t)
	}
	sortRunes(nones)
	call := func(n string, args ...*V) *V {
		e := x.s.eng()
		outs := e.Run(fns[n], newState(), args...)
		r.analysed["paths"] += len(outs)
		if e.over || len(outs) != 1 || outs[0].Kind != Ret || len(outs[0].Vals) != 1 {
			return nil
		}
		return e.constArg(outs[0].Vals[0])
	}
	failed := map[string]int{}
	check := func(n, text string, got, want *V) {
		if failed[n] > 3 {
			return
		}
		if !r.check(got == want, n, text, p.pos(fns[n].Pos()), fmt.Sprintf("of the word %q it gives %s and not %s", text, spShow(got), want)) {
			failed[n]++
		}
	}
	for wi, w := range x.asciiWords() {
		check("tone.ToASCII", w.text, call("tone.ToASCII", vStr(w.text)), vStr(w.ascii))
		check("tone.ToASCII", w.ascii, call("tone.ToASCII", vStr(w.ascii)), vStr(w.ascii))
		check("tone.Strip", w.text, call("tone.Strip", vStr(w.text)), vStr(w.plain))
		check("tone.Strip", w.ascii, call("tone.Strip", vStr(w.ascii)), vStr(w.plain))
		check("tone.Tone", w.text, call("tone.Tone", vStr(w.text)), vInt(int64(w.tone)))
		for _, t := range nones {
			if wi%3 != 0 && t != 0 && t != w.tone && t != 'V' {
				continue
			}
			check("tone.WithTone", fmt.Sprintf("%s %q", w.text, t), call("tone.WithTone", vStr(w.text), vInt(int64(t))), vStr(w.with(t)))
		}
	}
	x.asciiTree(fns["ast.ToASCII"], fns["ast.Visit"])
	r.assumption("words are as the grammar gives them: initial, vowels with the tone on the first of them and ı for a small i without tone, q; syllables after the first have the compound tone")
	r.assumption("the grammar takes a tone marker after a syllable for that tone (C09) and ast.Visit meets every word (C04)")
	for _, n := range []string{"tone.ToASCII", "tone.Strip", "tone.Tone", "tone.WithTone"} {
		r.atLeast(n, 500)
	}
}

func sortRunes(rs []rune) {
	for i := range rs {
		for j := i; j > 0 && rs[j] < rs[j-1]; j-- {
			rs[j], rs[j-1] = rs[j-1], rs[j]
		}
	}
}

// asciiWords lists words in every case and tone.
func (x *spell) asciiWords() []ascWord {
	var out []ascWord
	seen := map[string]bool{}
	add := func(syl []string, t rune, form int) {
		var w ascWord
		w.tone = t
		head, tail, first := "", "", ""
		for si, sy := range syl {
			i := strings.IndexAny(sy, "aeiouAEIOU")
			if i < 0 {
				if t != 0 || len(syl) > 1 {
					return
				}
				w.text, w.ascii, w.plain = sy, sy, sy
				s := sy
				w.with = func(rune) string { return s }
				break
			}
			rest := strings.ReplaceAll(sy[i+1:], "i", "ı")
			tn := t
			if si > 0 {
				tn = '-'
			}
			v := strings.ReplaceAll(sy[i:i+1], "i", "ı")
			if tn != 0 {
				fs := x.rows[tn][sy[i:i+1]]
				k := 0
				if si == 0 {
					k = form
				}
				if k >= len(fs) {
					return
				}
				v = fs[k]
				w.ascii += sy + string(tn)
			} else {
				if form > 0 {
					return
				}
				w.ascii += sy
			}
			if si == 0 {
				head, first = sy[:i], sy[i:i+1]
				tail = rest
			} else {
				tail += sy[:i] + v + rest
			}
			w.text += sy[:i] + v + rest
			w.plain += sy
		}
		if w.with == nil {
			w.with = func(t rune) string {
				v := strings.ReplaceAll(first, "i", "ı")
				if t != 0 {
					v = x.rows[t][first][0]
				}
				return head + v + tail
			}
		}
		if !seen[w.text] {
			seen[w.text] = true
			out = append(out, w)
		}
	}
	var words [][]string
	for _, w := range spWords {
		words = append(words, w.syl)
	}
	// every vowel followed by every letter that can follow, at the end and before
	// another syllable
	for _, s := range strings.Fields("m ba bu bi bo be baq buq biq boq beq bai bao buai buao bui buoi bueq biai biao biu biuq bioi bioq bieq boi boeq bei beo beoq beu chaq cha shiq moq") {
		words = append(words, []string{s})
		if s != "m" {
			words = append(words, []string{s, "fi"})
			words = append(words, []string{s, "shoq"}, []string{"nu", s, "heo"})
		}
	}
	for wi, syl := range words {
		for up := -2; up < len(strings.Join(syl, "")); up++ {
			if up >= 0 && wi%2 == 1 && len(syl) > 1 {
				continue
			}
			var c []string
			at := 0
			for _, s := range syl {
				switch {
				case up == -1:
					s = strings.ToUpper(s)
				case up >= at && up < at+len(s):
					i := up - at
					s = s[:i] + strings.ToUpper(s[i:i+1]) + s[i+1:]
				}
				at += len(s)
				c = append(c, s)
			}
			ts := []rune{0}
			for t := range x.rows {
				ts = append(ts, t)
			}
			sortRunes(ts)
			for _, t := range ts {
				if len(syl) > 1 && t == 0 || up >= 0 && len(syl) > 2 && t != 'V' && t != '?' {
					continue
				}
				for f := 0; f < 3; f++ {
					add(c, t, f)
				}
			}
		}
	}
	return out
}

// asciiTree: the words of a tree, and nothing else, become their ASCII forms.
func (x *spell) asciiTree(f, visit *ssa.Function) {
	r := x.r
	where := x.p.pos(f.Pos())
	nodeI := x.p.typ("ast", "Node")
	if !r.check(nodeI != nil && len(f.Params) == 1, "anchor", "ast.Node", "-", "the type is missing or ToASCII has a different form") {
		return
	}
	items := []spItem{{"Space", " "}, {"Word", " "}, {"WordPredicate", "Jảı"}, {"Word", "Jảı"}, {"", ""}, {"Word", "jí"}, {"Word+", "dŏjāı"}, {"Word", "m"}, {"Word", "po/ji-"}, {"Interjection", "bêi"}, {"Word", "bÊI"}}
	want := map[string]string{" ": " ", "m": "m", "Jảı": "Jai?", "jí": "ji/", "dŏjāı": "doVjai-", "po/ji-": "po/ji-", "bÊI": "bEI^", "bêi": "bei^"}
	e := x.s.eng()
	subject := vSym("tree", nodeI)
	whole, n := true, 0
	var objs []*V
	e.Model = x.visiting(visit, items, func(node *V, os []*V) {
		whole = whole && node == subject
		n++
		objs = os
	})
	outs := e.Run(f, newState(), subject)
	if !r.check(!e.over && len(outs) == 1 && outs[0].Kind == Ret && n > 0, "tree", "decided", where, "what becomes of the words of a tree is not decided") {
		return
	}
	r.check(whole, "tree", "whole", where, "it visits something else than the tree that it is given")
	st := outs[0].St
	i := 0
	for _, it := range items {
		if it.typ == "" {
			continue
		}
		c, T := st.heap[objs[i].num], st.otype[objs[i].num]
		i++
		got := vNil
		if c != nil && c.op == OStruct {
			got = e.constArg(c.args[fieldIndex(T, "T")])
		}
		if strings.HasPrefix(it.typ, "Word") && it.typ != "WordPredicate" {
			r.check(got == vStr(want[it.text]), "tree", it.typ+" "+it.text, where, fmt.Sprintf("the word %q becomes %s and not %q", it.text, got, want[it.text]))
		} else {
			// the same memory as its word
			r.check(got == vStr(want[it.text]) || got == vStr(it.text), "tree", it.typ+" "+it.text, where, fmt.Sprintf("the text %q of a %s becomes %s", it.text, it.typ, got))
		}
		for k, a := range c.args {
			if k != fieldIndex(T, "T") {
				after := strings.HasSuffix(it.typ, "+") && k == fieldIndex(T, "M")
				r.check(a == zero(T).args[k] || after && a.op == OIface, "tree", fmt.Sprintf("%s %s field %d", it.typ, it.text, k), where, "another part of the word is changed")
			}
		}
	}
}
