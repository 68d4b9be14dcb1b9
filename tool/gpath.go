package main

// Paths of loop-free parser functions, and the finite sets of texts that they accept.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gstep struct {
	kind, name string // of the query
	fn         *ssa.Function
	from, to   int // tokens; to is -1 if the query fails or takes nothing
	r          rune
	ok         bool
}

type gpath struct {
	steps []gstep
	ret   []gval
	end   int // token at which the accepted text ends
}

// taken are the steps that took the text from 0 to the end.
func (p *gpath) taken() ([]gstep, bool) {
	by := map[int]gstep{}
	for _, s := range p.steps {
		if s.to > 0 {
			by[s.to] = s
		}
	}
	var out []gstep
	for at := p.end; at != 0; {
		s, ok := by[at]
		if !ok || len(out) > 60 {
			return nil, false
		}
		out = append([]gstep{s}, out...)
		at = s.from
	}
	return out, true
}

// paths lists the accepting paths of a function of a rule. The same question at the same place has
// the same answer on a path.
func (g *gram) paths(rule, kind string, runes []rune) (out []*gpath, err string) {
	fn := g.byRule[rule][kind]
	if fn == nil {
		return nil, "the rule " + rule + " has no " + kind + " function"
	}
	save := g.cur
	g.cur = rule
	defer func() { g.cur = save }()
	n := 0
	var rec func(m *gm, steps []gstep, nt int)
	rec = func(m *gm, steps []gstep, nt int) {
		n++
		if err != "" {
			return
		}
		if n > 30000 || len(steps) > 120 {
			err = "too many paths"
			return
		}
		for _, o := range g.joinOuts(g.run(m)) {
			if o.err != "" {
				err = o.err
				return
			}
			if o.isRet {
				end := -1
				if len(o.ret) > 0 {
					switch x := o.ret[0]; {
					case x.k == gDelta && x.a == 0:
						end = x.b
					case x.k == gPos:
						end = x.a
					}
				}
				for i, x := range o.ret {
					if x.k == gAddr {
						if x = g.load(o.m, x); x.k == gSeg {
							o.ret[i] = gval{k: gPSeg, a: x.a, b: x.b, s: x.s}
						}
					}
				}
				if end >= 0 && len(o.ret) > 1 && o.ret[1].k != gNil {
					out = append(out, &gpath{steps: steps[:len(steps):len(steps)], ret: o.ret, end: end})
				}
				continue
			}
			q := o.q
			var known *gstep
			for i := range steps {
				s := &steps[i]
				if s.kind == q.kind && s.name == q.name && s.from == q.pos && s.kind != "pred" {
					known = s
				}
			}
			for _, a := range g.answers(q, runes) {
				s := gstep{kind: q.kind, name: q.name, fn: q.fn, from: q.pos, to: -1}
				s.ok = a.name == "ok" || a.name == "there" || a.name == "true" || a.name == "long enough" || q.kind == "rune" && a.adv
				t := nt
				if s.ok && (q.kind == "rule" || q.kind == "lit" || q.kind == "rune") {
					s.to = t
				}
				if q.kind == "rune" && a.adv {
					s.r = a.r
				}
				if known != nil {
					if known.ok != s.ok || known.r != s.r {
						continue
					}
					t = known.to
					s.to = known.to
				}
				m2 := o.m.clone()
				v := a.val(m2, q, t)
				rec(g.resume(m2, v), append(steps[:len(steps):len(steps)], s), nt+1)
			}
		}
	}
	rec(g.start(fn), nil, 1)
	return out, err
}

// gitem is one part of an accepted text: some text or a rule.
type gitem struct {
	text string
	rule string
}

func seqString(s []gitem) string {
	var ss []string
	for _, i := range s {
		if i.rule != "" {
			ss = append(ss, i.rule)
		} else {
			ss = append(ss, fmt.Sprintf("%q", i.text))
		}
	}
	return strings.Join(ss, " ")
}

// gseqs computes the sequences of parts that a function of a rule accepts.
type glang struct {
	g     *gram
	runes []rune
	seq   map[string][][]gitem
	seqE  map[string]string
	set   map[string][]string
	setE  map[string]string
	open  map[string]bool
}

func newLang(g *gram, extra []rune) *glang {
	return &glang{g: g, runes: extra, seq: map[string][][]gitem{}, seqE: map[string]string{}, set: map[string][]string{}, setE: map[string]string{}, open: map[string]bool{}}
}

func (l *glang) alphabet(rule string) []rune {
	set := map[rune]bool{}
	for _, r := range l.g.runesOf(rule) {
		set[r] = true
	}
	for _, r := range l.runes {
		set[r] = true
	}
	var rs []rune
	for r := range set {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

func (l *glang) seqs(rule, kind string) ([][]gitem, string) {
	k := rule + " " + kind
	if s, ok := l.seq[k]; ok {
		return s, l.seqE[k]
	}
	ps, err := l.g.paths(rule, kind, l.alphabet(rule))
	seen := map[string]bool{}
	var out [][]gitem
	for _, p := range ps {
		ts, ok := p.taken()
		if !ok {
			err = "a path is not followed"
			break
		}
		s := items(ts)
		if id := seqString(s); !seen[id] {
			seen[id] = true
			out = append(out, s)
		}
	}
	l.seq[k], l.seqE[k] = out, err
	return out, err
}

func items(ts []gstep) []gitem {
	var s []gitem
	for _, t := range ts {
		switch t.kind {
		case "rune":
			s = append(s, gitem{text: string(t.r)})
		case "lit":
			s = append(s, gitem{text: t.name})
		default:
			s = append(s, gitem{rule: t.name})
		}
	}
	return s
}

// texts is the finite set of texts that a function of a rule accepts.
func (l *glang) texts(rule, kind string) ([]string, string) {
	k := rule + " " + kind
	if s, ok := l.set[k]; ok {
		return s, l.setE[k]
	}
	if l.open[k] {
		return nil, "the rule " + rule + " is recursive"
	}
	l.open[k] = true
	defer func() { l.open[k] = false }()
	seqs, err := l.seqs(rule, kind)
	set := map[string]bool{}
	for _, s := range seqs {
		if err != "" {
			break
		}
		acc := []string{""}
		for _, it := range s {
			opts := []string{it.text}
			if it.rule != "" {
				var e string
				if opts, e = l.texts(it.rule, kind); e != "" {
					err = e
					break
				}
			}
			var n []string
			for _, a := range acc {
				for _, o := range opts {
					n = append(n, a+o)
				}
			}
			acc = n
			if len(acc) > 20000 {
				err = "too many texts"
				break
			}
		}
		for _, a := range acc {
			set[a] = true
		}
	}
	out := sortedKeys(set)
	l.set[k], l.setE[k] = out, err
	return out, err
}
