package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// runesOf returns representatives of the classes of runes that the functions of a rule tell apart.
func (g *gram) runesOf(rule string) []rune {
	set := map[rune]bool{0xFFFD: true, 0x1F600: true}
	for _, fn := range g.byRule[rule] {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, x := range []ssa.Value{bo.X, bo.Y} {
					c, ok := x.(*ssa.Const)
					if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
						continue
					}
					b, ok := c.Type().Underlying().(*types.Basic)
					if !ok || b.Kind() != types.Int32 && b.Kind() != types.UntypedRune {
						continue
					}
					n := rune(c.Int64())
					for _, d := range []rune{n - 1, n, n + 1} {
						if d > 0 && d <= 0x10FFFF && (d < 0xD800 || d > 0xDFFF) {
							set[d] = true
						}
					}
				}
			}
		}
	}
	var rs []rune
	for r := range set {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

type gpair struct {
	a, x  *gm
	trace *gtrace
	ntok  int
}

type gtrace struct {
	up  *gtrace
	s   string
	len int
}

func (t *gtrace) String() string {
	var ss []string
	for ; t != nil; t = t.up {
		ss = append(ss, t.s)
	}
	for i, j := 0, len(ss)-1; i < j; i, j = i+1, j-1 {
		ss[i], ss[j] = ss[j], ss[i]
	}
	if len(ss) > 12 {
		ss = append([]string{"…"}, ss[len(ss)-12:]...)
	}
	return strings.Join(ss, ", ")
}

// joinOuts merges outcomes that ask the same query.
func (g *gram) joinOuts(outs []gout) []gout {
	var r []gout
next:
	for _, o := range outs {
		if o.q != nil {
			for i := range r {
				if r[i].q == nil || r[i].q.key() != o.q.key() {
					continue
				}
				if m, ok := joinStates(g, r[i].m, o.m); ok {
					r[i].m = m
					continue next
				}
			}
		}
		r = append(r, o)
	}
	return r
}

type lockstep struct {
	g     *gram
	r     *Report
	p     *Program
	pairs int
}

func (l *lockstep) pos(o gout, fn *ssa.Function) string {
	if o.errPos.IsValid() {
		return l.p.pos(o.errPos)
	}
	return l.p.pos(fn.Pos())
}

// run compares a function of a rule with its Accepts function.
func (l *lockstep) run(rule, kind string) {
	g, r := l.g, l.r
	fa, fx := g.byRule[rule]["Accepts"], g.byRule[rule][kind]
	name := "_" + strings.TrimPrefix(rule, "_") + kind
	g.cur = rule
	runes := g.runesOf(rule)
	seen := map[string]bool{}
	work := []*gpair{{a: g.start(fa), x: g.start(fx), ntok: 0}}
	nbad := 0
	bad := func(o gout, fn *ssa.Function, tr *gtrace, f string, args ...interface{}) {
		nbad++
		at := ""
		if tr != nil {
			at = " after [" + tr.String() + "]"
		}
		r.bad("same choices", name, l.pos(o, fn), fmt.Sprintf(f, args...)+at)
	}
	for len(work) > 0 && nbad == 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		l.dropCommon(p.a, p.x, kind == "Fail")
		c := &canon{g: g, tok: map[int]int{}}
		c.scan(p.a)
		c.scan(p.x)
		a := c.state(p.a)
		c.b.WriteString("||")
		x := c.state(p.x)
		k := c.b.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		l.pairs++
		if len(seen) > 4000 {
			bad(gout{}, fx, p.trace, "the comparison does not converge")
			return
		}
		ntok := len(c.tok)
		first := p.trace == nil
		as := g.joinOuts(g.run(a))
		xs := g.joinOuts(g.run(x))
		for _, o := range as {
			if o.err != "" {
				bad(o, fa, p.trace, "%s", "Accepts: "+o.err)
				return
			}
		}
		for _, o := range xs {
			if o.err != "" {
				bad(o, fx, p.trace, "%s", o.err)
				return
			}
		}
		if first {
			// the results that were remembered
			var as2, xs2 []gout
			for _, o := range as {
				if o.isRet && !o.m.asked && l.memoRet(o, "Accepts") {
					continue
				}
				as2 = append(as2, o)
			}
			for _, o := range xs {
				if o.isRet && !o.m.asked {
					if !l.memoRet(o, kind) {
						bad(o, fx, nil, "returns (%v, %v), deltaPos in %s, before it matches anything, which is not the remembered result of this rule at this place", o.ret[0], o.ret[1], signs(o.m.dpSign))
						return
					}
					continue
				}
				xs2 = append(xs2, o)
			}
			as, xs = as2, xs2
			if len(as) == 0 || len(xs) == 0 {
				bad(gout{}, fx, p.trace, "there is no path on which the rule is matched")
				return
			}
		}
		for _, oa := range as {
			if oa.isRet && kind == "Fail" {
				if e := l.sameFailures(as, xs); e != "" {
					bad(xs[0], fx, p.trace, "%s", e)
					return
				}
			}
			for _, ox := range xs {
				if oa.isRet != ox.isRet {
					if oa.isRet {
						bad(ox, fx, p.trace, "goes on to match %s where Accepts is done", ox.q.desc())
					} else {
						bad(ox, fx, p.trace, "returns where Accepts goes on to match %s", oa.q.desc())
					}
					return
				}
				if oa.isRet {
					if e := l.results(kind, oa, ox); e != "" {
						bad(ox, fx, p.trace, "%s", e)
						return
					}
					continue
				}
				if !sameQuery(oa.q, ox.q, g) {
					bad(ox, fx, p.trace, "matches %s where Accepts matches %s", ox.q.desc(), oa.q.desc())
					return
				}
				aa, ax := g.answers(oa.q, runes), g.answers(ox.q, runes)
				for i := range aa {
					t := ntok + 1
					ma, mx := oa.m.clone(), ox.m.clone()
					va, vx := aa[i].val(ma, oa.q, t), ax[i].val(mx, ox.q, t)
					n := 1
					if p.trace != nil {
						n = p.trace.len + 1
					}
					tr := &gtrace{up: p.trace, s: oa.q.desc() + ": " + aa[i].name, len: n}
					work = append(work, &gpair{a: g.resume(ma, va), x: g.resume(mx, vx), trace: tr})
				}
			}
		}
	}
	if nbad == 0 {
		r.ok("same choices", name)
	}
}

func (q *gquery) desc() string {
	switch q.kind {
	case "rule":
		return q.name
	case "rune":
		return "a rune"
	case "pred":
		return "a code predicate"
	case "short":
		return "the length of a literal"
	}
	return fmt.Sprintf("%q", q.name)
}

func sameQuery(a, b *gquery, g *gram) bool {
	if a.kind != b.kind || a.name != b.name || a.pos != b.pos {
		return false
	}
	if a.kind == "rule" {
		return g.kind[a.fn] == "Accepts"
	}
	if len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i].String() != b.args[i].String() {
			return false
		}
	}
	return true
}

// errBefore: the furthest failure of the rule is before the error position.
const errBefore = "memo<err"

// remembered reports whether a result is the one that a table has.
func remembered(m *gm, v gval, table string) bool {
	if v.k == gAddr {
		v = getPath(m.cells[v.a], v.s)
	}
	return v.k == gMemo && (v.s == table || v.s == "*"+table)
}

// memoRet reports whether a return that asked nothing gives a remembered result.
func (l *lockstep) memoRet(o gout, kind string) bool {
	if len(o.ret) < 2 {
		return false
	}
	p, v := o.ret[0], o.ret[1]
	switch kind {
	case "Accepts":
		if p.k != gMemo || p.s != "deltaPos" {
			return false
		}
		if v.k != gMemo || v.s != "deltaErr" || v.n != -1 {
			return false
		}
		return o.m.dpSign == 4 && p.n == -1 || o.m.dpSign == 1 && p.n == 0
	case "Fail":
		// an empty failure stands for failures before the error position
		if v.k == gAddr {
			fs, ok := l.g.failOf(o.m, getPath(o.m.cells[v.a], v.s))
			if !ok || len(fs) > 0 || !l.g.hasFact(o.m, errBefore, true) {
				return false
			}
		} else if v.k != gMemo || v.s != "fail" {
			return false
		}
		if p.isInt(-1) {
			return o.m.dpSign&4 == 0
		}
		return p.k == gMemo && p.s == "start+deltaPos" && p.n == -1 && o.m.dpSign == 4
	default:
		if p.isInt(-1) {
			return v.k == gNil && o.m.dpSign == 1
		}
		if p.k == gMemo && p.s == "start+deltaPos" && p.n == -1 {
			return o.m.dpSign&1 == 0 && remembered(o.m, v, map[string]string{"Node": "node", "Action": "act"}[kind])
		}
	}
	return false
}

// results checks that two functions of a rule give the same result.
func (l *lockstep) results(kind string, oa, ox gout) string {
	if len(oa.ret) != 2 || len(ox.ret) != 2 {
		return "returns an unexpected number of results"
	}
	pa, px, v := oa.ret[0], ox.ret[0], ox.ret[1]
	m := ox.m
	switch {
	case pa.isInt(-1):
		if !hasStore(oa.m, "deltaPos=-1") {
			return "Accepts fails and does not record that it failed"
		}
		if !px.isInt(-1) {
			return fmt.Sprintf("succeeds (with position %v) where Accepts fails", px)
		}
		if kind != "Fail" && v.k != gNil {
			return "returns a result where Accepts fails"
		}
	case pa.k == gDelta && pa.a == 0:
		want := fmt.Sprintf("deltaPos=%v", gval{k: gTup, el: []gval{pa, gi(1)}})
		if !hasStore(oa.m, want) {
			return "Accepts succeeds and records another length than the one it returns"
		}
		if px.k != gPos || px.a != pa.b {
			return fmt.Sprintf("ends at position %v where Accepts ends at @%d", px, pa.b)
		}
		switch kind {
		case "Node":
			return l.nodeResult(m, v, pa.b)
		case "Action":
			if v.k == gNil || v.k == gTop {
				return "returns no result although the rule matches"
			}
			x := v
			if v.k == gAddr {
				x = getPath(m.cells[v.a], v.s)
			}
			n := 0
			for _, s := range m.stores {
				if strings.HasPrefix(s, "act=") {
					n++
					if s != "act="+x.String() {
						return "remembers another value than the one it returns"
					}
				}
			}
			fn := m.frames[0].fn
			st, at := l.g.stored[fn], l.g.actT[fn]
			if n > 0 && st != nil && at != nil && !types.Identical(st, at) {
				return fmt.Sprintf("remembers a %s and expects to find a %s", st, at)
			}
		}
	default:
		return fmt.Sprintf("Accepts returns %v", pa)
	}
	return ""
}

func hasStore(m *gm, s string) bool {
	n := 0
	ok := false
	for _, x := range m.stores {
		if strings.HasPrefix(x, "deltaPos=") {
			n++
			ok = x == s
		}
	}
	return ok && n > 0
}

// nodeResult checks that the node that is returned covers the text that was matched.
func (l *lockstep) nodeResult(m *gm, v gval, end int) string {
	var n gval
	switch v.k {
	case gAddr:
		n = getPath(m.cells[v.a], v.s)
	default:
		return fmt.Sprintf("returns %v instead of a node for the rule", v)
	}
	if n.k != gTup || len(n.el) < 3 {
		return "returns a node that is not understood"
	}
	name, text, kids := n.el[0], n.el[1], n.el[2]
	_ = name
	if text.k != gSeg || text.a != 0 || text.b != end {
		if !(text.k == gEmpty && end == 0) {
			return fmt.Sprintf("the node's text is %v instead of the matched text[@0:@%d]", text, end)
		}
	}
	switch kids.k {
	case gEmpty:
		// a node without kids, or with kids for nothing
	case gCov:
		if kids.a != 0 || kids.b != end {
			return fmt.Sprintf("the node's kids cover %v instead of the matched text[@0:@%d]", kids, end)
		}
	case gJunk:
		return kids.s
	default:
		return fmt.Sprintf("the node's kids are %v", kids)
	}
	found := false
	for _, s := range m.stores {
		if strings.HasPrefix(s, "node=") {
			found = true
			if s != "node="+v.String() {
				return "remembers another node than the one it returns"
			}
		}
	}
	_ = found
	return ""
}

func ruleLockstep(p *Program, r *Report) {
	g := newGram(p)
	for _, e := range g.errs {
		r.bad("grammar", e, "-", e)
	}
	l := &lockstep{g: g, r: r, p: p}
	only := os.Getenv("VERIF_RULE")
	for _, n := range g.names {
		if only != "" && n != only {
			continue
		}
		for _, k := range gramSuffix {
			if !r.check(g.byRule[n][k] != nil, "all passes", "_"+n+k, "ast", "the rule has no "+k+" function") {
				continue
			}
		}
		for _, k := range gramSuffix[1:] {
			if g.byRule[n][k] != nil && g.byRule[n]["Accepts"] != nil {
				l.run(n, k)
				if k == "Fail" {
					g.kids = true
					l.run(n, k)
					g.kids = false
				}
			}
		}
	}
	r.assumption(fmt.Sprintf("%d pairs of states compared", l.pairs))
	_ = token.NoPos
}

// sameFailures checks that the failures that Fail reports are those from which Accepts computes the error position.
func (l *lockstep) sameFailures(as, xs []gout) string {
	var ae []gval
	for _, oa := range as {
		if !oa.isRet || len(oa.ret) != 2 {
			return ""
		}
		var st string
		for _, s := range oa.m.stores {
			if strings.HasPrefix(s, "deltaErr=") {
				st = s
			}
		}
		if st == "" {
			return "Accepts does not record the error position"
		}
		want := fmt.Sprintf("deltaErr=%v", gval{k: gTup, el: []gval{oa.ret[1], gi(1)}})
		if st != want {
			return fmt.Sprintf("Accepts records another error position than the one it returns: %s, not %s", st, want)
		}
		es, ok := failures(oa.ret[1])
		if !ok {
			return fmt.Sprintf("the error position of Accepts, %v, is not the furthest of failures in the rule", oa.ret[1])
		}
		ae = append(ae, es...)
	}
	var xe []gval
	for _, o := range xs {
		if !o.isRet || len(o.ret) != 2 {
			return ""
		}
		if o.ret[1].k != gAddr {
			return fmt.Sprintf("the failure tree is %v", o.ret[1])
		}
		fs, ok := l.g.failOf(o.m, getPath(o.m.cells[o.ret[1].a], o.ret[1].s))
		if !ok {
			return fmt.Sprintf("the failure tree %v is not understood", getPath(o.m.cells[o.ret[1].a], o.ret[1].s))
		}
		xe = append(xe, fs...)
	}
	if d := missing(ae, xe); d != "" {
		return "the failure tree does not have " + d + ", which counts for the error position in Accepts"
	}
	if d := missing(xe, ae); d != "" {
		return "the error position in Accepts does not count " + d + ", which the failure tree has"
	}
	return ""
}

// missing names a failure of a that is not in b. A failure at the start of the rule does not matter.
func missing(a, b []gval) string {
	s := errSet(gErr, b)
	for _, x := range a {
		if x.k == gPos && x.a == 0 {
			continue
		}
		if len(errSet(gErr, append(append([]gval(nil), s.el...), x)).el) != len(s.el) {
			if x.k == gPos {
				return fmt.Sprintf("the failure at @%d", x.a)
			}
			return "the failures in " + x.s
		}
	}
	return ""
}

// mapErr rewrites every set of failures in the live values of a state.
func (g *gram) mapErr(m *gm, f func(el []gval) []gval) {
	c := &canon{g: g}
	var rec func(v gval) gval
	seen := map[int]bool{}
	rec = func(v gval) gval {
		switch v.k {
		case gErr, gErrD:
			v.el = f(v.el)
		case gKLen:
			if v.n == 2 {
				v.el = f(v.el)
			}
		case gAddr:
			if !seen[v.a] {
				seen[v.a] = true
				m.cells[v.a] = rec(m.cells[v.a])
			}
		case gTup, gFn:
			el := make([]gval, len(v.el))
			for i, e := range v.el {
				el[i] = rec(e)
			}
			v.el = el
		}
		return v
	}
	for _, fr := range m.frames {
		for _, v := range c.live(fr) {
			fr.env[v] = rec(fr.env[v])
		}
	}
}

// dropCommon removes the failures that are in every set of both states, which both sides have counted.
func (l *lockstep) dropCommon(a, x *gm, errs bool) {
	key := func(v gval) string { return fmt.Sprintf("%d %d %s", v.k, v.a, v.s) }
	if !errs {
		l.g.mapErr(a, func([]gval) []gval { return nil })
		return
	}
	n, nx := 0, 0
	count := map[string]int{}
	cnt := func(el []gval) []gval {
		n++
		for _, e := range el {
			count[key(e)]++
		}
		return el
	}
	l.g.mapErr(a, cnt)
	na := n
	l.g.mapErr(x, cnt)
	nx = n - na
	if na == 0 || nx == 0 {
		return
	}
	drop := func(el []gval) []gval {
		var r []gval
		for _, e := range el {
			if count[key(e)] < n {
				r = append(r, e)
			}
		}
		return r
	}
	l.g.mapErr(a, drop)
	l.g.mapErr(x, drop)
}

func signs(s uint8) string {
	var r []string
	for i, n := range []string{"<0", "=0", ">0"} {
		if s>>uint(i)&1 == 1 {
			r = append(r, n)
		}
	}
	return strings.Join(r, " ")
}
