package main

// C29: the parser functions follow the grammar file.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- the grammar file

type pexpr struct {
	op   string // seq, alt, opt, star, plus, and, not, lit, class, any, call, pred
	kids []*pexpr
	name string   // call: rule; lit: text
	args []string // call
	neg  bool     // class
	rs   [][2]rune
	id   int
}

type prule struct {
	name   string
	params []string
	body   *pexpr
	line   int
}

type pegFile struct {
	s     string
	i     int
	n     int
	rules map[string]*prule
	order []string
	err   string
}

func (f *pegFile) fail(msg string) {
	if f.err == "" {
		f.err = fmt.Sprintf("line %d: %s", 1+strings.Count(f.s[:f.i], "\n"), msg)
	}
	f.i = len(f.s)
}

func (f *pegFile) peek() rune {
	r, _ := utf8.DecodeRuneInString(f.s[f.i:])
	if f.i >= len(f.s) {
		return -1
	}
	return r
}

func (f *pegFile) space() {
	for f.i < len(f.s) {
		switch c := f.s[f.i]; {
		case c == '#':
			for f.i < len(f.s) && f.s[f.i] != '\n' {
				f.i++
			}
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			f.i++
		default:
			return
		}
	}
}

func (f *pegFile) ident() string {
	j := f.i
	for j < len(f.s) {
		r, w := utf8.DecodeRuneInString(f.s[j:])
		if r != '_' && !unicode.IsLetter(r) && !(j > f.i && unicode.IsDigit(r)) {
			break
		}
		j += w
	}
	id := f.s[f.i:j]
	f.i = j
	return id
}

// code skips Go code in braces.
func (f *pegFile) code() {
	depth := 0
	for f.i < len(f.s) {
		c := f.s[f.i]
		switch c {
		case '{':
			depth++
		case '}':
			depth--
		case '"', '\'', '`':
			for f.i++; f.i < len(f.s) && f.s[f.i] != c; f.i++ {
				if f.s[f.i] == '\\' && c != '`' {
					f.i++
				}
			}
		case '/':
			if strings.HasPrefix(f.s[f.i:], "//") {
				for f.i < len(f.s) && f.s[f.i] != '\n' {
					f.i++
				}
			}
		}
		f.i++
		if depth == 0 {
			return
		}
	}
	f.fail("code without an end")
}

func (f *pegFile) names() []string {
	var ns []string
	if f.i >= len(f.s) || f.s[f.i] != '<' || strings.HasPrefix(f.s[f.i:], "<-") {
		return nil
	}
	f.i++
	for {
		f.space()
		id := f.ident()
		if id == "" {
			f.fail("a name is missing")
			return nil
		}
		ns = append(ns, id)
		f.space()
		if f.peek() == ',' {
			f.i++
			continue
		}
		if f.peek() != '>' {
			f.fail("> is missing")
			return nil
		}
		f.i++
		return ns
	}
}

// quoted reads a literal.
func (f *pegFile) quoted() string {
	q := f.s[f.i]
	j := f.i + 1
	for j < len(f.s) && f.s[j] != q {
		if f.s[j] == '\\' {
			j++
		}
		j++
	}
	if j >= len(f.s) {
		f.fail("a literal without an end")
		return ""
	}
	in := f.s[f.i+1 : j]
	f.i = j + 1
	out := ""
	for in != "" {
		r, _, rest, err := strconv.UnquoteChar(in, q)
		if err != nil {
			f.fail("literal: " + err.Error())
			return ""
		}
		out += string(r)
		in = rest
	}
	return out
}

func (f *pegFile) class() *pexpr {
	e := &pexpr{op: "class"}
	f.i++
	if f.peek() == '^' {
		e.neg = true
		f.i++
	}
	one := func() rune {
		if f.peek() == '\\' {
			if f.i+1 < len(f.s) && strings.IndexByte(`-]^[`, f.s[f.i+1]) >= 0 {
				f.i += 2
				return rune(f.s[f.i-1])
			}
			r, _, rest, err := strconv.UnquoteChar(f.s[f.i:], 0)
			if err != nil {
				f.fail("class: " + err.Error())
				return 0
			}
			f.i = len(f.s) - len(rest)
			return r
		}
		r, w := utf8.DecodeRuneInString(f.s[f.i:])
		f.i += w
		return r
	}
	for f.i < len(f.s) && f.peek() != ']' {
		lo := one()
		hi := lo
		if strings.HasPrefix(f.s[f.i:], "-") && !strings.HasPrefix(f.s[f.i:], "-]") {
			f.i++
			hi = one()
		}
		e.rs = append(e.rs, [2]rune{lo, hi})
	}
	f.i++
	return e
}

func (f *pegFile) node(e *pexpr) *pexpr {
	f.n++
	e.id = f.n
	return e
}

func (f *pegFile) alt() *pexpr {
	var ks []*pexpr
	for {
		ks = append(ks, f.seq())
		f.space()
		if f.peek() != '/' {
			break
		}
		f.i++
	}
	if len(ks) == 1 {
		return ks[0]
	}
	return f.node(&pexpr{op: "alt", kids: ks})
}

func (f *pegFile) seq() *pexpr {
	var ks []*pexpr
	for {
		f.space()
		if f.peek() == '{' {
			f.code() // an action
			f.space()
			break
		}
		k := f.item()
		if k == nil {
			break
		}
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		f.fail("an expression is missing")
	}
	if len(ks) == 1 {
		return ks[0]
	}
	return f.node(&pexpr{op: "seq", kids: ks})
}

func (f *pegFile) item() *pexpr {
	f.space()
	// a label
	save := f.i
	if id := f.ident(); id != "" {
		f.space()
		if f.peek() == ':' {
			f.i++
			f.space()
		} else {
			f.i = save
		}
	}
	pre := ""
	switch f.peek() {
	case '&':
		pre = "and"
		f.i++
	case '!':
		pre = "not"
		f.i++
	}
	f.space()
	var e *pexpr
	switch r := f.peek(); {
	case r == '{' && pre != "":
		f.code()
		return f.node(&pexpr{op: "pred", neg: pre == "not"})
	case r == '(':
		f.i++
		e = f.alt()
		f.space()
		if f.peek() != ')' {
			f.fail(") is missing")
			return nil
		}
		f.i++
	case r == '"' || r == '\'':
		e = f.node(&pexpr{op: "lit", name: f.quoted()})
	case r == '[':
		e = f.node(f.class())
	case r == '.':
		f.i++
		e = f.node(&pexpr{op: "any"})
	default:
		save := f.i
		id := f.ident()
		if id == "" {
			if pre != "" {
				f.fail("an operand is missing")
			}
			return nil
		}
		args := f.names()
		// the next rule begins here
		j := f.i
		f.space()
		if f.peek() == '"' {
			k := f.i
			f.quoted()
			f.space()
			if !strings.HasPrefix(f.s[f.i:], "<-") {
				f.i = k
			}
		}
		if strings.HasPrefix(f.s[f.i:], "<-") {
			f.i = save
			return nil
		}
		f.i = j
		e = f.node(&pexpr{op: "call", name: id, args: args})
	}
	for {
		f.space()
		op := ""
		switch f.peek() {
		case '?':
			op = "opt"
		case '*':
			op = "star"
		case '+':
			op = "plus"
		}
		if op == "" {
			break
		}
		f.i++
		e = f.node(&pexpr{op: op, kids: []*pexpr{e}})
	}
	if pre != "" {
		e = f.node(&pexpr{op: pre, kids: []*pexpr{e}})
	}
	return e
}

func readPeg(text string) *pegFile {
	f := &pegFile{s: text, rules: map[string]*prule{}}
	f.space()
	if f.peek() == '{' {
		f.code()
	}
	for f.err == "" {
		f.space()
		if f.i >= len(f.s) {
			break
		}
		r := &prule{line: 1 + strings.Count(f.s[:f.i], "\n")}
		r.name = f.ident()
		if r.name == "" {
			f.fail("a rule is expected")
			break
		}
		r.params = f.names()
		f.space()
		if f.peek() == '"' || f.peek() == '\'' {
			f.quoted()
			f.space()
		}
		if !strings.HasPrefix(f.s[f.i:], "<-") {
			f.fail("<- is missing after " + r.name)
			break
		}
		f.i += 2
		r.body = f.alt()
		if f.rules[r.name] != nil {
			f.fail("two rules " + r.name)
		}
		f.rules[r.name] = r
		f.order = append(f.order, r.name)
	}
	return f
}

// ---- the meaning of a rule: what it asks the text, in order

// An sk says what comes after a success, an fk what comes after a failure.
type sk struct {
	op   string // expr, loop, back (go back to a place and go on), fail
	e    *pexpr
	pos  int
	next *sk
	f    *fk
}

type fk struct {
	e   *pexpr // to try, or nil to go on with s
	pos int
	s   *sk
	f   *fk
}

// A pstate waits for the answer to the query of a leaf expression.
type pstate struct {
	leaf *pexpr
	pos  int
	s    *sk
	f    *fk
	end  bool // done
	ok   bool
}

func evalPeg(e *pexpr, pos int, s *sk, f *fk) *pstate {
	switch e.op {
	case "seq":
		for i := len(e.kids) - 1; i > 0; i-- {
			s = &sk{op: "expr", e: e.kids[i], next: s, f: f}
		}
		return evalPeg(e.kids[0], pos, s, f)
	case "alt":
		g := f
		for i := len(e.kids) - 1; i > 0; i-- {
			g = &fk{e: e.kids[i], pos: pos, s: s, f: g}
		}
		return evalPeg(e.kids[0], pos, s, g)
	case "opt":
		return evalPeg(e.kids[0], pos, s, &fk{pos: pos, s: s, f: f})
	case "star":
		return evalPeg(e.kids[0], pos, &sk{op: "loop", e: e, next: s, f: f}, &fk{pos: pos, s: s, f: f})
	case "plus":
		return evalPeg(e.kids[0], pos, &sk{op: "loop", e: &pexpr{op: "star", kids: e.kids, id: -e.id}, next: s, f: f}, f)
	case "and":
		return evalPeg(e.kids[0], pos, &sk{op: "back", pos: pos, next: s, f: f}, f)
	case "not":
		return evalPeg(e.kids[0], pos, &sk{op: "fail", f: f}, &fk{pos: pos, s: s, f: f})
	}
	return &pstate{leaf: e, pos: pos, s: s, f: f}
}

func succeed(s *sk, pos int) *pstate {
	for {
		if s == nil {
			return &pstate{end: true, ok: true, pos: pos}
		}
		switch s.op {
		case "expr", "loop":
			return evalPeg(s.e, pos, s.next, s.f)
		case "back":
			pos, s = s.pos, s.next
		case "fail":
			return failPeg(s.f)
		}
	}
}

func failPeg(f *fk) *pstate {
	if f == nil {
		return &pstate{end: true}
	}
	if f.e != nil {
		return evalPeg(f.e, f.pos, f.s, f.f)
	}
	return succeed(f.s, f.pos)
}

// rename gives a copy with other names of positions, and its key.
type pegNames struct {
	t func(int) int
	b strings.Builder
}

func (n *pegNames) sk(s *sk) *sk {
	if s == nil {
		n.b.WriteByte('.')
		return nil
	}
	c := *s
	fmt.Fprintf(&n.b, "%s", s.op)
	if s.e != nil {
		fmt.Fprintf(&n.b, "%d", s.e.id)
	}
	if s.op == "back" {
		c.pos = n.t(s.pos)
		fmt.Fprintf(&n.b, "@%d", c.pos)
	}
	n.b.WriteByte('(')
	c.next = n.sk(s.next)
	n.b.WriteByte(',')
	c.f = n.fk(s.f)
	n.b.WriteByte(')')
	return &c
}

func (n *pegNames) fk(f *fk) *fk {
	if f == nil {
		n.b.WriteByte('!')
		return nil
	}
	c := *f
	c.pos = n.t(f.pos)
	id := 0
	if f.e != nil {
		id = f.e.id
	}
	fmt.Fprintf(&n.b, "f%d@%d(", id, c.pos)
	c.s = n.sk(f.s)
	n.b.WriteByte(',')
	c.f = n.fk(f.f)
	n.b.WriteByte(')')
	return &c
}

type pegCheck struct {
	g     *gram
	p     *Program
	r     *Report
	f     *pegFile
	state int
}

// mangle is the name of the functions of an instance of a rule.
func mangle(name string, args []string) string {
	s := "_" + name
	for _, a := range args {
		s += "__" + a
	}
	return s
}

// inst gives the body of a rule for arguments.
func inst(e *pexpr, sub map[string]string) *pexpr {
	c := *e
	c.kids = nil
	for _, k := range e.kids {
		c.kids = append(c.kids, inst(k, sub))
	}
	if e.op == "call" {
		if a, ok := sub[e.name]; ok && len(e.args) == 0 {
			c.name = a
		}
		c.args = nil
		for _, a := range e.args {
			if b, ok := sub[a]; ok {
				a = b
			}
			c.args = append(c.args, a)
		}
	}
	return &c
}

func ruleGrammarFile(p *Program, r *Report) {
	path := filepath.Join(p.dir, "ast", "toaq.peggy")
	text, err := os.ReadFile(path)
	if !r.check(err == nil, "anchor", "ast/toaq.peggy", "ast", "the grammar file cannot be read") {
		return
	}
	f := readPeg(string(text))
	if !r.check(f.err == "", "anchor", "ast/toaq.peggy is understood", "ast/toaq.peggy", f.err) {
		return
	}
	g := newGram(p)
	for _, e := range g.errs {
		r.bad("grammar", e, "-", e)
	}
	c := &pegCheck{g: g, p: p, r: r, f: f}
	// the instances that are needed
	type need struct {
		rule *prule
		args []string
	}
	var work []need
	done := map[string]bool{}
	for _, n := range f.order {
		if x := f.rules[n]; len(x.params) == 0 {
			work = append(work, need{x, nil})
			done[mangle(n, nil)] = true
		}
	}
	var names []string
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		sub := map[string]string{}
		for i, q := range n.rule.params {
			sub[q] = n.args[i]
		}
		body := inst(n.rule.body, sub)
		name := mangle(n.rule.name, n.args)
		names = append(names, name)
		var calls func(e *pexpr)
		calls = func(e *pexpr) {
			if e.op == "call" {
				m := mangle(e.name, e.args)
				x := f.rules[e.name]
				if !r.check(x != nil && len(x.params) == len(e.args), "rules", name+" uses "+m, fmt.Sprintf("ast/toaq.peggy:%d", n.rule.line), "the grammar has no such rule") {
					return
				}
				if !done[m] {
					done[m] = true
					work = append(work, need{x, e.args})
				}
			}
			for _, k := range e.kids {
				calls(k)
			}
		}
		calls(body)
		fns := g.byRule[name]
		if !r.check(fns["Accepts"] != nil, "rules", name, fmt.Sprintf("ast/toaq.peggy:%d", n.rule.line), "the parser has no functions for this rule of the grammar") {
			continue
		}
		c.run(name, body, fns["Accepts"], n.rule.line)
	}
	sort.Strings(names)
	r.analysed["rules"] += len(names)
	r.analysed["pairs of states"] += c.state
	r.assumption("a match of a rule, literal, class or code predicate may succeed or fail independently of earlier ones; what the code predicate of the grammar computes is not compared")
	r.atLeast("rule", 380)
}

type pegPair struct {
	m     *gm
	s     *pstate
	trace *gtrace
}

func (c *pegCheck) run(name string, body *pexpr, fn *ssa.Function, line int) {
	g, r := c.g, c.r
	g.cur = name
	runes := map[rune]bool{}
	for _, x := range g.runesOf(name) {
		runes[x] = true
	}
	var classes func(e *pexpr)
	classes = func(e *pexpr) {
		for _, q := range e.rs {
			for _, x := range []rune{q[0] - 1, q[0], q[0] + 1, q[1] - 1, q[1], q[1] + 1} {
				if x > 0 && x <= 0x10FFFF && (x < 0xD800 || x > 0xDFFF) {
					runes[x] = true
				}
			}
		}
		for _, k := range e.kids {
			classes(k)
		}
	}
	classes(body)
	var rs []rune
	for x := range runes {
		rs = append(rs, x)
	}
	sortRunes(rs)
	at := func(o gout) string {
		if o.errPos.IsValid() {
			return c.p.pos(o.errPos)
		}
		return c.p.pos(fn.Pos())
	}
	bad := func(o gout, tr *gtrace, f string, args ...interface{}) {
		after := ""
		if tr != nil {
			after = " after [" + tr.String() + "]"
		}
		r.bad("rule", name, at(o), fmt.Sprintf(f, args...)+after+fmt.Sprintf(" (grammar: ast/toaq.peggy:%d)", line))
	}
	seen := map[string]bool{}
	work := []*pegPair{{m: g.start(fn), s: evalPeg(body, 0, nil, nil)}}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		g.mapErr(p.m, func([]gval) []gval { return nil })
		cn := &canon{g: g, tok: map[int]int{}}
		cn.scan(p.m)
		nm := &pegNames{t: cn.t}
		s := *p.s
		s.pos = nm.t(s.pos)
		s.s, s.f = nm.sk(p.s.s), nm.fk(p.s.f)
		if s.leaf != nil {
			fmt.Fprintf(&nm.b, "q%d", s.leaf.id)
		}
		fmt.Fprintf(&nm.b, "@%d %v %v||", s.pos, s.end, s.ok)
		m := cn.state(p.m)
		k := nm.b.String() + cn.b.String()
		if seen[k] {
			continue
		}
		seen[k] = true
		c.state++
		if len(seen) > 4000 {
			bad(gout{}, p.trace, "the comparison does not converge")
			return
		}
		ntok := len(cn.tok)
		outs := g.joinOuts(g.run(m))
		if p.trace == nil {
			var o2 []gout
			l := &lockstep{g: g}
			for _, o := range outs {
				if o.err == "" && o.isRet && !o.m.asked && l.memoRet(o, "Accepts") {
					continue // remembered
				}
				o2 = append(o2, o)
			}
			outs = o2
			if len(outs) == 0 {
				bad(gout{}, nil, "there is no path on which the rule is matched")
				return
			}
		}
		for _, o := range outs {
			if o.err != "" {
				bad(o, p.trace, "%s", o.err)
				return
			}
			if o.isRet {
				if len(o.ret) < 1 || !s.end {
					bad(o, p.trace, "is done where the grammar goes on with %s", s.desc())
					return
				}
				d := o.ret[0]
				switch {
				case !s.ok && d.isInt(-1):
				case s.ok && d.k == gDelta && d.a == 0 && d.b == s.pos:
				case s.ok:
					bad(o, p.trace, "gives %v where the rule of the grammar ends at @%d", d, s.pos)
					return
				default:
					bad(o, p.trace, "gives %v where the rule of the grammar does not match", d)
					return
				}
				continue
			}
			if s.end {
				bad(o, p.trace, "goes on with %s where the rule of the grammar is done", o.q.desc())
				return
			}
			short := o.q.kind == "short" && s.leaf.op == "lit" && o.q.name == strconv.Itoa(len(s.leaf.name)) && o.q.pos == s.pos
			if !short && !s.same(o.q) {
				bad(o, p.trace, "matches %s@%d where the grammar has %s@%d", o.q.desc(), o.q.pos, s.desc(), s.pos)
				return
			}
			for _, a := range g.answers(o.q, rs) {
				t := ntok + 1
				ma := o.m.clone()
				v := a.val(ma, o.q, t)
				n := 1
				if p.trace != nil {
					n = p.trace.len + 1
				}
				tr := &gtrace{up: p.trace, s: o.q.desc() + ": " + a.name, len: n}
				ns := &s
				switch {
				case short && a.name == "too short":
					ns = failPeg(s.f)
				case short:
				default:
					ok, known := s.matches(a)
					if !known {
						continue
					}
					if ok {
						at := t
						if o.q.kind == "pred" {
							at = s.pos
						}
						ns = succeed(s.s, at)
					} else {
						ns = failPeg(s.f)
					}
				}
				work = append(work, &pegPair{m: g.resume(ma, v), s: ns, trace: tr})
			}
		}
	}
	r.ok("rule", name)
}

func (s *pstate) desc() string {
	if s.end {
		return "its end"
	}
	switch e := s.leaf; e.op {
	case "call":
		return mangle(e.name, e.args)
	case "lit":
		return strconv.Quote(e.name)
	case "class":
		out := ""
		for _, q := range e.rs {
			out += string(q[0])
			if q[1] != q[0] {
				out += "-" + string(q[1])
			}
		}
		return "[" + out + "]"
	case "any":
		return "any rune"
	}
	return "a code predicate"
}

// same reports whether the query is that of the leaf.
func (s *pstate) same(q *gquery) bool {
	e := s.leaf
	switch e.op {
	case "call":
		return q.kind == "rule" && q.name == mangle(e.name, e.args) && q.pos == s.pos
	case "lit":
		return q.kind == "lit" && q.name == e.name && q.pos == s.pos
	case "class", "any":
		return q.kind == "rune" && q.pos == s.pos
	case "pred":
		return q.kind == "pred"
	}
	return false
}

// matches tells whether the leaf matches in case of the answer.
func (s *pstate) matches(a ganswer) (ok, known bool) {
	e := s.leaf
	switch e.op {
	case "call", "lit":
		return !a.same, true
	case "pred":
		return (a.name == "true") != e.neg, true
	case "any":
		return a.adv && a.r != 0xFFFD, true
	}
	if !a.adv {
		return false, true
	}
	in := false
	for _, q := range e.rs {
		in = in || q[0] <= a.r && a.r <= q[1]
	}
	if e.neg && a.r == 0xFFFD {
		return false, true
	}
	return in != e.neg, true
}
