package main

// Abstract interpretation of the generated parser functions over positions and segments of the text.
//
// A rule function consults the text only through queries (the rune at a position, a literal at a
// position, another rule at a position, a code predicate). Between two queries it is deterministic.
// The domain has tokens for positions; a segment [a,b) stands for any value that was made from the
// text between two tokens.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type gk uint8

const (
	gTop gk = iota
	gInt
	gBool
	gStr
	gNil
	gPos   // position a
	gDelta // b - a
	gSeg   // value that covers the text [a,b)
	gPSeg  // non-nil pointer to such a value
	gEmpty // zero value: covers nothing
	gJunk  // value that does not account for the text it came from
	gAddr  // address: cell a, path
	gObj   // non-nil pointer or value about which nothing else is known
	gFn
	gTup
	gMemo // entry of a memo table
	gText
	gTextFrom // text[a:]
	gLenFrom  // len(text[a:])
	gParser
	gErrPos
	gTab    // memo table, or its row
	gCov    // list of kids covering [a,b)
	gKLen   // number of kids covering [a,b)
	gTextN  // text[a:a+n]
	gErr    // furthest of the failures in el (gPos: a failure at a; gEDelta: the failures of a rule), or a list of them
	gErrD   // the same, relative to the start
	gEDelta // furthest failure of the rule s at a, relative to a
	gFKid   // failure tree of the rule s at a
	gByte   // text[a]
	gLenAll // len(text)
	gFKidF  // address of the field n of a failure tree of the rule s at a
	gKidAt  // address of the kids that cover [a,b)
	gFKids  // kids of a failure tree of the rule s at a
)

type gval struct {
	k    gk
	a, b int
	n    int64
	s    string // gSeg: shape; gMemo/gTab: name; gStr; gAddr: path
	fn   *ssa.Function
	el   []gval
}

func gi(n int64) gval { return gval{k: gInt, n: n} }
func gb(b bool) gval {
	v := gval{k: gBool}
	if b {
		v.n = 1
	}
	return v
}

func (v gval) isInt(n int64) bool { return v.k == gInt && v.n == n }

func (v gval) String() string {
	switch v.k {
	case gTop:
		return "?"
	case gInt, gBool:
		return fmt.Sprint(v.n)
	case gStr:
		return strconv.Quote(v.s)
	case gNil:
		return "nil"
	case gPos:
		return fmt.Sprintf("@%d", v.a)
	case gDelta:
		return fmt.Sprintf("@%d-@%d", v.b, v.a)
	case gSeg:
		return fmt.Sprintf("text[@%d:@%d]", v.a, v.b)
	case gPSeg:
		return fmt.Sprintf("&text[@%d:@%d]", v.a, v.b)
	case gCov:
		return fmt.Sprintf("kids[@%d:@%d]", v.a, v.b)
	case gEmpty:
		return "empty"
	case gJunk:
		return "junk " + v.s
	case gMemo:
		return fmt.Sprintf("memo %s%+d", v.s, v.n)
	case gErr, gErrD:
		return fmt.Sprintf("errors%d%v", v.k, gval{k: gTup, el: v.el})
	case gTup:
		var ss []string
		for _, e := range v.el {
			ss = append(ss, e.String())
		}
		return "(" + strings.Join(ss, ", ") + ")"
	}
	return fmt.Sprintf("<%d %s %d %d>", v.k, v.s, v.a, v.b)
}

type gframe struct {
	fn   *ssa.Function
	b    *ssa.BasicBlock
	idx  int
	env  map[ssa.Value]gval
	call *ssa.Call // call in the frame below that this frame returns to
}

type gm struct {
	frames []gframe
	cells  map[int]gval
	ncell  int
	dpSign uint8 // possible signs of deltaPos[start][rule]: 1 neg, 2 zero, 4 pos
	facts  []string
	stores []string
	lits   map[string]int
	asked  bool
	dead   []int       // positions that lie before the error position
	stage  int         // of a condition that asks twice
	ord    map[int]int // C10: position -> one strictly before it
}

func (m *gm) clone() *gm {
	n := &gm{ncell: m.ncell, dpSign: m.dpSign, asked: m.asked, stage: m.stage}
	for _, f := range m.frames {
		g := f
		g.env = make(map[ssa.Value]gval, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		n.frames = append(n.frames, g)
	}
	n.cells = make(map[int]gval, len(m.cells))
	for k, v := range m.cells {
		n.cells[k] = v
	}
	n.facts = m.facts[:len(m.facts):len(m.facts)]
	n.dead = m.dead[:len(m.dead):len(m.dead)]
	n.stores = m.stores[:len(m.stores):len(m.stores)]
	if m.ord != nil {
		n.ord = make(map[int]int, len(m.ord))
		for k, v := range m.ord {
			n.ord[k] = v
		}
	}
	if m.lits != nil {
		n.lits = make(map[string]int, len(m.lits))
		for k, v := range m.lits {
			n.lits[k] = v
		}
	}
	return n
}

type gquery struct {
	kind string // rune, lit, rule, pred
	pos  int    // token
	name string
	fn   *ssa.Function
	errp bool // rule: passes its errPos on
	args []gval
}

func (q gquery) key() string {
	s := q.kind + " " + q.name + " @" + strconv.Itoa(q.pos)
	for _, a := range q.args {
		s += " " + a.String()
	}
	return s
}

type gout struct {
	q      *gquery
	m      *gm // state at the query
	ret    []gval
	isRet  bool
	err    string
	errPos token.Pos
}

type gram struct {
	p      *Program
	rules  map[*ssa.Function]string // function -> rule name
	kind   map[*ssa.Function]string // Accepts, Node, Fail, Action
	byRule map[string]map[string]*ssa.Function
	names  []string
	ruleNo map[string]int64
	live   map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	loaded map[*ssa.Alloc]map[int64]bool
	pconst map[*ssa.Function]string
	lit    func(fn *ssa.Function, args []gval) gval // summary of an action literal
	cur    string
	curFn  *ssa.Function
	errs   []string
	parser types.Type
	steps  int
	stored map[*ssa.Function]types.Type
	kids   bool // the failure trees of rules have one kid, rather than none and the name of what is wanted
	maxes  map[*ssa.Function]bool
	actT   map[*ssa.Function]types.Type
}

var gramSuffix = []string{"Accepts", "Node", "Fail", "Action"}

func newGram(p *Program) *gram {
	g := &gram{p: p, rules: map[*ssa.Function]string{}, kind: map[*ssa.Function]string{}, byRule: map[string]map[string]*ssa.Function{},
		ruleNo: map[string]int64{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		loaded: map[*ssa.Alloc]map[int64]bool{}, pconst: map[*ssa.Function]string{}, stored: map[*ssa.Function]types.Type{}, actT: map[*ssa.Function]types.Type{}}
	g.parser = p.typ("ast", "_Parser")
	if g.parser == nil {
		g.errs = append(g.errs, "type ast._Parser not found")
		return g
	}
	sc := p.pkgs["ast"].Types.Scope()
	pt := types.NewPointer(g.parser)
	for _, n := range sc.Names() {
		f, ok := sc.Lookup(n).(*types.Func)
		if !ok || !strings.HasPrefix(n, "_") {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() < 2 || !types.Identical(sig.Params().At(0).Type(), pt) || sig.Results().Len() != 2 {
			continue
		}
		np := 2
		for _, s := range gramSuffix {
			if !strings.HasSuffix(n, s) {
				continue
			}
			if s == "Fail" {
				np = 3
			}
			if sig.Params().Len() != np {
				continue
			}
			rn := strings.TrimSuffix(n, s)
			c, ok := sc.Lookup(rn).(*types.Const)
			if !ok {
				continue
			}
			fn := p.prog.FuncValue(f)
			if fn == nil {
				continue
			}
			g.rules[fn] = rn
			g.kind[fn] = s
			if g.byRule[rn] == nil {
				g.byRule[rn] = map[string]*ssa.Function{}
				g.names = append(g.names, rn)
			}
			g.byRule[rn][s] = fn
			k, _ := constant.Int64Val(c.Val())
			g.ruleNo[rn] = k
		}
	}
	sort.Strings(g.names)
	return g
}

// ---- liveness

func (g *gram) liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := g.live[fn]; l != nil {
		return l
	}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{} // live-in, phis excluded
	for _, b := range fn.Blocks {
		out[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			lv := g.liveOut(out, b)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(lv, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if isEnv(*op) {
						lv[*op] = true
					}
				}
			}
			if len(lv) != len(out[b]) {
				out[b] = lv
				ch = true
			}
		}
	}
	g.live[fn] = out
	return out
}

func (g *gram) liveOut(in map[*ssa.BasicBlock]map[ssa.Value]bool, b *ssa.BasicBlock) map[ssa.Value]bool {
	lv := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range in[s] {
			lv[v] = true
		}
		for _, x := range s.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range s.Preds {
				if p == b && isEnv(ph.Edges[i]) {
					lv[ph.Edges[i]] = true
				}
			}
		}
	}
	return lv
}

func isEnv(v ssa.Value) bool {
	switch v.(type) {
	case nil, *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return false
	}
	return true
}

// liveAfter returns the values live after instruction idx of b.
func (g *gram) liveAfter(fn *ssa.Function, b *ssa.BasicBlock, idx int) map[ssa.Value]bool {
	lv := g.liveOut(g.liveness(fn), b)
	for j := len(b.Instrs) - 1; j > idx; j-- {
		in := b.Instrs[j]
		if v, ok := in.(ssa.Value); ok {
			delete(lv, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if isEnv(*op) {
				lv[*op] = true
			}
		}
	}
	return lv
}

// arrays of which only some elements are read
func (g *gram) reads(a *ssa.Alloc) map[int64]bool {
	if m, ok := g.loaded[a]; ok {
		return m
	}
	m := map[int64]bool{}
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			switch r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				m[-1] = true
			}
			continue
		}
		c, isc := ia.Index.(*ssa.Const)
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
				continue
			}
			if isc {
				m[c.Int64()] = true
			} else {
				m[-1] = true
			}
		}
	}
	g.loaded[a] = m
	return m
}

// ---- machine

func (g *gram) start(fn *ssa.Function) *gm {
	m := &gm{cells: map[int]gval{}, dpSign: 7}
	env := map[ssa.Value]gval{}
	for i, p := range fn.Params {
		switch i {
		case 0:
			env[p] = gval{k: gParser}
		case 1:
			env[p] = gval{k: gPos, a: 0}
		case 2:
			env[p] = gval{k: gErrPos}
		}
	}
	m.frames = []gframe{{fn: fn, b: fn.Blocks[0], env: env}}
	return m
}

func (g *gram) zero(t types.Type) gval {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := gval{k: gTup}
		for i := 0; i < u.NumFields(); i++ {
			v.el = append(v.el, g.zero(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := gval{k: gTup}
		n := u.Len()
		if n > 64 {
			return gval{}
		}
		for i := int64(0); i < n; i++ {
			v.el = append(v.el, g.zero(u.Elem()))
		}
		return v
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return gi(0)
		}
		if u.Info()&types.IsBoolean != 0 {
			return gb(false)
		}
		return gval{k: gEmpty}
	case *types.Slice:
		return gval{k: gEmpty}
	}
	return gval{k: gNil}
}

func (m *gm) val(v ssa.Value, g *gram) gval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return g.zero(v.Type())
		}
		switch v.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(v.Value)
			return gi(n)
		case constant.Bool:
			return gb(constant.BoolVal(v.Value))
		case constant.String:
			s := constant.StringVal(v.Value)
			if s == "" {
				return gval{k: gEmpty}
			}
			return gval{k: gStr, s: s}
		}
		return gval{}
	case *ssa.Function:
		return gval{k: gFn, fn: v}
	case *ssa.Global, *ssa.Builtin:
		return gval{}
	}
	f := &m.frames[len(m.frames)-1]
	return f.env[v]
}

func (m *gm) set(v ssa.Value, x gval) { m.frames[len(m.frames)-1].env[v] = x }

// path handling: paths are strings such as ".1.0"
func getPath(v gval, path string) gval {
	for path != "" {
		i := strings.IndexByte(path[1:], '.')
		var h string
		if i < 0 {
			h, path = path[1:], ""
		} else {
			h, path = path[1:1+i], path[1+i:]
		}
		n, err := strconv.Atoi(h)
		if err != nil || v.k != gTup || n >= len(v.el) {
			if v.k == gSeg || v.k == gJunk || v.k == gEmpty {
				// a field of an abstract value
				return gval{k: gObj}
			}
			return gval{}
		}
		v = v.el[n]
	}
	return v
}

func setPath(v gval, path string, x gval) gval {
	if path == "" {
		return x
	}
	i := strings.IndexByte(path[1:], '.')
	var h, rest string
	if i < 0 {
		h = path[1:]
	} else {
		h, rest = path[1:1+i], path[1+i:]
	}
	n, err := strconv.Atoi(h)
	if err != nil || v.k != gTup || n >= len(v.el) {
		return gval{}
	}
	el := append([]gval(nil), v.el...)
	el[n] = setPath(el[n], rest, x)
	v.el = el
	return v
}

func (g *gram) load(m *gm, a gval) gval {
	switch a.k {
	case gAddr:
		return getPath(m.cells[a.a], a.s)
	case gPSeg:
		return gval{k: gSeg, a: a.a, b: a.b, s: a.s}
	case gKidAt:
		return gval{k: gPSeg, a: a.a, b: a.b}
	case gFKidF:
		i := strings.LastIndexByte(a.s, '.')
		switch a.s[i+1:] {
		case "Kids":
			if g.kids {
				return gval{k: gFKids, a: a.a, s: a.s[:i], n: 1}
			}
			return gval{k: gFKids, a: a.a, s: a.s[:i]}
		case "Want":
			if g.kids {
				return gval{k: gEmpty}
			}
			return gval{k: gStr, s: "something"}
		}
		return gval{}
	case gTab: // address of a parser field or table element
		switch a.s {
		case "text":
			return gval{k: gText}
		case "deltaPos", "deltaErr":
			if len(a.el) == 2 {
				return gval{k: gMemo, s: a.s, el: a.el}
			}
			return a
		}
		return a
	case gEmpty, gNil:
		return gval{}
	case gMemo:
		return gval{k: gMemo, s: "*" + a.s, el: a.el}
	case gJunk:
		return a
	}
	return gval{}
}

// cat joins two values of the text.
func cat(x, y gval) gval {
	if x.k == gEmpty {
		return y
	}
	if y.k == gEmpty {
		return x
	}
	if x.k == gJunk {
		return x
	}
	if y.k == gJunk {
		return y
	}
	if x.k == gSeg && y.k == gSeg {
		if x.b == y.a {
			return gval{k: gSeg, a: x.a, b: y.b}
		}
		if x.a == x.b && y.a == y.b {
			return y
		}
		return gval{k: gJunk, s: "pieces that are not adjacent are joined"}
	}
	return gval{k: gJunk, s: "a value is joined that is not a piece of the text"}
}

func (g *gram) memoIdx(m *gm, what string, el []gval) string {
	if len(el) != 2 || el[0].k != gPos || el[0].a != 0 || !el[1].isInt(g.ruleNo[g.cur]) {
		return fmt.Sprintf("%s is indexed by %v instead of the start position and the rule %s", what, gval{k: gTup, el: el}, g.cur)
	}
	return ""
}

// run executes until the next query or return, on all internal branches.
func (g *gram) run(m *gm) []gout {
	var outs []gout
	work := []*gm{m}
	n := 0
	for len(work) > 0 {
		m := work[len(work)-1]
		work = work[:len(work)-1]
		n++
		if n > 400 {
			return append(outs, gout{err: "too many internal branches"})
		}
		o, more := g.run1(m)
		if o != nil {
			outs = append(outs, *o)
		}
		work = append(work, more...)
	}
	return outs
}

func (g *gram) fail(m *gm, pos token.Pos, f string, a ...interface{}) *gout {
	return &gout{err: fmt.Sprintf(f, a...), errPos: pos, m: m}
}

func (g *gram) run1(m *gm) (*gout, []*gm) {
	for n := 0; ; n++ {
		g.steps++
		if n > 20000 {
			return g.fail(m, token.NoPos, "a loop goes round without consulting the text"), nil
		}
		fr := &m.frames[len(m.frames)-1]
		if fr.idx >= len(fr.b.Instrs) {
			return g.fail(m, token.NoPos, "fell off a block"), nil
		}
		in := fr.b.Instrs[fr.idx]
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
			fr.idx++
			continue
		case *ssa.Jump:
			g.enter(m, fr.b.Succs[0])
			continue
		case *ssa.If:
			c := m.val(in.Cond, g)
			if c.k == gBool {
				if c.n != 0 {
					g.enter(m, fr.b.Succs[0])
				} else {
					g.enter(m, fr.b.Succs[1])
				}
				continue
			}
			if isLit(c) {
				q := &gquery{kind: "short", pos: c.a, name: strconv.Itoa(int(c.n))}
				if c.s == "lit" || c.s == "prefix" && m.stage == 1 {
					q = &gquery{kind: "lit", pos: c.a, name: c.el[0].s}
				}
				return &gout{q: q, m: m, errPos: in.Cond.Pos()}, nil
			}
			// internal branch
			m2 := m.clone()
			ok1 := g.assume(m, in.Cond, c, true)
			ok2 := g.assume(m2, in.Cond, c, false)
			s0, s1 := fr.b.Succs[0], fr.b.Succs[1]
			var more []*gm
			if ok1 {
				g.enter(m, s0)
				more = append(more, m)
			}
			if ok2 {
				g.enter(m2, s1)
				more = append(more, m2)
			}
			return nil, more
		case *ssa.Return:
			var vs []gval
			for _, r := range in.Results {
				vs = append(vs, m.val(r, g))
			}
			if len(m.frames) == 1 {
				return &gout{isRet: true, ret: vs, m: m, errPos: in.Pos()}, nil
			}
			call := fr.call
			m.frames = m.frames[:len(m.frames)-1]
			switch len(vs) {
			case 0:
			case 1:
				m.set(call, vs[0])
			default:
				m.set(call, gval{k: gTup, el: vs})
			}
			m.frames[len(m.frames)-1].idx++
			continue
		case *ssa.Panic:
			return g.fail(m, in.Pos(), "panics"), nil
		case *ssa.Store:
			if e := g.store(m, in); e != "" {
				return g.fail(m, in.Pos(), "%s", e), nil
			}
			fr.idx++
			continue
		case *ssa.MapUpdate:
			t, k, v := m.val(in.Map, g), m.val(in.Key, g), m.val(in.Value, g)
			if t.k == gTab {
				if e := g.memoIdx(m, "parser."+t.s, k.el); e != "" {
					return g.fail(m, in.Pos(), "%s", e), nil
				}
				if mi, ok := in.Value.(*ssa.MakeInterface); ok {
					v = m.val(mi.X, g)
				}
				m.stores = append(m.stores[:len(m.stores):len(m.stores)], t.s+"="+v.String())
				if mi, ok := in.Value.(*ssa.MakeInterface); ok && t.s == "act" && len(m.frames) == 1 {
					g.stored[fr.fn] = mi.X.Type()
				}
			}
			fr.idx++
			continue
		case *ssa.Call:
			o, more, done := g.call(m, in)
			if o != nil {
				return o, nil
			}
			if done {
				return nil, more
			}
			continue
		case ssa.Value:
			v, e := g.eval(m, in)
			if e != "" {
				return g.fail(m, in.Pos(), "%s", e), nil
			}
			m.set(in, v)
			fr.idx++
			continue
		default:
			return g.fail(m, in.Pos(), "unexpected instruction %s", in), nil
		}
	}
}

func (g *gram) enter(m *gm, b *ssa.BasicBlock) {
	fr := &m.frames[len(m.frames)-1]
	prev := fr.b
	var vals []gval
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == prev {
				vals = append(vals, m.val(ph.Edges[i], g))
				phis = append(phis, ph)
				break
			}
		}
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	fr.b, fr.idx = b, 0
}

func (g *gram) store(m *gm, in *ssa.Store) string {
	a, v := m.val(in.Addr, g), m.val(in.Val, g)
	switch a.k {
	case gAddr:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if al, ok := ia.X.(*ssa.Alloc); ok {
				rd := g.reads(al)
				if c, ok := ia.Index.(*ssa.Const); ok && !rd[c.Int64()] && !rd[-1] {
					return ""
				}
			}
		}
		if fa, ok := in.Addr.(*ssa.FieldAddr); ok && v.k == gCov && v.s == sharedKids && isNodePtr(fa.X.Type()) {
			v = gval{k: gJunk, s: "the list of kids of another node, which goes on to change it"}
		}
		if c := m.cells[a.a]; c.k == gJunk && a.s == ".0" && v.k == gPSeg {
			m.cells[a.a] = gval{k: gCov, a: v.a, b: v.b}
			return ""
		}
		m.cells[a.a] = setPath(m.cells[a.a], a.s, v)
	case gTab:
		switch a.s {
		case "deltaPos", "deltaErr":
			if e := g.memoIdx(m, "parser."+a.s, a.el); e != "" {
				return e
			}
			m.stores = append(m.stores[:len(m.stores):len(m.stores)], a.s+"="+v.String())
		case "lastFail": // not part of the result
		default:
			return "parser." + a.s + " is overwritten"
		}
	case gPSeg:
		return "" // change of a shared value: see the action summaries
	}
	return ""
}

// assume refines a state by a condition that depends on memo tables.
func (g *gram) assume(m *gm, cond ssa.Value, c gval, b bool) bool {
	if c.k == gMemo && strings.HasPrefix(c.s, "sign") {
		// el[0].n: signs for which the condition is true
		s := uint8(c.n)
		if !b {
			s = 7 &^ s
		}
		m.dpSign &= s
		return m.dpSign != 0
	}
	if c.k == gMemo && c.s == "pos<err" {
		if b != (c.n == 1) {
			m.dead = append(m.dead[:len(m.dead):len(m.dead)], c.a)
		}
		return true
	}
	if c.k == gMemo && (strings.HasSuffix(c.s, "==nil") || c.s == errBefore) {
		if c.n == 1 {
			b = !b
		}
		if b && g.hasFact(m, c.s, false) || !b && g.hasFact(m, c.s, true) {
			return false
		}
	}
	m.facts = append(m.facts[:len(m.facts):len(m.facts)], fmt.Sprintf("%s=%v", c.s, b))
	return true
}

func (g *gram) hasFact(m *gm, s string, b bool) bool {
	w := fmt.Sprintf("%s=%v", s, b)
	for _, f := range m.facts {
		if f == w {
			return true
		}
	}
	return false
}

func (g *gram) eval(m *gm, in ssa.Value) (gval, string) {
	v := func(x ssa.Value) gval { return m.val(x, g) }
	switch in := in.(type) {
	case *ssa.Alloc:
		m.ncell++
		m.cells[m.ncell] = g.zero(in.Type().(*types.Pointer).Elem())
		return gval{k: gAddr, a: m.ncell}, ""
	case *ssa.FieldAddr:
		x := v(in.X)
		switch x.k {
		case gAddr:
			return gval{k: gAddr, a: x.a, s: x.s + "." + strconv.Itoa(in.Field)}, ""
		case gParser:
			return gval{k: gTab, s: fieldName(in.X.Type(), in.Field)}, ""
		case gFKid:
			return gval{k: gFKidF, a: x.a, s: x.s + "." + fieldName(in.X.Type(), in.Field)}, ""
		}
		return gval{k: gObj}, ""
	case *ssa.IndexAddr:
		x, i := v(in.X), v(in.Index)
		switch x.k {
		case gCov:
			if i.isInt(0) {
				return gval{k: gKidAt, a: x.a, b: x.b}, ""
			}
		case gAddr:
			if i.k == gInt {
				return gval{k: gAddr, a: x.a, s: x.s + "." + strconv.Itoa(int(i.n))}, ""
			}
		case gTab:
			el := append(append([]gval(nil), x.el...), i)
			r := gval{k: gTab, s: x.s, el: el}
			if len(el) == 2 && (x.s == "deltaPos" || x.s == "deltaErr") {
				if e := g.memoIdx(m, "parser."+x.s, el); e != "" {
					return r, e
				}
			}
			return r, ""
		}
		return gval{k: gObj}, ""
	case *ssa.UnOp:
		x := v(in.X)
		switch in.Op {
		case token.MUL:
			return g.load(m, x), ""
		case token.NOT:
			if x.k == gBool {
				return gb(x.n == 0), ""
			}
			if x.k == gMemo && strings.HasPrefix(x.s, "sign") {
				x.n = int64(7 &^ uint8(x.n))
				return x, ""
			}
			return notLit(x), ""
		case token.SUB:
			if x.k == gInt {
				return gi(-x.n), ""
			}
		}
		return gval{}, ""
	case *ssa.BinOp:
		return g.binop(m, in.Op, v(in.X), v(in.Y)), ""
	case *ssa.Extract:
		x := v(in.Tuple)
		if x.k == gTup && in.Index < len(x.el) {
			return x.el[in.Index], ""
		}
		if x.k == gMemo {
			return gval{k: gMemo, s: x.s + "." + strconv.Itoa(in.Index)}, ""
		}
		return gval{}, ""
	case *ssa.Field:
		x := v(in.X)
		return getPath(x, "."+strconv.Itoa(in.Field)), ""
	case *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface:
		x := v((*in.(ssa.Instruction).Operands(nil)[0]))
		if mi, ok := in.(*ssa.MakeInterface); ok && x.k == gNil {
			// an interface that holds a nil pointer is not nil
			_ = mi
			return gval{k: gObj}, ""
		}
		return x, ""
	case *ssa.TypeAssert:
		x := v(in.X)
		if x.k == gMemo {
			g.actT[m.frames[0].fn] = in.AssertedType
		}
		if in.CommaOk {
			return gval{k: gTup, el: []gval{x, {}}}, ""
		}
		return x, ""
	case *ssa.Index:
		x, k := v(in.X), v(in.Index)
		if x.k == gText && k.k == gPos || x.k == gTextFrom && k.isInt(0) {
			if x.k == gText {
				x = k
			}
			return gval{k: gByte, a: x.a}, ""
		}
		return gval{}, ""
	case *ssa.Lookup:
		x, k := v(in.X), v(in.Index)
		if x.k == gTab {
			if e := g.memoIdx(m, "parser."+x.s, k.el); e != "" {
				return gval{}, e
			}
			r := gval{k: gMemo, s: x.s}
			if in.CommaOk {
				return gval{k: gTup, el: []gval{r, {k: gMemo, s: x.s + ".ok"}}}, ""
			}
			return r, ""
		}
		return gval{}, ""
	case *ssa.Slice:
		return g.slice(m, in)
	case *ssa.MakeClosure:
		r := gval{k: gFn, fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			r.el = append(r.el, v(b))
		}
		return r, ""
	case *ssa.MakeSlice:
		if sl, ok := in.Type().Underlying().(*types.Slice); ok && isNodePtr(sl.Elem()) {
			if l := v(in.Len); l.k == gKLen && l.n != 0 {
				m.ncell++
				m.cells[m.ncell] = gval{k: gJunk, s: "kids that are not filled in"}
				return gval{k: gAddr, a: m.ncell}, ""
			}
		}
		return gval{k: gEmpty}, ""
	case *ssa.MakeMap:
		return gval{k: gEmpty}, ""
	}
	return gval{}, ""
}

// sharedKids marks a list that is the end of a node's list of kids.
const sharedKids = "tail"

func isNodePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "peg" && n.Obj().Name() == "Node"
}

func (g *gram) slice(m *gm, in *ssa.Slice) (gval, string) {
	x := m.val(in.X, g)
	var lo, hi *gval
	if in.Low != nil {
		l := m.val(in.Low, g)
		lo = &l
	}
	if in.High != nil {
		h := m.val(in.High, g)
		hi = &h
	}
	switch x.k {
	case gText:
		if lo == nil || lo.k != gPos {
			return gval{}, ""
		}
		if hi == nil {
			return gval{k: gTextFrom, a: lo.a}, ""
		}
		if hi.k == gPos {
			return gval{k: gSeg, a: lo.a, b: hi.a}, ""
		}
		if hi.k == gTup && len(hi.el) == 2 && hi.el[0].a == lo.a && hi.el[1].k == gInt {
			return gval{k: gTextN, a: lo.a, n: hi.el[1].n}, ""
		}
	case gTextFrom:
		if lo == nil && hi != nil && hi.k == gInt {
			return gval{k: gTextN, a: x.a, n: hi.n}, ""
		}
		if lo == nil && hi != nil && hi.k == gDelta && hi.a == x.a {
			return gval{k: gSeg, a: x.a, b: hi.b}, ""
		}
	case gCov, gEmpty:
		if lo == nil && in.Max != nil && hi != nil && hi.isInt(0) {
			if c := m.val(in.Max, g); c.isInt(0) {
				return gval{k: gEmpty}, ""
			}
		}
		// kids: the number of kids stands for what they cover
		if lo == nil && hi != nil && hi.k == gKLen {
			if hi.n == 0 {
				return gval{k: gEmpty}, ""
			}
			if x.k == gCov && hi.a == x.a {
				return gval{k: gCov, a: hi.a, b: hi.b}, ""
			}
			return gval{k: gJunk, s: "the kids are cut to a length that they did not have"}, ""
		}
		if lo != nil && hi == nil && lo.k == gKLen {
			if lo.n == 0 {
				return x, ""
			}
			if x.k == gCov && lo.a == x.a {
				if lo.b == x.b {
					return gval{k: gEmpty}, ""
				}
				return gval{k: gCov, a: lo.b, b: x.b, s: sharedKids}, ""
			}
			return gval{k: gJunk, s: "the kids are cut at a length that they did not have"}, ""
		}
		if x.k == gEmpty {
			return x, ""
		}
	case gErr:
		if lo == nil && hi != nil && hi.k == gKLen {
			if hi.n == 2 {
				return gval{k: gErr, el: hi.el}, ""
			}
			return gval{k: gEmpty}, ""
		}
	case gAddr:
		// variadic argument array
		if lo == nil && hi == nil {
			return x, ""
		}
	}
	return gval{}, ""
}

func (g *gram) binop(m *gm, op token.Token, x, y gval) gval {
	neg := func(v gval) gval {
		if v.k == gBool {
			return gb(v.n == 0)
		}
		if v.k == gMemo && strings.HasPrefix(v.s, "sign") {
			v.n = int64(7 &^ uint8(v.n))
		}
		if v.k == gMemo && (strings.HasSuffix(v.s, "==nil") || v.s == "pos<err" || v.s == errBefore) {
			v.n = 1 - v.n
		}
		return notLit(v)
	}
	switch op {
	case token.NEQ:
		return neg(g.binop(m, token.EQL, x, y))
	case token.GTR:
		return g.binop(m, token.LSS, y, x)
	case token.GEQ:
		return neg(g.binop(m, token.LSS, x, y))
	case token.LEQ:
		return neg(g.binop(m, token.LSS, y, x))
	}
	if x.k == gInt && y.k == gInt {
		switch op {
		case token.ADD:
			return gi(x.n + y.n)
		case token.SUB:
			return gi(x.n - y.n)
		case token.MUL:
			return gi(x.n * y.n)
		case token.EQL:
			return gb(x.n == y.n)
		case token.LSS:
			return gb(x.n < y.n)
		}
		return gval{}
	}
	if x.k == gBool && y.k == gBool {
		switch op {
		case token.EQL:
			return gb(x.n == y.n)
		case token.AND:
			return gb(x.n != 0 && y.n != 0)
		case token.OR:
			return gb(x.n != 0 || y.n != 0)
		}
		return gval{}
	}
	switch op {
	case token.ADD:
		if (x.k == gDelta || x.k == gEDelta) && y.k == gPos {
			x, y = y, x
		}
		if x.k == gPos && y.k == gEDelta {
			if x.a == y.a {
				return gval{k: gErr, el: []gval{y}}
			}
			return gval{}
		}
		if x.k == gErrD && y.k == gInt {
			return gval{k: gTup, el: []gval{x, y}}
		}
		if x.k == gInt && (y.k == gPos || y.k == gMemo || y.k == gDelta) {
			x, y = y, x
		}
		if x.k == gPos && y.k == gDelta {
			if x.a == y.a {
				return gval{k: gPos, a: y.b}
			}
			return gval{}
		}
		if x.k == gPos && y.k == gInt {
			if y.n == 0 {
				return x
			}
			if t, ok := m.lits[fmt.Sprintf("%d+%d", x.a, y.n)]; ok {
				return gval{k: gPos, a: t}
			}
			return gval{k: gTup, el: []gval{x, y}}
		}
		if x.k == gTup && len(x.el) == 2 && x.el[0].k == gPos && y.k == gInt {
			return g.binop(m, op, x.el[0], gi(x.el[1].n+y.n))
		}
		if x.k == gMemo && y.k == gInt {
			x.n += y.n
			return x
		}
		if x.k == gMemo && y.k == gPos {
			x, y = y, x
		}
		if x.k == gPos && y.k == gMemo {
			if x.a == 0 {
				return gval{k: gMemo, s: "start+" + y.s, n: y.n}
			}
			return gval{}
		}
		if x.k == gDelta && y.k == gInt {
			return gval{k: gTup, el: []gval{x, y}}
		}
		// strings
		if isTextVal(x) && isTextVal(y) {
			return cat(x, y)
		}
	case token.SUB:
		if y.k == gPos && y.a == 0 && (x.k == gErr || x.isInt(-1)) {
			el, _ := failures(x)
			return gval{k: gErrD, el: el}
		}
		if x.k == gPos && y.k == gPos {
			return gval{k: gDelta, a: y.a, b: x.a}
		}
		if x.k == gLenAll && y.k == gPos {
			return gval{k: gLenFrom, a: y.a}
		}
		if y.k == gInt {
			return g.binop(m, token.ADD, x, gi(-y.n))
		}
	case token.EQL:
		if x.k == gNil || y.k == gNil {
			if x.k == gNil {
				x = y
			}
			switch x.k {
			case gNil:
				return gb(true)
			case gPSeg, gAddr, gObj, gFn, gSeg:
				return gb(false)
			case gMemo:
				return gval{k: gMemo, s: x.s + "==nil"}
			}
			return gval{}
		}
		if x.k == gErrPos {
			x, y = y, x
		}
		if x.k == gPos && y.k == gErrPos {
			return gval{k: gMemo, s: "pos<err", a: x.a, n: 1}
		}
		if x.k == gStr && y.k == gStr {
			return gb(x.s == y.s)
		}
		if (x.k == gEmpty || x.k == gStr) && (y.k == gEmpty || y.k == gStr) {
			return gb(x.k == y.k)
		}
		if (x.k == gEmpty && y.k == gObj) || (x.k == gObj && y.k == gEmpty) {
			return gval{}
		}
		if x.k == gInt {
			x, y = y, x
		}
		if y.k == gInt {
			switch x.k {
			case gDelta:
				if y.n == 0 {
					return gb(x.a == x.b)
				}
				if y.n < 0 {
					return gb(false)
				}
				if x.a == x.b {
					return gb(false)
				}
			case gMemo:
				return memoSign(x, func(s int64) bool { return s == y.n }, y.n)
			}
		}
		if x.k == gStr {
			x, y = y, x
		}
		if x.k == gByte && y.k == gInt && y.n > 0 && y.n < 0x80 {
			return gval{k: gTup, s: "lit", a: x.a, n: 1, el: []gval{{k: gStr, s: string(rune(y.n))}}}
		}
		if x.k == gLenFrom && y.isInt(0) || x.k == gTextFrom && y.k == gEmpty || x.k == gEmpty && y.k == gTextFrom || x.k == gPos && y.k == gLenAll {
			at := x.a
			if x.k == gEmpty {
				at = y.a
			}
			return gval{k: gTup, s: "lenlt", a: at, n: 1}
		}
		if x.k == gLenAll && y.k == gPos {
			return gval{k: gTup, s: "lenlt", a: y.a, n: 1}
		}
		if x.k == gTextN && y.k == gStr {
			return gval{k: gTup, s: "lit", a: x.a, n: x.n, el: []gval{y}}
		}
	case token.LSS:
		if x.k == gPos && y.k == gErrPos {
			return gval{k: gMemo, s: "pos<err", a: x.a}
		}
		if x.k == gErrPos && y.k == gPos {
			return gval{k: gMemo, s: "pos<err", a: y.a} // beyond the furthest failure
		}
		if x.k == gMemo && x.s == "start+deltaErr" && x.n == -1 && y.k == gErrPos {
			return gval{k: gMemo, s: errBefore}
		}
		if x.k == gPos && y.k == gLenAll {
			return notLit(gval{k: gTup, s: "lenlt", a: x.a, n: 1})
		}
		if x.k == gLenAll && y.k == gPos {
			return gb(false)
		}
		if x.k == gInt && y.k == gKLen && y.n < 2 {
			// a list of kids as one that covers the same
			return gb(x.n < y.n)
		}
		if x.k == gInt && y.k == gLenFrom && x.n >= 0 {
			return notLit(gval{k: gTup, s: "lenlt", a: y.a, n: x.n + 1})
		}
		if y.k == gInt {
			switch x.k {
			case gDelta:
				if y.n <= 0 {
					return gb(false)
				}
				if x.a == x.b {
					return gb(true)
				}
				if y.n == 1 {
					return gb(false)
				}
			case gPos:
				if y.n <= 0 {
					return gb(false)
				}
			case gMemo:
				return memoSign(x, func(s int64) bool { return s < y.n }, y.n)
			case gLenFrom:
				return gval{k: gTup, s: "lenlt", a: x.a, n: y.n}
			}
		}
		if x.k == gInt {
			switch y.k {
			case gDelta:
				if x.n < 0 {
					return gb(true)
				}
				if x.n == 0 {
					return gb(y.a != y.b)
				}
			case gPos:
				if x.n < 0 {
					return gb(true)
				}
			case gMemo:
				return memoSign(y, func(s int64) bool { return x.n < s }, x.n)
			}
		}
		if x.k == gMemo || y.k == gMemo {
			return gval{k: gMemo, s: fmt.Sprintf("%v<%v", x, y)}
		}
	}
	return gval{}
}

func isLit(v gval) bool {
	return v.k == gTup && (v.s == "lit" || v.s == "lenlt" || v.s == "prefix")
}

// notLit negates a condition on the text that follows a position.
func notLit(v gval) gval {
	if isLit(v) {
		v.b = 1 - v.b
	}
	return v
}

// memoSign turns a comparison of deltaPos (-1, 0, or positive) with a constant into a set of signs.
func memoSign(x gval, f func(int64) bool, c int64) gval {
	if x.s != "deltaPos" {
		return gval{k: gMemo, s: fmt.Sprintf("cmp %v %d", x, c)}
	}
	// values -1+n, 0+n, and ≥1+n
	var s uint8
	if f(-1 + x.n) {
		s |= 1
	}
	if f(0 + x.n) {
		s |= 2
	}
	p1, p2 := f(1+x.n), f(1<<30)
	if p1 != p2 {
		return gval{k: gMemo, s: fmt.Sprintf("cmp %v %d", x, c)}
	}
	if p1 {
		s |= 4
	}
	return gval{k: gMemo, s: "sign", n: int64(s)}
}

func isTextVal(v gval) bool {
	switch v.k {
	case gSeg, gEmpty, gJunk, gStr, gTextN:
		return true
	}
	return false
}

// call interprets a call. done: the state was replaced by the states in more.
func (g *gram) call(m *gm, in *ssa.Call) (*gout, []*gm, bool) {
	fr := &m.frames[len(m.frames)-1]
	c := in.Common()
	next := func(v gval) (*gout, []*gm, bool) {
		m.set(in, v)
		fr.idx++
		return nil, nil, false
	}
	var args []gval
	for _, a := range c.Args {
		args = append(args, m.val(a, g))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len":
			switch args[0].k {
			case gText:
				return next(gval{k: gLenAll})
			case gTextFrom:
				return next(gval{k: gLenFrom, a: args[0].a})
			case gFKids:
				return next(gi(args[0].n))
			case gEmpty:
				return next(gval{k: gKLen, n: 0})
			case gErr:
				return next(gval{k: gKLen, n: 2, el: args[0].el})
			case gCov:
				return next(gval{k: gKLen, n: 1, a: args[0].a, b: args[0].b})
			case gStr:
				return next(gi(int64(len(args[0].s))))
			}
			return next(gval{})
		case "append":
			return next(g.append(m, args, c))
		case "copy":
			if args[0].k == gAddr && args[0].s == "" && m.cells[args[0].a].k == gJunk {
				src := args[1]
				src.s = ""
				m.cells[args[0].a] = src
			}
			return next(gval{})
		}
		return next(gval{})
	}
	if c.IsInvoke() {
		return next(gval{})
	}
	f := m.val(c.Value, g)
	if f.k != gFn {
		if f.k == gTop || f.k == gNil {
			return g.fail(m, in.Pos(), "the called function is not known"), nil, false
		}
		return next(gval{})
	}
	fn := f.fn
	if rn, ok := g.rules[fn]; ok {
		if len(args) < 2 || args[0].k != gParser {
			return g.fail(m, in.Pos(), "%s is called with another parser", rn), nil, false
		}
		if args[1].k != gPos {
			return g.fail(m, in.Pos(), "%s is called at an unknown position (%v)", rn, args[1]), nil, false
		}
		q := &gquery{kind: "rule", name: rn, pos: args[1].a, fn: fn}
		if len(args) == 3 {
			q.errp = args[2].k == gErrPos
			if !q.errp {
				return g.fail(m, in.Pos(), "%s is called with another error position", rn), nil, false
			}
		}
		return &gout{q: q, m: m, errPos: in.Pos()}, nil, false
	}
	name := fn.String()
	if name == "strings.HasPrefix" && len(args) == 2 && args[0].k == gTextFrom && args[1].k == gStr {
		return next(gval{k: gTup, s: "prefix", a: args[0].a, n: int64(len(args[1].s)), el: []gval{args[1]}})
	}
	if strings.HasSuffix(name, ".DecodeRuneInString") && len(args) == 1 && args[0].k == gTextFrom {
		return &gout{q: &gquery{kind: "rune", pos: args[0].a}, m: m, errPos: in.Pos()}, nil, false
	}
	if fn.Parent() != nil && g.rules[root(fn)] != "" {
		// code predicate or action
		res := fn.Signature.Results()
		if res.Len() == 1 && isBoolType(res.At(0).Type()) {
			q := &gquery{kind: "pred", name: g.predText(fn), args: append(append([]gval(nil), f.el...), args...), fn: fn}
			return &gout{q: q, m: m, errPos: in.Pos()}, nil, false
		}
		if g.lit != nil {
			return next(g.lit(fn, g.litArgs(m, args)))
		}
		return next(gval{k: gObj})
	}
	if !g.p.inRepo(fn) || len(fn.Blocks) == 0 {
		return next(gval{})
	}
	if len(m.frames) > 12 {
		return g.fail(m, in.Pos(), "calls nest too deeply"), nil, false
	}
	if g.isMax(fn) {
		x, ok1 := failures(args[0])
		y, ok2 := failures(args[1])
		if ok1 && ok2 {
			return next(errSet(gErr, append(append([]gval(nil), x...), y...)))
		}
	}
	if g.lit != nil && g.kind[m.frames[0].fn] == "Action" && g.makesNode(fn) {
		return next(g.lit(fn, g.litArgs(m, args)))
	}
	if g.leafInt(fn) {
		// a helper over integers: join its results
		v := g.leaf(fn, args)
		memo := false
		for _, a := range args {
			memo = memo || a.k == gMemo
		}
		if v.k != gTop || !memo {
			return next(v)
		}
	}
	env := map[ssa.Value]gval{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(f.el) {
			env[p] = f.el[i]
		}
	}
	m.frames = append(m.frames, gframe{fn: fn, b: fn.Blocks[0], env: env, call: in})
	return nil, nil, false
}

func root(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// litArgs gives the arguments of an action, with the contents of cells.
func (g *gram) litArgs(m *gm, args []gval) []gval {
	var as []gval
	for _, a := range args {
		if a.k == gAddr {
			x := g.load(m, a)
			if x.k == gSeg {
				x = gval{k: gPSeg, a: x.a, b: x.b, s: x.s}
			} else if x.k == gEmpty || x.k == gTup {
				x = gval{k: gEmpty}
			}
			a = x
		}
		as = append(as, a)
	}
	return as
}

// makesNode reports whether a declared function can stand for an action: it makes one value of
// the syntax tree from others.
func (g *gram) makesNode(fn *ssa.Function) bool {
	sg := fn.Signature
	if fn.Parent() != nil || sg.Results().Len() != 1 || len(fn.Params) == 0 {
		return false
	}
	tree := func(t types.Type) bool {
		t = derefT(t)
		n := namedOf(t)
		return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "ast" && !types.Identical(n, g.parser) && n.Obj().Exported()
	}
	if !tree(sg.Results().At(0).Type()) {
		return false
	}
	some := false
	for _, q := range fn.Params {
		some = some || tree(q.Type())
		if types.Identical(derefT(q.Type()), g.parser) {
			return false
		}
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			return false
		}
	}
	return some
}

func (g *gram) leafInt(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if !isInteger(fn.Signature.Params().At(i).Type()) {
			return false
		}
	}
	if fn.Signature.Results().Len() != 1 || fn.Signature.Params().Len() == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case ssa.CallInstruction, *ssa.Store, *ssa.MapUpdate, *ssa.Alloc:
				return false
			}
		}
	}
	return true
}

func (g *gram) leaf(fn *ssa.Function, args []gval) gval {
	m := &gm{cells: map[int]gval{}, dpSign: 7}
	env := map[ssa.Value]gval{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	m.frames = []gframe{{fn: fn, b: fn.Blocks[0], env: env}}
	var r *gval
	for _, o := range g.run(m) {
		if !o.isRet || len(o.ret) != 1 {
			return gval{}
		}
		if r == nil {
			x := o.ret[0]
			r = &x
		} else if r.String() != o.ret[0].String() {
			return gval{}
		}
	}
	if r == nil {
		return gval{}
	}
	return *r
}

func (g *gram) append(m *gm, args []gval, c *ssa.CallCommon) gval {
	x := args[0]
	y := args[1]
	var els []gval
	if y.k == gAddr {
		v := m.cells[y.a]
		v = getPath(v, y.s)
		if v.k == gTup {
			els = v.el
		}
	} else {
		els = []gval{y}
	}
	isNode, isFail := false, false
	if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
		if n := namedOf(sl.Elem()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "peg" && n.Obj().Name() == "Node" {
			isNode = true
		}
		if n := namedOf(sl.Elem()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "peg" && n.Obj().Name() == "Fail" {
			isFail = true
		}
	}
	if isNode {
		if x.k == gAddr { // a literal without elements
			if v := getPath(m.cells[x.a], x.s); v.k == gTup && len(v.el) == 0 {
				x = gval{k: gEmpty}
			}
		}
		if x.k == gEmpty || x.k == gNil {
			switch y.k {
			case gCov, gEmpty, gJunk:
				y.s = ""
				return y
			case gNil:
				return gval{k: gEmpty}
			}
		}
	}
	for _, e := range els {
		if isFail {
			x = g.addFail(m, x, e)
			continue
		}
		if isNode {
			x = g.addKid(m, x, e)
		} else {
			x = cat(x, e)
		}
	}
	return x
}

// addFail adds a failure to a list.
func (g *gram) addFail(m *gm, x, e gval) gval {
	el, ok := failures(x)
	if !ok {
		return gval{}
	}
	if e.k == gAddr {
		c := getPath(m.cells[e.a], e.s)
		if fs, ok := g.failOf(m, c); ok {
			return errSet(gErr, append(append([]gval(nil), el...), fs...))
		}
		return gval{}
	}
	fs, ok := failures(e)
	if !ok {
		return gval{}
	}
	return errSet(gErr, append(append([]gval(nil), el...), fs...))
}

// failOf returns the failures that a failure node {Name, Pos, Kids, Want} reports.
func (g *gram) failOf(m *gm, c gval) ([]gval, bool) {
	if c.k != gTup || len(c.el) != 4 {
		return nil, false
	}
	fs, ok := failures(c.el[2])
	if !ok {
		return nil, false
	}
	if w := c.el[3]; w.k == gStr {
		if c.el[1].k != gPos {
			return nil, false
		}
		dead := false
		for _, d := range m.dead {
			dead = dead || d == c.el[1].a
		}
		if !dead {
			fs = append(append([]gval(nil), fs...), c.el[1])
		}
	} else if w.k != gEmpty {
		return nil, false
	}
	return fs, true
}

// addKid adds a parse-tree node to a list of kids.
func (g *gram) addKid(m *gm, x, e gval) gval {
	if e.k == gAddr {
		// a node built here: its text says what it covers
		c := m.cells[e.a]
		if c.k == gTup && len(c.el) >= 2 && c.el[1].k == gSeg {
			e = gval{k: gPSeg, a: c.el[1].a, b: c.el[1].b}
			if len(c.el) >= 3 {
				k := c.el[2]
				if k.k == gAddr && k.s == "" {
					k = m.cells[k.a]
				}
				if k.k == gCov && (k.a != e.a || k.b != e.b) || k.k == gJunk {
					return gval{k: gJunk, s: fmt.Sprintf("a node for %v has the kids %v", e, k)}
				}
			}
		}
	}
	if e.k != gPSeg {
		return gval{k: gJunk, s: "a kid is added that is not a piece of the text"}
	}
	switch x.k {
	case gEmpty, gNil:
		return gval{k: gCov, a: e.a, b: e.b}
	case gCov:
		if x.b == e.a {
			return gval{k: gCov, a: x.a, b: e.b}
		}
		return gval{k: gJunk, s: fmt.Sprintf("the kid %v is added after %v", e, x)}
	}
	return x
}

// predText is a rendering of a predicate that does not depend on which function it is in.
func (g *gram) predText(fn *ssa.Function) string {
	if s, ok := g.pconst[fn]; ok {
		return s
	}
	var b strings.Builder
	var rec func(f *ssa.Function)
	names := map[ssa.Value]string{}
	rec = func(f *ssa.Function) {
		nm := func(v ssa.Value) string {
			switch v := v.(type) {
			case *ssa.Const:
				return v.String()
			case *ssa.Function:
				if v.Parent() != nil {
					return "lit"
				}
				return v.String()
			case *ssa.Builtin:
				return v.Name()
			case *ssa.Global:
				return v.String()
			}
			if s, ok := names[v]; ok {
				return s
			}
			s := fmt.Sprintf("v%d", len(names))
			names[v] = s
			return s
		}
		for _, p := range f.Params {
			nm(p)
		}
		for _, bl := range f.Blocks {
			fmt.Fprintf(&b, "B%d:", bl.Index)
			for _, in := range bl.Instrs {
				fmt.Fprintf(&b, "%T", in)
				if bo, ok := in.(*ssa.BinOp); ok {
					b.WriteString(bo.Op.String())
				}
				if bo, ok := in.(*ssa.UnOp); ok {
					b.WriteString(bo.Op.String())
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						b.WriteString(" " + nm(*op))
					}
				}
				if v, ok := in.(ssa.Value); ok {
					b.WriteString("->" + nm(v))
				}
				b.WriteString(";")
			}
			for _, s := range bl.Succs {
				fmt.Fprintf(&b, "→%d", s.Index)
			}
		}
		for _, a := range f.AnonFuncs {
			b.WriteString("{")
			rec(a)
			b.WriteString("}")
		}
	}
	rec(fn)
	s := b.String()
	g.pconst[fn] = s
	return s
}

// ---- failures

// errSet makes a set of failures.
func errSet(k gk, el []gval) gval {
	key := func(v gval) string { return fmt.Sprintf("%d %d %s", v.k, v.a, v.s) }
	m := map[string]gval{}
	for _, e := range el {
		m[key(e)] = e
	}
	v := gval{k: k}
	for _, k := range sortedKeys(m) {
		v.el = append(v.el, m[k])
	}
	return v
}

// failures returns the set of failures that a value stands for.
func failures(v gval) ([]gval, bool) {
	switch v.k {
	case gErr, gErrD:
		return v.el, true
	case gPos, gEDelta:
		return []gval{v}, true
	case gFKid, gFKids:
		return []gval{{k: gEDelta, a: v.a, s: v.s}}, true
	case gEmpty:
		return nil, true
	case gDelta:
		if v.a == 0 {
			return []gval{{k: gPos, a: v.b}}, true
		}
	case gInt:
		return nil, v.n == -1
	}
	return nil, false
}

func isErrVal(v gval) bool { return v.k == gErr || v.k == gErrD || v.k == gEDelta }

// isMax reports whether a function returns the larger one of its two parameters.
func (g *gram) isMax(fn *ssa.Function) bool {
	if r, ok := g.maxes[fn]; ok {
		return r
	}
	if g.maxes == nil {
		g.maxes = map[*ssa.Function]bool{}
	}
	g.maxes[fn] = false
	if len(fn.Params) != 2 || !g.leafInt(fn) {
		return false
	}
	a, b := fn.Params[0], fn.Params[1]
	// ge: what is known: bit 0 a≥b, bit 1 b≥a
	var walk func(bl *ssa.BasicBlock, prev *ssa.BasicBlock, env map[ssa.Value]ssa.Value, ge, depth int) bool
	walk = func(bl, prev *ssa.BasicBlock, env map[ssa.Value]ssa.Value, ge, depth int) bool {
		if depth > 8 {
			return false
		}
		val := func(v ssa.Value) ssa.Value {
			if x, ok := env[v]; ok {
				return x
			}
			return v
		}
		e2 := map[ssa.Value]ssa.Value{}
		for k, v := range env {
			e2[k] = v
		}
		for _, in := range bl.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				for i, p := range bl.Preds {
					if p == prev {
						e2[in] = val(in.Edges[i])
					}
				}
			case *ssa.Return:
				env = e2
				x := val(in.Results[0])
				return x == a && ge&1 != 0 || x == b && ge&2 != 0
			case *ssa.Jump:
				return walk(bl.Succs[0], bl, e2, ge, depth+1)
			case *ssa.If:
				bo, ok := in.Cond.(*ssa.BinOp)
				if !ok {
					return false
				}
				env = e2
				x, y := val(bo.X), val(bo.Y)
				if !(x == a && y == b || x == b && y == a) {
					return false
				}
				xy, yx := 1, 2
				if x == b {
					xy, yx = 2, 1
				}
				var t, f int
				switch bo.Op {
				case token.GTR, token.GEQ:
					t, f = xy, yx
				case token.LSS, token.LEQ:
					t, f = yx, xy
				default:
					return false
				}
				return walk(bl.Succs[0], bl, e2, ge|t, depth+1) && walk(bl.Succs[1], bl, e2, ge|f, depth+1)
			case *ssa.BinOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		return false
	}
	r := walk(fn.Blocks[0], nil, map[ssa.Value]ssa.Value{}, 0, 0)
	g.maxes[fn] = r
	return r
}

// ---- answers

type ganswer struct {
	name string
	val  func(m *gm, q *gquery, tok int) gval // result of the call; tok: fresh token
	adv  bool                                 // the fresh token lies strictly after the position
	same bool                                 // no token is made
	r    rune
}

func (g *gram) answers(q *gquery, runes []rune) []ganswer {
	switch q.kind {
	case "rule":
		return []ganswer{
			{name: "ok", val: func(m *gm, q *gquery, t int) gval { return g.ruleVal(m, q, t, true) }},
			{name: "fail", same: true, val: func(m *gm, q *gquery, t int) gval { return g.ruleVal(m, q, t, false) }},
		}
	case "pred":
		return []ganswer{
			{name: "true", same: true, val: func(*gm, *gquery, int) gval { return gb(true) }},
			{name: "false", same: true, val: func(*gm, *gquery, int) gval { return gb(false) }},
		}
	case "short":
		return []ganswer{
			{name: "too short", same: true, val: func(*gm, *gquery, int) gval { return gb(true) }},
			{name: "long enough", same: true, val: func(*gm, *gquery, int) gval { return gb(false) }},
		}
	case "lit":
		return []ganswer{
			{name: "there", adv: true, val: func(m *gm, q *gquery, t int) gval {
				if m.lits == nil {
					m.lits = map[string]int{}
				}
				m.lits[fmt.Sprintf("%d+%d", q.pos, len(q.name))] = t
				return gb(true)
			}},
			{name: "not there", same: true, val: func(*gm, *gquery, int) gval { return gb(false) }},
		}
	case "rune":
		as := []ganswer{
			{name: "EOF", same: true, val: func(m *gm, q *gquery, t int) gval {
				return gval{k: gTup, el: []gval{gi(0xFFFD), {k: gDelta, a: q.pos, b: q.pos}}}
			}},
		}
		for _, r := range runes {
			r := r
			as = append(as, ganswer{name: fmt.Sprintf("%q", r), r: r, adv: true, val: func(m *gm, q *gquery, t int) gval {
				return gval{k: gTup, el: []gval{gi(int64(r)), {k: gDelta, a: q.pos, b: t}}}
			}})
		}
		return as
	}
	return nil
}

func (g *gram) ruleVal(m *gm, q *gquery, t int, ok bool) gval {
	switch g.kind[q.fn] {
	case "Accepts":
		if ok {
			return gval{k: gTup, el: []gval{{k: gDelta, a: q.pos, b: t}, {k: gEDelta, a: q.pos, s: q.name}}}
		}
		return gval{k: gTup, el: []gval{gi(-1), {k: gEDelta, a: q.pos, s: q.name}}}
	case "Fail":
		if ok {
			return gval{k: gTup, el: []gval{{k: gPos, a: t}, {k: gFKid, a: q.pos, s: q.name}}}
		}
		return gval{k: gTup, el: []gval{gi(-1), {k: gFKid, a: q.pos, s: q.name}}}
	}
	if ok {
		return gval{k: gTup, el: []gval{{k: gPos, a: t}, {k: gPSeg, a: q.pos, b: t, s: g.cur2(q)}}}
	}
	return gval{k: gTup, el: []gval{gi(-1), {k: gNil}}}
}

// cur2 names the rule whose result a segment is (for its shape).
func (g *gram) cur2(q *gquery) string {
	if g.kind[q.fn] == "Action" {
		return q.name
	}
	return ""
}

// resume continues a state at a query with an answer.
func (g *gram) resume(m *gm, v gval) *gm {
	n := m.clone()
	n.asked = true
	n.stores = nil
	n.facts = nil
	n.dead = nil
	fr := &n.frames[len(n.frames)-1]
	if in, ok := fr.b.Instrs[fr.idx].(*ssa.If); ok {
		// a condition on the text; v: whether it is short, or starts with the literal
		c := n.val(in.Cond, g)
		truth := v.n != 0
		if c.s == "prefix" {
			if n.stage == 0 && !truth {
				n.stage = 1
				return n
			}
			truth = n.stage == 1 && truth
			n.stage = 0
		}
		if c.b == 1 {
			truth = !truth
		}
		if truth {
			g.enter(n, fr.b.Succs[0])
		} else {
			g.enter(n, fr.b.Succs[1])
		}
		return n
	}
	fr.env[fr.b.Instrs[fr.idx].(ssa.Value)] = v
	fr.idx++
	return n
}

// ---- canonical form

type canon struct {
	g     *gram
	tok   map[int]int
	cell  map[int]int
	b     strings.Builder
	order []int
}

func (c *canon) t(x int) int {
	if x == 0 {
		return 0
	}
	if r, ok := c.tok[x]; ok {
		return r
	}
	r := len(c.tok) + 1
	c.tok[x] = r
	return r
}

func (c *canon) val(m *gm, v gval) gval {
	switch v.k {
	case gPos, gTextFrom, gLenFrom, gTextN, gByte:
		v.a = c.t(v.a)
	case gDelta, gSeg, gPSeg, gCov, gKidAt:
		v.a, v.b = c.t(v.a), c.t(v.b)
	case gKLen:
		if v.n == 1 {
			v.a, v.b = c.t(v.a), c.t(v.b)
		}
		if v.n == 2 {
			v.el = c.val(m, gval{k: gErr, el: v.el}).el
		}
	case gAddr:
		if r, ok := c.cell[v.a]; ok {
			v.a = r
		} else {
			r := len(c.cell) + 1
			c.cell[v.a] = r
			c.order = append(c.order, v.a)
			v.a = r
		}
	case gEDelta, gFKid, gFKidF, gFKids:
		v.a = c.t(v.a)
	case gErr, gErrD:
		el := make([]gval, len(v.el))
		for i, e := range v.el {
			if e.a > 0 {
				if _, ok := c.tok[e.a]; ok {
					e.a = c.t(e.a)
				} else {
					e.a = -1 // a position that is no longer in use
				}
			}
			el[i] = e
		}
		v = errSet(v.k, el)
	case gTup, gFn:
		el := make([]gval, len(v.el))
		for i, e := range v.el {
			el[i] = c.val(m, e)
		}
		v.el = el
		if v.s == "lit" || v.s == "lenlt" || v.s == "prefix" {
			v.a = c.t(v.a)
		}
	}
	return v
}

func (c *canon) key(v gval) {
	fmt.Fprintf(&c.b, "%d,%d,%d,%d,%s", v.k, v.a, v.b, v.n, v.s)
	if v.fn != nil {
		c.b.WriteString(v.fn.String())
	}
	for _, e := range v.el {
		c.b.WriteByte('<')
		c.key(e)
		c.b.WriteByte('>')
	}
}

// scan numbers the positions that a state uses.
func (c *canon) scan(m *gm) {
	seen := map[int]bool{}
	var rec func(v gval)
	rec = func(v gval) {
		switch v.k {
		case gErr, gErrD, gEDelta, gFKid, gFKidF, gFKids:
			return
		case gKLen:
			if v.n == 2 {
				return
			}
		case gAddr:
			if !seen[v.a] {
				seen[v.a] = true
				rec(m.cells[v.a])
			}
			return
		case gTup, gFn:
			for _, e := range v.el {
				rec(e)
			}
			if !isLit(v) {
				return
			}
			v.el = nil
		}
		cc := *c
		cc.cell = map[int]int{}
		cc.val(m, v)
	}
	for _, f := range m.frames {
		for _, v := range c.live(f) {
			rec(f.env[v])
		}
	}
}

// live returns the values of a frame that are still needed.
func (c *canon) live(f gframe) []ssa.Value {
	lv := c.g.liveAfter(f.fn, f.b, f.idx)
	if _, ok := f.b.Instrs[f.idx].(*ssa.Call); !ok {
		lv = c.g.liveAfter(f.fn, f.b, f.idx-1)
	}
	var vs []ssa.Value
	for v := range f.env {
		if lv[v] {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

// state renames a machine state and appends its key.
func (c *canon) state(m *gm) *gm {
	n := &gm{dpSign: m.dpSign, asked: m.asked, stage: m.stage, cells: map[int]gval{}}
	c.cell = map[int]int{}
	c.order = nil
	for _, f := range m.frames {
		vs := c.live(f)
		fmt.Fprintf(&c.b, "|%s.%d.%d:", f.fn.Name(), f.b.Index, f.idx)
		g := f
		g.env = make(map[ssa.Value]gval, len(vs))
		for _, v := range vs {
			x := c.val(m, f.env[v])
			g.env[v] = x
			fmt.Fprintf(&c.b, "%s=", v.Name())
			c.key(x)
			c.b.WriteByte(';')
		}
		n.frames = append(n.frames, g)
	}
	for i := 0; i < len(c.order); i++ {
		id := c.order[i]
		x := c.val(m, m.cells[id])
		n.cells[c.cell[id]] = x
		fmt.Fprintf(&c.b, "#%d=", c.cell[id])
		c.key(x)
	}
	n.ncell = len(c.order)
	if len(m.lits) > 0 {
		n.lits = map[string]int{}
		var ks []string
		for k := range m.lits {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			var a, w int
			fmt.Sscanf(k, "%d+%d", &a, &w)
			if a != 0 {
				if _, ok := c.tok[a]; !ok {
					continue
				}
			}
			n.lits[fmt.Sprintf("%d+%d", c.t(a), w)] = c.t(m.lits[k])
			fmt.Fprintf(&c.b, "L%d+%d=%d", c.t(a), w, c.t(m.lits[k]))
		}
	}
	if m.ord != nil {
		n.ord = map[int]int{}
		var ks []int
		for k := range m.ord {
			if _, ok := c.tok[k]; ok {
				ks = append(ks, k)
			}
		}
		sort.Slice(ks, func(i, j int) bool { return c.tok[ks[i]] < c.tok[ks[j]] })
		for _, k := range ks {
			for p, ok := m.ord[k]; ok; p, ok = m.ord[p] {
				if _, live := c.tok[p]; live || p == 0 {
					n.ord[c.t(k)] = c.t(p)
					fmt.Fprintf(&c.b, "O%d>%d", c.t(k), c.t(p))
					break
				}
			}
		}
	}
	return n
}

// join merges states that differ only in values that do not matter to control.
func joinStates(g *gram, a, b *gm) (*gm, bool) {
	if len(a.frames) != len(b.frames) {
		return nil, false
	}
	n := a.clone()
	for i := range n.frames {
		f, h := &n.frames[i], &b.frames[i]
		if f.fn != h.fn || f.b != h.b || f.idx != h.idx {
			return nil, false
		}
		lv := g.liveAfter(f.fn, f.b, f.idx)
		for v := range f.env {
			if !lv[v] {
				continue
			}
			x, ok := joinVal(f.env[v], h.env[v])
			if !ok {
				return nil, false
			}
			f.env[v] = x
		}
	}
	for c, x := range n.cells {
		y, ok := b.cells[c]
		if !ok {
			continue
		}
		z, ok := joinVal(x, y)
		if !ok {
			return nil, false
		}
		n.cells[c] = z
	}
	n.dpSign |= b.dpSign
	for k, p := range n.ord {
		if q, ok := b.ord[k]; !ok || p != q {
			delete(n.ord, k)
		}
	}
	return n, true
}

func joinVal(x, y gval) (gval, bool) {
	var c canon
	c.key(x)
	var d canon
	d.key(y)
	if c.b.String() == d.b.String() {
		return x, true
	}
	if x.k == gTup && y.k == gTup && len(x.el) == len(y.el) && x.s == y.s {
		z := x
		z.el = make([]gval, len(x.el))
		for i := range x.el {
			var ok bool
			if z.el[i], ok = joinVal(x.el[i], y.el[i]); !ok {
				return x, false
			}
		}
		return z, true
	}
	if x.k == gErr || y.k == gErr {
		a, ok1 := failures(x)
		b, ok2 := failures(y)
		if ok1 && ok2 {
			return errSet(gErr, append(append([]gval(nil), a...), b...)), true
		}
	}
	if x.k == gKLen && y.k == gKLen && x.n != 1 && y.n != 1 {
		return gval{k: gKLen, n: 2, el: errSet(gErr, append(append([]gval(nil), x.el...), y.el...)).el}, true
	}
	// numbers and unknown values
	num := func(v gval) bool {
		switch v.k {
		case gTop, gInt, gPos, gDelta, gErrPos, gObj, gMemo, gEmpty:
			return true
		case gTup:
			return true
		case gJunk:
			return true
		}
		return false
	}
	if num(x) && num(y) {
		return gval{}, true
	}
	return x, false
}
