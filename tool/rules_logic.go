package main

// C12: connectives.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- canonical terms: what a value is, without object identities, sequence
// numbers, interface wrappers and variable numbers

func stripSeq(s string) string {
	if i := strings.LastIndexByte(s, '#'); i >= 0 {
		return s[:i]
	}
	return s
}

type canonizer struct {
	l    *lgen
	q    *lpath
	ev   map[*V]*Event
	open map[int64]bool
	memo map[*V]*V
}

func (q *lpath) canon(l *lgen, v *V) *V {
	c := &canonizer{l: l, q: q, ev: map[*V]*Event{}, open: map[int64]bool{}}
	for i := range q.st.events {
		if e := &q.st.events[i]; e.Kind == "call" && e.St != nil {
			c.ev[e.Res] = e
		}
	}
	return c.do(v, q.st, 0)
}

func (c *canonizer) do(v *V, st *State, d int) *V {
	if d > 60 {
		return v
	}
	sub := func(x *V) *V { return c.do(x, st, d+1) }
	switch v.op {
	case OConst, ONil, OFunc, OGlobal:
		return v
	case OSym:
		if i := strings.IndexByte(v.aux, '<'); i > 0 {
			return vSym(v.aux[:i], nil)
		}
		return v
	case OIface, OAs:
		return sub(v.args[0])
	case OObj:
		if c.open[v.num] {
			return vSym("↺"+shortType(v.typ), nil)
		}
		x, ok := st.heap[v.num]
		if !ok {
			return v
		}
		c.open[v.num] = true
		r := sub(x)
		delete(c.open, v.num)
		return mk(V{op: OUn, aux: "&", args: []*V{r}})
	case OStruct:
		as := make([]*V, len(v.args))
		for i, a := range v.args {
			as[i] = sub(a)
		}
		if v.typ != nil {
			if n := namedOf(v.typ); n != nil && (n.Obj().Name() == "Variable" || n.Obj().Name() == "Binding") {
				if i := fieldIndex(v.typ, "N"); i >= 0 && i < len(as) {
					as[i] = vSym("N", nil)
				}
			}
		}
		return mk(V{op: OStruct, aux: v.aux, typ: v.typ, args: as})
	case OSlice:
		es, ok := listElems(st, v)
		if !ok {
			break
		}
		return mk(V{op: OUn, aux: "[]", args: []*V{mk(V{op: OStruct, aux: "l", args: c.list(es, st, d)})}})
	case OCall:
		s2 := st
		if e, ok := c.ev[v]; ok && e.St != nil {
			s2 = e.St
		}
		as := make([]*V, len(v.args))
		for i, a := range v.args {
			as[i] = c.do(a, s2, d+1)
		}
		return mk(V{op: OCall, aux: stripSeq(v.aux), args: as})
	}
	if len(v.args) == 0 {
		return v
	}
	as := make([]*V, len(v.args))
	for i, a := range v.args {
		as[i] = sub(a)
	}
	switch v.op {
	case OLoad:
		return loadOf(as[0])
	case OField:
		return fieldOf(as[0], int(v.num), v.typ)
	}
	n := *v
	n.args = as
	return mk(n)
}

// list folds a run of all the elements of one opaque list into "list...".
func (c *canonizer) list(es []*V, st *State, d int) []*V {
	var out []*V
	for i := 0; i < len(es); {
		if es[i].op == OLoad && es[i].args[0].op == OIAddr {
			base := es[i].args[0].args[0]
			if n, ok := st.shape[base]; ok && n > 0 && i+int(n) <= len(es) {
				all := true
				for k := int64(0); k < n; k++ {
					x := es[i+int(k)]
					if x.op != OLoad || x.args[0].op != OIAddr || x.args[0].args[0] != base || x.args[0].args[1] != vInt(k) {
						all = false
					}
				}
				if all {
					out = append(out, mk(V{op: OUn, aux: "...", args: []*V{c.do(base, st, d+1)}}))
					i += int(n)
					continue
				}
			}
		}
		out = append(out, c.do(es[i], st, d+1))
		i++
	}
	return out
}

// sliceElems lists the elements of a slice of known extent.
func listElems(st *State, v *V) ([]*V, bool) {
	switch v.op {
	case ONil:
		return nil, true
	case OSlice:
		var es []*V
		for i := v.num; i < v.num2; i++ {
			es = append(es, st.load(indexAddr(v.args[0], vInt(i)), nil))
		}
		return es, true
	}
	if n, ok := st.shape[v]; ok {
		var es []*V
		for i := int64(0); i < n; i++ {
			es = append(es, st.load(indexAddr(v, vInt(i)), nil))
		}
		return es, true
	}
	return nil, false
}

func contains(v, x *V) bool {
	hit := false
	walkTerm(v, func(y *V) bool {
		if y == x {
			hit = true
		}
		return !hit
	}, map[*V]bool{})
	return hit
}

// ---- connections

// connShape tells whether t is a struct that joins two things by a Connector.
func (l *lgen) connShape(t types.Type) (con, left, right int, ok bool) {
	s, isS := t.Underlying().(*types.Struct)
	if !isS {
		return
	}
	con, left, right = -1, -1, -1
	ct := l.p.typ("logic", "Connector")
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if types.Identical(f.Type(), ct) {
			con = i
			continue
		}
		switch strings.ToLower(f.Name()) {
		case "left":
			left = i
		case "right":
			right = i
		}
	}
	return con, left, right, con >= 0 && left >= 0 && right >= 0
}

// copShape tells whether t is a connective phrase of the syntax.
func (l *lgen) copShape(t types.Type) bool {
	return fieldIndex(t, "RU") >= 0 && fieldIndex(t, "Left") >= 0 && fieldIndex(t, "Right") >= 0
}

type joined struct {
	x           *V // the phrase (or intermediate connection), canonical
	typ         types.Type
	left, right *V // its operands, canonical
}

// join identifies what a connector term was read from.
func (l *lgen) join(q *lpath, k *V) (j joined, ok bool) {
	addr := k
	if k.op == OCall && len(k.args) == 1 {
		addr = k.args[0]
	}
	if addr.op == OLoad {
		addr = addr.args[0]
	}
	if addr.op != OFAddr {
		return
	}
	return l.joinAt(q, addr)
}

func (l *lgen) joinAt(q *lpath, addr *V) (j joined, ok bool) {
	t := addr.typ
	if p, isP := t.Underlying().(*types.Pointer); isP {
		t = p.Elem()
	}
	var li, ri int
	switch {
	case l.copShape(t) && fieldName(t, int(addr.num)) == "RU":
		li, ri = fieldIndex(t, "Left"), fieldIndex(t, "Right")
	default:
		c, a, b, isC := l.connShape(t)
		if !isC || c != int(addr.num) {
			return
		}
		li, ri = a, b
	}
	p := addr.args[0]
	j.x, j.typ = q.canon(l, p), t
	j.left = q.canon(l, q.st.load(fieldAddr(p, li, addr.typ), nil))
	j.right = q.canon(l, q.st.load(fieldAddr(p, ri, addr.typ), nil))
	return j, true
}

type connObj struct {
	obj              *V
	con, left, right *V // raw
	j                joined
	joined           bool
}

func (l *lgen) connsOf(q *lpath) []connObj {
	var ids []int64
	for id, t := range q.st.otype {
		if _, _, _, ok := l.connShape(t); ok {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var out []connObj
	for _, id := range ids {
		t := q.st.otype[id]
		ci, li, ri, _ := l.connShape(t)
		c := q.st.heap[id]
		if c.op != OStruct {
			continue
		}
		o := connObj{obj: mk(V{op: OObj, num: id, typ: t}), con: c.args[ci], left: c.args[li], right: c.args[ri]}
		o.j, o.joined = l.join(q, o.con)
		out = append(out, o)
	}
	return out
}

// eventOf finds the position of a call among the events of a path.
func eventIndex(q *lpath, c *V) int {
	for i, e := range q.st.events {
		if e.Kind == "call" && e.Res == c {
			return i
		}
	}
	return -1
}

// callsIn returns the positions of the interpretation calls inside a raw value.
func callsIn(q *lpath, v *V) (out []int) {
	seen := map[*V]bool{}
	var walk func(x *V)
	walk = func(x *V) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OCall {
			if i := eventIndex(q, x); i >= 0 && q.st.events[i].St != nil {
				out = append(out, i)
			}
		}
		if x.op == OObj {
			walk(q.st.heap[x.num])
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(v)
	sort.Ints(out)
	return
}

// wordFact returns the truth of "the word at this address is s" on the path.
func wordFact(q *lpath, word *V, s string) (bool, bool) {
	for a, b := range q.st.facts {
		if a.op == OCall && len(a.args) == 2 && a.args[0] == word {
			if t, ok := a.args[1].strVal(); ok && t == s {
				return b, true
			}
		}
	}
	return false, false
}

func ruleConnect(p *Program, r *Report) {
	l := newLgen(p, r)
	if l == nil {
		return
	}
	for _, f := range l.interps {
		for _, q := range l.paths(f, r) {
			if q.o.Kind == Ret {
				l.checkConns(q, r)
				l.checkWhole(q, r)
				l.checkPlural(q, r)
			} else if q.o.Kind == Cut {
				r.bad("undecided", fnName(f), p.pos(f.Pos()), "a path is not followed to its end")
			}
		}
	}
	r.assumption("lists of terms, names and bindings are followed up to length 3 (names and bindings 2); the terms of a connected list of terms are not empty")
	r.assumption("calls among the mutually recursive interpretation functions are uninterpreted; each of them is analysed")
	r.atLeast("operands", 14)
	r.atLeast("connective-read", 14)
	r.atLeast("plural", 3)
}

// checkConns checks every connection built on a path.
func (l *lgen) checkConns(q *lpath, r *Report) {
	name := fnName(q.fn)
	where := l.p.pos(q.o.Pos)
	for _, c := range l.connsOf(q) {
		if q.st.heap[c.obj.num].op != OStruct {
			continue
		}
		where := l.p.pos(q.st.opos[c.obj.num])
		left, right := q.canon(l, c.left), q.canon(l, c.right)
		if !c.joined {
			s, isC := c.con.strVal()
			and, _ := l.constStr("logic", "And")
			if !isC {
				r.bad("connector", name+" "+c.con.String(), where, "the connector of a connection is not read from a connective: "+c.con.String())
				continue
			}
			if !r.check(s == and, "connector", name+" fixed", where, "a connection with a fixed connector other than ∧: "+s) {
				continue
			}
			// a fixed ∧ for a connective that was compared with "ru"
			found := false
			for a, b := range q.st.facts {
				if b && a.op == OCall && len(a.args) == 2 && a.args[1] == vStr("ru") && a.args[0].op == OLoad && a.args[0].args[0].op == OFAddr {
					if j, ok := l.joinAt(q, a.args[0].args[0]); ok && (contains(left, j.left) || contains(left, j.right)) {
						c.j, c.joined, found = j, true, true
					}
				}
			}
			if !found {
				// not a connective phrase: it must not join the operands of one
				bad := ""
				for _, v := range []*V{left, right} {
					walkTerm(v, func(x *V) bool {
						if x.op == OFAddr && x.typ != nil && l.copShape(derefT(x.typ)) {
							if n := fieldName(derefT(x.typ), int(x.num)); n == "Left" || n == "Right" {
								bad = x.String()
							}
						}
						return true
					}, map[*V]bool{})
				}
				r.check(bad == "", "connector", name+" plain", where, "the operands of a connective phrase are joined by a fixed ∧: "+bad)
				continue
			}
		}
		j := c.j
		lenKnown := true
		for _, o := range []*V{j.left, j.right} {
			_ = o
		}
		if l.emptyOperand(q, j) {
			continue
		}
		what := name + " " + shortType(j.typ)
		if !r.check(contains(left, j.left) && !contains(left, j.right), "operands", what+" left", where,
			"the left side of the connection is not the reading of the left operand alone: "+left.String()) {
			continue
		}
		sub := substTerm(left, func(x *V) *V {
			if x == j.left {
				return j.right
			}
			return nil
		}, map[*V]*V{})
		if !r.check(lenKnown && sub == right, "operands", what, where,
			"the right side of the connection is not the left side with the right operand in place of the left one: left "+left.String()+" ; right "+right.String()) {
			continue
		}
		cl, cr := callsIn(q, c.left), callsIn(q, c.right)
		if len(cl) > 0 && len(cr) > 0 {
			r.check(cl[len(cl)-1] < cr[0], "order", what, where, "the right operand is read before the left one")
		}
		r.check(len(cl) > 0 && len(cr) > 0, "operands", what+" read", where, "an operand is not read: "+left.String())
		l.checkSurroundings(q, r, c, what, where)
	}
	_ = where
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// emptyOperand tells whether a path is about a connected list of terms that is empty.
func (l *lgen) emptyOperand(q *lpath, j joined) bool {
	for x, n := range q.st.shape {
		if n == 0 {
			if c := q.canon(l, x); c == j.left || c == j.right {
				return true
			}
		}
	}
	return false
}

func (l *lgen) constStr(pkg, name string) (string, bool) {
	pk := l.p.pkgs[pkg]
	if pk == nil {
		return "", false
	}
	c, ok := pk.Types.Scope().Lookup(name).(*types.Const)
	if !ok {
		return "", false
	}
	v := mk(V{op: OConst, cv: c.Val()})
	return v.strVal()
}

// checkSurroundings: the operands are read with everything else that was given
// to the function, unchanged.
func (l *lgen) checkSurroundings(q *lpath, r *Report, c connObj, what, where string) {
	for side, v := range []*V{c.left, c.right} {
		op, sn := c.j.left, "left"
		if side == 1 {
			op, sn = c.j.right, "right"
		}
		for v.op == OIface {
			v = v.args[0]
		}
		if v.op != OCall {
			// a reading that is built in place: C14 and C23 apply
			continue
		}
		i := eventIndex(q, v)
		if i < 0 || q.st.events[i].St == nil {
			continue
		}
		ev := q.st.events[i]
		g := l.rootNamed(callName(v))
		if g == nil {
			continue
		}
		used := map[int]bool{}
		cs := &lpath{fn: q.fn, o: q.o, st: q.st, params: q.params}
		args := make([]*V, len(ev.Args))
		for k := range ev.Args {
			args[k] = q.canon(l, v).args[k]
		}
		_ = cs
		for pi, pv := range q.params {
			pt := q.fn.Params[pi].Type()
			if types.Identical(pt, l.iptr) {
				continue
			}
			pc := q.canon(l, pv)
			if contains(c.j.x, pv) || contains(c.j.x, pc) {
				// the phrase came with this parameter: the rest of a list stays behind the operand
				if sl, ok := pt.Underlying().(*types.Slice); ok {
					_ = sl
					for k, a := range args {
						if !types.Identical(g.Params[k].Type(), pt) {
							continue
						}
						l.checkTail(q, r, c, pv, ev.Args[k], a, op, what+" "+sn, where)
						used[k] = true
					}
				}
				continue
			}
			k := -1
			for m := range args {
				if !used[m] && types.Identical(g.Params[m].Type(), pt) && args[m] == pc {
					k = m
				}
			}
			if k >= 0 {
				used[k] = true
				r.ok("surroundings", what+" "+sn+" "+q.fn.Params[pi].Name())
				continue
			}
			has := false
			for m := range args {
				if !used[m] && types.Identical(g.Params[m].Type(), pt) && args[m] != op {
					has = true
				}
			}
			if has {
				r.bad("surroundings", what+" "+sn+" "+q.fn.Params[pi].Name(), where, "the operand is not read with the same "+q.fn.Params[pi].Name()+": "+q.canon(l, v).String())
			}
		}
	}
}

// checkTail: an operand that replaces the first element of a list is followed by the rest.
func (l *lgen) checkTail(q *lpath, r *Report, c connObj, param, rawArg, arg, op *V, what, where string) {
	es, ok := listElems(q.st, param)
	if !ok {
		r.bad("undecided", what, where, "the list that the phrase was taken from has unknown length")
		return
	}
	ev := q.st
	as, ok2 := listElems(ev, rawArg)
	if !ok2 {
		r.bad("tail", what, where, "the list that the operand is read with is unknown: "+arg.String())
		return
	}
	// which element is the phrase in?
	at := -1
	for i, e := range es {
		if x := q.canon(l, e); contains(c.j.x, x) {
			at = i
			break
		}
	}
	if at < 0 {
		r.bad("undecided", what, where, "the phrase is not an element of the list")
		return
	}
	rest := es[at+1:]
	ok = len(as) >= len(rest)
	for i := range rest {
		if ok && q.canon(l, as[len(as)-len(rest)+i]) != q.canon(l, rest[i]) {
			ok = false
		}
	}
	if ok {
		head := as[:len(as)-len(rest)]
		cz := q.canon(l, mk(V{op: OStruct, aux: "l", args: head}))
		if !contains(cz, op) && !headIs(q, l, head, op) {
			ok = false
		}
		// before the phrase nothing changes
		for i := 0; i < at && ok; i++ {
			if i >= len(head) || q.canon(l, head[i]) != q.canon(l, es[i]) {
				ok = false
			}
		}
		if ok && len(head) == at+1 {
			l.checkWrapped(q, r, es[at], head[at], op, what, where)
		}
	}
	r.check(ok, "tail", what, where, "the terms after the connective phrase do not follow its operand unchanged: "+arg.String())
}

func headIs(q *lpath, l *lgen, head []*V, op *V) bool {
	// the elements of a list operand
	for i, h := range head {
		if h.op != OLoad || h.args[0].op != OIAddr || h.args[0].args[1] != vInt(int64(i)) || q.canon(l, h.args[0].args[0]) != op {
			return false
		}
	}
	return len(head) > 0
}

// checkWrapped: a phrase that stands inside of another is replaced there and the
// rest of the other is kept.
func (l *lgen) checkWrapped(q *lpath, r *Report, old, new, op *V, what, where string) {
	n := q.canon(l, new)
	if n == op {
		return
	}
	if n.op != OUn || n.aux != "&" || n.args[0].op != OStruct {
		return
	}
	st := n.args[0]
	oc := q.canon(l, old)
	for i, a := range st.args {
		if contains(a, op) {
			continue
		}
		want := loadOf(fieldAddr(oc, i, st.typ))
		hit := false
		walkTerm(a, func(x *V) bool {
			if x == want || x.op == OLoad && x.args[0].op == OFAddr && int(x.args[0].num) == i && x.args[0].args[0] == oc {
				hit = true
			}
			return true
		}, map[*V]bool{})
		r.check(hit, "wrapped", what+" "+fieldName(st.typ, i), where, "the "+fieldName(st.typ, i)+" of the phrase around the connective is not kept: "+a.String())
	}
}

func (l *lgen) rootNamed(n string) *ssa.Function {
	for f := range l.roots {
		if fnName(f) == n {
			return f
		}
	}
	return nil
}

// checkWhole: a connective phrase that a function was given and looked into is
// what the function's result joins.
func (l *lgen) checkWhole(q *lpath, r *Report) {
	name := fnName(q.fn)
	where := l.p.pos(q.o.Pos)
	conns := l.connsOf(q)
	type cand struct {
		v *V
		t types.Type
	}
	var cs []cand
	for v, t := range q.st.dyn {
		if e := derefT(t); l.copShape(e) {
			cs = append(cs, cand{v, t})
		} else if _, _, _, ok := l.connShape(e); ok {
			cs = append(cs, cand{v, t})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].v.id < cs[j].v.id })
	for _, k := range cs {
		x := q.canon(l, k.v)
		what := name + " " + shortType(k.t)
		if q.o.Vals == nil {
			continue
		}
		if e := derefT(k.t); l.copShape(e) {
			// roi makes one plural argument
			ru := loadOf(fieldAddr(mkAs(k.v, k.t), fieldIndex(e, "RU"), e))
			isRoi := false
			for a, b := range q.st.facts {
				if b && a.op == OCall && len(a.args) == 2 && a.args[1] == vStr("roi") && (a.args[0] == ru || q.canon(l, a.args[0]) == q.canon(l, ru)) {
					isRoi = true
				}
			}
			if isRoi {
				l.checkRoi(q, r, x, e, what, where)
				continue
			}
		}
		ok := false
		for _, c := range conns {
			if !c.joined {
				// ∧ on the path where the word is ru
				for a, b := range q.st.facts {
					if b && a.op == OCall && len(a.args) == 2 && a.args[1] == vStr("ru") && a.args[0].op == OLoad && a.args[0].args[0].op == OFAddr {
						if j, isJ := l.joinAt(q, a.args[0].args[0]); isJ {
							c.j, c.joined = j, true
						}
					}
				}
			}
			if !c.joined || c.j.x != x {
				continue
			}
			for _, v := range q.o.Vals {
				for v.op == OIface {
					v = v.args[0]
				}
				if v == c.obj {
					ok = true
				}
			}
		}
		r.check(ok, "connective-read", what, where, "the result is not the connection of the connective phrase that was given: "+q.resultString(l))
	}
}

func (q *lpath) resultString(l *lgen) string {
	s := ""
	for _, v := range q.o.Vals {
		s += q.canon(l, v).String() + " "
	}
	return s
}

// checkRoi: both operands of roi go, in order, into the reading of the plural argument.
func (l *lgen) checkRoi(q *lpath, r *Report, x *V, t types.Type, what, where string) {
	ok := false
	for i := range q.st.events {
		ev := &q.st.events[i]
		if ev.Kind != "call" || ev.St == nil {
			continue
		}
		c := q.canon(l, ev.Res)
		li, ri := -1, -1
		for k, a := range c.args {
			if a.op == OLoad && a.args[0].op == OFAddr && a.args[0].args[0] == x {
				switch fieldName(derefT(a.args[0].typ), int(a.args[0].num)) {
				case "Left":
					li = k
				case "Right":
					ri = k
				}
			}
		}
		if li >= 0 && ri > li {
			// its result is part of the result of the function
			for _, v := range q.o.Vals {
				for _, k := range callsIn(q, v) {
					if k == i {
						ok = true
					}
				}
			}
		}
	}
	r.check(ok, "plural", what+" roi", where, "the two operands of roi do not go in order into the reading of one plural argument")
}

// checkPlural: a plural argument lists the readings of its operands in order.
func (l *lgen) checkPlural(q *lpath, r *Report) {
	for id, t := range q.st.otype {
		n := namedOf(t)
		if n == nil || n.Obj().Name() != "Plurality" {
			continue
		}
		c := q.st.heap[id]
		if c.op != OStruct {
			continue
		}
		where := l.p.pos(q.st.opos[id])
		es, ok := listElems(q.st, c.args[fieldIndex(t, "Arguments")])
		if !r.check(ok && len(es) == 2, "plural", fnName(q.fn)+" operands", where, "a plural argument does not have two arguments") {
			continue
		}
		src := func(v *V) int {
			best := -1
			cv := q.canon(l, v)
			for i, pv := range q.params {
				if types.Identical(q.fn.Params[i].Type(), l.iptr) {
					continue
				}
				if contains(cv, pv) {
					best = i
				}
			}
			return best
		}
		a, b := src(es[0]), src(es[1])
		r.check(a >= 0 && a < b, "plural", fnName(q.fn)+" order", where, "the arguments of a plural argument are not the readings of its two operands in order")
	}
}
