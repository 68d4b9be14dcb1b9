package main

// C07 and C08: the exported operations of the parser.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ruleKind splits a generated function's name.
func ruleKind(fn *ssa.Function) (rule, kind string) {
	if fn == nil || fn.Parent() != nil || !isRuleFunc(fn) {
		return "", ""
	}
	for _, k := range []string{"Accepts", "Node", "Fail", "Action"} {
		if strings.HasSuffix(fn.Name(), k) && len(fn.Name()) > len(k) {
			return strings.TrimSuffix(fn.Name(), k), k
		}
	}
	return "", ""
}

type ruleCall struct {
	rule, kind string
	ev         Event
	idx        int
	args       []*V
	res        *V
}

type parserPath struct {
	o     Outcome
	calls []ruleCall
}

type parserOps struct {
	p       *Program
	e       *Eng
	names   map[string][2]string // opaque call name -> rule, kind
	methods []*ssa.Function
	ptype   types.Type
	paths   map[*ssa.Function][]parserPath
	recv    *V
}

func newParserOps(p *Program, r *Report) *parserOps {
	po := &parserOps{p: p, names: map[string][2]string{}, paths: map[*ssa.Function][]parserPath{}}
	po.ptype = p.typ("ast", "Parser")
	if po.ptype == nil {
		r.bad("anchor", "ast.Parser", "-", "type not found")
		return nil
	}
	e := newEng(p)
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		if ru, k := ruleKind(fn); k != "" {
			po.names[fnName(fn)] = [2]string{ru, k}
			return ActOpaque
		}
		if isRuleFunc(fn) {
			return ActOpaque
		}
		return ActDefault
	}
	po.e = e
	pt := types.NewPointer(po.ptype)
	ms := p.prog.MethodSets.MethodSet(pt)
	po.recv = vSym("p", pt)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !token.IsExported(f.Name()) {
			continue
		}
		m := p.prog.MethodValue(ms.At(i))
		if m == nil || len(m.Blocks) == 0 {
			continue
		}
		po.methods = append(po.methods, m)
		st := newState()
		st.facts[eqAtom(po.recv, vNil)] = false
		args := []*V{po.recv}
		for _, q := range m.Params[1:] {
			args = append(args, vSym(q.Name(), q.Type()))
		}
		outs := e.Run(m, st, args...)
		if e.over {
			r.bad("undecided", fnName(m), p.pos(m.Pos()), "too many paths")
		}
		for _, o := range outs {
			pp := parserPath{o: o}
			for i, ev := range o.St.events {
				if ev.Kind != "call" {
					continue
				}
				if rk, ok := po.names[ev.Name]; ok {
					pp.calls = append(pp.calls, ruleCall{rk[0], rk[1], ev, i, ev.Args, ev.Res})
				}
			}
			po.paths[m] = append(po.paths[m], pp)
		}
	}
	return po
}

func ext(c *V, i int) *V {
	return mk(V{op: OExtract, num: int64(i), args: []*V{c}, typ: nil})
}

// isExt: v is result i of call c (whatever its type annotation).
func isExt(v, c *V, i int) bool {
	return v != nil && v.op == OExtract && v.args[0] == c && v.num == int64(i)
}

// derives: v is computed from the given call's result.
func derives(v, c *V) bool {
	hit := false
	walkTerm(v, func(x *V) bool {
		if x == c {
			hit = true
		}
		return !hit
	}, map[*V]bool{})
	return hit
}

// deref strips loads.
func stripLoads(v *V) *V {
	for v.op == OLoad {
		v = v.args[0]
	}
	return v
}

func extTerm(st *State, c *V, i int) *V {
	// the interned extract with its real type
	for f := range st.facts {
		var hit *V
		walkTerm(f, func(x *V) bool {
			if isExt(x, c, i) {
				hit = x
			}
			return hit == nil
		}, map[*V]bool{})
		if hit != nil {
			return hit
		}
	}
	return nil
}

func ruleParse(p *Program, r *Report) {
	po := newParserOps(p, r)
	if po == nil {
		return
	}
	r.assumption("the generated passes agree with one another (that is property C11) and peg.SimpleError reports the position of the failure tree that it is given")
	bt := func(m *ssa.Function) string { return fnName(m) }
	ptr := types.NewPointer(po.ptype)
	_ = ptr
	nres := 0
	for _, m := range po.methods {
		sig := m.Signature
		rs := sig.Results()
		if rs.Len() == 0 {
			continue
		}
		last := rs.At(rs.Len() - 1).Type()
		if _, ok := last.Underlying().(*types.Interface); !ok || !types.Implements(last, errorType()) {
			continue
		}
		nres++
		hasOffs := sig.Params().Len() > 0
		var want *V = vInt(0)
		if hasOffs {
			want = vSym(m.Params[1].Name(), m.Params[1].Type())
		}
		for _, pp := range po.paths[m] {
			o := pp.o
			where := p.pos(o.Pos)
			id := bt(m) + ": " + o.St.factString()
			if o.Kind == Panicked {
				r.bad("parse", bt(m)+" panics", where, "a path of "+bt(m)+" ends in a panic: "+id)
				continue
			}
			if o.Kind == Cut {
				r.bad("undecided", bt(m), where, "the analysis of a path was cut short")
				continue
			}
			var acc *ruleCall
			for i := range pp.calls {
				if pp.calls[i].kind == "Accepts" {
					if acc != nil && acc.res != pp.calls[i].res {
						r.bad("parse", bt(m)+" accepts twice", where, "more than one acceptance decision on a path: "+id)
					}
					acc = &pp.calls[i]
				}
			}
			if acc == nil {
				r.bad("parse", bt(m)+" without accepting", where, "a result is returned without deciding acceptance on the path: "+id)
				continue
			}
			if !r.check(len(acc.args) == 2 && o.St.resolve(acc.args[1]) == want, "parse-start", bt(m)+" accepts from the requested offset", where, "acceptance is decided from "+acc.args[1].String()+", not from the requested offset") {
				continue
			}
			z := o.St.zone()
			n := extTerm(o.St, acc.res, 0)
			errv := o.Vals[len(o.Vals)-1]
			isnil, known := o.St.knownNil(errv)
			if !known && errv.op == OIface {
				isnil, known = false, true
			}
			if !known {
				r.bad("parse", bt(m)+" unknown error", where, "cannot tell whether the error "+errv.String()+" is nil on path "+id)
				continue
			}
			if isnil {
				// success
				ok := n != nil && z.entails(vZero, n, 0)
				if !r.check(ok, "parse-success", bt(m)+" succeeds only if the text is accepted", where, "a result is returned although nothing on the path shows that the text was accepted: "+id) {
					continue
				}
				if !hasOffs {
					full := false
					for y := range allTerms(o.St) {
						if y.op == OLen && isText(y.args[0], po) && z.entails(y, n, 0) {
							full = true
						}
					}
					if !r.check(full, "parse-full", bt(m)+" succeeds only at the end of the text", where, "a result is returned although nothing on the path shows that the grammar reached the last byte of the text: "+id) {
						continue
					}
				}
				// the result comes from the same rule at the same place
				good := false
				why := "the result " + o.Vals[0].String() + " does not come from the rule that accepted"
				for _, c := range pp.calls {
					if (c.kind == "Node" || c.kind == "Action") && derives(o.Vals[0], c.res) {
						if c.rule == acc.rule && o.St.resolve(c.args[1]) == want {
							good = true
						} else {
							why = fmt.Sprintf("the result comes from %s%s at %s, acceptance was decided by %sAccepts", c.rule, c.kind, c.args[1], acc.rule)
						}
					}
				}
				r.check(good, "parse-result", bt(m)+" returns what was accepted", where, why)
				if hasOffs && len(o.Vals) == 3 && isInteger(rs.At(1).Type()) {
					// the number of bytes
					good := false
					for _, c := range pp.calls {
						if c.kind != "Fail" && c.rule == acc.rule {
							for x := range allTermsOf(o.Vals[1]) {
								if isExt(x, c.res, 0) && addInts(x, want, -1) == o.Vals[1] {
									good = true
								}
							}
						}
					}
					r.check(good, "parse-length", bt(m)+" returns the number of bytes parsed", where, "the returned length "+o.Vals[1].String()+" is not the distance from the offset to where the rule ended")
				}
				continue
			}
			// failure
			for i := 0; i < len(o.Vals)-1; i++ {
				v := o.Vals[i]
				if v.op == ONil {
					continue
				}
				if c, ok := v.intVal(); ok && c == 0 {
					continue
				}
				r.bad("parse-failure", bt(m)+" returns a result with an error", where, "a failed parse returns "+v.String())
			}
			checkError(r, po, bt(m), where, o, pp, acc, n, want, errv, z)
		}
	}
	r.check(nres >= 3, "anchor", "Parser operations", "-", "fewer than three operations that return an error")
	checkByteOffset(r, po)
	r.atLeast("parse-success", 3)
	r.atLeast("parse-full", 2)
	r.atLeast("parse-error", 3)
}

func errorType() *types.Interface {
	return types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
}

func allTermsOf(v *V) map[*V]bool {
	out := map[*V]bool{}
	walkTerm(v, func(x *V) bool { out[x] = true; return true }, map[*V]bool{})
	return out
}

func allTerms(st *State) map[*V]bool {
	out := map[*V]bool{}
	seen := map[*V]bool{}
	for f := range st.facts {
		walkTerm(f, func(x *V) bool { out[x] = true; return true }, seen)
	}
	return out
}

// isText: the text of the parser.
func isText(v *V, po *parserOps) bool {
	return isString(v.typeOr(types.Typ[types.String])) && v.op == OLoad && strings.HasSuffix(v.String(), ".text") && derives(v, po.recv)
}

// checkError: what an error says.
func checkError(r *Report, po *parserOps, name, where string, o Outcome, pp parserPath, acc *ruleCall, n, want, errv *V, z *zone) {
	e := po.e
	// the tree, asked of the error itself
	it := errv.typ
	if errv.op != OIface {
		r.bad("parse-error", name, where, "the error "+errv.String()+" has no known type")
		return
	}
	ask := func(m string) (*V, *State) {
		fn := po.p.method(it, m)
		if fn == nil {
			return nil, nil
		}
		outs := e.Run(fn, o.St.clone(), errv.args[0])
		if len(outs) != 1 || outs[0].Kind != Ret || len(outs[0].Vals) != 1 {
			return nil, nil
		}
		return outs[0].Vals[0], outs[0].St
	}
	tree, _ := ask("Tree")
	if tree == nil {
		r.bad("parse-error", name, where, "cannot tell what the failure tree of the error is")
		return
	}
	located := false
	why := fmt.Sprintf("the failure tree %s does not come from the failure pass of the rule that rejected the text, from the requested offset to the furthest failure", tree)
	for _, c := range pp.calls {
		if c.kind == "Fail" && isExt(tree, c.res, 1) {
			perr := extTermIn(acc.res, 1, c.args[2])
			ok := c.rule == acc.rule && c.args[1] == want && perr != nil && addInts(want, perr, 1) == c.args[2]
			if ok {
				located = true
				if n == nil || !z.entails(n, vZero, -1) {
					located = false
					why = "the text is rejected on a path on which nothing shows that the rule failed"
				}
			}
		}
	}
	if !located && tree.op == OObj && n != nil {
		// a failure that the operation makes itself: at the place where the rule ended
		ft := po.p.failType()
		if ft != nil {
			pos := o.St.load(fieldAddr(tree, fieldIndex(ft, "Pos"), ft), types.Typ[types.Int])
			if pos == n && z.entails(vZero, n, 0) {
				located = true
			} else {
				why = "the failure that is made for an unfinished text is not at the place where the grammar ended"
			}
		}
	}
	if !r.check(located, "parse-error", name+" locates the failure", where, why) {
		return
	}
	// the message is made from the text and that tree
	okMsg, okPath := false, false
	for _, ev := range o.St.events {
		if ev.Kind == "call" && strings.HasSuffix(ev.Name, "peg.SimpleError") && len(ev.Args) == 2 && isText(ev.Args[0], po) && ev.Args[1] == tree {
			okMsg = true
		}
	}
	// the file path ends up in what the error prints
	msgT, mst := askErr(e, po, it, errv, o)
	if mst != nil {
		for x := range allTermsOf(msgT) {
			if x.op == OLoad && strings.HasSuffix(x.String(), ".FilePath") && derives(x, po.recv) {
				okPath = true
			}
		}
	}
	if !okPath {
		// kept in the error's memory
		for _, c := range o.St.heap {
			for x := range allTermsOf(c) {
				if x.op == OLoad && strings.HasSuffix(x.String(), ".FilePath") && derives(x, po.recv) {
					okPath = true
				}
			}
		}
		for a, v := range o.St.over {
			if strings.HasSuffix(a.String(), ".FilePath") && v.op == OLoad && strings.HasSuffix(v.String(), ".FilePath") && derives(v, po.recv) {
				okPath = true
			}
		}
	}
	r.check(okMsg, "parse-message", name+" describes the failure", where, "the error is not made by peg.SimpleError from the parser's text and the failure tree")
	r.check(okPath, "parse-path", name+" names the file path", where, "the configured file path does not reach the error")
	// ByteOffset is that of the same tree
	fn := po.p.method(it, "ByteOffset")
	if fn == nil {
		r.bad("parse-offset", name, where, "the error has no ByteOffset")
		return
	}
	bo := po.p.fnByteOffset(fn)
	e2 := newEng(po.p)
	e2.Policy = func(f *ssa.Function, args []*V, st *State) Action {
		if f == bo {
			return ActOpaque
		}
		return ActDefault
	}
	outs := e2.Run(fn, o.St.clone(), errv.args[0])
	good := false
	for _, q := range outs {
		if q.Kind == Ret && len(q.Vals) == 1 && q.Vals[0].op == OCall && len(q.Vals[0].args) == 1 && q.Vals[0].args[0] == tree {
			good = true
		}
	}
	r.check(good && len(outs) == 1, "parse-offset", name+" reports the offset of the failure tree", where, "ByteOffset is not the offset of the error's own failure tree")
}

func askErr(e *Eng, po *parserOps, it types.Type, errv *V, o Outcome) (*V, *State) {
	fn := po.p.method(it, "Error")
	if fn == nil {
		return nil, nil
	}
	outs := e.Run(fn, o.St.clone(), errv.args[0])
	if len(outs) != 1 || outs[0].Kind != Ret {
		return nil, nil
	}
	return outs[0].Vals[0], outs[0].St
}

func extTermIn(c *V, i int, v *V) *V {
	for x := range allTermsOf(v) {
		if isExt(x, c, i) {
			return x
		}
	}
	return nil
}

func (p *Program) failType() types.Type {
	for _, im := range p.pkgs["ast"].Types.Imports() {
		if strings.HasSuffix(im.Path(), "peggy/peg") {
			if o := im.Scope().Lookup("Fail"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// fnByteOffset finds the function that searches a failure tree for the furthest failure.
func (p *Program) fnByteOffset(m *ssa.Function) *ssa.Function {
	for _, g := range callees(p, m) {
		s := g.Signature
		if s.Params().Len() == 1 && isNamed(s.Params().At(0).Type(), "Fail") && s.Results().Len() == 1 && isInteger(s.Results().At(0).Type()) {
			return g
		}
	}
	return nil
}

// checkByteOffset: the offset of a failure tree is the largest among its leaves.
func checkByteOffset(r *Report, po *parserOps) {
	p := po.p
	var f *ssa.Function
	for _, g := range p.allFuncs("ast") {
		if g.Name() == "ByteOffset" && g.Signature.Recv() != nil {
			f = p.fnByteOffset(g)
		}
	}
	if f == nil {
		r.bad("anchor", "ByteOffset", "-", "the function that finds the furthest failure is not found")
		return
	}
	e := newEng(p)
	e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
		if g == f {
			return ActPure
		}
		return ActDefault
	}
	ft := p.failType()
	a := vSym("fail", types.NewPointer(ft))
	st := newState()
	st.facts[eqAtom(a, vNil)] = false
	outs := e.Run(f, st, a)
	kids := st.load(fieldAddr(a, fieldIndex(ft, "Kids"), ft), nil)
	for _, o := range outs {
		where := p.pos(f.Pos())
		name := fnName(f)
		if o.Kind != Ret {
			r.bad("offset", name, where, "a path does not return: "+o.St.factString())
			continue
		}
		n, ok := o.St.shape[kids]
		if !ok {
			for v, k := range o.St.shape {
				if strings.HasSuffix(v.String(), ".Kids") {
					n, ok = k, true
				}
			}
		}
		if isn, kn := o.St.knownNil(kids); !ok && kn && isn {
			n, ok = 0, true
		}
		if !ok {
			r.bad("offset", name, where, "a path does not look at the number of kids")
			continue
		}
		res := o.Vals[0]
		z := o.St.zone()
		if n == 0 {
			good := res.op == OLoad && strings.HasSuffix(res.String(), ".Pos")
			r.check(good, "offset", name+" of a leaf", where, "the offset of a failure without kids is "+res.String()+", not its position")
			continue
		}
		// every kid's offset is at most the result, and the result is one of them
		calls := map[*V]bool{}
		for x := range allTerms(o.St) {
			if callName(x) == name {
				calls[x] = true
			}
		}
		if callName(res) == name {
			calls[res] = true
		}
		bad := ""
		if int64(len(calls)) != n && !(callName(res) == name && n == 1) {
			bad = fmt.Sprintf("looks at %d of %d kids", len(calls), n)
		}
		isOne := calls[res]
		if c, ok := res.intVal(); ok && c <= 0 {
			isOne = true // only if no kid has an offset of that size or more
		}
		if !isOne {
			if isMaxOf(res, calls) {
				r.ok("offset", name)
				continue
			}
			bad = "the result " + res.String() + " is not the offset of a kid"
		}
		for c := range calls {
			if !z.entails(c, res, 0) {
				bad = "the result " + res.String() + " may be less than that of a kid (" + o.St.factString() + ")"
			}
		}
		r.check(bad == "", "offset", name+" of a failure with kids", where, bad)
	}
	r.atLeast("offset", 3)
}

func isMaxOf(v *V, calls map[*V]bool) bool {
	if callName(v) != "max" {
		return calls[v]
	}
	for _, a := range v.args {
		if c, ok := a.intVal(); ok && c <= 0 {
			continue
		}
		if !isMaxOf(a, calls) {
			return false
		}
	}
	return true
}
