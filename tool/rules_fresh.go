package main

// C07: results of separate calls on a parser are independent.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// memoFields finds, for each kind of pass, the fields of the parser
// that it reads remembered results from or writes them to.
func memoFields(p *Program) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	direct := map[*ssa.Function]map[string]bool{}
	for _, f := range p.allFuncs("ast") {
		if !isRuleFunc(f) {
			continue
		}
		m := map[string]bool{}
		direct[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), "_Parser") {
					continue
				}
				ft := fa.Type().(*types.Pointer).Elem()
				if holdsResults(ft, 0) {
					m[strings.TrimPrefix(fieldStep(fa.X.Type(), fa.Field), ".")] = true
				}
			}
		}
	}
	for f, m := range direct {
		_, k := ruleKind(f)
		if k == "" {
			continue
		}
		if out[k] == nil {
			out[k] = map[string]bool{}
		}
		for x := range m {
			out[k][x] = true
		}
		for _, g := range callees(p, f) {
			if _, gk := ruleKind(g); gk == "" {
				for x := range direct[g] {
					out[k][x] = true
				}
			}
		}
	}
	return out
}

// holdsResults: values of the type can refer to trees.
func holdsResults(t types.Type, d int) bool {
	if d > 6 {
		return false
	}
	switch t := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Interface:
		return true
	case *types.Map:
		return holdsResults(t.Elem(), d+1)
	case *types.Slice:
		return holdsResults(t.Elem(), d+1)
	case *types.Array:
		return holdsResults(t.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if holdsResults(t.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func ruleFresh(p *Program, r *Report) {
	po := newParserOps(p, r)
	if po == nil {
		return
	}
	memos := memoFields(p)
	var all []string
	seen := map[string]bool{}
	for _, k := range []string{"Node", "Action"} {
		for f := range memos[k] {
			if !seen[f] {
				seen[f] = true
				all = append(all, f)
			}
		}
	}
	sort.Strings(all)
	r.analysed["memo fields"] = len(all)
	// the field that an address is, if it is one of the parser's
	fieldOfParser := func(a *V) string {
		if a.op != OFAddr {
			return ""
		}
		i := strings.LastIndexByte(a.String(), '.')
		if i < 0 || !derives(a, po.recv) {
			return ""
		}
		return strings.TrimSuffix(a.String()[i+1:], ")")
	}
	dirtyEntry := map[string]string{} // field -> the operation that leaves it filled
	type use struct {
		m     *ssa.Function
		field string
		call  ruleCall
	}
	var uses []use
	for _, m := range po.methods {
		for _, pp := range po.paths[m] {
			if pp.o.Kind != Ret {
				continue
			}
			clean := map[string]bool{}
			filled := map[string]bool{}
			ci := 0
			for i, ev := range pp.o.St.events {
				for ci < len(pp.calls) && pp.calls[ci].idx < i {
					ci++
				}
				if ci < len(pp.calls) && pp.calls[ci].idx == i {
					c := pp.calls[ci]
					if c.kind == "Node" || c.kind == "Action" {
						for f := range memos[c.kind] {
							if !clean[f] && !filled[f] {
								uses = append(uses, use{m, f, c})
							}
							delete(clean, f)
							filled[f] = true
						}
					}
					continue
				}
				switch {
				case ev.Kind == "store" && len(ev.Args) >= 2:
					f := fieldOfParser(ev.Args[0])
					if f == "" {
						continue
					}
					v := ev.Args[1]
					fresh := v.op == OMap || v.op == OObj || v.op == ONil
					if f == "_Parser" && v.op == OObj {
						for _, x := range all {
							clean[x], filled[x] = true, false
						}
					} else if seen[f] && fresh {
						clean[f], filled[f] = true, false
					} else if seen[f] {
						delete(clean, f)
						filled[f] = true
					}
				case ev.Kind == "builtin" && ev.Name == "clear" && len(ev.Args) == 1 && ev.Args[0].op == OLoad:
					if f := fieldOfParser(ev.Args[0].args[0]); seen[f] {
						clean[f], filled[f] = true, false
					}
				}
			}
			for f, b := range filled {
				if b {
					dirtyEntry[f] = fnName(m)
				}
			}
			// the results are made on this path
			for i := 0; i < len(pp.o.Vals); i++ {
				v := pp.o.Vals[i]
				if !pointerful(m.Signature.Results().At(i).Type()) || types.IsInterface(m.Signature.Results().At(i).Type()) {
					continue
				}
				if v.op == ONil {
					continue
				}
				made := false
				for _, c := range pp.calls {
					if derives(v, c.res) {
						made = true
					}
				}
				r.check(made, "fresh-result", fnName(m)+" returns a result made by this call", p.pos(pp.o.Pos), fmt.Sprintf("%s returns %s, which was not made by this call", fnName(m), v))
			}
		}
	}
	for _, u := range uses {
		by, dirty := dirtyEntry[u.field]
		r.check(!dirty, "fresh-memo", fnName(u.m)+" builds with empty memory of "+u.field, p.pos(u.call.ev.Pos), fmt.Sprintf("%s may be called when %s still holds the results that %s returned, so its result shares memory with them", u.call.rule+u.call.kind, u.field, by))
	}
	r.atLeast("fresh-memo", 3)
	r.atLeast("fresh-result", 3)
	// no result refers to memory of a package-level variable
	a := newPTA(p)
	a.world = func(g *ssa.Global) bool { return true }
	a.opaque = func(f *ssa.Function) bool { return isRuleFunc(f) && f.Parent() == nil }
	a.quietOpaque = true
	ex := p.initOnly()
	for _, f := range p.allFuncs("ast") {
		if !ex[f] && !a.opaque(f) {
			a.follow(f)
		}
	}
	a.solve()
	bad := func(b *pta, f *ssa.Function) {
		n := 0
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				rt, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				for _, v := range rt.Results {
					if !pointerful(v.Type()) || !mentions(v.Type(), astPath) {
						continue
					}
					n++
					for l := range b.get(v) {
						if l.o.world || l.o.glob != nil {
							r.bad("fresh-global", f.String(), p.pos(rt.Pos()), fmt.Sprintf("%s returns memory of a package-level variable, which is then part of more than one result", f))
						}
					}
				}
			}
		}
		if n > 0 {
			r.ok("fresh-global", f.String())
		}
	}
	for _, f := range p.allFuncs("ast") {
		if ex[f] {
			continue
		}
		if a.opaque(f) {
			if usesGlobal(f) {
				b := newPTA(p)
				b.world = a.world
				b.opaque = func(g *ssa.Function) bool { return g != f }
				b.quietOpaque = true
				b.follow(f)
				b.solve()
				for _, w := range b.writes() {
					_ = w
				}
				bad(b, f)
			}
			continue
		}
		bad(a, f)
	}
	r.assumption("no other code changes a parser's unexported fields; callers do not copy a Parser value")
}
