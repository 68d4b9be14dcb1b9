package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libPkgs are the packages whose results must depend on their input alone.
var libPkgs = []string{"ast", "logic", "tone", "dict"}

// initOnly returns the functions that run only while packages are initialised.
func (p *Program) initOnly() map[*ssa.Function]bool {
	refs := map[*ssa.Function]map[*ssa.Function]bool{} // callee -> users
	var all []*ssa.Function
	note := func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						if refs[g] == nil {
							refs[g] = map[*ssa.Function]bool{}
						}
						refs[g][f] = true
					}
				}
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for _, rel := range sortedKeys(p.ssa) {
		sp := p.ssa[rel]
		if in := sp.Func("init"); in != nil {
			out[in] = true
			note(in)
		}
		for _, f := range p.allFuncs(rel) {
			all = append(all, f)
			note(f)
			if strings.HasPrefix(f.Name(), "init#") || f.Name() == "init" {
				out[f] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range all {
			if out[f] {
				continue
			}
			us := refs[f]
			if f.Parent() != nil && out[f.Parent()] && len(us) == 0 {
				out[f], ch = true, true
				continue
			}
			if len(us) == 0 || token.IsExported(f.Name()) || f.Signature.Recv() != nil {
				continue
			}
			ok := true
			for u := range us {
				if !out[u] {
					ok = false
				}
			}
			if ok {
				out[f], ch = true, true
			}
		}
	}
	return out
}

func ruleDeterminism(p *Program, r *Report) {
	r.assumption("library functions other than those of the listed packages depend on their arguments alone and keep no state that callers can see")
	r.assumption("in a map-range loop, writes to distinct elements are taken to be independent when their index comes from the element")
	exempt := p.initOnly()
	a := newPTA(p)
	a.world = func(g *ssa.Global) bool { return true }
	a.opaque = func(f *ssa.Function) bool { return isRuleFunc(f) && f.Parent() == nil }
	a.quietOpaque = true
	var writes []pWrite
	for _, rel := range libPkgs {
		for _, f := range p.allFuncs(rel) {
			if exempt[f] {
				continue
			}
			if a.opaque(f) {
				// generated: on its own
				r.analysed["functions"]++
				if !usesGlobal(f) {
					continue
				}
				b := newPTA(p)
				b.world = a.world
				b.opaque = func(g *ssa.Function) bool { return g != f }
				b.quietOpaque = true
				b.follow(f)
				b.solve()
				writes = append(writes, b.writes()...)
				continue
			}
			a.follow(f)
		}
	}
	a.solve()
	for _, w := range append(a.writes(), writes...) {
		if exempt[w.fn] {
			continue
		}
		r.analysed["writes"]++
		bad := ""
		for l := range w.locs {
			if l.o.world {
				bad = "memory that belongs to a package-level variable"
			}
			if l.o.glob != nil {
				bad = "the package-level variable " + l.o.glob.String()
			}
		}
		n := w.fn.String()
		if bad != "" {
			r.bad("shared-state", n+": "+w.what+" of "+w.typ.String(), p.pos(w.in.Pos()), w.what+" in "+n+" may change "+bad+", which other calls share")
		}
	}
	r.ok("shared-state", "no write outside of initialisation reaches a package-level variable")
	r.analysed["functions"] += len(a.work)
	// sources of chance
	deny := func(fn *ssa.Function) string {
		pk := pkgOf(fn)
		n := fn.Name()
		switch {
		case pk == "time" || strings.HasPrefix(pk, "math/rand") || pk == "crypto/rand" || pk == "unsafe" || pk == "hash/maphash" || pk == "runtime" || pk == "runtime/debug" || pk == "os" || pk == "syscall" || pk == "io/ioutil" && n != "ReadAll" || pk == "os/exec":
			return pk
		case pk == "sync" && (strings.HasPrefix(fn.RelString(nil), "(*sync.Pool)") || strings.HasPrefix(fn.RelString(nil), "(*sync.Map)")):
			return pk
		case pk == "reflect" && (n == "Pointer" || n == "UnsafePointer" || n == "UnsafeAddr" || n == "MapKeys" || n == "MapRange"):
			return pk
		}
		return ""
	}
	for _, rel := range libPkgs {
		if p.ssa[rel] == nil {
			continue
		}
		fs := p.allFuncs(rel)
		if in := p.ssa[rel].Func("init"); in != nil {
			fs = append(fs, in)
		}
		for _, f := range fs {
			r.ok("pure-calls", f.String())
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go:
						r.bad("goroutine", f.String(), p.pos(in.Pos()), "a goroutine is started")
					case *ssa.Select:
						r.bad("goroutine", f.String()+" select", p.pos(in.Pos()), "a select chooses by chance")
					case *ssa.UnOp:
						if g, ok := in.X.(*ssa.Global); ok && in.Op == token.MUL && g.Pkg != nil && !p.isLib(g.Pkg.Pkg.Path()) && pointerful(g.Type()) {
							pk := g.Pkg.Pkg.Path()
							if pk == "os" || pk == "crypto/rand" || pk == "net/http" {
								r.bad("chance", f.String()+" uses "+g.String(), p.pos(in.Pos()), "uses "+g.String())
							}
						}
					case ssa.CallInstruction:
						if _, ok := in.Common().Value.(*ssa.Builtin); ok {
							continue
						}
						for _, t := range a.targets(in.Common()) {
							if d := deny(t); d != "" {
								r.bad("chance", f.String()+" calls "+t.String(), p.pos(in.Pos()), fmt.Sprintf("%s calls %s, whose result does not depend on its arguments alone", f, t))
							}
							if t.String() == "fmt.Sprintf" || t.String() == "fmt.Fprintf" || t.String() == "fmt.Errorf" {
								for _, x := range in.Common().Args {
									if c, ok := x.(*ssa.Const); ok && c.Value != nil && strings.Contains(c.Value.ExactString(), "%p") {
										r.bad("chance", f.String()+" formats an address", p.pos(in.Pos()), "formats the address of a value")
									}
								}
							}
						}
					}
				}
			}
			mapOrder(p, r, a, f)
		}
	}
	seqTaint(p, r)
	r.atLeast("pure-calls", 100)
}

func (p *Program) isLib(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// loopOf returns the blocks of the loop of a map range.
func loopOf(next *ssa.Next) map[*ssa.BasicBlock]bool {
	h := next.Block()
	in := map[*ssa.BasicBlock]bool{h: true}
	// blocks that can reach h and are dominated by it
	var st []*ssa.BasicBlock
	for _, q := range h.Preds {
		if h.Dominates(q) {
			st = append(st, q)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		if in[b] {
			continue
		}
		in[b] = true
		st = append(st, b.Preds...)
	}
	return in
}

// depends: the values computed, within the function, from any of the seeds.
func depends(seeds ...ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	st := append([]ssa.Value{}, seeds...)
	for len(st) > 0 {
		v := st[len(st)-1]
		st = st[:len(st)-1]
		if out[v] {
			continue
		}
		out[v] = true
		if v.Referrers() == nil {
			continue
		}
		for _, in := range *v.Referrers() {
			if w, ok := in.(ssa.Value); ok {
				st = append(st, w)
			}
		}
	}
	return out
}

// orderSeq are the values and variables whose order is that of a map range.
var orderSeq map[ssa.Value]string

// mapOrder checks one function's loops over maps.
func mapOrder(p *Program, r *Report, a *pta, f *ssa.Function) {
	if orderSeq == nil {
		orderSeq = map[ssa.Value]string{}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			where := p.pos(nx.Iter.Pos())
			if where == "-" {
				where = p.pos(f.Pos())
			}
			name := f.String() + ": range over a map"
			r.ok("map-order", name+" at "+where)
			loop := loopOf(nx)
			elem := depends(nx)
			for blk := range loop {
				for _, x := range blk.Instrs {
					switch x := x.(type) {
					case *ssa.Phi:
						// an accumulator
						for i, e := range x.Edges {
							if loop[blk.Preds[i]] && e != ssa.Value(x) && loopHeaderPhi(x, loop) && accumulates(x, e, loop) && !commutative(x, e) {
								if isSeq(x.Type()) {
									orderSeq[x] = where
								} else if elem[e] {
									r.bad("map-order", name+" sets "+x.Comment, where, fmt.Sprintf("%s carries a value from one round to the next that depends on the order of the rounds", f))
								}
							}
						}
					case *ssa.Store:
						if localCell(x.Addr, f) && isSeq(x.Val.Type()) {
							orderSeq[x.Addr] = where
							continue
						}
						if !addrBy(x.Addr, elem) && !freshIn(x.Addr, loop) {
							if _, c := x.Val.(*ssa.Const); c {
								continue // the same value whatever the order
							}
							if commutativeStore(x) {
								continue
							}
							r.bad("map-order", name+" stores", where, fmt.Sprintf("%s stores to the same place in every round of a loop over a map", f))
						}
					case *ssa.MapUpdate:
						if !elem[x.Key] {
							if _, c := x.Value.(*ssa.Const); !c {
								r.bad("map-order", name+" updates a map", where, fmt.Sprintf("%s updates the same entry in every round of a loop over a map", f))
							}
						}
					case *ssa.Return:
						for _, q := range x.Results {
							if _, c := q.(*ssa.Const); !c {
								r.bad("map-order", name+" returns", where, fmt.Sprintf("%s returns from within a loop over a map a value that depends on the order", f))
							}
						}
					case ssa.CallInstruction:
						if al := ownBuilder(x.Common()); al != nil && loop[al.Block()] {
							continue // made anew in each round
						}
						if w := effectful(p, a, x); w != "" {
							r.bad("map-order", name+" calls "+w, where, fmt.Sprintf("%s calls %s in a loop over a map, so its effects come in the order of the map", f, w))
						}
					}
				}
				// an exit from the middle of the loop
				if blk != nx.Block() {
					for _, s := range blk.Succs {
						if !loop[s] {
							for _, ph := range s.Instrs {
								q, ok := ph.(*ssa.Phi)
								if !ok {
									break
								}
								for i, pr := range s.Preds {
									if pr == blk {
										if _, c := q.Edges[i].(*ssa.Const); !c && elem[q.Edges[i]] {
											r.bad("map-order", name+" breaks", where, fmt.Sprintf("%s leaves a loop over a map with the first element that qualifies", f))
										}
									}
								}
							}
							for _, ph := range s.Instrs {
								if rt, ok := ph.(*ssa.Return); ok && len(s.Preds) == 1 {
									for _, q := range rt.Results {
										if elem[q] {
											r.bad("map-order", name+" returns", where, fmt.Sprintf("%s returns the first element that qualifies of a loop over a map", f))
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func isSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func loopHeaderPhi(x *ssa.Phi, loop map[*ssa.BasicBlock]bool) bool {
	for _, p := range x.Block().Preds {
		if !loop[p] {
			return true
		}
	}
	return false
}

// accumulates: e is computed from x (or replaces it by something of this round).
func accumulates(x *ssa.Phi, e ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	if _, c := e.(*ssa.Const); c {
		return false
	}
	if in, ok := e.(ssa.Instruction); ok && !loop[in.Block()] {
		return false
	}
	return true
}

// commutative: sums, products, and bit operations.
func commutative(x *ssa.Phi, e ssa.Value) bool {
	return commutativeN(x, e, map[ssa.Value]bool{})
}

func commutativeN(x *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[e] {
		return true
	}
	seen[e] = true
	b, ok := e.(*ssa.BinOp)
	if !ok {
		if ph, ok := e.(*ssa.Phi); ok { // conditional accumulation
			for _, y := range ph.Edges {
				if y != ssa.Value(x) && y != ssa.Value(ph) && !commutativeN(x, y, seen) {
					if _, c := y.(*ssa.Const); !c {
						return false
					}
				}
			}
			return true
		}
		return false
	}
	if u, ok := b.Type().Underlying().(*types.Basic); ok && u.Info()&types.IsInteger != 0 {
		switch b.Op {
		case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
			return b.X == ssa.Value(x) || b.Y == ssa.Value(x)
		case token.SUB:
			return b.X == ssa.Value(x)
		}
	}
	return false
}

func commutativeStore(st *ssa.Store) bool {
	b, ok := st.Val.(*ssa.BinOp)
	if !ok {
		return false
	}
	u, ok := b.Type().Underlying().(*types.Basic)
	if !ok || u.Info()&types.IsInteger == 0 {
		return false
	}
	ld := func(v ssa.Value) bool {
		q, ok := v.(*ssa.UnOp)
		return ok && q.Op == token.MUL && q.X == st.Addr
	}
	switch b.Op {
	case token.ADD, token.MUL, token.OR, token.AND, token.XOR:
		return ld(b.X) || ld(b.Y)
	case token.SUB:
		return ld(b.X)
	}
	return false
}

func localCell(v ssa.Value, f *ssa.Function) bool {
	al, ok := v.(*ssa.Alloc)
	return ok && al.Parent() == f
}

// addrBy: the address is an element whose index comes from the map element,
// or memory of the element itself.
func addrBy(v ssa.Value, elem map[ssa.Value]bool) bool {
	for {
		if elem[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.IndexAddr:
			if elem[x.Index] {
				return true
			}
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

// freshIn: the address is memory that was made in this round.
func freshIn(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.Alloc:
			return loop[x.Block()] || !x.Heap && onlyUsedIn(x, loop)
		case *ssa.MakeSlice:
			return loop[x.Block()]
		default:
			return false
		}
	}
}

func onlyUsedIn(x *ssa.Alloc, loop map[*ssa.BasicBlock]bool) bool {
	for _, r := range *x.Referrers() {
		if !loop[r.Block()] {
			return false
		}
	}
	return true
}

// effectful names the callee if the call has effects outside of itself.
func effectful(p *Program, a *pta, c ssa.CallInstruction) string {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "print", "println":
			return b.Name()
		}
		return ""
	}
	ts := a.targets(cc)
	if len(ts) == 0 {
		return cc.Description() // unknown function value
	}
	for _, t := range ts {
		if w := effectfulFn(p, a, t, map[*ssa.Function]bool{}); w != "" {
			return w
		}
	}
	return ""
}

// ownBuilder is the text under construction, made by the function itself, that the call is about.
func ownBuilder(cc *ssa.CallCommon) *ssa.Alloc {
	if cc.IsInvoke() || len(cc.Args) == 0 {
		return nil
	}
	v := cc.Args[0]
	for {
		if m, ok := v.(*ssa.MakeInterface); ok {
			v = m.X
			continue
		}
		break
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	switch al.Type().String() {
	case "*strings.Builder", "*bytes.Buffer":
	default:
		return nil
	}
	if f := cc.StaticCallee(); f == nil || len(f.Blocks) > 0 && strings.HasPrefix(pkgOf(f), modPath) {
		return nil
	}
	return al
}

func effectfulFn(p *Program, a *pta, f *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[f] {
		return ""
	}
	seen[f] = true
	if !p.inRepo(f) || len(f.Blocks) == 0 {
		pk := pkgOf(f)
		n := f.Name()
		if strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Fprint") || strings.HasPrefix(n, "Print") || pk == "io" || pk == "os" || pk == "bufio" || pk == "net/http" {
			return f.String()
		}
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); ok {
					continue
				}
				if ownBuilder(c.Common()) != nil {
					continue // made anew in each call
				}
				for _, t := range a.targets(c.Common()) {
					if w := effectfulFn(p, a, t, seen); w != "" {
						return w
					}
				}
			}
		}
	}
	return ""
}

// seqTaint follows sequences whose order is that of a map range.
func seqTaint(p *Program, r *Report) {
	// taint: sequences; idx: indices into them
	seq := map[ssa.Value]string{}
	idx := map[ssa.Value]string{}
	for v, w := range orderSeq {
		seq[v] = w
	}
	var all []*ssa.Function
	for _, rel := range libPkgs {
		if p.ssa[rel] == nil {
			continue
		}
		all = append(all, p.allFuncs(rel)...)
		if in := p.ssa[rel].Func("init"); in != nil {
			all = append(all, in)
		}
	}
	rets := map[*ssa.Function]map[int]string{}
	for ch := true; ch; {
		ch = false
		set := func(m map[ssa.Value]string, v ssa.Value, w string) {
			if _, ok := m[v]; !ok {
				m[v] = w
				ch = true
			}
		}
		for _, f := range all {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Phi:
						for i, e := range x.Edges {
							if w, ok := seq[e]; ok && isSeq(x.Type()) {
								set(seq, x, w)
							}
							if w, ok := idx[e]; ok {
								set(idx, x, w)
							}
							_ = i
						}
					case *ssa.BinOp:
						if x.Op == token.ADD && isSeq(x.Type()) {
							if w, ok := seq[x.X]; ok {
								set(seq, x, w)
							}
							if w, ok := seq[x.Y]; ok {
								set(seq, x, w)
							}
						}
					case *ssa.Slice:
						if w, ok := seq[x.X]; ok {
							set(seq, x, w)
						}
					case *ssa.ChangeType:
						if w, ok := seq[x.X]; ok {
							set(seq, x, w)
						}
					case *ssa.Convert:
						if w, ok := seq[x.X]; ok && isSeq(x.Type()) {
							set(seq, x, w)
						}
					case *ssa.UnOp:
						if w, ok := seq[x.X]; ok && x.Op == token.MUL && isSeq(x.Type()) {
							if _, el := x.X.(*ssa.IndexAddr); !el {
								set(seq, x, w)
							}
						}
					case *ssa.Store:
						if w, ok := seq[x.Val]; ok {
							if _, el := x.Addr.(*ssa.IndexAddr); !el {
								set(seq, x.Addr, w)
							}
						}
					case *ssa.Extract:
						if c, ok := x.Tuple.(*ssa.Call); ok {
							if g := c.Call.StaticCallee(); g != nil {
								if w, ok := rets[g][x.Index]; ok {
									set(seq, x, w)
								}
							}
						}
					case *ssa.Return:
						for i, q := range x.Results {
							if w, ok := seq[q]; ok {
								if rets[f] == nil {
									rets[f] = map[int]string{}
								}
								if _, ok := rets[f][i]; !ok {
									rets[f][i] = w
									ch = true
								}
							}
						}
					case *ssa.Call:
						c := x.Common()
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							if bi.Name() == "append" {
								for _, q := range c.Args {
									if w, ok := seq[q]; ok {
										set(seq, x, w)
									}
								}
							}
							continue
						}
						if g := c.StaticCallee(); g != nil {
							if w, ok := rets[g][0]; ok && isSeq(x.Type()) {
								set(seq, x, w)
							}
							if p.inRepo(g) {
								for i, q := range c.Args {
									if w, ok := seq[q]; ok && i < len(g.Params) {
										set(seq, g.Params[i], w)
									}
								}
							}
						}
					}
				}
			}
		}
	}
	// uses
	for _, f := range all {
		init := f.Name() == "init" || f.Parent() != nil && f.Parent().Name() == "init"
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bad := func(v ssa.Value, how string) {
					r.bad("map-order", f.String()+" "+how, p.pos(in.Pos()), fmt.Sprintf("%s %s a sequence whose order is that of a map (loop at %s)", f, how, seq[v]))
				}
				switch x := in.(type) {
				case *ssa.Return:
					for _, q := range x.Results {
						if _, ok := seq[q]; ok && !init && token.IsExported(f.Name()) {
							bad(q, "returns")
						}
					}
				case *ssa.IndexAddr:
					if _, ok := seq[x.X]; ok {
						if _, c := x.Index.(*ssa.Const); c && !storedTo(x) {
							bad(x.X, "picks by a fixed index from")
						}
					}
				case *ssa.Store:
					if _, ok := seq[x.Val]; ok {
						if _, fa := x.Addr.(*ssa.FieldAddr); fa {
							bad(x.Val, "keeps in a field")
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					g := c.StaticCallee()
					for i, q := range c.Args {
						if _, ok := seq[q]; !ok {
							continue
						}
						if g != nil && p.inRepo(g) {
							continue
						}
						n := ""
						if g != nil {
							n = g.String()
						}
						switch n {
						case "strings.ContainsRune", "strings.ContainsAny", "strings.IndexAny", "strings.Contains", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "unicode/utf8.RuneCountInString",
							"sort.Strings", "sort.Ints", "sort.Slice", "slices.Sort", "slices.Contains":
							if (n == "strings.IndexAny" || n == "strings.ContainsAny" || strings.HasPrefix(n, "strings.Trim")) && i == 0 {
								bad(q, "passes to "+n)
							}
						case "strings.IndexRune":
							// an index: only membership is allowed
							if v, ok := in.(ssa.Value); ok && !onlySign(v) {
								bad(q, "uses the position within")
							}
						default:
							if strings.HasPrefix(n, "slices.Contains") || strings.HasPrefix(n, "slices.Sort") {
								continue
							}
							bad(q, "passes to "+n)
						}
					}
				}
			}
		}
	}
	for v := range seq {
		if _, ok := v.(*ssa.Global); ok {
			r.ok("map-order", "set-like use of "+v.String())
		}
	}
}

func storedTo(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(x) {
			return true
		}
	}
	return false
}

func onlySign(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			return false
		}
		switch b.Op {
		case token.LSS, token.GEQ, token.EQL, token.NEQ, token.GTR, token.LEQ:
		default:
			return false
		}
	}
	return true
}

func usesGlobal(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op != nil && *op != nil {
					if _, ok := (*op).(*ssa.Global); ok {
						return true
					}
				}
			}
		}
	}
	return false
}
