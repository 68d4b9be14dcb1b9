package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive, field-sensitive inclusion-based points-to analysis
// with one opaque object W ("memory that belongs to somebody else"):
// everything that is reachable from W is W.

type pObj struct {
	id    int
	world bool
	fn    *ssa.Function // function of the allocation
	val   ssa.Value     // allocation site, function, or global
	glob  *ssa.Global
	cl    *ssa.MakeClosure
	f     *ssa.Function
}

type pLoc struct {
	o    *pObj
	path string
}

type pSet map[pLoc]bool

type pta struct {
	p *Program
	W *pObj
	// inWorld says whether a value of the type can refer to the opaque object.
	inWorld     func(o *pObj, t types.Type) bool
	world       func(g *ssa.Global) bool // globals whose content is W
	objs        map[interface{}]*pObj
	pts         map[ssa.Value]pSet
	ret         map[*ssa.Function][]pSet
	mem         map[*pObj]map[string]pSet  // exact cells; "p*" cells hold anything below p
	opaque      func(f *ssa.Function) bool // calls that are not followed: their results are W
	quietOpaque bool                       // calls of opaque functions give nothing
	funcs       map[*ssa.Function]bool
	work        []*ssa.Function
	change      bool
	impls       map[string][]*ssa.Function
	why         map[ssa.Value]string
}

func newPTA(p *Program) *pta {
	a := &pta{p: p, objs: map[interface{}]*pObj{}, pts: map[ssa.Value]pSet{}, ret: map[*ssa.Function][]pSet{}, mem: map[*pObj]map[string]pSet{}, funcs: map[*ssa.Function]bool{}, impls: map[string][]*ssa.Function{}}
	a.W = &pObj{id: 0, world: true}
	a.world = func(*ssa.Global) bool { return false }
	a.opaque = func(*ssa.Function) bool { return false }
	return a
}

func (a *pta) obj(key interface{}, fn *ssa.Function, v ssa.Value) *pObj {
	if o := a.objs[key]; o != nil {
		return o
	}
	o := &pObj{id: len(a.objs) + 1, fn: fn, val: v}
	if g, ok := v.(*ssa.Global); ok {
		o.glob = g
	}
	if f, ok := v.(*ssa.Function); ok {
		o.f = f
	}
	if c, ok := v.(*ssa.MakeClosure); ok {
		o.cl = c
		o.f, _ = c.Fn.(*ssa.Function)
	}
	a.objs[key] = o
	return o
}

// pointerful says whether values of the type can hold references to mutable memory.
func pointerful(t types.Type) bool { return pointerfulN(t, 0) }

func pointerfulN(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if pointerfulN(t.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return pointerfulN(t.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < t.Len(); i++ {
			if pointerfulN(t.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (a *pta) get(v ssa.Value) pSet {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return pSet{pLoc{a.obj(v, nil, v), ""}: true}
	case *ssa.Function:
		return pSet{pLoc{a.obj(v, nil, v), ""}: true}
	}
	return a.pts[v]
}

func (a *pta) add(v ssa.Value, s pSet) {
	if len(s) == 0 {
		return
	}
	d := a.pts[v]
	if d == nil {
		d = pSet{}
		a.pts[v] = d
	}
	for l := range s {
		if !d[l] && a.fits(l, v.Type()) {
			d[l] = true
			a.change = true
		}
	}
}

// root is the type of the memory that an allocation makes.
func (o *pObj) root() types.Type {
	switch v := o.val.(type) {
	case *ssa.Alloc:
		return v.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.Global:
		return v.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.Function, *ssa.MakeClosure:
		return nil
	case nil:
		return nil
	default:
		return v.Type()
	}
}

// typeAt is the type of the memory at a location, nil if it is not known.
func typeAt(l pLoc) types.Type {
	t := l.o.root()
	p := l.path
	for t != nil && p != "" {
		i := strings.IndexAny(p[1:], ".[") + 1
		if i <= 0 {
			i = len(p)
		}
		st := p[:i]
		p = p[i:]
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = nil
			for k := 0; k < u.NumFields(); k++ {
				if "."+u.Field(k).Name() == st {
					t = u.Field(k).Type()
				}
			}
			if t == nil {
				return types.Typ[types.Invalid]
			}
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		case *types.Map:
			if st == "[k]" {
				t = u.Key()
			} else {
				t = u.Elem()
			}
		default:
			return types.Typ[types.Invalid]
		}
	}
	return t
}

func sameMem(a, b types.Type) bool {
	return a == nil || b == nil || types.Identical(a.Underlying(), b.Underlying())
}

// fits filters out references that a value of the type cannot be.
func (a *pta) fits(l pLoc, t types.Type) bool {
	if l.o.world {
		return a.inWorld == nil || a.inWorld(l.o, t)
	}
	isFn := l.o.f != nil
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return isFn
	case *types.Interface, *types.Struct, *types.Array, *types.Tuple:
		return true
	case *types.Pointer:
		return !isFn && sameMem(typeAt(l), u.Elem())
	case *types.Slice:
		if isFn {
			return false
		}
		switch m := typeAt(l).(type) {
		case nil:
			return true
		default:
			switch m := m.Underlying().(type) {
			case *types.Slice:
				return sameMem(m.Elem(), u.Elem())
			case *types.Array:
				return sameMem(m.Elem(), u.Elem())
			}
		}
		return false
	case *types.Map:
		if isFn {
			return false
		}
		m := typeAt(l)
		if m == nil {
			return true
		}
		_, ok := m.Underlying().(*types.Map)
		return ok && sameMem(m, t)
	}
	return true
}

func (a *pta) addW(v ssa.Value) { a.add(v, pSet{pLoc{a.W, ""}: true}) }

func (a *pta) cell(o *pObj, path string, s pSet) {
	if len(s) == 0 || o.world {
		return
	}
	m := a.mem[o]
	if m == nil {
		m = map[string]pSet{}
		a.mem[o] = m
	}
	d := m[path]
	if d == nil {
		d = pSet{}
		m[path] = d
	}
	for l := range s {
		if !d[l] {
			d[l] = true
			a.change = true
		}
	}
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (a *pta) isW(l pLoc) bool {
	return l.o.world || l.o.glob != nil && a.world(l.o.glob) && l.path != ""
}

// load reads a value of type t from the location.
func (a *pta) load(l pLoc, t types.Type) pSet {
	if l.o.world || l.o.glob != nil && a.world(l.o.glob) {
		if pointerful(t) {
			return pSet{pLoc{a.W, ""}: true}
		}
		return nil
	}
	out := pSet{}
	m := a.mem[l.o]
	agg := isAggregate(t)
	for p, s := range m {
		hit := false
		if strings.HasSuffix(p, "*") {
			q := p[:len(p)-1]
			hit = strings.HasPrefix(l.path, q) || agg && strings.HasPrefix(q, l.path)
		} else {
			hit = p == l.path || agg && strings.HasPrefix(p, l.path)
		}
		if hit {
			for x := range s {
				out[x] = true
			}
		}
	}
	return out
}

func (a *pta) store(l pLoc, t types.Type, s pSet) {
	if isAggregate(t) {
		a.cell(l.o, l.path+"*", s)
	} else {
		a.cell(l.o, l.path, s)
	}
}

func (a *pta) sub(s pSet, step string) pSet {
	out := pSet{}
	for l := range s {
		if l.o.world {
			out[l] = true
			continue
		}
		p := l.path + step
		if strings.Count(p, ".")+strings.Count(p, "[") > 8 {
			p = l.path
		}
		out[pLoc{l.o, p}] = true
	}
	return out
}

func fieldStep(t types.Type, i int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	st := t.Underlying().(*types.Struct)
	return "." + st.Field(i).Name()
}

func (a *pta) fresh(v ssa.Value, path string) {
	a.add(v, pSet{pLoc{a.obj(v, v.Parent(), v), path}: true})
}

// follow adds a function to the analysis.
func (a *pta) follow(f *ssa.Function) {
	if f == nil || a.funcs[f] || len(f.Blocks) == 0 {
		return
	}
	a.funcs[f] = true
	a.work = append(a.work, f)
	a.change = true
}

func (a *pta) solve() {
	for {
		a.change = false
		for i := 0; i < len(a.work); i++ {
			f := a.work[i]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					a.instr(f, in)
				}
			}
		}
		if !a.change {
			return
		}
	}
}

func (a *pta) instr(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		a.fresh(in, "")
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.MakeSlice:
		a.fresh(in.(ssa.Value), "")
	case *ssa.MakeClosure:
		a.fresh(in, "")
		if fn, ok := in.Fn.(*ssa.Function); ok {
			a.follow(fn)
			for i, b := range in.Bindings {
				a.add(fn.FreeVars[i], a.get(b))
			}
		}
	case *ssa.MakeInterface:
		a.add(in, a.get(in.X)) // boxed values keep the references they hold
		if fn, ok := in.X.(*ssa.Function); ok {
			a.follow(fn)
		}
	case *ssa.ChangeType:
		a.add(in, a.get(in.X))
	case *ssa.ChangeInterface:
		a.add(in, a.get(in.X))
	case *ssa.Convert:
		if pointerful(in.Type()) {
			if _, ok := in.Type().Underlying().(*types.Slice); ok {
				if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
					a.fresh(in, "")
					return
				}
			}
			a.add(in, a.get(in.X))
		}
	case *ssa.MultiConvert:
		a.add(in, a.get(in.X))
	case *ssa.SliceToArrayPointer:
		a.add(in, a.get(in.X))
	case *ssa.TypeAssert:
		a.add(in, a.get(in.X))
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			a.callResult(c, in.Index, in)
			return
		}
		if pointerful(in.Type()) {
			a.add(in, a.get(in.Tuple))
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			a.add(in, a.get(e))
		}
	case *ssa.FieldAddr:
		a.add(in, a.sub(a.get(in.X), fieldStep(in.X.Type(), in.Field)))
	case *ssa.Field:
		if pointerful(in.Type()) {
			a.add(in, a.get(in.X))
		}
	case *ssa.IndexAddr:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			a.add(in, a.sub(a.get(in.X), "[]"))
		} else {
			a.add(in, a.sub(a.get(in.X), "[]"))
		}
	case *ssa.Index:
		if pointerful(in.Type()) {
			a.add(in, a.get(in.X))
		}
	case *ssa.Lookup:
		if pointerful(in.Type()) {
			for l := range a.sub(a.get(in.X), "[]") {
				a.add(in, a.load(l, in.Type()))
				if in.CommaOk {
					a.add(in, a.load(l, in.Type().(*types.Tuple).At(0).Type()))
				}
			}
		}
	case *ssa.UnOp:
		if in.Op.String() == "*" && pointerful(in.Type()) {
			for l := range a.get(in.X) {
				a.add(in, a.load(l, in.Type()))
			}
		}
	case *ssa.Slice:
		if _, ok := in.X.Type().Underlying().(*types.Basic); !ok {
			a.add(in, a.get(in.X))
		}
	case *ssa.Range:
		a.add(in, a.get(in.X))
	case *ssa.Next:
		if !in.IsString {
			for l := range a.get(in.Iter) {
				for _, st := range []string{"[]", "[k]"} {
					for m := range a.sub(pSet{l: true}, st) {
						tt := in.Type().(*types.Tuple)
						a.add(in, a.load(m, tt.At(1).Type()))
						a.add(in, a.load(m, tt.At(2).Type()))
					}
				}
			}
		}
	case *ssa.Store:
		if pointerful(in.Val.Type()) {
			s := a.get(in.Val)
			for l := range a.get(in.Addr) {
				a.store(l, in.Val.Type(), s)
			}
		}
	case *ssa.MapUpdate:
		for l := range a.sub(a.get(in.Map), "[]") {
			a.store(l, in.Value.Type(), a.get(in.Value))
		}
		for l := range a.sub(a.get(in.Map), "[k]") {
			a.store(l, in.Key.Type(), a.get(in.Key))
		}
	case *ssa.Return:
		rs := a.ret[f]
		for len(rs) < len(in.Results) {
			rs = append(rs, pSet{})
		}
		a.ret[f] = rs
		for i, r := range in.Results {
			for l := range a.get(r) {
				if !rs[i][l] {
					rs[i][l] = true
					a.change = true
				}
			}
		}
	case *ssa.Call:
		a.call(f, in, in.Common())
		if _, ok := in.Type().(*types.Tuple); !ok {
			a.callResult(in, 0, in)
		}
	case *ssa.Defer:
		a.call(f, nil, in.Common())
	case *ssa.Go:
		a.call(f, nil, in.Common())
	}
	for _, op := range in.Operands(nil) {
		if op != nil {
			if fn, ok := (*op).(*ssa.Function); ok {
				if a.p.inRepo(fn) && !a.opaque(fn) {
					a.follow(fn)
				}
			}
		}
	}
}

// targets returns the functions that a call may run.
func (a *pta) targets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		k := c.Method.Name() + "|" + c.Value.Type().String()
		if r, ok := a.impls[k]; ok {
			return r
		}
		var out []*ssa.Function
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		for _, rel := range sortedKeys(a.p.pkgs) {
			sc := a.p.pkgs[rel].Types.Scope()
			for _, n := range sc.Names() {
				tn, ok := sc.Lookup(n).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
					continue
				}
				for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
					if it != nil && types.Implements(t, it) {
						if sel := a.p.prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
							if m := a.p.prog.MethodValue(sel); m != nil {
								out = append(out, m)
							}
						}
					}
				}
			}
		}
		a.impls[k] = out
		return out
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	var out []*ssa.Function
	for l := range a.get(c.Value) {
		if l.o.f != nil {
			out = append(out, l.o.f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (a *pta) call(f *ssa.Function, in *ssa.Call, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if in == nil {
				return
			}
			a.add(in, a.get(c.Args[0]))
			a.fresh(in, "")
			et := in.Type().Underlying().(*types.Slice).Elem()
			var s pSet = pSet{}
			if len(c.Args) > 1 {
				if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
					for l := range a.sub(a.get(c.Args[1]), "[]") {
						for x := range a.load(l, et) {
							s[x] = true
						}
					}
				}
			}
			for l := range a.sub(a.get(c.Args[0]), "[]") {
				for x := range a.load(l, et) {
					s[x] = true
				}
			}
			for l := range a.sub(a.get(in), "[]") {
				a.store(l, et, s)
			}
		case "copy":
			st, ok := c.Args[1].Type().Underlying().(*types.Slice)
			if !ok {
				return
			}
			s := pSet{}
			for l := range a.sub(a.get(c.Args[1]), "[]") {
				for x := range a.load(l, st.Elem()) {
					s[x] = true
				}
			}
			for l := range a.sub(a.get(c.Args[0]), "[]") {
				a.store(l, st.Elem(), s)
			}
		}
		return
	}
	for _, fn := range a.targets(c) {
		if a.opaque(fn) || len(fn.Blocks) == 0 || !a.p.inRepo(fn) {
			// function arguments of an external call may be called by it
			for _, x := range c.Args {
				for l := range a.get(x) {
					if l.o.f != nil && a.p.inRepo(l.o.f) {
						a.follow(l.o.f)
					}
				}
			}
			continue
		}
		a.follow(fn)
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for i, p := range fn.Params {
			if i < len(args) && pointerful(p.Type()) {
				a.add(p, a.get(args[i]))
			}
		}
	}
}

func (a *pta) callResult(c *ssa.Call, i int, v ssa.Value) {
	if !pointerful(v.Type()) {
		return
	}
	if _, ok := c.Call.Value.(*ssa.Builtin); ok {
		return
	}
	ts := a.targets(&c.Call)
	for _, fn := range ts {
		if a.opaque(fn) {
			if !a.quietOpaque {
				a.addW(v)
			}
			continue
		}
		if len(fn.Blocks) == 0 || !a.p.inRepo(fn) {
			a.external(c, fn, v)
			continue
		}
		if rs := a.ret[fn]; i < len(rs) {
			a.add(v, rs[i])
		}
	}
}

// external models what library functions return.
func (a *pta) external(c *ssa.Call, fn *ssa.Function, v ssa.Value) {
	pk := pkgOf(fn)
	switch {
	case pk == "reflect":
		// reflect values refer to what they were made from
		for _, x := range c.Call.Args {
			a.add(v, a.get(x))
			if fn.Name() == "FieldByName" || fn.Name() == "Field" || fn.Name() == "Index" || fn.Name() == "Elem" || fn.Name() == "Interface" || fn.Name() == "MapIndex" {
				for l := range a.get(x) {
					for _, s := range a.mem[l.o] {
						a.add(v, s)
					}
				}
			}
		}
	case pk == "slices" || pk == "maps":
		if fn.Name() == "Clone" || fn.Name() == "Concat" || strings.HasPrefix(fn.Name(), "Sorted") || fn.Name() == "Collect" {
			a.fresh(v, "")
			if st, ok := v.Type().Underlying().(*types.Slice); ok {
				for _, x := range c.Call.Args {
					for l := range a.sub(a.get(x), "[]") {
						a.store(pLoc{a.obj(v, v.Parent(), v), "[]"}, st.Elem(), a.load(l, st.Elem()))
					}
				}
			}
			return
		}
		for _, x := range c.Call.Args {
			a.add(v, a.get(x))
		}
	default:
		a.fresh(v, "")
	}
}

func pkgOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// A write is a place that changes memory.
type pWrite struct {
	fn   *ssa.Function
	in   ssa.Instruction
	what string
	locs pSet
	typ  types.Type // type of what is written
}

// writes lists the instructions of the analysed functions that change memory.
func (a *pta) writes() []pWrite {
	var out []pWrite
	for _, f := range a.work {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					out = append(out, pWrite{f, in, "a store", a.get(in.Addr), in.Val.Type()})
				case *ssa.MapUpdate:
					out = append(out, pWrite{f, in, "a map update", a.sub(a.get(in.Map), "[]"), in.Value.Type()})
				case *ssa.Call:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if capLimited(c.Args[0]) || len(c.Args) < 2 || isNilConst(c.Args[1]) {
								continue
							}
							out = append(out, pWrite{f, in, "an append that may write into the array of its first argument", a.sub(a.get(c.Args[0]), "[]"), in.Type().Underlying().(*types.Slice).Elem()})
						case "copy", "clear", "delete":
							out = append(out, pWrite{f, in, "a " + bi.Name(), a.sub(a.get(c.Args[0]), "[]"), c.Args[0].Type()})
						}
						continue
					}
					for _, fn := range a.targets(c) {
						if a.p.inRepo(fn) && len(fn.Blocks) > 0 {
							continue
						}
						n := fn.Name()
						pk := pkgOf(fn)
						switch {
						case pk == "reflect" && (strings.HasPrefix(n, "Set") || n == "Copy" || n == "Swapper" || n == "Clear"):
							out = append(out, pWrite{f, in, "a reflect." + n, a.get(c.Args[0]), c.Args[0].Type()})
						case pk == "sort" && (n == "Sort" || n == "Stable" || n == "Slice" || n == "SliceStable" || n == "Strings" || n == "Ints" || n == "Float64s"):
							out = append(out, pWrite{f, in, "a sort." + n, a.sub(a.get(c.Args[0]), "[]"), c.Args[0].Type()})
						case pk == "slices" && (strings.HasPrefix(n, "Sort") || n == "Reverse" || n == "Delete" || n == "DeleteFunc" || n == "Insert" || n == "Replace" || strings.HasPrefix(n, "Compact") || n == "Grow"):
							out = append(out, pWrite{f, in, "a slices." + n, a.sub(a.get(c.Args[0]), "[]"), c.Args[0].Type()})
						case pk == "maps" && (n == "DeleteFunc" || n == "Copy" || n == "Insert"):
							out = append(out, pWrite{f, in, "a maps." + n, a.sub(a.get(c.Args[0]), "[]"), c.Args[0].Type()})
						case pk == "encoding/json" && (n == "Unmarshal" || n == "Decode"):
							out = append(out, pWrite{f, in, "a json." + n, a.get(c.Args[len(c.Args)-1]), c.Args[len(c.Args)-1].Type()})
						case strings.HasPrefix(pk, "sync/atomic"):
							out = append(out, pWrite{f, in, "an atomic " + n, a.get(c.Args[0]), c.Args[0].Type()})
						}
					}
				}
			}
		}
	}
	return out
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// capLimited: x[a:b:b], whose array has no room to append to.
func capLimited(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		return false
	}
	if s.Max == s.High {
		return true
	}
	if c1, ok := s.Max.(*ssa.Const); ok {
		if c2, ok := s.High.(*ssa.Const); ok {
			return c1.Value != nil && c2.Value != nil && constant.Compare(c1.Value, token.EQL, c2.Value)
		}
	}
	return lenOf(s.Max) != nil && lenOf(s.Max) == lenOf(s.High)
}

func lenOf(v ssa.Value) ssa.Value {
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			return c.Call.Args[0]
		}
	}
	return nil
}
