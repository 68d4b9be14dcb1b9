package main

// Values of package variables that are built from literals.

import (
	"go/constant"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// tval is a constant, map or list.
type tval struct {
	c    constant.Value
	m    map[string]*tval
	keys []constant.Value
	l    []*tval
	f    []*tval // fields of a struct
	dup  []string
}

func (t *tval) isList() bool { return t != nil && t.c == nil && t.m == nil && t.f == nil }

func (t *tval) str() (string, bool) {
	if t != nil && t.c != nil && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}

func (t *tval) get(k constant.Value) *tval {
	if t == nil || t.m == nil {
		return nil
	}
	return t.m[k.ExactString()]
}

type senv map[ssa.Value]*tval

type statics struct {
	p    *Program
	memo map[*ssa.Global]*tval
	done map[*ssa.Global]bool
	all  []*ssa.Function
	deep bool // also follow the functions that initialisers call
}

func newStatics(p *Program) *statics {
	return &statics{p: p, memo: map[*ssa.Global]*tval{}, done: map[*ssa.Global]bool{}}
}

// global is the value that a package variable is given by its initialiser, if that is built from
// literals and the variable is not stored to elsewhere.
func (s *statics) global(g *ssa.Global) *tval {
	if s.done[g] {
		return s.memo[g]
	}
	s.done[g] = true
	var st *ssa.Store
	for _, f := range s.funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok && x.Addr == ssa.Value(g) {
					if st != nil {
						return nil
					}
					st = x
				}
			}
		}
	}
	if st == nil && s.deep {
		if t := s.inPlace(g, 0); t != nil && (t.l != nil || t.f != nil) {
			s.memo[g] = t
			return t
		}
	}
	if st == nil {
		if b, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); ok && s.deep {
			switch {
			case b.Info()&types.IsInteger != 0:
				s.memo[g] = &tval{c: constant.MakeInt64(0)}
			case b.Info()&types.IsString != 0:
				s.memo[g] = &tval{c: constant.MakeString("")}
			}
		}
		return s.memo[g]
	}
	s.memo[g] = s.eval(st.Val, nil, 0)
	return s.memo[g]
}

func (s *statics) funcs() []*ssa.Function {
	if s.all == nil {
		for _, n := range sortedKeys(s.p.ssa) {
			s.all = append(s.all, s.p.allFuncs(n)...)
			if in := s.p.ssa[n].Func("init"); in != nil {
				s.all = append(s.all, in)
			}
		}
	}
	return s.all
}

func constOf(c *ssa.Const) *tval {
	if c.Value == nil {
		return nil
	}
	return &tval{c: c.Value}
}

func (s *statics) eval(v ssa.Value, env senv, d int) *tval {
	if d > 30 {
		return nil
	}
	if x, ok := env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return constOf(x)
	case *ssa.MakeMap:
		t := &tval{m: map[string]*tval{}}
		for _, r := range *x.Referrers() {
			switch u := r.(type) {
			case *ssa.MapUpdate:
				if u.Map != ssa.Value(x) {
					continue
				}
				if inLoop(u.Block()) {
					return nil
				}
				k := s.eval(u.Key, env, d+1)
				e := s.eval(u.Value, env, d+1)
				if k == nil || k.c == nil || e == nil {
					return nil
				}
				id := k.c.ExactString()
				if t.m[id] != nil {
					t.dup = append(t.dup, id)
				} else {
					t.keys = append(t.keys, k.c)
				}
				t.m[id] = e
			case *ssa.Store, *ssa.Return, *ssa.Lookup, *ssa.DebugRef, *ssa.Range:
			default:
				return nil
			}
		}
		return t
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || x.Low != nil || x.High != nil {
			return nil
		}
		arr, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || arr.Len() > 100000 {
			return nil
		}
		t := &tval{l: make([]*tval, arr.Len())}
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					t.l[k.Int64()] = s.eval(st.Val, env, d+1)
				}
			}
			if t.l[k.Int64()] == nil && s.deep {
				t.l[k.Int64()] = s.inPlace(ia, d+1)
			}
		}
		for _, e := range t.l {
			if e == nil {
				return nil
			}
		}
		return t
	case *ssa.ChangeType:
		return s.eval(x.X, env, d+1)
	case *ssa.Convert:
		e := s.eval(x.X, env, d+1)
		if e == nil || e.c == nil {
			return nil
		}
		if isString(x.Type()) && e.c.Kind() == constant.Int {
			n, _ := constant.Int64Val(e.c)
			return &tval{c: constant.MakeString(string(rune(n)))}
		}
		if isString(x.Type()) == (e.c.Kind() == constant.String) {
			return e
		}
		return nil
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			a, ok1 := s.eval(x.X, env, d+1).str()
			b, ok2 := s.eval(x.Y, env, d+1).str()
			if ok1 && ok2 {
				return &tval{c: constant.MakeString(a + b)}
			}
		}
		return nil
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if g, ok := x.X.(*ssa.Global); ok {
				return s.global(g)
			}
			if a, ok := x.X.(*ssa.Alloc); ok && s.deep {
				return s.inPlace(a, d+1)
			}
		}
		return nil
	case *ssa.Lookup:
		m, k := s.eval(x.X, env, d+1), s.eval(x.Index, env, d+1)
		if m == nil || k == nil || k.c == nil || x.CommaOk {
			return nil
		}
		return m.get(k.c)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok && s.deep && len(c.Call.Args) == 0 {
			if f := c.Call.StaticCallee(); f != nil && s.p.inRepo(f) && len(f.Blocks) > 0 {
				return s.followNth(f, x.Index)
			}
		}
		return nil
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if s.deep && f != nil && s.p.inRepo(f) && len(x.Call.Args) == 0 && len(f.Blocks) > 0 {
			return s.follow(f)
		}
		if f == nil || len(f.Blocks) != 1 || !s.p.inRepo(f) {
			return nil
		}
		ret, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			return nil
		}
		e2 := senv{}
		for i, a := range x.Call.Args {
			if v := s.eval(a, env, d+1); v != nil {
				e2[f.Params[i]] = v
			}
		}
		return s.eval(ret.Results[0], e2, d+1)
	}
	return nil
}

// inPlace is the value that is built at an address by stores to its parts.
func (s *statics) inPlace(a ssa.Value, d int) *tval {
	if d > 30 {
		return nil
	}
	pt, ok := a.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	var parts []*tval
	var pts []types.Type
	isStruct := false
	switch t := pt.Elem().Underlying().(type) {
	case *types.Struct:
		isStruct = true
		for i := 0; i < t.NumFields(); i++ {
			pts = append(pts, t.Field(i).Type())
		}
	case *types.Array:
		if t.Len() > 10000 {
			return nil
		}
		for i := int64(0); i < t.Len(); i++ {
			pts = append(pts, t.Elem())
		}
	default:
		return nil
	}
	parts = make([]*tval, len(pts))
	var instrs []ssa.Instruction
	if g, ok := a.(*ssa.Global); ok {
		for _, f := range s.funcs() {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						if *o == ssa.Value(g) {
							instrs = append(instrs, in)
						}
					}
				}
			}
		}
	} else if r := a.Referrers(); r != nil {
		instrs = *r
	}
	set := map[int64]bool{}
	part := func(i int64, pa ssa.Value) bool {
		wrote := false
		for _, r := range *pa.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr != pa || wrote || set[i] || inLoop(u.Block()) {
					return false
				}
				wrote = true
				parts[i] = s.eval(u.Val, nil, d+1)
				if parts[i] == nil {
					return false
				}
			case *ssa.FieldAddr, *ssa.IndexAddr:
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				return false
			}
		}
		if !wrote {
			if t := s.inPlace(pa, d+1); t != nil {
				if set[i] {
					return true
				}
				parts[i] = t
				wrote = true
			}
		}
		if wrote {
			set[i] = true
		}
		return true
	}
	for _, in := range instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr:
			if !isStruct || !part(int64(x.Field), x) {
				return nil
			}
		case *ssa.IndexAddr:
			if isStruct {
				return nil
			}
			k, ok := x.Index.(*ssa.Const)
			if !ok {
				// read at an index: no store through it
				for _, r := range *x.Referrers() {
					switch r.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
					default:
						return nil
					}
				}
				continue
			}
			if !part(k.Int64(), x) {
				return nil
			}
		case *ssa.Store:
			if x.Addr == a || len(set) > 0 {
				return nil
			}
		case *ssa.UnOp, *ssa.DebugRef, *ssa.Slice:
		default:
			return nil
		}
	}
	for i, t := range parts {
		if t == nil {
			parts[i] = zeroOf(pts[i])
		}
		if parts[i] == nil {
			return nil
		}
	}
	if isStruct {
		return &tval{f: parts}
	}
	return &tval{l: parts}
}

func zeroOf(t types.Type) *tval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return &tval{c: constant.MakeInt64(0)}
		case u.Info()&types.IsString != 0:
			return &tval{c: constant.MakeString("")}
		case u.Info()&types.IsBoolean != 0:
			return &tval{c: constant.MakeBool(false)}
		}
	case *types.Struct:
		r := &tval{f: []*tval{}}
		for i := 0; i < u.NumFields(); i++ {
			z := zeroOf(u.Field(i).Type())
			if z == nil {
				return nil
			}
			r.f = append(r.f, z)
		}
		return r
	}
	return nil
}

// at is the value at an address.
func (s *statics) at(a *V) *tval {
	switch a.op {
	case OGlobal:
		return s.globalNamed(a)
	case OFAddr:
		t := s.at(a.args[0])
		if t == nil || int(a.num) >= len(t.f) {
			return nil
		}
		return t.f[a.num]
	case OIAddr:
		n, ok := s.resolve(a.args[1]).int()
		if !ok {
			return nil
		}
		l := s.resolve(a.args[0])
		if l == nil {
			l = s.at(a.args[0])
		}
		if l == nil || n < 0 || int(n) >= len(l.l) {
			return nil
		}
		return l.l[n]
	}
	return nil
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if rec(s) {
					return true
				}
			}
		}
		return false
	}
	return rec(b)
}

// resolve gives the constant that a term of the engine stands for, looking into package variables.
func (s *statics) resolve(v *V) *tval {
	switch v.op {
	case OConst:
		return &tval{c: v.cv}
	case OLoad:
		a := v.args[0]
		switch a.op {
		case OGlobal:
			return s.globalNamed(a)
		case OIAddr:
			n, ok := s.resolve(a.args[1]).int()
			if !ok {
				return nil
			}
			b := a.args[0]
			if b.op == OConv {
				if str, ok := s.resolve(b.args[0]).str(); ok {
					if rs := []rune(str); n >= 0 && int(n) < len(rs) && isRuneSlice(b.typ) {
						return &tval{c: constant.MakeInt64(int64(rs[n]))}
					}
				}
				return nil
			}
			l := s.resolve(b)
			if l == nil && b.op != OLoad {
				l = s.at(b)
			}
			if l == nil || n < 0 || int(n) >= len(l.l) {
				return nil
			}
			return l.l[n]
		case OFAddr:
			return s.at(a)
		}
	case OField:
		t := s.resolve(v.args[0])
		if t == nil || int(v.num) >= len(t.f) {
			return nil
		}
		return t.f[v.num]
	case OLookup:
		m, k := s.resolve(v.args[0]), s.resolve(v.args[1])
		if m == nil || k == nil || k.c == nil {
			return nil
		}
		if str, ok := m.str(); ok {
			if n, ok := k.int(); ok && n >= 0 && int(n) < len(str) {
				return &tval{c: constant.MakeInt64(int64(str[n]))}
			}
		}
		return m.get(k.c)
	case OConv:
		x := s.resolve(v.args[0])
		if x == nil || x.c == nil {
			return nil
		}
		if isString(v.typ) && x.c.Kind() == constant.Int {
			n, _ := constant.Int64Val(x.c)
			return &tval{c: constant.MakeString(string(rune(n)))}
		}
		return x
	case OConcat:
		out := ""
		for _, a := range v.args {
			str, ok := s.resolve(a).str()
			if !ok {
				return nil
			}
			out += str
		}
		return &tval{c: constant.MakeString(out)}
	}
	return nil
}

func (t *tval) int() (int64, bool) {
	if t == nil || t.c == nil || t.c.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.c)
}

func isRuneSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (s *statics) globalNamed(v *V) *tval {
	for _, n := range sortedKeys(s.p.ssa) {
		for _, m := range s.p.ssa[n].Members {
			if g, ok := m.(*ssa.Global); ok && g.Pkg.Pkg.Name()+"."+g.Name() == v.aux {
				return s.global(g)
			}
		}
	}
	return nil
}

func firstRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }
