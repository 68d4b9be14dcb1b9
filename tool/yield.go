package main

// The words of a node value, in the order of the text, as far as an abstract state knows them.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type yielder struct {
	st *State
	s  *astSpec
}

// isModSig: a method func(*Mod) X where X is a node.
func (s *astSpec) isModSig(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Variadic() {
		return false
	}
	p, ok := sig.Params().At(0).Type().(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p.Elem())
	if n == nil || n.Obj().Name() != "Mod" || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "ast" {
		return false
	}
	if _, ok := n.Underlying().(*types.Interface); !ok {
		return false
	}
	return types.Implements(sig.Results().At(0).Type(), s.node)
}

// isMod reports whether a term is the result of a mod method, and gives its receiver and modifier.
func (y *yielder) isMod(v *V) (recv, m *V, ok bool) {
	if v.op != OCall || len(v.args) != 2 {
		return nil, nil, false
	}
	n := callName(v)
	if y.s.modNames[n] {
		return v.args[0], v.args[1], true
	}
	return nil, nil, false
}

func (y *yielder) none(v *V) bool {
	if v.op == ONil {
		return true
	}
	if b, ok := y.st.knownNil(v); ok && b {
		return true
	}
	if n, ok := y.st.shape[v]; ok && n == 0 {
		return true
	}
	return false
}

func isZero(v *V) bool {
	switch v.op {
	case ONil:
		return true
	case OConst:
		if s, ok := v.strVal(); ok {
			return s == ""
		}
		if n, ok := v.intVal(); ok {
			return n == 0
		}
	case OStruct:
		for _, a := range v.args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (y *yielder) of(v *V, t types.Type, d int) []*V {
	if d > 30 {
		return []*V{vSym("too deep", nil)}
	}
	if t == nil {
		return []*V{v}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		for v.op == OAs && v.typ != nil {
			if _, ok := v.typ.Underlying().(*types.Interface); !ok {
				break
			}
			v = v.args[0]
		}
		if v.op == OIface {
			if types.IsInterface(v.typ) {
				return y.of(v.args[0], v.typ, d+1)
			}
			return y.of(v.args[0], v.typ, d+1)
		}
		if y.none(v) {
			return nil
		}
		if r, m, ok := y.isMod(v); ok {
			return y.modded(r, m, d)
		}
		if T, ok := y.st.dyn[v]; ok {
			return y.of(mkAs(v, T), T, d+1)
		}
		return []*V{v}
	case *types.Pointer:
		if y.none(v) {
			return nil
		}
		if r, m, ok := y.isMod(v); ok {
			return y.modded(r, m, d)
		}
		return y.of(y.st.load(v, u.Elem()), u.Elem(), d+1)
	case *types.Slice:
		if y.none(v) {
			return nil
		}
		if r, m, ok := y.isMod(v); ok {
			return y.modded(r, m, d)
		}
		if v.op == OSlice {
			var out []*V
			for i := v.num; i < v.num2; i++ {
				out = append(out, y.of(y.st.load(indexAddr(v.args[0], vInt(i)), u.Elem()), u.Elem(), d+1)...)
			}
			return out
		}
		if n, ok := y.st.shape[v]; ok && v.op != OObj {
			var out []*V
			for i := int64(0); i < n; i++ {
				out = append(out, y.of(y.st.load(indexAddr(v, vInt(i)), u.Elem()), u.Elem(), d+1)...)
			}
			return out
		}
		return []*V{v}
	case *types.Struct:
		nm := namedOf(t)
		if nm == nil {
			return []*V{v}
		}
		name := nm.Obj().Name()
		if w := wrapOf[name]; w != "" {
			name = w
		}
		if r, m, ok := y.isMod(v); ok {
			return y.modded(r, m, d)
		}
		field := func(f string) (*V, types.Type) {
			i := fieldIndex(t, f)
			if i < 0 {
				return nil, nil
			}
			return fieldOf(v, i, t), u.Field(i).Type()
		}
		if name == "Word" {
			T, _ := field("T")
			S, _ := field("S")
			E, _ := field("E")
			M, mt := field("M")
			if T == nil || S == nil || E == nil || M == nil {
				return []*V{v}
			}
			var out []*V
			if !(isZero(T) && isZero(S) && isZero(E)) {
				out = append(out, tok(T, S, E))
			}
			return append(out, y.of(M, mt, d+1)...)
		}
		order := partOrder[name]
		if order == nil {
			return []*V{v}
		}
		if name == "CoP" {
			order = []string{"TO0?", "RU", "Left", "TO1?", "Right"}
			if f, _ := field("TO0"); f != nil && y.none(f) {
				order = []string{"Left", "RU", "TO1?", "Right"}
			}
		}
		var out []*V
		for _, f := range order {
			x, ft := field(strings.TrimSuffix(f, "?"))
			if x == nil {
				return []*V{v}
			}
			if x.typ == nil && x.op == OLoad {
				x.typ = ft
			}
			out = append(out, y.of(x, ft, d+1)...)
		}
		return out
	}
	return []*V{v}
}

func tok(T, S, E *V) *V { return mk(V{op: OCall, aux: "word#0", args: []*V{T, S, E}}) }

func (y *yielder) modded(r, m *V, d int) []*V {
	return append(y.of(r, y.typeOf(r), d+1), y.of(m, y.s.modPtr, d+1)...)
}

// typeOf finds the type of a receiver.
func (y *yielder) typeOf(v *V) types.Type {
	switch v.op {
	case OIface:
		return y.s.nodeT
	case OAs, OStruct:
		return v.typ
	case OObj:
		return types.NewPointer(v.typ)
	}
	if v.typ != nil && v.op != OField && v.op != OFAddr {
		return v.typ
	}
	if v.op == OLoad || v.op == OField {
		a := v
		if v.op == OLoad {
			a = v.args[0]
		}
		if a.op == OFAddr || a.op == OField {
			if n := namedOf(a.typ); n != nil {
				if st, ok := n.Underlying().(*types.Struct); ok && int(a.num) < st.NumFields() {
					return st.Field(int(a.num)).Type()
				}
			}
			if st, ok := a.typ.Underlying().(*types.Struct); ok && int(a.num) < st.NumFields() {
				return st.Field(int(a.num)).Type()
			}
		}
	}
	return y.s.nodeT
}

// initMods finds the mod methods of package ast and the types that they are stated with.
func (s *astSpec) initMods() string {
	s.modNames = map[string]bool{}
	m := s.p.typ("ast", "Mod")
	s.nodeT = s.p.typ("ast", "Node")
	if m == nil || s.nodeT == nil {
		return "type ast.Mod not found"
	}
	s.modPtr = types.NewPointer(m)
	sc := s.p.pkgs["ast"].Types.Scope()
	add := func(sig *types.Signature, f *types.Func) {
		if !s.isModSig(sig) {
			return
		}
		s.modNames["."+f.Name()] = true
		if fn := s.p.prog.FuncValue(f); fn != nil {
			s.modNames[fnName(fn)] = true
		}
	}
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if it, ok := tn.Type().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumMethods(); i++ {
				f := it.Method(i)
				if sig := f.Type().(*types.Signature); s.isModSig(sig) {
					s.modNames["."+f.Name()] = true
				}
			}
			continue
		}
		nm, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		for i := 0; i < nm.NumMethods(); i++ {
			f := nm.Method(i)
			add(f.Type().(*types.Signature), f)
		}
	}
	if len(s.modNames) == 0 {
		return "no method that attaches a modifier was found"
	}
	return ""
}

func yieldString(ys []*V) string {
	var ss []string
	for _, v := range ys {
		ss = append(ss, v.String())
	}
	return "[" + strings.Join(ss, " ") + "]"
}

func sameYield(a, b []*V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// modMethods lists the methods of a node kind that attach a modifier.
func (s *astSpec) modMethods(k *nodeKind) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(k.T)
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !s.isModSig(f.Type().(*types.Signature)) {
			continue
		}
		if fn := s.p.prog.MethodValue(ms.At(i)); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

func diffYield(got, want []*V) string {
	return fmt.Sprintf("has the words %s, should have %s", yieldString(got), yieldString(want))
}
