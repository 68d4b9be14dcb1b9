package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func isPureExternal(name string) bool {
	for _, p := range []string{"strings.", "unicode.", "unicode/utf8.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.New", "reflect.", "(reflect.Value).", "math.", "bytes.", "(error).", "path.", "path/filepath.", "html.", "slices.", "maps.", "sort.SearchInts"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Array:
		return reflect.Array
	case *types.Basic:
		switch u.Kind() {
		case types.String:
			return reflect.String
		case types.Int:
			return reflect.Int
		case types.Bool:
			return reflect.Bool
		}
	}
	return reflect.Invalid
}

// stdModel gives meaning to the library functions that the analysed code relies on.
func (e *Eng) stdModel(st *State, name string, fn *ssa.Function, args []*V, pos token.Pos) ([]mOut, bool) {
	switch name {
	case "reflect.ValueOf":
		return one(st, mk(V{op: OCall, aux: "reflect.Value#0", args: []*V{args[0]}})), true
	case "(reflect.Value).IsValid", "(reflect.Value).Kind", "(reflect.Value).IsNil", "(reflect.Value).Interface", "(reflect.Value).Elem":
		r := args[0]
		if r.op == OLoad || callName(r) != "reflect.Value" {
			return nil, false
		}
		return e.reflectModel(st, name, r.args[0], pos)
	case "strings.ToLower":
		if s, ok := args[0].strVal(); ok {
			return one(st, vStr(strings.ToLower(s))), true
		}
	case "strings.ToUpper":
		if s, ok := args[0].strVal(); ok {
			return one(st, vStr(strings.ToUpper(s))), true
		}
	case "unicode.ToLower":
		if n, ok := args[0].intVal(); ok {
			return one(st, vInt(int64(unicode.ToLower(rune(n))))), true
		}
	case "unicode/utf8.DecodeRuneInString":
		if s, ok := args[0].strVal(); ok {
			r, w := utf8.DecodeRuneInString(s)
			return one(st, mk(V{op: OStruct, aux: "t", args: []*V{vInt(int64(r)), vInt(int64(w))}})), true
		}
		if args[0].op == OConcat {
			if s, ok := args[0].args[0].strVal(); ok && utf8.FullRuneInString(s) {
				r, w := utf8.DecodeRuneInString(s)
				return one(st, mk(V{op: OStruct, aux: "t", args: []*V{vInt(int64(r)), vInt(int64(w))}})), true
			}
		}
	case "strings.IndexRune":
		if s, ok := args[0].strVal(); ok {
			if n, ok := args[1].intVal(); ok {
				return one(st, vInt(int64(strings.IndexRune(s, rune(n))))), true
			}
		}
	case "strings.ContainsRune":
		if s, ok := args[0].strVal(); ok {
			if n, ok := args[1].intVal(); ok {
				return one(st, vBool(strings.ContainsRune(s, rune(n)))), true
			}
		}
	}
	return nil, false
}

func (e *Eng) reflectModel(st *State, name string, x *V, pos token.Pos) ([]mOut, bool) {
	// nil interface?
	if b, ok := st.knownNil(x); !ok {
		if x.op != OIface {
			var outs []mOut
			for _, a := range e.branch(st, eqAtom(x, vNil)) {
				o, _ := e.reflectModel(a.st, name, x, pos)
				outs = append(outs, o...)
			}
			return outs, true
		}
	} else if b {
		switch name {
		case "(reflect.Value).IsValid":
			return one(st, vFalse), true
		case "(reflect.Value).Kind":
			return one(st, vInt(0)), true
		case "(reflect.Value).Elem":
			return nil, false
		}
		return []mOut{{st: st, v: vSym("reflect on nil", nil), kind: Panicked}}, true
	}
	if name == "(reflect.Value).IsValid" {
		return one(st, vTrue), true
	}
	if name == "(reflect.Value).Interface" {
		return one(st, x), true
	}
	var T types.Type
	var val *V
	if x.op == OIface {
		T, val = x.typ, x.args[0]
	} else if t, ok := st.dyn[x]; ok {
		T, val = t, mkAs(x, t)
	} else if ps := e.possible(st, x); len(ps) == 1 {
		T, val = ps[0], mkAs(x, ps[0])
	} else if len(ps) > 0 {
		// all possible types of the same kind?
		k := kindOf(ps[0])
		same := true
		for _, p := range ps {
			if kindOf(p) != k {
				same = false
			}
		}
		if same && name == "(reflect.Value).Kind" {
			return one(st, vInt(int64(k))), true
		}
		if same && name == "(reflect.Value).IsNil" && k == reflect.Ptr {
			// interfaces of the tree that are not nil hold non-nil pointers
			return one(st, vFalse), true
		}
		if !same {
			if name == "(reflect.Value).IsNil" && nonNilHook != nil && nonNilHook(x) {
				return one(st, vFalse), true
			}
			// split on the kind of the dynamic type
			seen := map[reflect.Kind]bool{}
			var outs []mOut
			for _, p := range ps {
				k := kindOf(p)
				if seen[k] {
					continue
				}
				seen[k] = true
				s2 := st.clone()
				for _, q := range ps {
					if kindOf(q) != k {
						s2.excl[x] = append(s2.excl[x], q)
					}
				}
				s2.facts[eqAtom(x, vNil)] = false
				o, ok := e.reflectModel(s2, name, x, pos)
				if !ok {
					return nil, false
				}
				outs = append(outs, o...)
			}
			return outs, true
		}
	}
	if T == nil {
		return nil, false
	}
	switch name {
	case "(reflect.Value).Kind":
		return one(st, vInt(int64(kindOf(T)))), true
	case "(reflect.Value).IsNil":
		switch kindOf(T) {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Func, reflect.Interface:
			if b, ok := st.knownNil(val); ok {
				return one(st, vBool(b)), true
			}
			return one(st, eqAtom(val, vNil)), true
		}
		return []mOut{{st: st, v: vSym("IsNil of a value that cannot be nil", nil), kind: Panicked}}, true
	case "(reflect.Value).Elem":
		if p, ok := T.Underlying().(*types.Pointer); ok {
			v := st.load(val, p.Elem())
			if _, isI := p.Elem().Underlying().(*types.Interface); isI {
				return one(st, mk(V{op: OCall, aux: "reflect.Value#0", args: []*V{v}})), true
			}
			return one(st, mk(V{op: OCall, aux: "reflect.Value#0", args: []*V{mkIface(p.Elem(), v)}})), true
		}
	}
	return nil, false
}
