package main

// C20: loading the dictionary, and the built-in one.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ruleDict(p *Program, r *Report) {
	load := p.fn("dict", "Load")
	wt := p.typ("dict", "Word")
	if !r.check(load != nil && wt != nil, "anchor", "dict.Load and dict.Word", "-", "not found") {
		return
	}
	r.assumption("encoding/json fills the value it is given from the response or returns an error; net/http returns a response if it returns no error")
	checkLoad(p, r, load, wt)
	checkWords(p, r)
}

// tagged finds the field of a struct that holds the given JSON key.
func tagged(t types.Type, key string) int {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		tag := strings.Split(reflect.StructTag(st.Tag(i)).Get("json"), ",")[0]
		if tag == key || tag == "" && strings.EqualFold(st.Field(i).Name(), key) {
			return i
		}
	}
	return -1
}

func checkLoad(p *Program, r *Report, load *ssa.Function, wt types.Type) {
	e := newEng(p)
	e.MaxLen = 2
	e.Policy = func(fn *ssa.Function, args []*V, st *State) Action {
		if fnName(fn) == "tone.Strip" {
			return ActPure
		}
		return ActDefault
	}
	type dec struct {
		obj *V
		t   types.Type
	}
	decoded := map[*V]dec{} // symbol for the decoded contents
	e.After = func(st *State, name string, fn *ssa.Function, args []*V, res *V) {
		// what a decoder writes into the value it is given
		if !strings.HasPrefix(name, "(*encoding/json.") && !strings.HasPrefix(name, "encoding/json.") {
			return
		}
		for _, a := range args {
			if a.op == OIface && a.args[0].op == OObj {
				o := a.args[0]
				t := st.otype[o.num]
				s := vSym(fmt.Sprintf("decoded by %s#%d", name, st.seq), t)
				decoded[s] = dec{res, t}
				c := st.expand(s, t)
				for i := range c.args {
					if c.op == OStruct && c.args[i].typ == nil {
						c.args[i].typ = t.Underlying().(*types.Struct).Field(i).Type()
					}
				}
				st.heap[o.num] = c
			}
		}
	}
	fromDecoded := func(v *V) *V {
		for x := range allTermsOf(v) {
			if _, ok := decoded[x]; ok {
				return x
			}
		}
		return nil
	}
	e.MayNil = func(st *State, v *V) bool { return fromDecoded(v) != nil }
	st := newState()
	var args []*V
	for _, q := range load.Params {
		args = append(args, vSym(q.Name(), q.Type()))
	}
	outs := e.Run(load, st, args...)
	r.analysed["functions"] += len(e.funcs)
	r.analysed["paths"] += len(outs)
	name := fnName(load)
	if e.over {
		r.bad("undecided", name, p.pos(load.Pos()), "too many paths")
	}
	for _, o := range outs {
		where := p.pos(o.Pos)
		id := o.St.factString()
		crash := ""
		for _, ev := range o.St.events {
			if ev.Kind == "hazard" {
				crash = ev.Name
				if len(ev.Args) > 0 {
					crash += " of " + ev.Args[0].String()
				}
			}
			if ev.Kind == "call" && (ev.Name == "os.Exit" || strings.HasPrefix(ev.Name, "log.Fatal") || strings.HasPrefix(ev.Name, "log.Panic")) {
				crash = ev.Name
			}
		}
		if !r.check(crash == "", "no-crash", name, where, "a response can crash the program: "+crash) {
			continue
		}
		if o.Kind == Panicked {
			r.bad("no-crash", name+" panics", where, "a path ends in a panic: "+id)
			continue
		}
		if o.Kind == Cut || len(o.Vals) != 2 {
			r.bad("undecided", name, where, "a path is not followed to its end")
			continue
		}
		isnil, known := o.St.knownNil(o.Vals[1])
		if !known {
			r.bad("undecided", name+" error", where, "cannot tell whether an error is returned: "+id)
			continue
		}
		if !isnil {
			r.ok("error", name+" reports "+o.Vals[1].String())
			continue
		}
		// success: nothing that was called failed
		var s *V
		var t types.Type
		failed := ""
		for _, ev := range o.St.events {
			if ev.Kind != "call" {
				continue
			}
			if strings.HasPrefix(ev.Name, ".Close") || strings.HasSuffix(ev.Name, ").Close") {
				continue
			}
			for x, d := range decoded {
				if d.obj == ev.Res {
					s, t = x, d.t
				}
			}
			ev := ev
			for _, x := range errorResults(p, o.St, ev) {
				if n, k := o.St.knownNil(x); !k || !n {
					failed = ev.Name
				}
			}
		}
		if !r.check(s != nil, "decodes", name, where, "a result is returned without reading the response: "+id) {
			continue
		}
		if !r.check(failed == "", "errors-seen", name, where, "a result is returned although the failure of "+failed+" is not excluded: "+id) {
			continue
		}
		sf, df := tagged(t, "success"), tagged(t, "data")
		if !r.check(sf >= 0 && df >= 0, "decodes", name+" fields", where, "the response is decoded without its fields success and data") {
			continue
		}
		succ := fieldOf(s, sf, t)
		if _, ok := t.Underlying().(*types.Struct).Field(sf).Type().Underlying().(*types.Pointer); ok {
			succ = loadOf(succ)
		}
		if b, ok := e.decide(o.St, succ); !r.check(ok && b, "success-seen", name, where, "a result is returned although the response may report a failure: "+id) {
			continue
		}
		data := fieldOf(s, df, t)
		dt := t.Underlying().(*types.Struct).Field(df).Type()
		if n, k := o.St.knownNil(data); !r.check(k && !n, "data-seen", name, where, "a result is returned although the response may lack the data: "+id) {
			continue
		}
		sl := data
		if pt, ok := dt.Underlying().(*types.Pointer); ok {
			sl = o.St.load(data, pt.Elem())
			dt = pt.Elem()
		}
		n, ok := o.St.shape[sl]
		if !ok {
			if isn, k := o.St.knownNil(sl); k && isn {
				n, ok = 0, true
			}
		}
		if !r.check(ok, "entries", name+" looks at the entries", where, "a result is returned without looking at the entries: "+id) {
			continue
		}
		et := dt.Underlying().(*types.Slice).Elem()
		var sets []Event
		for _, ev := range o.St.events {
			if ev.Kind == "mapset" && ev.Args[0] == o.Vals[0] {
				sets = append(sets, ev)
			}
			if ev.Kind == "mapdelete" && ev.Args[0] == o.Vals[0] {
				r.bad("entries", name+" deletes an entry", where, "an entry is deleted from the result")
			}
		}
		if !r.check(o.Vals[0].op == OMap, "entries", name+" result", where, "the result "+o.Vals[0].String()+" is not a map made for it") {
			continue
		}
		if !r.check(int64(len(sets)) == n, "entries", name+" keeps all entries", where, fmt.Sprintf("of %d entries, %d are stored: %s", n, len(sets), id)) {
			continue
		}
		used := map[int64]bool{}
		for _, ev := range sets {
			key, val := ev.Args[1], ev.Args[2]
			wf := tagged(wt, "head")
			if wf < 0 {
				r.bad("anchor", "Word head", where, "dict.Word has no field for the head word")
				break
			}
			// which entry is it?
			i := int64(-1)
			var el *V
			for j := int64(0); j < n; j++ {
				x := o.St.load(indexAddr(sl, vInt(j)), et)
				if same, why := sameEntry(o.St, val, x, wt, wf); same {
					i, el = j, x
				} else if why != "" {
					_ = why
				}
			}
			if !r.check(i >= 0 && !used[i], "entries", name+" stores an entry unchanged", where, "the stored entry "+val.String()+" is not one of the response's with only its head word normalised, or is stored twice") {
				continue
			}
			used[i] = true
			w := fieldOf(val, wf, wt)
			r.check(w == key, "own-key", name, where, fmt.Sprintf("an entry with head word %s is stored under %s", w, key))
			orig := loadedField(o.St, sl, i, el, wf, wt)
			norm := false
			for x := range allTermsOf(key) {
				_ = x
			}
			if callName(key) == "strings.ToLower" && callName(key.args[0]) == "tone.Strip" && key.args[0].args[0] == orig {
				norm = true
			}
			if callName(key) == "tone.Strip" && callName(key.args[0]) == "strings.ToLower" && key.args[0].args[0] == orig {
				norm = true
			}
			r.check(norm, "normalised", name, where, "the key "+key.String()+" is not the entry's head word without tones in lower case")
		}
	}
	r.atLeast("error", 2)
	r.atLeast("success-seen", 2)
	r.atLeast("own-key", 2)
	r.atLeast("normalised", 2)
}

// errorResults lists the error results of a call.
func errorResults(p *Program, st *State, ev Event) []*V {
	var out []*V
	if ev.Res.typ != nil && types.Identical(ev.Res.typ, types.Universe.Lookup("error").Type()) {
		return []*V{ev.Res}
	}
	seen := map[*V]bool{}
	for f := range st.facts {
		walkTerm(f, func(x *V) bool {
			if x.op == OExtract && x.args[0] == ev.Res && x.typ != nil && types.Identical(x.typ, types.Universe.Lookup("error").Type()) {
				out = append(out, x)
			}
			return true
		}, seen)
	}
	return out
}

// sameEntry: val is the entry x except for its head word.
func sameEntry(st *State, val, x *V, wt types.Type, wf int) (bool, string) {
	str := wt.Underlying().(*types.Struct)
	if val == x {
		return true, ""
	}
	for i := 0; i < str.NumFields(); i++ {
		if i == wf {
			continue
		}
		a, b := fieldOf(val, i, wt), fieldOf(x, i, wt)
		if a == b {
			continue
		}
		// a field loaded by itself
		if b.op == OField && b.args[0].op == OLoad && a == loadOf(fieldAddr(b.args[0].args[0], i, wt)) {
			continue
		}
		if a.op == OField && a.args[0].op == OLoad && b == loadOf(fieldAddr(a.args[0].args[0], i, wt)) {
			continue
		}
		return false, fmt.Sprintf("field %s is %s", str.Field(i).Name(), a)
	}
	return true, ""
}

// loadedField is the head word as the response had it.
func loadedField(st *State, sl *V, i int64, el *V, wf int, wt types.Type) *V {
	return fieldOf(loadOf(indexAddr(sl, vInt(i))), wf, wt)
}

// checkWords: the built-in dictionary, entry by entry.
func checkWords(p *Program, r *Report) {
	pk := p.pkgs["dict"]
	str := func(e ast.Expr) (string, bool) {
		tv, ok := pk.TypesInfo.Types[e]
		if !ok || tv.Value == nil || tv.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(tv.Value), true
	}
	var lits []*ast.CompositeLit
	for _, f := range pk.Syntax {
		ast.Inspect(f, func(n ast.Node) bool {
			cl, ok := n.(*ast.CompositeLit)
			if !ok {
				return true
			}
			t := pk.TypesInfo.TypeOf(cl)
			if m, ok := t.Underlying().(*types.Map); ok && isNamed(m.Elem(), "Word") {
				lits = append(lits, cl)
				return false
			}
			return true
		})
	}
	wt := p.typ("dict", "Word")
	hf := tagged(wt, "head")
	if hf < 0 {
		return
	}
	hname := wt.Underlying().(*types.Struct).Field(hf).Name()
	for _, cl := range lits {
		for _, el := range cl.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				continue
			}
			where := p.pos(kv.Pos())
			k, ok := str(kv.Key)
			v, isLit := ast.Unparen(kv.Value).(*ast.CompositeLit)
			if !ok || !isLit {
				r.bad("word-key", "dict.Words entry", where, "an entry of the built-in dictionary is not a constant")
				continue
			}
			head, found := "", false
			for i, f := range v.Elts {
				if fkv, ok := f.(*ast.KeyValueExpr); ok {
					if id, ok := fkv.Key.(*ast.Ident); ok && id.Name == hname {
						head, found = str(fkv.Value)
					}
				} else if i == hf {
					head, found = str(f)
				}
			}
			r.check(found && head == k, "word-key", fmt.Sprintf("Words[%q]", k), where, fmt.Sprintf("the entry under %q has the head word %q", k, head))
		}
	}
	r.analysed["entries of the built-in dictionary"] = r.rules["word-key"]
	r.atLeast("word-key", 1000)
}
