package main

// C28: the names of variables in a printed formula.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A nmVar is a variable of a formula under analysis.
type nmVar struct {
	n    int    // its number
	word string // the word that restricts it; "" for none; "-" if it has no binding; "=" for an operator
}

type names struct {
	p    *Program
	r    *Report
	s    *statics
	fns  map[string]*ssa.Function
	t    map[string]*types.Named
	fail int
}

func ruleNames(p *Program, r *Report) {
	x := &names{p: p, r: r, s: newStatics(p), fns: map[string]*ssa.Function{}, t: map[string]*types.Named{}}
	for _, n := range []string{"Variable", "Binding", "Predication", "Pred", "Connection", "Serial", "Swap"} {
		if x.t[n] = namedOf(p.typ("logic", n)); !r.check(x.t[n] != nil, "anchor", "logic."+n, "-", "the type is missing") {
			return
		}
	}
	for _, n := range []string{"String", "PrettyString"} {
		if x.fns[n] = p.fn("logic", n); !r.check(x.fns[n] != nil && len(x.fns[n].Params) == 1, "anchor", "logic."+n, "-", "the function is missing") {
			return
		}
	}
	for _, c := range x.formulas() {
		x.formula(c)
	}
	x.empty()
	r.assumption("formulas are analysed for up to twelve variables of one initial and up to four of each of several initials, visited in and out of the order of their numbers; the words of variables begin with a letter of the alphabet, none of which is y or z")
	r.atLeast("names", 60)
}

func (x *names) formulas() [][]nmVar {
	var out [][]nmVar
	for _, w := range []string{"", "rai", "-", "=", "ıae", "u", "rai∧"} {
		for k := 1; k <= 12; k++ {
			var vs, back []nmVar
			for i := 0; i < k; i++ {
				vs = append(vs, nmVar{i, w})
				back = append(back, nmVar{k - 1 - i, w})
			}
			out = append(out, vs)
			if k > 1 && k <= 5 {
				out = append(out, back)
			}
		}
	}
	pairs := [][]string{{"", "rai"}, {"", "-"}, {"", "=", "rai"}, {"rai", "rua", ""}, {"-", "u"}, {"mai", "ıae", ""}, {"rai", "mai"}}
	for _, ws := range pairs {
		for a := 1; a <= 4; a++ {
			for b := 1; b <= 4; b++ {
				var vs []nmVar
				for i := 0; i < a+b; i++ {
					w := ws[0]
					if i%2 == 1 && i/2 < b || i/2 >= a {
						w = ws[1+i/2%(len(ws)-1)]
					}
					n := i
					if (a+b)%2 == 1 {
						n = a + b - 1 - i
					}
					vs = append(vs, nmVar{n, w})
				}
				out = append(out, vs)
			}
		}
	}
	for _, c := range "aeıoubcdfghjklmnpqrst" {
		out = append(out, []nmVar{{0, ""}, {1, string(c) + "a"}, {2, ""}, {3, ""}, {4, "-"}})
	}
	for _, f := range []string{"shi∘rai", "rai∘de", "shi∘mu rai", "mu rai∘de", "shi∘=", "shi∘?", "?", "mu rai", "mu ?", "=∧", "rai∧∧", "∃", "∃∧", "shi∘shi∘rai", "shi"} {
		out = append(out, []nmVar{{0, f}, {1, "rai"}, {2, ""}, {3, f}})
	}
	// numbers that are not in sequence
	out = append(out, []nmVar{{3, ""}, {1, "rai"}}, []nmVar{{7, "rai"}}, []nmVar{{0, ""}, {2, ""}, {5, "mai"}}, []nmVar{{1, "rai"}})
	return out
}

func (x *names) obj(st *State, t string, set map[string]*V) *V {
	T := x.t[t]
	c := zero(T)
	for f, v := range set {
		if i := fieldIndex(T, f); i >= 0 {
			c = withArg(c, i, v)
		}
	}
	return st.newObj(T, c, 0)
}

func (x *names) iface(t string, v *V) *V { return mkIface(types.NewPointer(x.t[t]), v) }

func (x *names) pred(st *State, name string) *V {
	return x.iface("Pred", x.obj(st, "Pred", map[string]*V{"Name": vStr(name)}))
}

// restriction makes the statement that a form like "shi∘rai", "mu rai", "rai∧" or "∃" names.
func (x *names) restriction(st *State, form string) *V {
	switch {
	case form == "=":
		return x.predication(st, x.pred(st, "="), vNil, vNil)
	case form == "∃":
		return x.iface("Binding", x.obj(st, "Binding", map[string]*V{"N": vInt(90), "Quantifier": vStr(form), "Scope": x.restriction(st, "rai")}))
	case strings.HasSuffix(form, "∧"):
		l := x.restriction(st, strings.TrimSuffix(form, "∧"))
		return x.iface("Connection", x.obj(st, "Connection", map[string]*V{"Connector": vStr("∧"), "Left": l, "Right": x.restriction(st, "de")}))
	}
	return x.predication(st, x.predicate(st, form), vNil)
}

func (x *names) predicate(st *State, form string) *V {
	if strings.HasPrefix(form, "mu ") {
		return x.iface("Swap", x.obj(st, "Swap", map[string]*V{"Predicate": x.predicate(st, form[3:])}))
	}
	if i := strings.Index(form, "∘"); i >= 0 {
		return x.iface("Serial", x.obj(st, "Serial", map[string]*V{"Left": x.predicate(st, form[:i]), "Right": x.predicate(st, form[i+len("∘"):])}))
	}
	if form == "?" {
		return x.iface("Variable", x.obj(st, "Variable", map[string]*V{"N": vInt(90)}))
	}
	return x.pred(st, form)
}

// predication makes a predication.
func (x *names) predication(st *State, pred *V, args ...*V) *V {
	ft := x.t["Predication"].Underlying().(*types.Struct)
	at := types.NewArray(ft.Field(fieldIndex(x.t["Predication"], "Arguments")).Type().Underlying().(*types.Slice).Elem(), int64(len(args)))
	c := zero(at)
	for i, a := range args {
		c = withArg(c, i, a)
	}
	l := mk(V{op: OSlice, num: 0, num2: int64(len(args)), args: []*V{st.newObj(at, c, 0)}})
	return x.iface("Predication", x.obj(st, "Predication", map[string]*V{"Predicate": pred, "Arguments": l}))
}

// build makes a binding of a variable that occurs nowhere, over each variable twice.
func (x *names) build(vs []nmVar, free int) (*State, *V) {
	st := newState()
	var args []*V
	for round := 0; round < 2; round++ {
		for _, v := range vs {
			set := map[string]*V{"N": vInt(int64(v.n))}
			if v.word != "-" {
				def := map[string]*V{"N": vInt(int64(v.n)), "Quantifier": vStr("∃")}
				if v.word != "" {
					def["Restriction"] = x.restriction(st, v.word)
				}
				set["Def"] = x.obj(st, "Binding", def)
			}
			args = append(args, x.iface("Variable", x.obj(st, "Variable", set)))
		}
	}
	body := x.predication(st, x.pred(st, "poq"), args...)
	return st, x.iface("Binding", x.obj(st, "Binding", map[string]*V{"N": vInt(int64(free)), "Quantifier": vStr("ι"), "Scope": body}))
}

// print gives what the function makes of the formula.
func (x *names) print(fn string, st *State, n *V) (string, string) {
	e := x.s.eng()
	e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
		if x.p.inRepo(g) && len(g.Blocks) > 0 && len(e.stack) < 60 {
			return ActInline
		}
		return ActDefault
	}
	outs := e.Run(x.fns[fn], st, n)
	x.r.analysed["paths"] += len(outs)
	if len(outs) == 1 && outs[0].Kind == Panicked {
		return "", "fails with " + outs[0].Vals[0].String()
	}
	if e.over || len(outs) != 1 || outs[0].Kind != Ret || len(outs[0].Vals) != 1 {
		return "", "gives something that is not decided"
	}
	for _, ev := range outs[0].St.events {
		if ev.Kind == "hazard" {
			return "", "fails: " + ev.Name
		}
	}
	s, ok := e.constArg(outs[0].Vals[0]).strVal()
	if !ok {
		return "", "gives something that is not decided"
	}
	return s, ""
}

func (x *names) formula(vs []nmVar) {
	if x.fail > 4 {
		return
	}
	top := 0
	for _, v := range vs {
		if v.n >= top {
			top = v.n + 1
		}
	}
	var ids []string
	for _, v := range vs {
		ids = append(ids, fmt.Sprintf("%d:%s", v.n, map[bool]string{true: "none", false: v.word}[v.word == ""]))
	}
	id := strings.Join(ids, " ")
	where := x.p.pos(x.fns["String"].Pos())
	st, n := x.build(vs, top)
	plain, bad := x.print("String", st, n)
	if bad == "" {
		bad = x.apart(plain, vs)
	}
	if !x.r.check(bad == "", "names", id, where, fmt.Sprintf("String of the formula with the variables %s %s: %q", id, bad, plain)) {
		x.fail++
		return
	}
	st, n = x.build(vs, top)
	pretty, bad := x.print("PrettyString", st, n)
	if bad == "" {
		back := strings.Map(func(r rune) rune {
			switch {
			case r >= 0x1D434 && r < 0x1D434+26:
				return r - 0x1D434 + 'A'
			case r == '\u2129':
				return 'ι'
			}
			return r
		}, pretty)
		if back != plain {
			bad = "is not the plain form in other letters"
		} else if strings.ContainsRune(pretty, 'ι') || strings.IndexFunc(pretty, func(r rune) bool { return 'A' <= r && r <= 'Z' }) >= 0 {
			bad = "keeps letters of the plain form"
		}
	}
	if !x.r.check(bad == "", "pretty", id, x.p.pos(x.fns["PrettyString"].Pos()), fmt.Sprintf("PrettyString of the formula with the variables %s %s: %q for %q", id, bad, pretty, plain)) {
		x.fail++
	}
}

// apart tells what is wrong with the names in the text.
func (x *names) apart(text string, vs []nmVar) string {
	i := strings.Index(text, "(")
	j := strings.LastIndex(text, ")")
	h := strings.Index(text, "poq")
	if i < 0 || j < i || h < 0 {
		return "is not written as a predication"
	}
	own := strings.TrimSpace(strings.Replace(text[:h], "ι", "", 1))
	ns := strings.Split(text[i+1:j], ",")
	if len(ns) != 2*len(vs) {
		return "does not have each variable in its place"
	}
	seen := map[string]int{own: -1}
	if own == "" {
		return "does not name the bound variable"
	}
	for k, nm := range ns {
		nm = strings.TrimSpace(nm)
		if nm == "" {
			return "leaves a variable without a name"
		}
		v := vs[k%len(vs)].n
		if w, ok := seen[nm]; ok && w != v {
			return fmt.Sprintf("has the name %s for two variables", nm)
		} else if !ok && k >= len(vs) {
			return "has two names for one variable"
		}
		seen[nm] = v
	}
	return ""
}

// empty: there is nothing to write of a formula that is not there.
func (x *names) empty() {
	for _, fn := range []string{"String", "PrettyString"} {
		s, bad := x.print(fn, newState(), vNil)
		if bad == "" && s != "" {
			bad = fmt.Sprintf("writes %q", s)
		}
		x.r.check(bad == "", "empty", fn, x.p.pos(x.fns[fn].Pos()), "of no formula it "+bad)
	}
}
