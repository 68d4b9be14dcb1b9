package main

// C18: the web server and the chat bot.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// holds tells whether the value v can be read off the value from,
// following fresh memory and maps as they were after the first upto events.
func holds(st *State, from *V, upto int, is func(*V) bool) bool {
	hit := false
	seen := map[*V]bool{}
	var visit func(v *V)
	visit = func(v *V) {
		if v == nil || seen[v] || hit {
			return
		}
		seen[v] = true
		if is(v) {
			hit = true
			return
		}
		switch v.op {
		case OObj:
			visit(st.heap[v.num])
		case OMap:
			last := map[*V]*V{}
			var order []*V
			for i, ev := range st.events {
				if i >= upto {
					break
				}
				if ev.Kind == "mapset" && ev.Args[0] == v {
					if _, ok := last[ev.Args[1]]; !ok {
						order = append(order, ev.Args[1])
					}
					last[ev.Args[1]] = ev.Args[2]
				}
				if ev.Kind == "mapdelete" && ev.Args[0] == v {
					last[ev.Args[1]] = nil
				}
			}
			for _, k := range order {
				if last[k] != nil {
					visit(k)
					visit(last[k])
				}
			}
		}
		for _, a := range v.args {
			visit(a)
		}
	}
	visit(from)
	return hit
}

type frontPath struct {
	o      Outcome
	parses []Event // Tree and Text calls
	full   []Event // Text calls
	interp []Event // Interpret calls that return or panic
	sinks  []sink
}

type sink struct {
	v    *V
	upto int
}

func ruleFront(p *Program, r *Report) {
	interpret := p.fn("logic", "Interpret")
	pt := p.typ("ast", "Parser")
	if !r.check(interpret != nil && pt != nil, "anchor", "logic.Interpret and ast.Parser", "-", "not found") {
		return
	}
	r.assumption("a text that Parser.Tree accepts is accepted by Parser.Text too and gives a result (property C11): the server's explicit reports of the contrary are not counted as failures")
	r.assumption("net/http and the chat library call the front ends as documented; failures that Go cannot recover from (exhausted stack or memory) are outside")
	tree, text := p.method(types.NewPointer(pt), "Tree"), p.method(types.NewPointer(pt), "Text")
	for _, pkg := range []string{"server", "bot"} {
		sp := p.ssa[pkg]
		if sp == nil {
			r.bad("anchor", pkg, "-", "package not found")
			continue
		}
		funcs := p.allFuncs(pkg)
		in := func(f *ssa.Function) bool {
			g := f
			for g.Parent() != nil {
				g = g.Parent()
			}
			return g.Pkg == sp
		}
		// who reaches what, within the package
		reach := func(targets ...*ssa.Function) map[*ssa.Function]bool {
			out := map[*ssa.Function]bool{}
			for ch := true; ch; {
				ch = false
				for _, f := range funcs {
					if out[f] {
						continue
					}
					for _, g := range callees(p, f) {
						hit := in(g) && out[g]
						for _, t := range targets {
							if g == t {
								hit = true
							}
						}
						if hit {
							out[f] = true
							ch = true
							break
						}
					}
					for _, a := range f.AnonFuncs {
						if out[a] && !out[f] {
							out[f] = true
							ch = true
						}
					}
				}
			}
			return out
		}
		toInterp, toParse := reach(interpret), reach(tree, text)
		both := map[*ssa.Function]bool{}
		for _, f := range funcs {
			if toInterp[f] && toParse[f] && f.Parent() == nil {
				both[f] = true
			}
		}
		returns := func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				if len(b.Instrs) > 0 {
					if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && (len(b.Preds) > 0 || b.Index == 0) {
						return true
					}
				}
			}
			return false
		}
		// entries: the outermost functions that handle one text and return
		var entries []*ssa.Function
		for f := range both {
			if f.Name() == "main" || f.Name() == "init" || !returns(f) {
				continue
			}
			outer := false
			for g := range both {
				if g == f || g.Name() == "main" || !returns(g) {
					continue
				}
				if reaches(p, g, f) {
					outer = true
				}
			}
			if !outer {
				entries = append(entries, f)
			}
		}
		if !r.check(len(entries) > 0, "anchor", pkg+": handling of a text", "-", "no function of "+pkg+" parses and interprets a text") {
			continue
		}
		covered := map[*ssa.Function]bool{}
		for _, f := range entries {
			e := checkFront(p, r, pkg, f, in, interpret, tree, text, toInterp)
			for g := range e.funcs {
				covered[g] = true
			}
		}
		// every call of the interpreter is covered
		for _, f := range funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if c.Common().StaticCallee() == interpret {
						if covered[f] {
							r.ok("covered", fnName(f))
						} else if live(p, funcs, f) {
							r.bad("covered", fnName(f), p.pos(ins.Pos()), "calls the interpreter outside of the handling of a parsed text")
						}
					}
					if g, ok := ins.(*ssa.Go); ok {
						if t := g.Call.StaticCallee(); t != nil && toInterp[t] && covered[f] {
							r.bad("goroutine", fnName(f), p.pos(ins.Pos()), "interprets in another goroutine, where a failure ends the program")
						}
					}
					// the reply is used
					for _, en := range entries {
						if c.Common().StaticCallee() == en && en.Signature.Results().Len() > 0 {
							v, isv := ins.(ssa.Value)
							used := isv && v.Referrers() != nil && len(*v.Referrers()) > 0
							r.check(used, "reply-used", fnName(f)+" uses the reply of "+fnName(en), p.pos(ins.Pos()), "the reply is thrown away")
						}
					}
				}
			}
		}
	}
	r.atLeast("survives", 2)
	r.atLeast("syntax-error", 2)
	r.atLeast("failure-shown", 2)
	r.atLeast("result-shown", 2)
}

// live: some function of the package uses f.
func live(p *Program, funcs []*ssa.Function, f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Name() == "main" {
		return true
	}
	for _, g := range funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == f {
						return true
					}
				}
			}
		}
	}
	return false
}

// isOutput: a parameter through which a reply leaves.
func isOutput(t types.Type) bool {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.Contains(n.Obj().Pkg().Path(), "/chat") {
		return true
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Write" {
			return true
		}
	}
	return false
}

func checkFront(p *Program, r *Report, pkg string, f *ssa.Function, in func(*ssa.Function) bool, interpret, tree, text *ssa.Function, toInterp map[*ssa.Function]bool) *Eng {
	name := fnName(f)
	e := newStatics(p).eng()
	e.MaxIter = 2
	e.MaxLen = 1
	e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
		if in(g) {
			return ActDefault
		}
		if !p.inRepo(g) && isPureExternal(fnName(g)) {
			return ActPure
		}
		return ActOpaque
	}
	e.MayPanic = func(n string, g *ssa.Function) bool { return g == interpret }
	st := newState()
	var args []*V
	outs := map[*V]bool{}
	for _, q := range f.Params {
		a := vSym(q.Name(), q.Type())
		if _, ok := q.Type().Underlying().(*types.Pointer); ok {
			st.facts[eqAtom(a, vNil)] = false
		}
		if _, ok := q.Type().Underlying().(*types.Interface); ok {
			st.facts[eqAtom(a, vNil)] = false
		}
		args = append(args, a)
		if isOutput(q.Type()) {
			outs[a] = true
		}
	}
	res := e.Run(f, st, args...)
	r.analysed["functions"] += len(e.funcs)
	r.analysed["paths"] += len(res)
	if e.over {
		r.bad("undecided", name, p.pos(f.Pos()), "too many paths")
		return e
	}
	interpName, treeName, textName := fnName(interpret), fnName(tree), fnName(text)
	var paths []frontPath
	for _, o := range res {
		if o.Kind == Cut {
			continue
		}
		fp := frontPath{o: o}
		outv := map[*V]bool{}
		for a := range outs {
			outv[a] = true
		}
		viaOut := func(v *V) bool {
			ok := false
			for x := range allTermsOf(v) {
				if outv[x] {
					ok = true
				}
			}
			return ok
		}
		for i, ev := range o.St.events {
			switch ev.Kind {
			case "call", "callpanic":
				switch ev.Name {
				case treeName:
					fp.parses = append(fp.parses, ev)
				case textName:
					fp.parses = append(fp.parses, ev)
					fp.full = append(fp.full, ev)
				case interpName:
					fp.interp = append(fp.interp, ev)
				}
				hasOut := false
				for _, a := range ev.Args {
					if viaOut(a) {
						hasOut = true
					}
				}
				if hasOut && ev.Kind == "call" {
					for _, a := range ev.Args {
						fp.sinks = append(fp.sinks, sink{a, i})
					}
				}
			case "store", "mapset":
				if viaOut(ev.Args[0]) {
					fp.sinks = append(fp.sinks, sink{ev.Args[len(ev.Args)-1], i})
				}
			}
		}
		if o.Kind == Ret {
			for _, v := range o.Vals {
				fp.sinks = append(fp.sinks, sink{v, len(o.St.events)})
			}
		}
		paths = append(paths, fp)
	}
	shown := func(fp frontPath, is func(*V) bool) bool {
		for _, s := range fp.sinks {
			if holds(fp.o.St, s.v, s.upto, is) {
				return true
			}
		}
		return false
	}
	consts := func(fp frontPath) map[string]bool {
		out := map[string]bool{}
		shown(fp, func(v *V) bool {
			if s, ok := v.strVal(); ok && s != "" {
				out[s] = true
			}
			return false
		})
		return out
	}
	printed := func(v *V) bool {
		n := callName(v)
		return n == "logic.String" || n == "logic.PrettyString" || strings.HasPrefix(n, "logic.") && n != interpName
	}
	// the words that present a fragment: shown if there is no statement, never if there is one
	fragment := map[string]bool{}
	normal := map[string]bool{}
	for _, fp := range paths {
		if fp.o.Kind != Ret || len(fp.interp) != 1 || fp.interp[0].Kind != "call" {
			continue
		}
		isnil, known := fp.o.St.knownNil(fp.interp[0].Res)
		if !known {
			continue
		}
		for c := range consts(fp) {
			if isnil {
				fragment[c] = true
			} else {
				normal[c] = true
			}
		}
	}
	for c := range normal {
		delete(fragment, c)
	}
	for _, fp := range paths {
		o := fp.o
		where := p.pos(o.Pos)
		id := o.St.factString()
		if len(id) > 400 {
			id = id[:400] + "…"
		}
		// what the parser said
		var failed *V
		accepted, impossible := false, false
		undecided := false
		for _, ev := range fp.parses {
			errv := extTyped(o.St, ev.Res, 1)
			isnil, known := o.St.knownNil(errv)
			if !known {
				undecided = true
				continue
			}
			if isnil {
				accepted = true
				if t := extTyped(o.St, ev.Res, 0); t != nil {
					if n, k := o.St.knownNil(t); k && n {
						impossible = true
					}
				}
			} else if accepted {
				impossible = true
			} else {
				failed = errv
			}
		}
		if failed != nil && accepted {
			impossible = true
		}
		if impossible {
			continue
		}
		exits := ""
		sent := true // no output has failed yet
		for _, ev := range o.St.events {
			if ev.Kind == "call" && ev.Res != nil {
				for _, a := range ev.Args {
					if !isOutput2(a, outs) {
						continue
					}
					for i := 0; i < 3; i++ {
						if t := extTyped(o.St, ev.Res, i); t != vNilUnknown {
							if isnil, known := o.St.knownNil(t); known && !isnil && t.typ != nil && types.IsInterface(t.typ) {
								sent = false
							}
						}
					}
					if isnil, known := o.St.knownNil(ev.Res); known && !isnil && ev.Res.typ != nil && types.IsInterface(ev.Res.typ) {
						sent = false
					}
				}
			}
			if !sent {
				break // the channel is broken: ending is up to the front end
			}
			if ev.Kind == "call" && (ev.Name == "os.Exit" || strings.HasPrefix(ev.Name, "log.Fatal") || strings.HasPrefix(ev.Name, "log.Panic") || ev.Name == "runtime.Goexit" || ev.Name == "syscall.Exit" || ev.Name == "(*log.Logger).Fatal" || ev.Name == "(*log.Logger).Fatalf") {
				exits = ev.Name
			}
		}
		if len(fp.parses) == 0 && len(fp.interp) == 0 {
			continue
		}
		if exits != "" {
			r.bad("survives", name+" calls "+exits, where, "ends the program while handling a text, when "+id)
			continue
		}
		var pan *Event
		for i := range fp.interp {
			if fp.interp[i].Kind == "callpanic" {
				pan = &fp.interp[i]
			}
		}
		if o.Kind == Panicked {
			if pan != nil {
				r.bad("survives", name+" on a failing interpretation", where, "a failure inside the interpreter is not caught and leaves "+name)
			} else {
				r.bad("survives", name+" panics", where, "a path of "+name+" ends in a panic: "+id)
			}
			continue
		}
		if failed != nil {
			r.check(len(fp.interp) == 0, "not-interpreted", name+" on a syntax error", where, "a text that does not parse is interpreted")
			r.check(shown(fp, func(v *V) bool { return v == failed }), "syntax-error", name+" shows the syntax error", where, "the syntax error of a text that does not parse does not reach the reply")
			bad := ""
			for c := range consts(fp) {
				if fragment[c] {
					bad = c
				}
			}
			r.check(bad == "", "failure-shown", name+" on a syntax error", where, fmt.Sprintf("a syntax error is presented as %q, as a text without statements is", bad))
			continue
		}
		if len(fp.interp) == 0 {
			continue
		}
		broken := false // the answer could not be encoded: it never comes to that
		for _, ev := range o.St.events {
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, "encoding/json.") {
				if isnil, known := o.St.knownNil(extTyped(o.St, ev.Res, 1)); known && !isnil && extTyped(o.St, ev.Res, 1) != vNilUnknown {
					broken = true
				}
			}
		}
		if broken {
			continue
		}
		if undecided {
			r.bad("syntax-error", name+" ignores a syntax error", where, "interprets a text without looking at the parser's error: "+id)
			continue
		}
		// the interpreted tree is the one that was parsed
		arg := fp.interp[len(fp.interp)-1].Args[0]
		fromText := false
		for _, ev := range fp.full {
			if isExt(arg, ev.Res, 0) {
				fromText = true
			}
		}
		r.check(fromText, "interprets-text", name, where, "the interpreted tree "+arg.String()+" is not the result of Parser.Text")
		if pan != nil {
			r.ok("survives", name+" returns after a failing interpretation")
			r.check(shown(fp, func(v *V) bool { return v == pan.Res }), "failure-shown", name+" shows the failure", where, "what went wrong in the interpreter does not reach the reply")
			bad := ""
			for c := range consts(fp) {
				if fragment[c] {
					bad = c
				}
			}
			if bad == "" && shown(fp, printed) {
				bad = "an interpretation"
			}
			r.check(bad == "", "failure-as-result", name+" on a failing interpretation", where, fmt.Sprintf("a failed interpretation is presented as %q", bad))
			continue
		}
		resv := fp.interp[len(fp.interp)-1].Res
		isnil, known := o.St.knownNil(resv)
		if !known {
			r.bad("result-shown", name+" does not look at the result", where, "it is not decided whether there is an interpretation: "+id)
			continue
		}
		prints := shown(fp, func(v *V) bool { return printed(v) && len(v.args) > 0 && v.args[0] == resv })
		if isnil {
			for _, ev := range o.St.events {
				if ev.Kind == "call" && strings.HasPrefix(ev.Name, "logic.") && ev.Name != interpName && len(ev.Args) > 0 && ev.Args[0].op == ONil {
					prints = true
				}
			}
			r.check(!prints, "result-shown", name+" without a statement", where, "prints an interpretation that does not exist")
			continue
		}
		r.check(prints, "result-shown", name+" shows the interpretation", where, "the interpretation does not reach the reply: "+id)
	}
	return e
}

// isOutput2: v is one of the values through which a reply leaves.
func isOutput2(v *V, outs map[*V]bool) bool {
	for x := range allTermsOf(v) {
		if outs[x] {
			return true
		}
	}
	return false
}

// extTyped finds the interned result i of a call.
func extTyped(st *State, c *V, i int) *V {
	if v := extTerm(st, c, i); v != nil {
		return v
	}
	return vNilUnknown
}

var vNilUnknown = mk(V{op: OSym, aux: "unknown result"})
