package main

// C27: the answers of the front ends are about the text that was sent.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const botPrefix = ".miu"

type answerer struct {
	p         *Program
	r         *Report
	x         *spell
	interpret *ssa.Function
	visit     *ssa.Function
	parser    *ssa.Function
	tree      string
	text      string
	items     []spItem
	words     string
	ppkg      *ssa.Package
}

// ansPath is a path of a front end on which a text is handled.
type ansPath struct {
	e        *Eng
	o        Outcome
	evs      []Event
	exit     *V
	made     []Event // NewParser
	parses   []Event // Tree and Text
	interp   []Event
	failed   *V
	accepted bool
	text     *V
	tree     *V
	stmt     *V // result of the interpreter
	nilStmt  bool
	stmtOK   bool // it is known whether there is a statement
	visited  []*V
	skip     bool
}

func ruleAnswer(p *Program, r *Report) {
	a := &answerer{p: p, r: r}
	a.interpret, a.visit, a.parser = p.fn("logic", "Interpret"), p.fn("ast", "Visit"), p.fn("ast", "NewParser")
	pt := p.typ("ast", "Parser")
	if !r.check(a.interpret != nil && a.visit != nil && a.parser != nil && pt != nil, "anchor", "logic.Interpret, ast.Visit and ast.Parser", "-", "not found") {
		return
	}
	tree, text := p.method(types.NewPointer(pt), "Tree"), p.method(types.NewPointer(pt), "Text")
	if !r.check(tree != nil && text != nil, "anchor", "Tree and Text of ast.Parser", "-", "not found") {
		return
	}
	a.tree, a.text = fnName(tree), fnName(text)
	a.x = newSpell(p, nil, r)
	a.items = []spItem{{"Space", " "}, {"Word", " "}, {"", ""}, {"WordPredicate", "Jảı"}, {"Word", "Jảı"}, {"", ""}, {"Word+", "jí"}, {"Interjection", "bêi"}, {"Word", "m"}, {"", ""}, {"Word", ""}}
	for _, it := range a.items {
		if strings.HasPrefix(it.typ, "Word") && it.typ != "WordPredicate" {
			a.words += it.text
		}
	}
	r.assumption("a text that Parser.Tree accepts is accepted by Parser.Text too and gives a result (property C11)")
	r.assumption("a failing interpretation is the subject of property C18")
	r.assumption("net/http, encoding/json, fmt and the chat library do what they document; a walk of ast.Visit meets the words of the text in their order (property C04)")
	for _, pkg := range []string{"server", "bot", ""} {
		name := pkg
		if pkg == "" {
			name = "command line"
		}
		a.ppkg = p.ssa[pkg]
		for k, sp := range p.ssa {
			if pkg == "" && sp != nil && sp.Pkg.Name() == "main" && k != "server" && k != "bot" && sp.Func("main") != nil && !strings.Contains(k, "dict") {
				a.ppkg = sp
				pkg = k
			}
		}
		if !r.check(a.ppkg != nil, "anchor", name, "-", "the program is not found") {
			continue
		}
		for _, f := range a.entries(pkg, name) {
			a.front(name, f)
		}
	}
	r.atLeast("parsed", 3)
	r.atLeast("answer", 12)
	r.atLeast("page", 5)
	r.atLeast("not for the bot", 1)
}

// entries are the outermost functions that read what is sent, and parse it and interpret it.
func (a *answerer) entries(pkg, name string) []*ssa.Function {
	funcs := a.p.allFuncs(pkg)
	in := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range funcs {
			if in[f] {
				continue
			}
			parse, interp := false, false
			for _, g := range a.under(funcs, f) {
				for _, h := range callees(a.p, g) {
					parse = parse || fnName(h) == a.text || fnName(h) == a.tree
					interp = interp || h == a.interpret
				}
			}
			if parse && interp {
				in[f] = true
				ch = true
			}
		}
	}
	var out []*ssa.Function
	for f := range in {
		if f.Parent() != nil || f.Name() == "init" || f.Name() == "main" && name != "command line" {
			continue
		}
		outer := false
		for g := range in {
			if g != f && g.Name() != "main" && reaches(a.p, g, f) && !reaches(a.p, f, g) {
				outer = true
			}
		}
		if name == "command line" {
			outer = f.Name() != "main"
		}
		if !outer {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	a.r.check(len(out) > 0, "anchor", name+": handling of a text", "-", "no function reads, parses and interprets a text")
	return out
}

// under are the functions of the package that f reaches, f among them.
func (a *answerer) under(funcs []*ssa.Function, f *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		top := g
		for top.Parent() != nil {
			top = top.Parent()
		}
		if seen[g] || top.Pkg != a.ppkg {
			return
		}
		seen[g] = true
		out = append(out, g)
		for _, h := range callees(a.p, g) {
			visit(h)
		}
		for _, h := range g.AnonFuncs {
			visit(h)
		}
	}
	visit(f)
	return out
}

func (a *answerer) front(name string, f *ssa.Function) {
	p, r := a.p, a.r
	e := a.x.s.eng()
	e.MaxIter, e.MaxLen = 8, 2
	e.LenCap = func(x *V) int64 {
		if isOSArgs(x) {
			return 3
		}
		return 2
	}
	e.Policy = func(g *ssa.Function, args []*V, st *State) Action {
		top := g
		for top.Parent() != nil {
			top = top.Parent()
		}
		switch {
		case top.Pkg == a.ppkg || p.inRepo(g) && g.Name() == "Visit" && g.Signature.Recv() != nil || g.Synthetic != "":
			return ActDefault
		case !p.inRepo(g) && isPureExternal(fnName(g)):
			return ActPure
		}
		return ActOpaque
	}
	var ended []Outcome
	e.OnInvoke = func(st *State, n string, args []*V) ([]mOut, bool) {
		if n != ".Receive" {
			return nil, false
		}
		for _, ev := range st.events {
			if ev.Kind == "call" && ev.Name == n {
				// the next message
				ended = append(ended, Outcome{Kind: Ret, St: st})
				return nil, true
			}
		}
		return nil, false
	}
	visit := a.x.visiting(a.visit, a.items, func(node *V, _ []*V) {})
	e.Model = func(e *Eng, st *State, n string, fn *ssa.Function, args []*V) ([]mOut, bool) {
		if n == "os.Exit" && len(args) == 1 || strings.HasPrefix(n, "log.Fatal") {
			// the program ends here
			code := vInt(1)
			if n == "os.Exit" {
				code = args[0]
			}
			st.events = append(st.events, Event{Kind: "exit", Name: n, Args: []*V{code}})
			ended = append(ended, Outcome{Kind: Ret, St: st})
			return nil, true
		}
		if fn == a.visit && len(args) == 2 {
			st.events = append(st.events, Event{Kind: "visited", Args: []*V{args[0]}})
			return visit(e, st, n, fn, args)
		}
		if to := writesAs(n); to != "" && len(args) == 2 && isBuilder(st, args[0]) {
			v := mk(V{op: OCall, aux: to + "#w", args: []*V{args[1]}, typ: types.Typ[types.String]})
			e.builder(st, "WriteString", []*V{core(args[0]), v})
			return one(st, vNil), true
		}
		return nil, false
	}
	e.MayPanic = func(n string, g *ssa.Function) bool { return g == a.interpret && name != "command line" }
	st := newState()
	var args []*V
	for _, q := range f.Params {
		v := vSym(q.Name(), q.Type())
		st.facts[eqAtom(v, vNil)] = false
		args = append(args, v)
	}
	res := e.Run(f, st, args...)
	res = append(res, ended...)
	r.analysed["functions"] += len(e.funcs)
	r.analysed["paths"] += len(res)
	if !r.check(!e.over && len(res) > 0, "anchor", fnName(f)+" is followed", p.pos(f.Pos()), "too many paths") {
		return
	}
	for _, o := range res {
		q := a.pathOf(o)
		q.e = e
		if q.skip {
			continue
		}
		switch name {
		case "server":
			a.server(f, args, q)
		case "bot":
			a.bot(f, q)
		default:
			a.command(f, q)
		}
	}
}

// writesAs is the function that gives what n writes.
func writesAs(n string) string {
	switch n {
	case "ast.Braces":
		return "ast.BracesString"
	case "github.com/eaburns/peggy/peg.PrettyWrite":
		return "github.com/eaburns/peggy/peg.Pretty"
	case "github.com/eaburns/pretty.Print":
		return "github.com/eaburns/pretty.String"
	}
	return ""
}

func (a *answerer) pathOf(o Outcome) *ansPath {
	q := &ansPath{o: o}
	q.evs = o.St.events
	for _, ev := range q.evs {
		if ev.Kind == "exit" {
			q.exit = ev.Args[0]
		}
	}
	for _, ev := range q.evs {
		switch {
		case ev.Kind == "visited":
			q.visited = append(q.visited, strip(ev.Args[0]))
		case ev.Kind == "callpanic":
			q.interp = append(q.interp, ev)
		case ev.Kind != "call":
		case ev.Name == fnName(a.parser):
			q.made = append(q.made, ev)
		case ev.Name == a.tree || ev.Name == a.text:
			q.parses = append(q.parses, ev)
			errv := extTyped(o.St, ev.Res, 1)
			isnil, known := o.St.knownNil(errv)
			if !known {
				break
			}
			if !isnil {
				if q.accepted {
					q.skip = true // impossible
				}
				q.failed = errv
				break
			}
			if q.failed != nil {
				q.skip = true
			}
			q.accepted = true
			v := ext(ev.Res, 0)
			if t := extTyped(o.St, ev.Res, 0); t != nil {
				if n, k := o.St.knownNil(t); k && n {
					q.skip = true
				}
			}
			if ev.Name == a.text {
				q.text = v
			} else {
				q.tree = v
			}
		case ev.Name == fnName(a.interpret):
			q.interp = append(q.interp, ev)
			q.stmt = ev.Res
			q.nilStmt, q.stmtOK = o.St.knownNil(ev.Res)
		}
	}
	if q.exit == nil && q.o.Kind == Panicked {
		q.skip = true // an explicit report of what cannot be, or C18
	}
	return q
}

// lit strips what does not change a text or a node.
func lit(v *V) *V {
	for v != nil {
		switch {
		case v.op == OIface:
			v = v.args[0]
		case v.op == OConv && len(v.args) == 1 && v.args[0].typ != nil && v.typ != nil && types.Identical(v.typ.Underlying(), v.args[0].typ.Underlying()):
			v = v.args[0]
		default:
			return v
		}
	}
	return v
}

// sameRes: v is the given result of a call.
func sameRes(v, res *V) bool {
	v = lit(v)
	if v == nil || res == nil {
		return false
	}
	return v == res || res.op == OExtract && isExt(v, res.args[0], int(res.num))
}

// isCall: v is what one of the functions gives for the subject.
func isCall(v, subject *V, names ...string) bool {
	v = lit(v)
	if v == nil || v.op != OCall || len(v.args) != 1 || !sameRes(v.args[0], subject) {
		return false
	}
	for _, n := range names {
		if callName(v) == n {
			return true
		}
	}
	return false
}

func (a *answerer) isBraces(v *V, q *ansPath) bool { return isCall(v, q.text, "ast.BracesString") }
func (a *answerer) isAST(v *V, q *ansPath) bool {
	return isCall(v, q.text, "github.com/eaburns/pretty.String")
}
func (a *answerer) isParse(v *V, q *ansPath) bool {
	return isCall(v, q.tree, "github.com/eaburns/peggy/peg.Pretty")
}
func (a *answerer) isLogic(v *V, q *ansPath) bool {
	return isCall(v, q.stmt, "logic.PrettyString", "logic.String")
}

// isWords: v is the words of the text in their order.
func (a *answerer) isWords(v *V, q *ansPath) bool {
	if s, ok := lit(v).strVal(); !ok || s != a.words || len(q.visited) == 0 {
		return false
	}
	for _, n := range q.visited {
		if !sameRes(n, q.text) {
			return false
		}
	}
	return true
}

// isError: v describes the error.
func isError(v, failed *V) bool {
	v = lit(v)
	if v == nil || v.op != OCall || len(v.args) == 0 {
		return v == failed && v != nil
	}
	n := callName(v)
	return strings.HasSuffix(n, ".Error") && lit(v.args[0]) == failed
}

// pieces are the texts that v is put together from.
func pieces(st *State, v *V) []*V {
	v = lit(v)
	if v == nil {
		return nil
	}
	if v.op == OConcat {
		var out []*V
		for _, x := range v.args {
			out = append(out, pieces(st, x)...)
		}
		return out
	}
	if v.op == OCall {
		n := callName(v)
		if n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Sprintln" {
			as := append([]*V{vNil}, v.args...)
			if _, texts, ok, known := writeTexts(st, Event{Kind: "call", Name: "fmt.Fp" + n[len("fmt.Sp"):], Args: as}); ok && known {
				var out []*V
				for _, x := range texts {
					out = append(out, pieces(st, x)...)
				}
				return out
			}
		}
	}
	return []*V{v}
}

// fromSent: the parser's results are about the expected input.
func (a *answerer) fromSent(name string, q *ansPath, where string, want func(v *V) string) {
	for _, m := range q.made {
		bad := want(m.Args[0])
		a.r.check(bad == "", "parsed", name+" parses what is sent", where, bad+": it parses "+trunc(m.Args[0].String(), 300))
	}
	a.unchanged(name, q, where)
	for _, ev := range q.parses {
		ok := false
		for _, m := range q.made {
			if len(ev.Args) > 0 && lit(ev.Args[0]) == m.Res {
				ok = true
			}
		}
		a.r.check(ok, "parsed", name+" uses the parser of the text", where, "it asks another parser than the one made for the text: "+trunc(ev.Args[0].String(), 200))
	}
	for _, ev := range q.interp {
		a.r.check(q.text != nil && len(ev.Args) == 1 && sameRes(ev.Args[0], q.text), "parsed", name+" interprets the text", where, "it interprets "+trunc(ev.Args[0].String(), 200))
	}
}

// unchanged: the text is only read while it is handled.
func (a *answerer) unchanged(name string, q *ansPath, where string) {
	for _, ev := range q.evs {
		if ev.Kind != "call" {
			continue
		}
		for i, x := range ev.Args {
			if !sameRes(x, q.text) && !sameRes(x, q.tree) {
				continue
			}
			f := a.byName(ev.Name)
			if f == nil || f == a.interpret || writesAs(ev.Name) != "" {
				continue // of a library, or the subject of C06
			}
			w := a.writes(f, map[*ssa.Function]bool{})
			a.r.check(w == "", "parsed", name+" keeps the text", where, fmt.Sprintf("%s (argument %d) changes the text that is answered: %s", ev.Name, i, w))
		}
	}
}

func (a *answerer) byName(n string) *ssa.Function {
	for _, f := range a.p.allFuncs("ast") {
		if fnName(f) == n {
			return f
		}
	}
	return nil
}

// writes tells where f writes to a node of the syntax tree that it did not make.
func (a *answerer) writes(f *ssa.Function, seen map[*ssa.Function]bool) string {
	if f == nil || seen[f] || f.Pkg == nil && f.Parent() == nil && f.Synthetic == "" {
		return ""
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			if _, mine := fa.X.(*ssa.Alloc); mine {
				continue
			}
			if n := namedOf(fa.X.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/ast") {
				return a.p.pos(ins.Pos())
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if w := a.writes(g, seen); w != "" {
			return w
		}
	}
	for _, g := range callees(a.p, f) {
		if a.p.inRepo(g) {
			if w := a.writes(g, seen); w != "" {
				return w
			}
		}
	}
	return ""
}

// reply is the answer that is encoded: its named parts.
func (a *answerer) reply(q *ansPath) (map[string]*V, bool) {
	st := q.o.St
	for i := len(q.evs) - 1; i >= 0; i-- {
		ev := q.evs[i]
		if ev.Kind != "call" || !strings.Contains(ev.Name, "encoding/json.") || len(ev.Args) == 0 {
			continue
		}
		if !strings.HasSuffix(ev.Name, ").Encode") && !a.written(q, i, ev.Res) {
			continue
		}
		for _, arg := range ev.Args {
			v := lit(arg)
			out := map[string]*V{}
			var sv *V
			var T types.Type
			switch v.op {
			case OMap:
				for _, e := range q.evs[:i] {
					switch {
					case e.Kind == "mapset" && e.Args[0] == v:
						k, ok := e.Args[1].strVal()
						if !ok {
							return nil, false
						}
						out[k] = e.Args[2]
					case e.Kind == "mapdelete" && e.Args[0] == v:
						if k, ok := e.Args[1].strVal(); ok {
							delete(out, k)
						}
					}
				}
				return out, true
			case OObj:
				sv, T = st.heap[v.num], st.otype[v.num]
			case OStruct:
				sv, T = v, v.typ
				if arg.op == OIface {
					T = arg.typ
				}
			}
			if sv == nil || T == nil || sv.op != OStruct {
				continue
			}
			su, ok := T.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for k := 0; k < su.NumFields(); k++ {
				if !su.Field(k).Exported() || k >= len(sv.args) {
					continue
				}
				n := su.Field(k).Name()
				tag := strings.Split(reflect.StructTag(su.Tag(k)).Get("json"), ",")
				if tag[0] == "-" {
					continue
				}
				if tag[0] != "" {
					n = tag[0]
				}
				val := sv.args[k]
				s, isc := val.strVal()
				if (isc && s == "" || val == vNil) && len(tag) > 1 && tag[1] == "omitempty" {
					continue
				}
				out[n] = val
			}
			return out, true
		}
	}
	return nil, false
}

// written: the bytes of the encoded answer are all written to something that is given.
func (a *answerer) written(q *ansPath, from int, res *V) bool {
	is := func(v *V) bool { return v != nil && isExt(lit(v), res, 0) }
	for _, ev := range q.evs[from:] {
		if ev.Kind != "call" || len(ev.Args) < 2 {
			continue
		}
		for _, x := range ev.Args[1:] {
			x = lit(x)
			if is(x) || x.op == OCall && callName(x) == "append" && is(x.args[0]) || x.op == OConv && is(x.args[0]) {
				return true
			}
			if es, ok := sliceElems(q.o.St, x, nil); ok && ev.Name != "" {
				for _, y := range es {
					y = lit(y)
					if is(y) || y.op == OConv && is(y.args[0]) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (a *answerer) server(f *ssa.Function, args []*V, q *ansPath) {
	r, st := a.r, q.o.St
	where := a.p.pos(f.Pos())
	if len(q.made) == 0 {
		return
	}
	a.fromSent("server", q, where, func(v *V) string {
		if v.op == OConv && len(v.args) == 1 {
			v = v.args[0]
		}
		if v.op == OExtract && v.num == 0 && (callName(v.args[0]) == "io/ioutil.ReadAll" || callName(v.args[0]) == "io.ReadAll") {
			b := lit(v.args[0].args[0])
			if b.op == OLoad {
				b = b.args[0]
			}
			if (b.op == OField || b.op == OFAddr) && isReqBody(a.p, b, args) {
				if isnil, known := st.knownNil(extTyped(st, v.args[0], 1)); !known || !isnil {
					return "what is read is parsed although reading failed"
				}
				return ""
			}
		}
		return "it is not the whole body of the request as it is"
	})
	if !q.accepted && q.failed == nil {
		return
	}
	// a failing encoder is answered with an error status
	status, encoded := "", true
	for _, ev := range q.evs {
		if ev.Kind != "call" {
			continue
		}
		if strings.Contains(ev.Name, "encoding/json.") {
			t := ev.Res
			for _, c := range []*V{t, extTyped(st, t, 1)} {
				if isnil, known := st.knownNil(c); known && !isnil && c.op != ONil && (c.op == OExtract || strings.HasSuffix(ev.Name, ").Encode")) {
					encoded = false
				}
			}
		}
		if ev.Name == "net/http.Error" || ev.Name == "net/http.NotFound" || ev.Name == "net/http.Redirect" {
			status = ev.Name
		}
		if strings.HasSuffix(ev.Name, ".WriteHeader") && len(ev.Args) == 2 {
			if n, ok := ev.Args[1].intVal(); !ok || n != 200 {
				status = ev.Name
			}
		}
	}
	if !encoded {
		return
	}
	r.check(status == "", "answer", "server: status", where, "a handled text is answered with an error by "+status)
	rep, ok := a.reply(q)
	if !r.check(ok, "answer", "server: reply", where, "the reply to a text is not found") {
		return
	}
	if q.failed != nil {
		v := rep["Error"]
		r.check(v != nil && isError(v, q.failed), "answer", "server: Error", where, fmt.Sprintf("the reply to a text that does not parse has %s as its Error", show(v)))
		return
	}
	r.check(rep["Error"] == nil, "answer", "server: no Error", where, "the reply to a text that does parse has an Error")
	need := []string{"Braces", "AST", "Text", "Parse", "Logic"}
	for _, k := range need {
		v := rep[k]
		good := false
		switch k {
		case "Braces":
			good = v != nil && a.isBraces(v, q)
		case "AST":
			good = v != nil && a.isAST(v, q)
		case "Text":
			good = v != nil && a.isWords(v, q)
		case "Parse":
			good = v != nil && a.isParse(v, q)
		case "Logic":
			switch {
			case q.stmt == nil || !q.stmtOK:
				good = v != nil // a failed interpretation
			case q.nilStmt:
				good = isLabel(v)
			default:
				good = v != nil && a.isLogic(v, q)
			}
		}
		r.check(good, "answer", "server: "+k, where, fmt.Sprintf("the part %s of the reply is %s", k, show(v)))
	}
	// the parts that the page shows
	for _, k := range a.pageParts(where) {
		r.check(rep[k] != nil || k == "Error", "page", "the page's "+k, where, "the page shows a part "+k+" that the reply does not have")
	}
}

func show(v *V) string {
	if v == nil {
		return "missing"
	}
	return trunc(v.String(), 300)
}

// isLabel: some fixed words.
func isLabel(v *V) bool {
	if v == nil {
		return false
	}
	s, ok := lit(v).strVal()
	return ok && strings.TrimSpace(s) != ""
}

// isReqBody: the body of the request that is handled.
func isReqBody(p *Program, v *V, args []*V) bool {
	if len(v.args) != 1 {
		return false
	}
	base := v.args[0]
	if base.op == OLoad {
		base = base.args[0]
	}
	is := false
	for _, x := range args {
		if x == base {
			is = true
		}
	}
	if !is || base.typ == nil {
		return false
	}
	n := namedOf(base.typ)
	if n == nil || n.Obj().Name() != "Request" {
		return false
	}
	return strings.HasSuffix(v.String(), ".Body")
}

var pagePart = regexp.MustCompile(`\bresp\.([A-Za-z_]\w*)`)

// pageParts are the parts of a reply that the page reads.
func (a *answerer) pageParts(where string) []string {
	b, err := os.ReadFile(filepath.Join(a.p.dir, "server", "template"))
	if err != nil {
		return nil
	}
	seen := map[string]bool{}
	var out []string
	for _, m := range pagePart.FindAllStringSubmatch(string(b), -1) {
		if !seen[m[1]] {
			seen[m[1]] = true
			out = append(out, m[1])
		}
	}
	return out
}

// bot: messages that begin with the prefix are answered, and no others.
func (a *answerer) bot(f *ssa.Function, q *ansPath) {
	r, st := a.r, q.o.St
	where := a.p.pos(f.Pos())
	var recv *Event
	var says []Event
	for i, ev := range q.evs {
		if ev.Kind != "call" {
			continue
		}
		if strings.HasSuffix(ev.Name, ".Receive") && recv == nil {
			recv = &q.evs[i]
		}
		if strings.HasSuffix(ev.Name, "chat.Say") || strings.HasSuffix(ev.Name, ".Send") || strings.HasSuffix(ev.Name, ".ReplyTo") {
			says = append(says, ev)
		}
	}
	if recv == nil {
		r.check(len(q.made) == 0 && len(says) == 0, "parsed", "bot reads a message", where, "it answers before a message is there")
		return
	}
	// what the message says
	isText := func(v *V) bool {
		v = lit(v)
		if v.op != OField || !strings.HasSuffix(v.String(), ".Text") || len(v.args) != 1 {
			return false
		}
		x := v.args[0]
		return x.op == OAs && isExt(x.args[0], recv.Res, 0)
	}
	// facts about the message
	isMsg, bridge, noBridge, dead := false, false, false, false
	for v, t := range st.dyn {
		if isExt(v, recv.Res, 0) && namedOf(t) != nil && namedOf(t).Obj().Name() == "Message" {
			isMsg = true
		}
	}
	var pre []*V // texts that are known to begin with the prefix
	noPre := false
	sep := 0 // 1: it has a separator; -1: it has none
	for c, val := range st.facts {
		s := c.String()
		switch {
		case strings.HasPrefix(s, "strings.HasPrefix(") && strings.Contains(s, `"Toaq Telegram"`):
			dead = dead || val
		case strings.Contains(s, `.From.Nick == "ToaqBridgeBot"`):
			bridge, noBridge = val, !val
		case c.op == OBin && strings.HasSuffix(s, ".From)") && strings.HasPrefix(s, "(nil ==") && val:
			noBridge = true
		case c.op == OCall && (callName(c) == "strings.HasPrefix") && len(c.args) == 2:
			if w, ok := c.args[1].strVal(); ok && w == botPrefix {
				if val {
					pre = append(pre, lit(c.args[0]))
				} else {
					noPre = true
				}
			}
		case c.op == OExtract && c.num == 1 && callName(c.args[0]) == "strings.CutPrefix":
			if w, ok := c.args[0].args[1].strVal(); ok && w == botPrefix {
				if val {
					pre = append(pre, lit(c.args[0].args[0]))
				} else {
					noPre = true
				}
			}
		}
		walkTerm(c, func(t *V) bool {
			known, has := false, false
			switch {
			case t.op == OExtract && t.num == 2 && callName(t.args[0]) == "strings.Cut":
				if isText(t.args[0].args[0]) && t.args[0].args[1] == vStr(": ") {
					has, known = q.holds(t)
				}
			case t.op == OCall && len(t.args) == 2 && isText(t.args[0]) && t.args[1] == vStr(": "):
				switch callName(t) {
				case "strings.Contains":
					has, known = q.holds(t)
				case "strings.Index":
					if has, known = q.holds(q.e.binop(st, token.LSS, t, vInt(0), types.Typ[types.Bool])); known {
						has = !has
					} else if has, known = q.holds(eqAtom(t, vInt(-1))); known {
						has = !has
					}
				}
			}
			if known {
				sep = -1
				if has {
					sep = 1
				}
			}
			return true
		}, map[*V]bool{})
	}
	if bridge && dead {
		return // the name cannot be both
	}
	if isMsg && !bridge && !noBridge && q.exit == nil {
		r.bad("parsed", "bot looks at who sends", where, "the name that a bridge puts before a message is not taken off: "+trunc(st.factString(), 400))
		return
	}
	split := splitLen(st)
	if split != 0 {
		sep = split
	}
	// the message without the name that a bridge puts before it
	isBase := func(v *V) bool {
		v = lit(v)
		if !bridge || sep < 0 {
			return isText(v)
		}
		return a.afterName(v, isText)
	}
	for _, ev := range says {
		ok := false
		for _, x := range ev.Args {
			for _, y := range recv.Args {
				if lit(x) == lit(y) && types.IsInterface(y.typ) && namedOf(y.typ) != nil && namedOf(y.typ).Obj().Name() == "Channel" {
					ok = true
				}
			}
		}
		r.check(ok, "answer", "bot: channel", where, "the answer is not given where the message was")
	}
	mine := false
	for _, v := range pre {
		if isBase(v) {
			mine = true
		}
	}
	if !mine {
		r.check(len(says) == 0 && len(q.made) == 0, "not for the bot", "a message without the prefix", where, "a message that does not begin with "+botPrefix+" is parsed or answered: "+trunc(st.factString(), 400))
		if isMsg && !noPre && q.exit == nil {
			r.bad("parsed", "bot looks at the message", where, "a message is not looked at: "+trunc(st.factString(), 400))
		}
		return
	}
	if len(q.made) == 0 && q.exit != nil {
		r.bad("parsed", "bot ends", where, "the bot ends instead of parsing a text")
		return
	}
	a.fromSent("bot", q, where, func(v *V) string {
		v = lit(v)
		for v.op == OCall && callName(v) == "strings.TrimSpace" {
			v = lit(v.args[0])
		}
		switch {
		case v.op == OCall && callName(v) == "strings.TrimPrefix" && len(v.args) == 2:
			if w, ok := v.args[1].strVal(); ok && w == botPrefix && isBase(v.args[0]) {
				return ""
			}
		case v.op == OExtract && v.num == 0 && callName(v.args[0]) == "strings.CutPrefix":
			if w, ok := v.args[0].args[1].strVal(); ok && w == botPrefix && isBase(v.args[0].args[0]) {
				return ""
			}
		case v.op == OSub && len(v.args) == 3 && isBase(v.args[0]):
			if n, ok := v.args[1].intVal(); ok && n == int64(len(botPrefix)) && (v.args[2] == vNil || v.args[2].op == OLen && v.args[2].args[0] == v.args[0]) {
				return ""
			}
		}
		return "it is not what follows the prefix in the message"
	})
	if !q.accepted && q.failed == nil {
		r.bad("answer", "bot looks at the parser's answer", where, "a message with the prefix is not parsed: "+trunc(st.factString(), 400))
		return
	}
	if !r.check(len(says) == 1, "answer", "bot: one answer", where, fmt.Sprintf("a message with the prefix gets %d answers", len(says))) {
		return
	}
	said := says[0].Args[len(says[0].Args)-1]
	if strings.HasSuffix(says[0].Name, ".Send") {
		for _, x := range says[0].Args {
			if s := lit(x); s.op == OStruct {
				said = s.args[fieldIndex(x.typ, "Text")]
			}
		}
	}
	var rest []*V
	for _, x := range pieces(st, said) {
		if _, ok := x.strVal(); !ok {
			rest = append(rest, x)
		}
	}
	txt := trunc(said.String(), 300)
	if q.failed != nil {
		r.check(len(rest) == 1 && isError(rest[0], q.failed), "answer", "bot: syntax error", where, "the answer to a text that does not parse is "+txt)
		return
	}
	// the bracketed form, unless it is empty
	if len(rest) > 0 && a.isBraces(rest[0], q) {
		rest = rest[1:]
	} else {
		empty := false
		for _, ev := range q.evs {
			if ev.Kind == "call" && a.isBraces(ev.Res, q) {
				n := mk(V{op: OLen, args: []*V{ev.Res}})
				for _, c := range []*V{eqAtom(ev.Res, vStr("")), eqAtom(n, vInt(0)), q.e.binop(st, token.LEQ, n, vInt(0), types.Typ[types.Int])} {
					if b, ok := q.holds(c); ok && b {
						empty = true
					}
				}
			}
		}
		r.check(empty, "answer", "bot: bracketed form", where, "the answer does not begin with the bracketed form of the text: "+txt)
	}
	switch {
	case q.stmt == nil || !q.stmtOK: // a failed interpretation
	case q.nilStmt:
		r.check(len(rest) == 0, "answer", "bot: fragment", where, "the answer to a text without a statement is "+txt)
	default:
		r.check(len(rest) == 1 && a.isLogic(rest[0], q), "answer", "bot: interpretation", where, "the answer is "+txt)
	}
}

// splitLen tells whether the message has a separator by what is known of the number of its parts.
func splitLen(st *State) int {
	for t, n := range st.shape {
		if t.op == OCall && (callName(t) == "strings.SplitN" || callName(t) == "strings.Split") {
			if n >= 2 {
				return 1
			}
			return -1
		}
	}
	return 0
}

// afterName: v is what follows the first separator.
func (a *answerer) afterName(v *V, isText func(*V) bool) bool {
	v = lit(v)
	is := func(x *V, s string) bool { w, ok := x.strVal(); return ok && w == s }
	switch {
	case v.op == OLoad && v.args[0].op == OIAddr:
		v = v.args[0]
		fallthrough
	case v.op == OIAddr || v.op == OLookup:
		if len(v.args) != 2 {
			return false
		}
		n, ok := v.args[1].intVal()
		c := v.args[0]
		return ok && n == 1 && c.op == OCall && callName(c) == "strings.SplitN" && isText(c.args[0]) && is(c.args[1], ": ") && c.args[2] == vInt(2)
	case v.op == OExtract && v.num == 1 && callName(v.args[0]) == "strings.Cut":
		c := v.args[0]
		return isText(c.args[0]) && is(c.args[1], ": ")
	case v.op == OSub && isText(v.args[0]):
		cst, lin := linear(v.args[1])
		if cst != 2 || len(lin) != 1 {
			return false
		}
		for t, k := range lin {
			if k == 1 && t.op == OCall && callName(t) == "strings.Index" && isText(t.args[0]) && is(t.args[1], ": ") {
				return true
			}
		}
	}
	return false
}

// command: the program that reads a file or its standard input.
func (a *answerer) command(f *ssa.Function, q *ansPath) {
	r, st := a.r, q.o.St
	where := a.p.pos(f.Pos())
	nonzero := func() bool {
		if q.exit == nil {
			return false
		}
		n, ok := q.exit.intVal()
		return ok && n != 0
	}
	// opening and reading
	var opened, read *Event
	for i, ev := range q.evs {
		if ev.Kind != "call" {
			continue
		}
		switch ev.Name {
		case "os.Open":
			opened = &q.evs[i]
		case "io/ioutil.ReadAll", "io.ReadAll", "os.ReadFile", "io/ioutil.ReadFile":
			read = &q.evs[i]
		}
	}
	for _, ev := range []*Event{opened, read} {
		if ev == nil {
			continue
		}
		if isnil, known := st.knownNil(extTyped(st, ev.Res, 1)); !known || !isnil {
			r.check(known && nonzero() && len(q.made) == 0, "answer", "command line: "+ev.Name+" fails", where, "the program does not end with a failure when the text cannot be read")
			return
		}
	}
	if len(q.made) == 0 {
		r.bad("parsed", "command line parses", where, "no text is parsed: "+trunc(st.factString(), 300))
		return
	}
	given := false
	for t, n := range st.shape {
		if n > 1 && isOSArgs(t) {
			given = true
		}
	}
	isArg := func(v *V) bool {
		s := lit(v).String()
		return strings.Contains(s, "os.Args") && strings.HasSuffix(s, "[1]")
	}
	a.fromSent("command line", q, where, func(v *V) string {
		if v.op == OConv && len(v.args) == 1 {
			v = v.args[0]
		}
		if read == nil || !isExt(v, read.Res, 0) {
			return "it is not all that is read"
		}
		src := lit(read.Args[0])
		switch {
		case strings.HasSuffix(read.Name, "ReadFile"):
			if !given || !isArg(src) {
				return "it reads another file"
			}
		case opened != nil:
			if !isExt(src, opened.Res, 0) || !isArg(opened.Args[0]) || !given {
				return "it reads another file"
			}
		default:
			if given || !strings.HasSuffix(src.String(), "os.Stdin") {
				return "it does not read its standard input"
			}
		}
		return ""
	})
	// what is printed
	var printed []*V
	for _, ev := range q.evs {
		if ev.Kind != "call" {
			continue
		}
		as := ev.Args
		n := ev.Name
		switch {
		case strings.HasPrefix(n, "fmt.Print"):
			n = "fmt.Fp" + n[len("fmt.P"):]
			as = append([]*V{vNil}, as...)
		case writesAs(n) != "" && len(as) == 2:
			printed = append(printed, mk(V{op: OCall, aux: writesAs(n) + "#w", args: []*V{as[1]}, typ: types.Typ[types.String]}))
			continue
		}
		if _, texts, ok, known := writeTexts(st, Event{Kind: "call", Name: n, Args: as}); ok && known {
			for _, t := range texts {
				printed = append(printed, pieces(st, t)...)
			}
		}
	}
	has := func(is func(v *V) bool) bool {
		for _, v := range printed {
			if is(v) {
				return true
			}
		}
		return false
	}
	if q.failed != nil {
		r.check(nonzero(), "answer", "command line: status", where, "the program does not end with a failure for a text that does not parse")
		r.check(has(func(v *V) bool { return isError(v, q.failed) }), "answer", "command line: syntax error", where, "the syntax error is not printed")
		r.check(len(q.interp) == 0, "answer", "command line: not interpreted", where, "a text that does not parse is interpreted")
		return
	}
	if !q.accepted {
		return
	}
	r.check(!nonzero(), "answer", "command line: status", where, "the program ends with a failure for a text that does parse")
	r.check(has(func(v *V) bool { return a.isBraces(v, q) }), "answer", "command line: bracketed form", where, "the bracketed form of the text is not printed")
	r.check(has(func(v *V) bool { return a.isAST(v, q) }), "answer", "command line: syntax tree", where, "the syntax tree of the text is not printed")
	r.check(has(func(v *V) bool { return a.isParse(v, q) }), "answer", "command line: parse tree", where, "the parse tree of the text is not printed")
	words := false
	for _, v := range printed {
		// beside the line's end
		if s, ok := v.strVal(); ok && a.isWords(vStr(strings.TrimSuffix(s, "\n")), q) {
			words = true
		}
	}
	r.check(words, "answer", "command line: words", where, "the words of the text are not printed")
	switch {
	case q.stmt == nil || !q.stmtOK:
		r.bad("answer", "command line: interpretation", where, "it is not looked at whether the text has an interpretation")
	case !q.nilStmt:
		r.check(has(func(v *V) bool { return a.isLogic(v, q) }), "answer", "command line: interpretation", where, "the interpretation of the text is not printed")
	default:
		r.check(!has(func(v *V) bool { return a.isLogic(v, q) }), "answer", "command line: fragment", where, "an interpretation that does not exist is printed")
	}
}

func isOSArgs(v *V) bool {
	return v.op == OLoad && v.args[0].op == OGlobal && strings.HasSuffix(v.String(), "os.Args")
}

// holds tells whether a condition is known to be true or false on the path.
func (q *ansPath) holds(c *V) (val, known bool) {
	if b, ok := c.boolVal(); ok {
		return b, true
	}
	if c.op == OUn && c.aux == "!" {
		b, ok := q.holds(c.args[0])
		return !b, ok
	}
	return q.e.decide(q.o.St, c)
}
