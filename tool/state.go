package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Event struct {
	Kind string // call, store, write, hazard, append, mapset, delete, go, defer...
	Name string
	Args []*V
	Res  *V
	Pos  token.Pos
	St   *State // snapshot for resolving arguments (shared, never modified)
	Fact []string
}

type mapEnt struct{ m, k, v *V }

type State struct {
	heap      map[int64]*V // object id -> content
	otype     map[int64]types.Type
	opos      map[int64]token.Pos
	nobj      int64
	over      map[*V]*V // writes to non-fresh addresses
	maps      []mapEnt
	facts     map[*V]bool
	dyn       map[*V]types.Type
	excl      map[*V][]types.Type
	shape     map[*V]int64 // length of an opaque slice
	eqc       map[*V]*V    // value known equal to a constant
	events    []Event
	panicking *V
	recDepth  int
	seq       int
	note      []string
}

func newState() *State {
	return &State{heap: map[int64]*V{}, otype: map[int64]types.Type{}, opos: map[int64]token.Pos{}, over: map[*V]*V{},
		facts: map[*V]bool{}, dyn: map[*V]types.Type{}, excl: map[*V][]types.Type{},
		shape: map[*V]int64{}, eqc: map[*V]*V{}}
}

func (s *State) clone() *State {
	n := &State{nobj: s.nobj, seq: s.seq, panicking: s.panicking, recDepth: s.recDepth}
	n.heap = make(map[int64]*V, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.otype = make(map[int64]types.Type, len(s.otype))
	for k, v := range s.otype {
		n.otype[k] = v
	}
	n.opos = make(map[int64]token.Pos, len(s.opos))
	for k, v := range s.opos {
		n.opos[k] = v
	}
	n.over = make(map[*V]*V, len(s.over))
	for k, v := range s.over {
		n.over[k] = v
	}
	n.maps = s.maps[:len(s.maps):len(s.maps)]
	n.facts = make(map[*V]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.dyn = make(map[*V]types.Type, len(s.dyn))
	for k, v := range s.dyn {
		n.dyn[k] = v
	}
	n.excl = make(map[*V][]types.Type, len(s.excl))
	for k, v := range s.excl {
		n.excl[k] = v[:len(v):len(v)]
	}
	n.shape = make(map[*V]int64, len(s.shape))
	for k, v := range s.shape {
		n.shape[k] = v
	}
	n.eqc = make(map[*V]*V, len(s.eqc))
	for k, v := range s.eqc {
		n.eqc[k] = v
	}
	n.events = s.events[:len(s.events):len(s.events)]
	n.note = s.note[:len(s.note):len(s.note)]
	return n
}

func (s *State) factString() string {
	var ss []string
	for k, v := range s.facts {
		if v {
			ss = append(ss, k.String())
		} else {
			ss = append(ss, "!"+k.String())
		}
	}
	for k, t := range s.dyn {
		ss = append(ss, k.String()+":"+shortType(t))
	}
	for k, t := range s.shape {
		ss = append(ss, fmt.Sprintf("len(%s)=%d", k, t))
	}
	sort.Strings(ss)
	return strings.Join(ss, " && ")
}

func (s *State) newObj(t types.Type, content *V, pos token.Pos) *V {
	s.nobj++
	s.heap[s.nobj] = content
	s.otype[s.nobj] = t
	s.opos[s.nobj] = pos
	return mk(V{op: OObj, num: s.nobj, typ: t})
}

func isUnder(addr, base *V) bool {
	for {
		if addr == base {
			return true
		}
		if addr.op == OFAddr || addr.op == OIAddr {
			addr = addr.args[0]
			continue
		}
		return false
	}
}

// rootObj returns the fresh object that addr lies in.
func rootObj(addr *V) *V {
	for {
		switch addr.op {
		case OObj:
			return addr
		case OFAddr, OIAddr:
			addr = addr.args[0]
		case OSlice:
			addr = addr.args[0]
		default:
			return nil
		}
	}
}

func (s *State) load(addr *V, t types.Type) *V {
	switch addr.op {
	case OObj:
		if c, ok := s.heap[addr.num]; ok {
			return c
		}
	case OFAddr:
		if rootObj(addr.args[0]) != nil {
			return fieldOf(s.load(addr.args[0], nil), int(addr.num), addr.typ)
		}
	case OIAddr:
		if rootObj(addr.args[0]) != nil {
			base := addr.args[0]
			if i, ok := addr.args[1].intVal(); ok {
				if base.op == OSlice {
					i += base.num
					base = base.args[0]
				}
				c := s.load(base, nil)
				if c.op == OStruct && i >= 0 && int(i) < len(c.args) {
					return c.args[i]
				}
				return mk(V{op: OLookup, args: []*V{c, vInt(i)}})
			}
			return mk(V{op: OLookup, args: []*V{s.load(base, nil), addr.args[1]}})
		}
		if addr.args[0].op == OSlice {
			if i, ok := addr.args[1].intVal(); ok {
				return s.load(indexAddr(addr.args[0].args[0], vInt(i+addr.args[0].num)), t)
			}
		}
	}
	if v, ok := s.over[addr]; ok {
		return v
	}
	// a write to an enclosing location
	for a := addr; a.op == OFAddr || a.op == OIAddr; {
		p := a.args[0]
		if w, ok := s.over[p]; ok {
			// rebuild the path from p to addr
			var path []*V
			for b := addr; b != p; b = b.args[0] {
				path = append(path, b)
			}
			v := w
			for i := len(path) - 1; i >= 0; i-- {
				if path[i].op == OFAddr {
					v = fieldOf(v, int(path[i].num), path[i].typ)
				} else if n, ok := path[i].args[1].intVal(); ok && v.op == OStruct && int(n) < len(v.args) {
					v = v.args[n]
				} else {
					v = mk(V{op: OLookup, args: []*V{v, path[i].args[1]}})
				}
			}
			return v
		}
		a = p
	}
	// a write to an inner location
	if t != nil {
		if st, ok := t.Underlying().(*types.Struct); ok {
			inner := false
			for a := range s.over {
				if a != addr && isUnder(a, addr) {
					inner = true
				}
			}
			if inner {
				var fs []*V
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, s.load(fieldAddr(addr, i, t), st.Field(i).Type()))
				}
				z := zero(t)
				return mk(V{op: OStruct, typ: t, args: fs, aux: z.aux})
			}
		}
	}
	return loadOf(addr)
}

func (s *State) store(addr, v *V) bool {
	if rootObj(addr) != nil {
		return s.storeObj(addr, v)
	}
	if addr.op == OIAddr && addr.args[0].op == OSlice {
		if i, ok := addr.args[1].intVal(); ok {
			addr = indexAddr(addr.args[0].args[0], vInt(i+addr.args[0].num))
		}
	}
	for a := range s.over {
		if a != addr && isUnder(a, addr) {
			delete(s.over, a)
		}
	}
	s.over[addr] = v
	return true
}

func (s *State) storeObj(addr, v *V) bool {
	switch addr.op {
	case OObj:
		s.heap[addr.num] = v
		return true
	case OFAddr:
		c := s.load(addr.args[0], nil)
		if c.op != OStruct {
			c = s.expand(c, addr.typ)
		}
		if c.op != OStruct {
			return false
		}
		return s.storeObj(addr.args[0], withArg(c, int(addr.num), v))
	case OIAddr:
		base := addr.args[0]
		i, ok := addr.args[1].intVal()
		if base.op == OSlice {
			i += base.num
			base = base.args[0]
		}
		c := s.load(base, nil)
		if !ok || c.op != OStruct || i < 0 || int(i) >= len(c.args) {
			if c.op == OStruct {
				// unknown index: forget the contents
				as := make([]*V, len(c.args))
				for j := range as {
					as[j] = vSym(fmt.Sprintf("havoc%d.%d", s.nobj, j), nil)
				}
				n := *c
				n.args = as
				return s.storeObj(base, mk(n))
			}
			return false
		}
		return s.storeObj(base, withArg(c, int(i), v))
	}
	return false
}

// expand turns an opaque struct value into a struct of its fields.
func (s *State) expand(c *V, t types.Type) *V {
	if t == nil {
		return c
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return c
	}
	var fs []*V
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, fieldOf(c, i, t))
	}
	return mk(V{op: OStruct, typ: t, args: fs, aux: zero(t).aux})
}

// resolve replaces addresses of fresh objects by their contents.
func (s *State) resolve(v *V) *V {
	return s.resolveD(v, map[int64]bool{}, 0)
}

func (s *State) resolveD(v *V, open map[int64]bool, d int) *V {
	if d > 40 {
		return v
	}
	if v.op == OObj {
		if open[v.num] {
			return mk(V{op: OSym, aux: "↺" + shortType(v.typ)})
		}
		c, ok := s.heap[v.num]
		if !ok {
			return v
		}
		open[v.num] = true
		r := s.resolveD(c, open, d+1)
		delete(open, v.num)
		return mk(V{op: OUn, aux: "&", args: []*V{r}})
	}
	if len(v.args) == 0 {
		return v
	}
	as := make([]*V, len(v.args))
	ch := false
	for i, a := range v.args {
		as[i] = s.resolveD(a, open, d+1)
		if as[i] != a {
			ch = true
		}
	}
	if v.op == OSlice && as[0].op == OUn && as[0].aux == "&" && as[0].args[0].op == OStruct {
		el := as[0].args[0].args
		if v.num >= 0 && v.num2 <= int64(len(el)) && v.num <= v.num2 {
			return mk(V{op: OUn, aux: "[]", args: []*V{mk(V{op: OStruct, aux: "l", args: el[v.num:v.num2]})}})
		}
	}
	if !ch {
		return v
	}
	n := *v
	n.args = as
	return mk(n)
}
