package main

// Difference bounds (the zone domain): facts of a path as x - y <= c.

type zone struct {
	edges map[*V]map[*V]int64 // edges[y][x] = c: x - y <= c
}

var vZero = vInt(0)

// split writes a linear term as x - y + c; ok is false if it has another form.
func split(v *V) (x, y *V, c int64, ok bool) {
	c, m := linear(v)
	x, y = vZero, vZero
	for t, k := range m {
		switch {
		case k == 1 && x == vZero:
			x = t
		case k == -1 && y == vZero:
			y = t
		case k == 0:
		default:
			return nil, nil, 0, false
		}
	}
	return x, y, c, true
}

func (z *zone) add(x, y *V, c int64) {
	m := z.edges[y]
	if m == nil {
		m = map[*V]int64{}
		z.edges[y] = m
	}
	if o, ok := m[x]; !ok || c < o {
		m[x] = c
	}
}

// le adds a - b <= c.
func (z *zone) le(a, b *V, c int64) {
	if x, y, k, ok := split(addInts(a, b, -1)); ok {
		z.add(x, y, c-k)
	}
}

func (st *State) zone() *zone {
	z := &zone{edges: map[*V]map[*V]int64{}}
	for f, b := range st.facts {
		if f.op != OBin {
			continue
		}
		x, y := f.args[0], f.args[1]
		if f.aux == "<" {
			if b {
				z.le(x, y, -1)
			} else {
				z.le(y, x, 0)
			}
		}
		if f.aux == "==" && b && x.op != ONil && y.op != ONil && !isStrConst(x) && !isStrConst(y) {
			z.le(x, y, 0)
			z.le(y, x, 0)
		}
	}
	for v, c := range st.eqc {
		if _, ok := c.intVal(); ok {
			z.le(v, c, 0)
			z.le(c, v, 0)
		}
	}
	for _, m := range z.edges {
		for x := range m {
			if x.op == OLen {
				z.le(vZero, x, 0)
			}
		}
	}
	for y := range z.edges {
		if y.op == OLen {
			z.le(vZero, y, 0)
		}
	}
	return z
}

func isStrConst(v *V) bool { _, ok := v.strVal(); return ok }

// entails: a - b <= c on every state with the facts.
func (z *zone) entails(a, b *V, c int64) bool {
	x, y, k, ok := split(addInts(a, b, -1))
	if !ok {
		return false
	}
	if x == y {
		return k <= c
	}
	// shortest path from y to x
	dist := map[*V]int64{y: 0}
	for i := 0; i < 64; i++ {
		ch := false
		for u, du := range dist {
			for v, w := range z.edges[u] {
				if d, ok := dist[v]; !ok || du+w < d {
					dist[v] = du + w
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[x]
	return ok && d+k <= c
}
