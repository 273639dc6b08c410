package main

// Canonical forms of conditions over a single byte. Nested tables and merged function results give
// terms with thousands of nodes over one 8-bit variable; such a condition is just a set of byte
// values, and is rewritten into a disjunction of ranges before it reaches the solver.

type byteTable [256]uint64

type ttKey struct {
	v  uint32
	tt [4]uint64
}

// byteVar returns the variable if t depends on exactly one variable of at most 8 bits.
func (c *Ctx) byteVar(t *Term) *Term {
	if len(t.vars) != 1 {
		return nil
	}
	v := c.vars[t.vars[0]]
	if v.w == 0 || v.w > 8 {
		return nil
	}
	return v
}

// tabulate evaluates t for every value of its single byte variable.
func (c *Ctx) tabulate(t *Term, n int, memo map[uint32]*byteTable) *byteTable {
	if r := memo[t.id]; r != nil {
		return r
	}
	r := new(byteTable)
	switch t.op {
	case OpConst:
		for i := 0; i < n; i++ {
			r[i] = t.val
		}
	case OpVar:
		for i := 0; i < n; i++ {
			r[i] = uint64(i)
		}
	default:
		var a, b, d *byteTable
		if t.a != nil {
			a = c.tabulate(t.a, n, memo)
		}
		if t.b != nil {
			b = c.tabulate(t.b, n, memo)
		}
		if t.c != nil {
			d = c.tabulate(t.c, n, memo)
		}
		switch t.op {
		case OpNot:
			for i := 0; i < n; i++ {
				r[i] = 1 - a[i]
			}
		case OpAnd:
			for i := 0; i < n; i++ {
				r[i] = a[i] & b[i]
			}
		case OpOr:
			for i := 0; i < n; i++ {
				r[i] = a[i] | b[i]
			}
		case OpIte:
			for i := 0; i < n; i++ {
				if a[i] == 1 {
					r[i] = b[i]
				} else {
					r[i] = d[i]
				}
			}
		case OpEq:
			for i := 0; i < n; i++ {
				r[i] = b2u(a[i] == b[i])
			}
		case OpUlt:
			for i := 0; i < n; i++ {
				r[i] = b2u(a[i] < b[i])
			}
		case OpSlt:
			for i := 0; i < n; i++ {
				r[i] = b2u(sx(a[i], t.a.w) < sx(b[i], t.b.w))
			}
		case OpBNot:
			for i := 0; i < n; i++ {
				r[i] = ^a[i] & mask(t.w)
			}
		case OpNeg:
			for i := 0; i < n; i++ {
				r[i] = -a[i] & mask(t.w)
			}
		case OpZext:
			*r = *a
		case OpSext:
			for i := 0; i < n; i++ {
				r[i] = uint64(sx(a[i], t.a.w)) & mask(t.w)
			}
		case OpExtract:
			for i := 0; i < n; i++ {
				r[i] = (a[i] >> t.val) & mask(t.w)
			}
		default:
			for i := 0; i < n; i++ {
				v, ok := evalBin(t.op, t.w, a[i], b[i])
				if !ok {
					if t.op == OpSdiv {
						v = mask(t.w)
						if sx(a[i], t.w) < 0 {
							v = 1
						}
					} else {
						v = a[i]
					}
				}
				r[i] = v
			}
		}
	}
	memo[t.id] = r
	return r
}

// nodes counts the distinct nodes of t, giving up at max.
func (c *Ctx) nodes(t *Term, max int) int {
	seen := map[uint32]bool{}
	var walk func(*Term) bool
	walk = func(t *Term) bool {
		if t == nil || seen[t.id] {
			return true
		}
		seen[t.id] = true
		if len(seen) > max {
			return false
		}
		return walk(t.a) && walk(t.b) && walk(t.c)
	}
	walk(t)
	return len(seen)
}

// inSet is the condition that v is one of the values of k.
func (c *Ctx) inSet(v *Term, k ttKey) *Term {
	if r := c.canonTT[k]; r != nil {
		return r
	}
	n := 1 << v.w
	in := func(i int) bool { return k.tt[i/64]>>(i%64)&1 == 1 }
	r := c.False
	for i := 0; i < n; i++ {
		if !in(i) {
			continue
		}
		j := i
		for j+1 < n && in(j+1) {
			j++
		}
		var x *Term
		if i == j {
			x = c.Eq(v, c.K(v.w, uint64(i)))
		} else {
			x = c.True
			if i > 0 {
				x = c.Ule(c.K(v.w, uint64(i)), v)
			}
			if j < n-1 {
				x = c.And(x, c.Ule(v, c.K(v.w, uint64(j))))
			}
		}
		r = c.Or(r, x)
		i = j
	}
	c.canonTT[k] = r
	return r
}

// canonPair does the same for big conditions over two bytes: for each value of the first, the set
// of values of the second. It gives up when that has no simple structure.
func (c *Ctx) canonPair(t *Term) *Term {
	if len(t.vars) != 2 {
		return nil
	}
	v1, v2 := c.vars[t.vars[0]], c.vars[t.vars[1]]
	if v1.w != 8 || v2.w != 8 || c.nodes(t, 400) <= 400 {
		return nil
	}
	rows := map[[4]uint64]*ttKey{}
	var order [][4]uint64
	for x := 0; x < 256; x++ {
		memo := map[uint32]*byteTable{}
		fixed := new(byteTable)
		for i := range fixed {
			fixed[i] = uint64(x)
		}
		memo[v1.id] = fixed
		tb := c.tabulate(t, 256, memo)
		var row [4]uint64
		for i := 0; i < 256; i++ {
			if tb[i] == 1 {
				row[i/64] |= 1 << (i % 64)
			}
		}
		k := rows[row]
		if k == nil {
			if len(rows) >= 24 {
				return nil
			}
			k = &ttKey{v: t.vars[0]}
			rows[row] = k
			order = append(order, row)
		}
		k.tt[x/64] |= 1 << (x % 64)
	}
	r := c.False
	for _, row := range order {
		r = c.Or(r, c.And(c.inSet(v1, *rows[row]), c.inSet(v2, ttKey{t.vars[1], row})))
	}
	return r
}

// canon rewrites a condition: every part of it over a single byte becomes a disjunction of ranges.
func (c *Ctx) canon(t *Term) *Term {
	if t.w != 0 || t.op == OpConst || t.op == OpVar {
		return t
	}
	if r := c.canonOf[t.id]; r != nil {
		return r
	}
	var r *Term
	if v := c.byteVar(t); v != nil {
		r = t
		if t.op == OpNot {
			r = c.Not(c.canon(t.a))
		} else if c.nodes(t, 12) > 12 {
			n := 1 << v.w
			tb := c.tabulate(t, n, map[uint32]*byteTable{})
			var k ttKey
			k.v = t.vars[0]
			for i := 0; i < n; i++ {
				if tb[i] == 1 {
					k.tt[i/64] |= 1 << (i % 64)
				}
			}
			r = c.inSet(v, k)
		}
	} else if p := c.canonPair(t); p != nil {
		r = p
	} else {
		switch t.op {
		case OpNot:
			r = c.Not(c.canon(t.a))
		case OpAnd:
			r = c.And(c.canon(t.a), c.canon(t.b))
		case OpOr:
			r = c.Or(c.canon(t.a), c.canon(t.b))
		case OpIte:
			r = c.Ite(c.canon(t.a), c.canon(t.b), c.canon(t.c))
		default:
			r = t
		}
	}
	c.canonOf[t.id] = r
	return r
}
