package main

// Bounds on integer value numbers, and a small interval-propagation prover for
// p <= 0. It only substitutes known bounds of atoms; no search, no solver.

type bnds struct{ lo, hi []*Term }

var varBounds = map[*Term]bnds{} // loop variables and other symbols

func setBounds(v *Term, lo, hi []*Term) {
	if b, ok := varBounds[v]; ok && sameTerms(b.lo, lo) && sameTerms(b.hi, hi) {
		return
	}
	varBounds[v] = bnds{lo, hi}
	proved = map[proofKey]bool{}
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type proofKey struct {
	p     *Term
	depth int
	facts string
}

var proved = map[proofKey]bool{}

func atomBounds(a *Term) bnds {
	if b, ok := varBounds[a]; ok {
		return b
	}
	switch a.Op {
	case "pow2":
		if proveLe(sub(I(1), a.Args[0]), nil, 2) {
			return bnds{lo: []*Term{I(2)}}
		}
		return bnds{lo: []*Term{I(1)}}
	case "np2":
		return bnds{lo: []*Term{I(2), a.Args[0]}}
	case "np2e":
		return bnds{lo: []*Term{I(1), a.Args[0]}}
	case "bv":
		return bnds{lo: []*Term{I(0)}}
	case "nth":
		return bnds{lo: []*Term{I(0)}}
	case "f":
		if nonnegField(a) {
			return bnds{lo: []*Term{I(0)}}
		}
	case "div":
		return bnds{lo: divLo(a), hi: divHi(a)}
	case "len", "slen", "goblen":
		return bnds{lo: []*Term{I(0)}}
	case "rdint":
		switch a.Str {
		case "1": // the first byte is a power of two's exponent, never 0
			if a.Args[1] == I(0) {
				return bnds{[]*Term{I(1)}, []*Term{I(255)}}
			}
			return bnds{[]*Term{I(0)}, []*Term{I(255)}}
		case "2":
			return bnds{[]*Term{I(0)}, []*Term{I(65535)}}
		case "4":
			return bnds{[]*Term{I(0)}, []*Term{I(4294967295)}}
		}
	case "conv":
		if mx, ok := convMax[a.Str]; ok && a.Str != "i32" {
			return bnds{[]*Term{I(0)}, []*Term{I(mx)}}
		}
	case "rev": // rev(n, i): permutes [0,n), fixes n-1
		n, i := a.Args[0], a.Args[1]
		hi := sub(n, I(1))
		if proveLe0(add(sub(i, n), I(2)), nil) {
			hi = sub(n, I(2))
		}
		return bnds{[]*Term{I(0)}, []*Term{hi}}
	case "cnt": // number of selected among the first Args[0]
		return bnds{[]*Term{I(0)}, []*Term{a.Args[0]}}
	}
	return bnds{}
}

func proveLe0(p *Term, facts []*Term) bool { return proveLe(p, facts, 6) }

func factKey(facts []*Term) string {
	if len(facts) == 0 {
		return ""
	}
	b := make([]byte, 0, 4*len(facts))
	for _, f := range facts {
		b = append(b, byte(f.ID), byte(f.ID>>8), byte(f.ID>>16), byte(f.ID>>24))
	}
	return string(b)
}

func proveLe(p *Term, facts []*Term, depth int) bool {
	if c, ok := constInt(p); ok {
		return c.Sign() <= 0
	}
	k := proofKey{p, depth, factKey(facts)}
	if r, ok := proved[k]; ok {
		return r
	}
	r := proveLe1(p, facts, depth)
	proved[k] = r
	return r
}

func proveLe1(p *Term, facts []*Term, depth int) bool {
	if c, ok := constInt(p); ok {
		return c.Sign() <= 0
	}
	for _, f := range facts {
		switch f.Op {
		case "le0":
			if c, ok := constInt(sub(p, f.Args[0])); ok && c.Sign() <= 0 {
				return true
			}
		}
	}
	if depth == 0 {
		return false
	}
	nf := intOf(p)
	// all monomials obviously nonpositive?
	all := true
	for _, m := range nf.m {
		if m.c.Sign() > 0 {
			all = false
			break
		}
		for _, v := range m.v {
			if !nonneg(v.a) {
				all = false
			}
		}
	}
	if all {
		return true
	}
	// candidate atoms: those occurring linearly with a constant coefficient
	for _, m := range nf.m {
		if len(m.v) != 1 || m.v[0].e != 1 {
			continue
		}
		a := m.v[0].a
		occ := 0
		for _, o := range nf.m {
			for _, v := range o.v {
				if v.a == a {
					occ++
				}
			}
		}
		if occ != 1 {
			continue
		}
		rest := sub(p, mul(IB(m.c), a))
		at := func(x *Term) *Term { return add(rest, mul(IB(m.c), x)) }
		switch a.Op {
		case "min":
			if m.c.Sign() > 0 {
				if proveLe(at(a.Args[0]), facts, depth-1) || proveLe(at(a.Args[1]), facts, depth-1) {
					return true
				}
			} else if proveLe(at(a.Args[0]), facts, depth-1) && proveLe(at(a.Args[1]), facts, depth-1) {
				return true
			}
			continue
		case "ite":
			if proveLe(at(a.Args[1]), append([]*Term{a.Args[0]}, facts...), depth-1) &&
				proveLe(at(a.Args[2]), append([]*Term{not(a.Args[0])}, facts...), depth-1) {
				return true
			}
			continue
		}
		b := atomBounds(a)
		cand := b.hi
		if m.c.Sign() < 0 {
			cand = b.lo
		}
		for _, x := range cand {
			if x != a && proveLe(at(x), facts, depth-1) {
				return true
			}
		}
		// bounds given by facts: c*a + q <= 0
		for _, f := range facts {
			if f.Op != "le0" {
				if f.Op == "not" && f.Args[0].Op == "eq0" {
					// a != k at the edge of its range
					d := f.Args[0].Args[0]
					for _, x := range cand {
						for _, s := range []int64{1, -1} {
							// d = s*(a - k)
							k := sub(a, mulc(d, s))
							if k == x {
								var y *Term
								if m.c.Sign() > 0 {
									y = sub(x, I(1))
								} else {
									y = add(x, I(1))
								}
								if proveLe(at(y), facts, depth-1) {
									return true
								}
							}
						}
					}
				}
				continue
			}
			q := f.Args[0]
			if q == a || contains(a, q) {
				continue
			}
			for _, fm := range intOf(q).m {
				if len(fm.v) == 1 && fm.v[0].e == 1 && fm.v[0].a == a && fm.c.IsInt64() {
					c := fm.c.Int64()
					if m.c.Sign() > 0 && c == 1 {
						if ub := sub(a, q); !contains(ub, a) && proveLe(at(ub), facts, depth-1) {
							return true
						}
					}
					if m.c.Sign() < 0 && c == -1 {
						if lb := add(a, q); !contains(lb, a) && proveLe(at(lb), facts, depth-1) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func nonneg(a *Term) bool {
	switch a.Op {
	case "pow2", "len", "slen", "goblen", "rdint", "rev", "cnt", "np2", "np2e", "bv", "nth", "f":
		return true
	case "conv":
		return a.Str != "i32"
	}
	for _, l := range atomBounds(a).lo {
		if c, ok := constInt(l); ok && c.Sign() >= 0 {
			return true
		}
	}
	return false
}

// sizes read from headers and circuits are taken to be non-negative
func nonnegField(a *Term) bool { return true }

func divLo(a *Term) []*Term {
	if c, ok := constI(a.Args[1]); ok && c > 0 && proveLe(neg(a.Args[0]), nil, 3) {
		return []*Term{I(0)}
	}
	return nil
}
func divHi(a *Term) []*Term {
	if c, ok := constI(a.Args[1]); ok && c > 0 && proveLe(neg(a.Args[0]), nil, 3) {
		for _, k := range []int64{255, 65535} {
			if proveLe(sub(a.Args[0], I((k+1)*c-1)), nil, 3) {
				return []*Term{I(k)}
			}
		}
		return []*Term{a.Args[0]}
	}
	return nil
}
