package main

import "fmt"

// Random linear combinations of points, taken apart: every point that is
// summed, with its coefficient and the ranges of the indices it depends on.

type binder struct {
	chunk bool // p, c: a batch of c elements starting at p; else v < n
	v     *Term
	c     *Term
	n     *Term // number of elements
	b     *Term // batch size
}

type family struct {
	bs    []binder
	conds []*Term
	coef  *Term
	pt    *Term
}

func famVar(kind string, depth int, of ...*Term) *Term {
	n := fmt.Sprintf("§%s%d", kind, depth)
	for _, t := range of {
		n += fmt.Sprintf(".%d", t.ID)
	}
	return sym(n, SInt)
}

func families(t *Term) []family { return famRec(t, F(1), nil, nil) }

func famRec(t, coef *Term, bs []binder, conds []*Term) []family {
	var out []family
	for _, e := range grpOf(t) {
		c := fMul(coef, e.c)
		b := e.b
		switch b.Op {
		case "sum":
			v := famVar("v", len(bs), b.Args[0])
			setBounds(v, []*Term{I(0)}, []*Term{sub(b.Args[0], I(1))})
			nb := append(append([]binder{}, bs...), binder{v: v, n: b.Args[0]})
			out = append(out, famRec(applyLam(b.Args[1], v), c, nb, conds)...)
		case "csum":
			if b.Args[0] != b.Args[1] {
				out = append(out, family{bs, conds, c, b})
				continue
			}
			p, n := famVar("p", len(bs), b.Args[1], b.Args[2]), famVar("c", len(bs), b.Args[1], b.Args[2])
			setBounds(p, []*Term{I(0)}, []*Term{sub(b.Args[1], I(1))})
			setBounds(n, []*Term{I(1)}, []*Term{b.Args[2], sub(b.Args[1], p)})
			nb := append(append([]binder{}, bs...), binder{chunk: true, v: p, c: n, n: b.Args[1], b: b.Args[2]})
			l := applyLam(b.Args[3], p)
			out = append(out, famRec(applyLam(l, n), c, nb, conds)...)
		case "ite":
			for i, cd := range []*Term{b.Args[0], not(b.Args[0])} {
				x := b.Args[1+i]
				if x == G0 {
					continue
				}
				nc := append(append([]*Term{}, conds...), conj(cd)...)
				out = append(out, famRec(underLits(x, withLit(nil, cd)), underLits(c, withLit(nil, cd)), bs, nc)...)
			}
		default:
			c2 := c
			if len(conds) > 0 {
				f := map[*Term]bool{}
				for _, x := range conds {
					f[x] = true
				}
				c2 = underLits(c, f)
				b = underLits(b, f)
			}
			out = append(out, family{bs, conds, c2, b})
		}
	}
	return out
}

func sameBinders(a, b []binder) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].v != b[i].v {
			return false
		}
	}
	return true
}

func sameConds(a, b []*Term) bool { return propEq(and(a...), and(b...)) }

// a coefficient that is one random value of its own
func randCoef(c *Term) *Term {
	nf := fldOf(c)
	if len(nf.m) == 1 && len(nf.m[0].v) == 1 && nf.m[0].v[0].e == I(1) && nf.m[0].c.IsInt64() {
		if k := nf.m[0].c.Int64(); k == 1 || k == -1 {
			if a := nf.m[0].v[0].a; a.Op == "rand" {
				return a
			}
		}
	}
	return nil
}

// does the random value differ for every value of the indices?
func injective(r *Term, bs []binder) bool {
	for i, b := range bs {
		found := false
		for _, a := range r.Args {
			if a == b.v || sub(a, b.v) != I(0) && !contains(sub(a, b.v), b.v) {
				// an index of its own, up to a shift by outer indices given too
				found = true
			}
		}
		if !found {
			return false
		}
		_ = i
	}
	return true
}

// are two random values different for all values of their indices?
func apart(a, b *Term) bool {
	if a.Str != b.Str || len(a.Args) != len(b.Args) {
		return true
	}
	for i := range a.Args {
		d := sub(a.Args[i], b.Args[i])
		if provable(add(d, I(1)), nil) || provable(sub(I(1), d), nil) {
			return true
		}
	}
	return false
}

// the index j with pos = base + stride*j
func indexOf(pos, base *Term, stride int64) (*Term, bool) {
	return divExact(sub(pos, base), stride)
}

// does every j in [0,m) occur among the given index expressions?
type cover struct {
	bs    []binder
	conds []*Term
	j     *Term
}

// returns covered, decided
func covers(cs []cover, m *Term) (bool, bool) {
	type iv struct{ lo, hi *Term }
	var plain []iv
	type ch struct {
		b   binder
		ivs []iv // for a later batch
		fst []iv // for the first batch
	}
	chunks := map[*Term]*ch{}
	var order []*Term
	for _, c := range cs {
		switch {
		case len(c.bs) == 0 && len(c.conds) == 0:
			plain = append(plain, iv{c.j, c.j})
		case len(c.bs) == 1 && !c.bs[0].chunk:
			v := c.bs[0].v
			a := sub(c.j, v)
			if contains(a, v) {
				return false, false
			}
			lo, hi := I(0), sub(c.bs[0].n, I(1))
			for _, l := range c.conds {
				if l.Op != "le0" {
					return false, false
				}
				if x := sub(l.Args[0], v); !contains(x, v) { // v + x <= 0
					hi = neg(x)
				} else if x := add(l.Args[0], v); !contains(x, v) { // x - v <= 0
					lo = x
				} else {
					return false, false
				}
			}
			plain = append(plain, iv{add(a, lo), add(a, hi)})
		case c.bs[0].chunk && len(c.bs) <= 2:
			b := c.bs[0]
			k := chunks[b.v]
			if k == nil {
				k = &ch{b: b}
				chunks[b.v] = k
				order = append(order, b.v)
			}
			for pass := 0; pass < 2; pass++ {
				// is the part there in the first batch, in a later one?
				zero := func(t *Term) *Term {
					if pass == 0 {
						return subst1(t, b.v, I(0))
					}
					return t
				}
				fs := map[*Term]bool{}
				if pass == 1 {
					fs[le0(sub(I(1), b.v))] = true
				}
				skip, bad := false, false
				var lo, hi *Term
				if len(c.bs) == 2 {
					lo, hi = I(0), zero(sub(c.bs[1].n, I(1)))
				}
				for _, l := range c.conds {
					l = underLits(zero(l), fs)
					switch {
					case l == TTrue:
					case l == TFalse:
						skip = true
					case len(c.bs) == 2 && l.Op == "le0":
						v := c.bs[1].v
						if x := sub(l.Args[0], v); !contains(x, v) {
							hi = neg(x)
						} else if x := add(l.Args[0], v); !contains(x, v) {
							lo = x
						} else {
							bad = true
						}
					default:
						bad = true
					}
				}
				if bad {
					return false, false
				}
				if skip {
					continue
				}
				var i iv
				if len(c.bs) == 1 {
					i = iv{zero(c.j), zero(c.j)}
				} else {
					v := c.bs[1].v
					a := zero(sub(c.j, v))
					if contains(a, v) || c.bs[1].chunk {
						return false, false
					}
					i = iv{add(a, lo), add(a, hi)}
				}
				if pass == 0 {
					k.fst = append(k.fst, i)
				} else {
					k.ivs = append(k.ivs, i)
				}
			}
		default:
			return false, false
		}
	}
	reach := func(ivs []iv, start, target *Term) bool { // is [start, target) covered?
		ends := []*Term{start}
		for i := 0; i < len(ends) && i < 64; i++ {
			if provable(sub(target, ends[i]), nil) {
				return true
			}
			for _, v := range ivs {
				e := add(v.hi, I(1))
				if !provable(sub(v.lo, ends[i]), nil) {
					continue
				}
				dup := false
				for _, x := range ends {
					dup = dup || x == e
				}
				if !dup {
					ends = append(ends, e)
				}
			}
		}
		return false
	}
	for _, v := range order {
		k := chunks[v]
		p, c := k.b.v, k.b.c
		// each batch starting at p covers [p+s, p+c+s)
		for _, s := range []int64{0, -1, 1} {
			// the first batch: [max(0,s), c+s)
			st := I(0)
			if s > 0 {
				st = I(s)
			}
			ok0 := reach(k.fst, st, add(c, I(s)))
			ok := reach(k.ivs, add(p, I(s)), add(p, c, I(s)))
			if ok0 && ok {
				plain = append(plain, iv{st, add(k.b.n, I(s-1))})
			}
		}
	}
	return reach(plain, I(0), m), true
}
