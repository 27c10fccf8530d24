package main

// ---------- how often the loop runs

func (le *loopEval) findCounter(bst *State, outs []Edge) {
	type cand struct {
		lf    *leaf
		a     int64 // sign of χ in the exit quantity
		T     *Term
		chunk bool
		B     *Term
		step  *Term
	}
	neg1 := map[*Term]bool{}
	for _, o := range outs {
		for t := range o.st.guard {
			neg1[not(t)] = true
			if t.Op == "or" {
				for _, x := range t.Args {
					neg1[not(x)] = true
				}
			}
		}
	}
	try := func(l *Term) *cand {
		var q *Term
		ne := false
		switch {
		case l.Op == "le0":
			q = l.Args[0]
		case l.Op == "not" && l.Args[0].Op == "eq0":
			q, ne = l.Args[0].Args[0], true
		default:
			return nil
		}
		for _, lf := range le.leaves {
			if lf.arr || lf.n == nil || lf.chi.Sort != SInt || !contains(q, lf.chi) {
				continue
			}
			other := len(findTerms(q, func(t *Term) bool { return t != lf.chi && le.byChi[t] != nil })) > 0
			if other {
				return nil
			}
			a := int64(0)
			for _, s := range []int64{1, -1} {
				if !contains(sub(q, mulc(lf.chi, s)), lf.chi) {
					a = s
				}
			}
			if a == 0 {
				return nil
			}
			q0 := subst1(q, lf.chi, lf.init)
			D := mulc(sub(lf.n, lf.chi), a)
			R := sub(I(1), q) // what remains, in terms of χ
			R0 := sub(I(1), q0)
			if ne {
				R, R0 = neg(q), neg(q0)
				if k, ok := constI(D); ok && k == -1 {
					D, a = I(1), -a
					R, R0 = q, q0
				}
			}
			if k, ok := constI(D); ok {
				if k < 1 {
					return nil
				}
				if k == 1 {
					return &cand{lf: lf, a: a, T: R0, step: I(a)}
				}
				if !ne {
					return &cand{lf: lf, a: a, T: R0, chunk: true, B: D, step: mulc(D, a)}
				}
				return nil
			}
			if !contains(D, lf.chi) {
				if d := le.chiFree(D); d && !ne && proveLe0(sub(I(1), D), nil) {
					return &cand{lf: lf, a: a, T: R0, chunk: true, B: D, step: mulc(D, a)}
				}
				return nil
			}
			// D = min(B, R)
			if D.Op == "min" {
				for i := 0; i < 2; i++ {
					if D.Args[i] == R && le.chiFree(D.Args[1-i]) {
						return &cand{lf: lf, a: a, T: R0, chunk: true, B: D.Args[1-i], step: nil}
					}
				}
			}
			// min with a common part taken out: B' = D - ... ; compare through its definition
			if b := minOther(D, R); b != nil && le.chiFree(b) {
				return &cand{lf: lf, a: a, T: R0, chunk: true, B: b}
			}
		}
		return nil
	}
	var cs []*cand
	ls := diffLits(bst.guard, le.st0.guard)
	for _, l := range ls {
		if neg1[l] {
			if c := try(l); c != nil {
				cs = append(cs, c)
			}
		}
	}
	if len(cs) == 0 {
		for _, l := range ls {
			if c := try(l); c != nil {
				cs = append(cs, c)
				break
			}
		}
	}
	if len(cs) == 0 {
		le.T = mk("iters", le.key, SInt, nil, append([]*Term{}, le.ev.loopVars[:len(le.ev.loopVars)-1]...)...)
		setBounds(le.T, []*Term{I(0)}, nil)
		for _, l := range ls {
			if neg1[l] && le.doubling(l) {
				return
			}
		}
		le.ev.note("loop without a recognised counter in %s", le.fr.fn)
		return
	}
	for _, c := range cs {
		if c.chunk {
			le.chunk, le.T, le.B = true, c.T, c.B
			c.lf.closed = add(c.lf.init, mulc(le.p, c.a))
			setBounds(le.p, []*Term{I(0)}, []*Term{sub(le.T, I(1))})
			setBounds(le.c, []*Term{I(1)}, []*Term{le.B, sub(le.T, le.p)})
			minTab = append(minTab, minEnt{sub(le.T, le.p), le.B, le.c})
			return
		}
	}
	var hi []*Term
	for _, c := range cs {
		c.lf.closed = add(c.lf.init, mul(c.step, le.p))
		hi = append(hi, sub(c.T, I(1)))
		if le.T == nil {
			le.T = c.T
		} else if le.T != c.T {
			le.T = mkMin(le.T, c.T)
		}
	}
	setBounds(le.p, []*Term{I(0)}, hi)
}

// a variable that is doubled while it is below a limit: known after the loop
func (le *loopEval) doubling(l *Term) bool {
	if l.Op != "le0" {
		return false
	}
	for _, lf := range le.leaves {
		if lf.arr || lf.n == nil || lf.chi.Sort != SInt || lf.n != mulc(lf.chi, 2) {
			continue
		}
		m := sub(lf.chi, l.Args[0]) // goes on while χ <= m
		if !le.chiFree(m) {
			continue
		}
		switch lf.init {
		case I(1):
			lf.end = np2e(add(m, I(1)))
		case I(2):
			lf.end = mk("np2", "", SInt, nil, add(m, I(1)))
		default:
			continue
		}
		return true
	}
	return false
}

// if d is min(b, r) up to rewriting, b
func minOther(d, r *Term) *Term {
	for _, m := range findTerms(d, func(t *Term) bool { return t.Op == "min" }) {
		u := sub(d, m)
		for i := 0; i < 2; i++ {
			if add(m.Args[i], u) == r {
				return add(m.Args[1-i], u)
			}
		}
	}
	return nil
}

func (le *loopEval) chiFree(t *Term) bool {
	return len(findTerms(t, func(x *Term) bool { return le.byChi[x] != nil })) == 0
}

// ---------- solving the recurrences

func (le *loopEval) solveAll(round int) bool {
	le.compaction()
	progress := false
	for pass := 0; pass < 20; pass++ {
		any := false
		m := le.closedMap()
		for _, lf := range le.leaves {
			if lf.closed != nil || lf.n == nil {
				continue
			}
			n := subst(lf.n, m)
			if f := le.solveEnd(lf, n); f != nil {
				lf.closed = f
				any = true
				m[lf.chi] = le.asValue(lf, f)
			}
		}
		if !any {
			break
		}
		progress = true
	}
	return progress || round == 0
}

// a closed form also gives the value after the last iteration: it must not
// make use of p being below T
func (le *loopEval) solveEnd(lf *leaf, n *Term) *Term {
	if b := varBounds[le.p]; len(b.hi) > 0 {
		var hi []*Term
		for _, h := range b.hi {
			hi = append(hi, add(h, I(1)))
		}
		setBounds(le.p, b.lo, hi)
		defer setBounds(le.p, b.lo, b.hi)
	}
	return le.solve(lf, n)
}

func (le *loopEval) onlyOwn(lf *leaf, n *Term) bool {
	return len(findTerms(n, func(x *Term) bool { return x != lf.chi && le.byChi[x] != nil })) == 0
}

func (le *loopEval) solve(lf *leaf, n *Term) *Term {
	if !lf.arr && n == lf.chi || lf.arr && n == le.self(lf) {
		return lf.init
	}
	if le.onlyOwn(lf, n) {
		var f *Term
		if lf.arr {
			f = le.solveArr(lf, n)
		} else {
			f = le.solveScalar(lf, n)
		}
		if f != nil {
			return f
		}
	}
	// the first iteration apart
	z := eqInt(le.p, I(0))
	if len(findTerms(n, func(t *Term) bool { return t == z })) == 0 {
		return nil
	}
	n0 := subst1(underLit(n, z, true), le.p, I(0))
	im := map[*Term]*Term{}
	for _, l := range le.leaves {
		im[l.chi] = le.asValue(l, l.init)
	}
	n0 = subst(n0, im)
	n1 := underLit(n, z, false)
	if !le.onlyOwn(lf, n1) || len(findTerms(n1, func(t *Term) bool { return t == z })) > 0 {
		return nil
	}
	own := map[*Term]*Term{lf.chi: le.asValue(lf, lf.init), le.p: I(0)}
	if subst(n1, own) == n0 {
		if lf.arr {
			return le.solveArr(lf, n1)
		}
		return le.solveScalar(lf, n1)
	}
	first := eqInt(le.p, I(0))
	if le.chunk {
		if lf.chi.Sort == SInt {
			D := sub(n1, lf.chi)
			if k := subst1(D, le.c, I(1)); D == mul(k, le.c) && le.pcFree(k) {
				a0 := sub(n0, mul(k, le.c))
				if le.pcFree(a0) {
					return ite(first, lf.init, add(a0, mul(k, le.p)))
				}
			}
		}
		if n1 == lf.chi && le.pcFree(n0) && !lf.arr {
			return ite(first, lf.init, n0)
		}
		if contains(n1, lf.chi) || lf.arr {
			return nil
		}
		if f := le.lastValue(lf, n1, lf.init); f != nil {
			return f // the start of the loop coincides
		}
		return nil
	}
	if !le.pcFree(n0) {
		return nil
	}
	tmp := *lf
	tmp.init = n0
	n1 = subst1(n1, le.p, add(le.p, I(1)))
	var g *Term
	if lf.arr {
		g = le.solveArr(&tmp, n1)
	} else {
		g = le.solveScalar(&tmp, n1)
	}
	if g == nil {
		return nil
	}
	return ite(first, lf.init, subst1(g, le.p, sub(le.p, I(1))))
}

func (le *loopEval) self(lf *leaf) *Term { return mk("sel", "", lf.init.Sort, nil, lf.chi, xs) }

func (le *loopEval) pcFree(t *Term) bool { return !contains(t, le.p) && !contains(t, le.c) }

// the value set by the latest iteration
func (le *loopEval) lastValue(lf *leaf, n, init *Term) *Term {
	z := eqInt(le.p, I(0))
	if !le.chunk {
		return ite(z, init, subst1(n, le.p, sub(le.p, I(1))))
	}
	s := sym("§s", SInt)
	n2 := subst(n, map[*Term]*Term{le.p: s, le.c: sub(le.p, s)})
	if contains(n2, s) {
		n2 = subst1(n2, s, mk("prevchunk", "", SInt, nil, le.p, le.T, le.B))
	}
	return ite(z, init, n2)
}

func (le *loopEval) solveScalar(lf *leaf, n *Term) *Term {
	chi, p := lf.chi, le.p
	if n == chi {
		return lf.init
	}
	if !contains(n, chi) {
		return le.lastValue(lf, n, lf.init)
	}
	// set in one iteration only, or set while unset
	if n.Op == "ite" {
		cond, v, old := n.Args[0], n.Args[1], n.Args[2]
		if v == chi {
			cond, v, old = not(cond), old, v
		}
		if old == chi && !contains(v, chi) {
			if !contains(cond, chi) {
				ls := conj(cond)
				for i, l := range ls {
					d, ok := eqOf(l)
					if !ok {
						continue
					}
					if w, k := solveEq(d, p); w != nil && le.pcFree(k) {
						rest := and(append(append([]*Term{}, ls[:i]...), ls[i+1:]...)...)
						sb := map[*Term]*Term{p: k}
						v2, r2 := subst(v, sb), subst(rest, sb)
						if le.chunk && isConst(k, 0) {
							// the size of the first batch
							c0 := mkMin(le.T, le.B)
							v2, r2 = subst1(v2, le.c, c0), subst1(r2, le.c, c0)
						}
						if le.pcFree(v2) && le.pcFree(r2) {
							return ite(and(lt(k, p), r2), v2, lf.init)
						}
					}
				}
			}
			if chi.Sort == SGrp && cond == geq0(chi) && lf.init == G0 {
				v0 := subst1(v, p, I(0))
				if le.chunk {
					v0 = subst1(v0, le.c, mkMin(le.T, le.B))
				}
				if le.pcFree(v0) {
					assumeNonzero(v0)
					return ite(eqInt(p, I(0)), G0, v0)
				}
			}
		}
	}
	switch chi.Sort {
	case SInt:
		D := sub(n, chi)
		if !contains(D, chi) {
			return le.sumI(lf.init, D)
		}
		if n == mulc(chi, 2) && !le.chunk {
			return mul(lf.init, pow2(p))
		}
		return le.memberCounter(lf, n)
	case SField:
		D := fAdd(n, fNeg(chi))
		if !contains(D, chi) {
			if !le.chunk {
				return fAdd(lf.init, mkSum(p, xs2, subst1(D, p, xs2)))
			}
			if D.Op == "sum" && D.Args[0] == le.c {
				if b := le.flatten(D.Args[1]); b != nil {
					return fAdd(lf.init, mkSum(p, xs2, b))
				}
			}
			return nil
		}
		if m := fldRatio(n, chi); m != nil {
			if f := le.geometric(m); f != nil {
				return fMul(lf.init, f)
			}
		}
	case SGrp:
		D := gAdd(n, gNeg(chi))
		if !contains(D, chi) {
			return gAdd(lf.init, le.sumG(D))
		}
		if es := grpOf(n); len(es) == 1 && es[0].b == chi && !contains(es[0].c, chi) {
			if f := le.geometric(es[0].c); f != nil {
				return gScale(lf.init, f)
			}
		}
	case SBool:
		b1, b0 := subst1(n, chi, TTrue), subst1(n, chi, TFalse)
		if b1 == b0 {
			return le.lastValue(lf, b1, lf.init)
		}
		if b0 == TFalse {
			return and(lf.init, le.allUpto(p, subst1x(b1, p)))
		}
		if b1 == TTrue {
			return or(lf.init, not(le.allUpto(p, subst1x(not(b0), p))))
		}
	case SOther:
		if n.Op == "wl" && len(n.Args) > 0 && n.Args[0] == chi {
			d := wl(n.Args[1:]...)
			if contains(d, chi) {
				return nil
			}
			if !le.chunk {
				return wl(lf.init, mkWloop(p, xs2, subst1(d, p, xs2)))
			}
			if len(d.Args) == 1 && d.Args[0].Op == "wloop" && d.Args[0].Args[0] == le.c {
				if b := le.flatten(d.Args[0].Args[1]); b != nil {
					return wl(lf.init, mkWloop(p, xs2, b))
				}
			}
			return wl(lf.init, le.chunkOp("wchunks", SOther, p, d))
		}
	}
	return nil
}

// allUpto binds p itself; nothing to rename
func subst1x(t, p *Term) *Term { return t }

// n/χ, if n is a single product containing χ once
func fldRatio(n, chi *Term) *Term {
	nf := fldOf(n).m
	if len(nf) != 1 {
		return nil
	}
	m := fMul(n, fInv(chi))
	if contains(m, chi) {
		return nil
	}
	return m
}

// product of m over the iterations before p
func (le *loopEval) geometric(m *Term) *Term {
	if !le.chunk {
		if le.pcFree(m) {
			return fPow(m, le.p)
		}
		return nil
	}
	nf := fldOf(m).m
	if len(nf) != 1 || nf[0].c.Cmp(big1) != 0 {
		return nil
	}
	r := F(1)
	for _, v := range nf[0].v {
		k := subst1(v.e, le.c, I(1))
		if !le.pcFree(v.a) || !le.pcFree(k) || mul(k, le.c) != v.e {
			return nil
		}
		r = fMul(r, fPow(v.a, mul(k, le.p)))
	}
	return r
}

func (le *loopEval) sumI(init, D *Term) *Term {
	p := le.p
	if le.chunk {
		k := subst1(D, le.c, I(1))
		if le.pcFree(k) && D == mul(k, le.c) {
			return add(init, mul(k, p))
		}
		r := init
		for _, m := range intOf(D).m {
			if len(m.v) == 1 && m.v[0].e == 1 && m.v[0].a.Op == "cnt" && m.v[0].a.Args[0] == le.c {
				b := le.flatten(m.v[0].a.Args[1])
				if b == nil {
					return nil
				}
				r = add(r, mul(IB(m.c), mkCnt(p, xs2, b)))
				continue
			}
			t := mkInt([]intMono{m})
			k := subst1(t, le.c, I(1))
			if !le.pcFree(k) || t != mul(k, le.c) {
				return nil
			}
			r = add(r, mul(k, p))
		}
		return r
	}
	if le.pcFree(D) {
		return add(init, mul(D, p))
	}
	r := init
	for _, m := range intOf(D).m {
		t := mkInt([]intMono{m})
		if le.pcFree(t) {
			r = add(r, mul(t, p))
			continue
		}
		if len(m.v) == 1 && m.v[0].e == 1 && m.v[0].a.Op == "ite" {
			it := m.v[0].a
			x, y := it.Args[1], it.Args[2]
			if le.pcFree(x) && le.pcFree(y) {
				cn := mkCnt(p, xs2, subst1(it.Args[0], p, xs2))
				r = add(r, mul(IB(m.c), add(mul(y, p), mul(sub(x, y), cn))))
				continue
			}
		}
		r = add(r, mk("isum", "", SInt, nil, p, bindMark(xs2, subst1(t, p, xs2))))
	}
	return r
}

// sum of the group elements D over the iterations before p
func (le *loopEval) sumG(D *Term) *Term {
	if D.Sort == SField {
		if !le.chunk {
			return mkSum(le.p, xs2, subst1(D, le.p, xs2))
		}
		return le.chunkOp("csum", SField, le.p, D)
	}
	if !le.chunk {
		return sumOver(le.p, xs2, subst1(D, le.p, xs2))
	}
	r := G0
	var rest []grpE
	for _, e := range grpOf(D) {
		if e.b.Op == "sum" && e.b.Args[0] == le.c && le.pcFree(e.c) {
			if b := le.flatten(e.b.Args[1]); b != nil {
				r = gAdd(r, gScale(sumOver(le.p, xs2, b), e.c))
				continue
			}
		}
		rest = append(rest, e)
	}
	for _, e := range rest {
		r = gAdd(r, le.chunkOp("csum", SGrp, le.p, mkGrp([]grpE{e})))
	}
	return r
}

// a pointer into a sorted list, moved on when its element is met:
// n = (χ < len ∧ A[χ] = p) ? χ+1 : χ
func (le *loopEval) memberCounter(lf *leaf, n *Term) *Term {
	if le.chunk {
		return nil
	}
	D := sub(n, lf.chi)
	if D.Op != "ite" || lf.init != I(0) {
		return nil
	}
	cond := D.Args[0]
	if isConst(D.Args[1], 0) && isConst(D.Args[2], 1) {
		cond = not(cond)
	} else if !isConst(D.Args[1], 1) || !isConst(D.Args[2], 0) {
		return nil
	}
	ls := conj(cond)
	if len(ls) < 2 {
		return nil
	}
	var ln, eq *Term
	var rest []*Term
	for _, l := range ls {
		switch {
		case l.Op == "le0" && contains(l, lf.chi) && ln == nil && len(findTerms(l, func(t *Term) bool { return t.Op == "sel" })) == 0:
			ln = l
		case l.Op == "eq0" && contains(l, lf.chi) && eq == nil:
			eq = l
		default:
			rest = append(rest, l)
		}
	}
	if ln == nil || eq == nil || contains(and(rest...), lf.chi) {
		return nil
	}
	N := add(sub(lf.chi, ln.Args[0]), I(1)) // χ + 1 - N <= 0
	if contains(N, lf.chi) || !le.pcFree(N) {
		return nil
	}
	w, t := solveEq(eq.Args[0], le.p)
	if w == nil || t.Op != "sel" || t.Args[1] != lf.chi {
		return nil
	}
	// positions met before are p' < p; they are those of the list smaller than p
	mem := mk("member", "", SBool, nil, t.Args[0], N, le.p)
	full := and(append(rest, mem)...)
	f := mkCnt(le.p, xs2, subst1(full, le.p, xs2))
	// the same test written with the counter's value
	l1, l2 := subst1(ln, lf.chi, f), subst1(eq, lf.chi, f)
	andRewrites = append(andRewrites, andRewrite{l1, l2, mem})
	return f
}

type andRewrite struct{ a, b, r *Term }

var andRewrites []andRewrite

// ---------- arrays

func (le *loopEval) solveArr(lf *leaf, n *Term) *Term {
	S := le.self(lf)
	if le.chunk {
		n = le.splitMins(n)
	}
	if n == S {
		return lf.init
	}
	if !contains(n, lf.chi) {
		return le.lastValue(lf, n, lf.init)
	}
	if n.Sort == SGrp || n.Sort == SField {
		var D *Term
		if n.Sort == SGrp {
			D = gAdd(n, gNeg(S))
		} else {
			D = fAdd(n, fNeg(S))
		}
		if !contains(D, lf.chi) {
			if n.Sort == SGrp {
				return gAdd(lf.init, le.sumG(D))
			}
			return fAdd(lf.init, le.sumG(D))
		}
	}
	if f := le.scatter(lf, n); f != nil {
		return f
	}
	type reg struct{ in, val *Term }
	var regs []reg
	cur := n
	for step := 0; cur != S; step++ {
		if step > 8 {
			return nil
		}
		in, val, rest := le.region(lf, cur)
		if in == nil {
			return nil
		}
		regs = append(regs, reg{in, val})
		cur = rest
	}
	f := lf.init
	for i := len(regs) - 1; i >= 0; i-- {
		f = ite(regs[i].in, regs[i].val, f)
	}
	return f
}

// x < min(a, b) as x < a and x < b, where the part of the array written by one
// share is cut off by a further bound
func (le *loopEval) splitMins(n *Term) *Term {
	m := map[*Term]*Term{}
	for _, b := range findTerms(n, func(t *Term) bool { return t.Op == "le0" && contains(t, xs) && contains(t, le.c) && t.fbv == 0 }) {
		for _, y := range intOf(b.Args[0]).m {
			if len(y.v) != 1 || y.v[0].e != 1 || y.v[0].a.Op != "min" || !contains(y.v[0].a, le.c) || y.c.Sign() >= 0 || !y.c.IsInt64() || y.c.Int64() != -1 {
				continue
			}
			mn := y.v[0].a
			e := add(b.Args[0], mn)
			var cs []*Term
			for _, a := range mn.Args {
				cs = append(cs, le0(sub(e, a)))
			}
			m[b] = and(cs...)
			break
		}
	}
	if len(m) == 0 {
		return n
	}
	return subst(n, m)
}

// each iteration adds something to one element, whose index depends on the
// iteration
func (le *loopEval) scatter(lf *leaf, n *Term) *Term {
	if n.Sort != SGrp && n.Sort != SField {
		return nil
	}
	S := le.self(lf)
	for _, b := range findTerms(n, func(t *Term) bool { return (t.Op == "eq0" || t.Op == "le0") && contains(t, xs) && t.fbv == 0 }) {
		d, ok := eqOf(b)
		if !ok {
			if d, ok = eqOf(not(b)); !ok {
				continue
			}
			b = not(b)
		}
		w, t := solveEq(d, xs)
		if w == nil || le.pcFree(t) || contains(t, lf.chi) {
			continue
		}
		if underLits(n, map[*Term]bool{not(b): true}) != S {
			continue
		}
		v := underLits(n, map[*Term]bool{b: true})
		v = subst1(v, mkSel(lf.init.Sort, lf.chi, t), S)
		if n.Sort == SGrp {
			D := gAdd(v, gNeg(S))
			if !contains(D, lf.chi) {
				return gAdd(lf.init, le.sumG(ite(b, D, G0)))
			}
		} else {
			D := fAdd(v, fNeg(S))
			if !contains(D, lf.chi) {
				return fAdd(lf.init, le.sumG(ite(b, D, F(0))))
			}
		}
	}
	return nil
}

// Finds a part of the array written by each iteration: the elements written by
// the iterations before p, their values, and the new content elsewhere.
func (le *loopEval) region(lf *leaf, n *Term) (in, val, rest *Term) {
	p, c := le.p, le.c
	var bools []*Term
	for _, b := range findTerms(n, func(t *Term) bool { return (t.Op == "eq0" || t.Op == "le0") && contains(t, xs) }) {
		bools = append(bools, b)
	}
	sortTerms(bools)
	stale := func() *Term {
		return mkSel(lf.init.Sort, mk("stale", lf.chi.Str, SOther, nil, append([]*Term{}, le.ev.loopVars...)...), xs)
	}
	for _, b := range bools {
		if b.fbv != 0 {
			continue
		}
		d, ok := eqOf(b)
		if !ok {
			if d, ok = eqOf(not(b)); ok {
				b = not(b)
			} else {
				continue
			}
		}
		w, t := solveEq(d, xs)
		if w == nil {
			continue
		}
		v := underLits(n, map[*Term]bool{b: true})
		r := underLits(n, map[*Term]bool{not(b): true})
		v = subst1(v, xs, t) // value written, at x = t
		if le.pcFree(t) {
			// one fixed element
			tmp := &leaf{chi: mk("chi", lf.chi.Str+"@"+t.String(), lf.init.Sort, nil), init: subst1(lf.init, xs, t)}
			nv := subst1(v, mkSel(lf.init.Sort, lf.chi, t), tmp.chi)
			if contains(nv, lf.chi) {
				continue
			}
			f := le.solveScalar(tmp, nv)
			if f == nil {
				continue
			}
			return b, f, r
		}
		if le.chunk {
			continue
		}
		// x = k ± p
		for _, s := range []int64{1, -1} {
			k := sub(t, mulc(p, s))
			if !le.pcFree(k) {
				continue
			}
			x := mulc(sub(xs, k), s) // the iteration writing element x
			v2 := subst1(v, p, x)
			var reg *Term
			if s == 1 {
				reg = and(le0(sub(k, xs)), lt(xs, add(k, p)))
			} else {
				reg = and(le0(sub(xs, k)), lt(sub(k, p), xs))
			}
			if v3 := le.ownReads(lf, v2, k, s); v3 != nil {
				return reg, v3, r
			}
		}
		// x = k + number of selected iterations before p
		if W, w := selected(v, mkSel(lf.init.Sort, lf.chi, t)); W != nil && len(findTerms(t, func(u *Term) bool { return u.Op == "cnt" })) > 0 {
			k := subst1(t, p, I(0))
			dt := sub(subst1(t, p, add(p, I(1))), t)
			if le.pcFree(k) && propZero(sub(dt, ite(W, I(1), I(0)))) {
				nth := mkNth(xs2, subst1(W, p, xs2), sub(xs, k))
				v2 := subst1(underLits(w, litsOf(W)), p, nth)
				if !contains(v2, lf.chi) && le.pcFree(v2) {
					return and(le0(sub(k, xs)), lt(xs, t)), v2, r
				}
			}
		}
		for _, m := range intOf(t).m {
			if len(m.v) == 1 && m.v[0].e == 1 && m.c.Cmp(big1) == 0 && m.v[0].a.Op == "rev" && t == m.v[0].a && m.v[0].a.Args[1] == p {
				q := mkRev(t.Args[0], xs)
				v2 := subst1(v, p, q)
				if contains(v2, lf.chi) {
					v2 = subst1(v2, mkSel(lf.init.Sort, lf.chi, xs), lf.init)
					if contains(v2, lf.chi) {
						continue
					}
				}
				return and(le0(neg(xs)), lt(xs, t.Args[0]), lt(q, p)), v2, r
			}
		}
	}
	// intervals
	var los, his []*Term
	for _, b := range bools {
		for _, l := range []*Term{b, not(b)} {
			if l.Op != "le0" || l.fbv != 0 {
				continue
			}
			if q := add(l.Args[0], xs); !contains(q, xs) {
				los = append(los, l)
			} else if q := sub(l.Args[0], xs); !contains(q, xs) {
				his = append(his, l)
			}
		}
	}
	los = append(los, nil)
	for _, lo := range los {
		for _, hi := range his {
			m := map[*Term]bool{hi: true}
			var L *Term
			if lo != nil {
				L = add(lo.Args[0], xs)
				m[lo] = true
			} else {
				L = I(0)
			}
			U := add(sub(xs, hi.Args[0]), I(1)) // exclusive
			v := underLits(n, m)
			r := underLits(n, map[*Term]bool{not(hi): true})
			if lo != nil && underLits(n, map[*Term]bool{not(lo): true}) != r {
				continue
			}
			if v == n || r == n && v == n {
				continue
			}
			if le.pcFree(r) == false && r != le.self(lf) && !contains(r, lf.chi) {
				continue
			}
			k := sub(L, p)
			if le.chunk && le.pcFree(k) && sub(U, L) == c {
				z := sub(xs, k)
				v2 := v
				if contains(v2, p) || contains(v2, c) {
					v2 = le.reindex(v2, z)
				}
				if le.par {
					for _, rd := range findTerms(v2, func(t *Term) bool { return t.Op == "sel" && t.Args[0] == lf.chi && t.Args[1] != xs }) {
						le.reads = append(le.reads, [3]*Term{lf.chi, k, sub(rd.Args[1], xs)})
						v2 = subst1(v2, rd, subst1(lf.init, xs, rd.Args[1]))
					}
					le.writes = append(le.writes, [2]*Term{lf.chi, k})
				}
				v2 = subst1(v2, mkSel(lf.init.Sort, lf.chi, xs), lf.init)
				if le.par && !le.pcFree(v2) && !contains(v2, c) {
					v2 = subst1(v2, p, mk("wstart", "", SInt, nil, z))
				}
				if !le.pcFree(v2) || contains(v2, lf.chi) {
					continue
				}
				return and(le0(sub(k, xs)), lt(xs, add(k, p))), v2, r
			}
			if le.pcFree(L) && le.pcFree(U) {
				// the same part each time
				if contains(v, lf.chi) {
					S := le.self(lf)
					tmp := &leaf{chi: mk("chi", lf.chi.Str+"@x", lf.init.Sort, nil), init: lf.init}
					nv := subst1(v, S, tmp.chi)
					if contains(nv, lf.chi) {
						continue
					}
					f := le.solveScalar(tmp, nv)
					if f == nil {
						continue
					}
					return and(le0(sub(L, xs)), lt(xs, U)), f, r
				}
				return and(le0(sub(L, xs)), lt(xs, U), lt(I(0), p)), le.lastValue(lf, v, lf.init), r
			}
			if le.pcFree(L) && !contains(v, lf.chi) {
				// a buffer refilled from its start
				return and(le0(sub(L, xs)), lt(I(0), p)), stale(), r
			}
		}
	}
	return nil, nil, nil
}

// the value is w when W holds and self otherwise
func selected(v, self *Term) (W, w *Term) {
	if v.Op != "ite" {
		return nil, nil
	}
	if v.Args[1] == self {
		W, w = not(v.Args[0]), v.Args[2]
	} else if v.Args[2] == self {
		W, w = v.Args[0], v.Args[1]
	} else {
		return nil, nil
	}
	if contains(w, self) {
		if W2, w2 := selected(w, self); W2 != nil {
			return and(W, W2), w2
		}
		return nil, nil
	}
	return W, w
}

// is an integer expression zero under every assignment of the conditions
// in it?
func propZero(t *Term) bool {
	m := map[*Term]bool{}
	var at []*Term
	for _, u := range findTerms(t, func(u *Term) bool { return u.Op == "ite" && u.Sort == SInt && u.fbv == 0 }) {
		boolAtoms(u.Args[0], m, &at)
	}
	if len(at) > 10 {
		return false
	}
	var rec func(t *Term, i int) bool
	rec = func(t *Term, i int) bool {
		if isConst(t, 0) {
			return true
		}
		if i == len(at) {
			return false
		}
		return rec(assignAtom(t, at[i], true), i+1) && rec(assignAtom(t, at[i], false), i+1)
	}
	return rec(t, 0)
}

func litsOf(t *Term) map[*Term]bool {
	m := map[*Term]bool{t: true}
	for _, x := range conj(t) {
		m[x] = true
	}
	return m
}

// resolve reads of the array itself in the value written to element x by the
// iteration writing it; elements k, k+1, ... are written in this order (s=1)
func (le *loopEval) ownReads(lf *leaf, v, k *Term, s int64) *Term {
	reads := findTerms(v, func(t *Term) bool { return t.Op == "sel" && t.Args[0] == lf.chi })
	m := map[*Term]*Term{}
	for _, r := range reads {
		y := r.Args[1]
		d := mulc(sub(y, xs), s)
		switch {
		case y == xs || proveLe0(sub(I(1), d), nil):
			// not written yet
			m[r] = subst1(lf.init, xs, y)
		case isConst(d, -1):
			if len(reads) != 1 || s != 1 {
				return nil
			}
			// E(x) = E(x-1)·m
			switch v.Sort {
			case SField:
				if q := fldRatio(v, r); q != nil && !contains(q, xs) && le.pcFree(q) {
					return fMul(subst1(lf.init, xs, sub(k, I(1))), fPow(q, add(sub(xs, k), I(1))))
				}
			case SGrp:
				if es := grpOf(v); len(es) == 1 && es[0].b == r && !contains(es[0].c, xs) && !contains(es[0].c, r) {
					return gScale(subst1(lf.init, xs, sub(k, I(1))), fPow(es[0].c, add(sub(xs, k), I(1))))
				}
			}
			return nil
		case !contains(y, xs) && s == 1 && proveLe0(add(sub(y, k), I(1)), nil):
			m[r] = subst1(lf.init, xs, y)
		default:
			return nil
		}
	}
	v = subst(v, m)
	if contains(v, lf.chi) || !le.pcFree(v) {
		return nil
	}
	return v
}

// An array whose elements are moved down, to places that aren't beyond the
// iteration's own: element p still has its first value when iteration p reads
// it.
func (le *loopEval) compaction() {
	if le.chunk || le.par {
		return
	}
	for _, a := range le.leaves {
		if !a.arr || a.n == nil || a.closed != nil {
			continue
		}
		own := mk("sel", "", a.init.Sort, nil, a.chi, le.p)
		reads := false
		for _, lf := range le.leaves {
			reads = reads || lf.n != nil && lf.closed == nil && contains(lf.n, own)
		}
		if !reads {
			continue
		}
		// where it writes
		ats := findTerms(a.n, func(t *Term) bool {
			return t.Op == "eq0" && contains(t.Args[0], xs) && len(findTerms(t, func(u *Term) bool { return u.Op == "sel" })) == 0
		})
		facts := map[*Term]bool{}
		below := len(ats) > 0
		for _, at := range ats {
			facts[not(at)] = true
			rest := subst1(at.Args[0], xs, I(0))
			e := rest // x = rest or x = -rest
			if add(at.Args[0], neg(rest)) == xs {
				e = neg(rest)
			} else if add(at.Args[0], neg(rest)) != neg(xs) {
				below = false
				break
			}
			var cs []*Term
			for _, lf := range le.leaves {
				if !lf.arr && contains(e, lf.chi) && le.stepsByOne(lf) {
					setBounds(lf.chi, []*Term{I(0)}, []*Term{le.p})
					cs = append(cs, lf.chi)
				}
			}
			below = below && proveLe0(sub(e, le.p), nil)
			for _, c := range cs {
				setBounds(c, nil, nil)
			}
		}
		if !below || underLits(a.n, facts) != le.self(a) {
			continue
		}
		first := subst1(a.init, xs, le.p)
		for _, lf := range le.leaves {
			if lf.n != nil && lf.closed == nil {
				lf.n = subst1(lf.n, own, first)
			}
		}
	}
}

// does the counter start at zero and grow by at most one each time?
func (le *loopEval) stepsByOne(lf *leaf) bool {
	if lf.n == nil || lf.init != I(0) {
		return false
	}
	for _, v := range leavesOf(sub(lf.n, lf.chi)) {
		if v != I(0) && v != I(1) {
			return false
		}
	}
	return true
}

// the values an integer term that is a choice may have
func leavesOf(t *Term) []*Term {
	if t.Op == "ite" {
		return append(leavesOf(t.Args[1]), leavesOf(t.Args[2])...)
	}
	return []*Term{t}
}
