package main

import "fmt"

// ---------- phase 1 files

type ph1 struct {
	f  *Term
	rs int64 // size of a G1 point
}

func (x ph1) N() *Term { return pow2(rdInt(1, x.f, I(0))) }
func (x ph1) n() *Term { return rdInt(2, x.f, I(1)) }
func (x ph1) at(c, n int64, i *Term, stride int64) *Term {
	return add(I(c), mulc(x.N(), n), mulc(i, stride))
}
func (x ph1) tauG1(i *Term) *Term { return rdG1(x.f, x.at(3, 0, i, 32)) }
func (x ph1) alpha(i *Term) *Term { return rdG1(x.f, x.at(-29, 64, i, 32)) }
func (x ph1) beta(i *Term) *Term  { return rdG1(x.f, x.at(-29, 96, i, 32)) }
func (x ph1) tauG2(i *Term) *Term { return rdG2(x.f, x.at(-29, 128, i, 64)) }
func (x ph1) betaG2() *Term       { return rdG2(x.f, x.at(-29, 192, I(0), 0)) }

// contribution k
type con1 struct {
	T, A, B, T2, B2 *Term
	SG, SXG, XR     [3]*Term
	hash            *Term
}

func (x ph1) con(k *Term) con1 {
	b := add(I(35), mulc(x.N(), 192), mulc(k, 640))
	g1 := func(o int64) *Term { return rdG1(x.f, add(b, I(o))) }
	g2 := func(o int64) *Term { return rdG2(x.f, add(b, I(o))) }
	c := con1{T: g1(0), A: g1(32), B: g1(64), T2: g2(96), B2: g2(160), hash: rdBytes(x.f, add(b, I(608)), I(32))}
	for i := int64(0); i < 3; i++ {
		c.SG[i], c.SXG[i], c.XR[i] = g1(224+128*i), g1(256+128*i), g2(288+128*i)
	}
	return c
}

func (c con1) points() []*Term {
	r := []*Term{wG1(c.T), wG1(c.A), wG1(c.B), wG2(c.T2), wG2(c.B2)}
	for i := 0; i < 3; i++ {
		r = append(r, wG1(c.SG[i]), wG1(c.SXG[i]), wG2(c.XR[i]))
	}
	return r
}

func shaOf(ts []*Term) *Term { return mk("sha256", "", SBytes, nil, wl(ts...)) }
func marsh(t *Term) *Term    { return mk("marsh", "1", SBytes, nil, t) }

// what the challenge of a proof is made of
func chalData(sg, sxg, prev *Term) *Term {
	if prev == nil {
		return cat(marsh(sg), marsh(sxg))
	}
	return cat(marsh(sg), marsh(sxg), prev)
}

// the challenge among the requirements (or written items) with this content,
// and its tag
func findChal(fs []*Term, data *Term, facts map[*Term]bool) *Term {
	for _, f := range fs {
		for _, h := range findTerms(f, func(t *Term) bool { return t.Op == "h2g" && t.fbv == 0 }) {
			if h.Args[0] == data || eqUnder(h.Args[0], data, facts) {
				return h
			}
		}
	}
	return nil
}

func anyUnknown(fs []*Term) bool {
	for _, f := range fs {
		if unknown(f) {
			return true
		}
	}
	return false
}

func constTag(t *Term) bool {
	for _, b := range t.Args {
		if b.Op != "b8" && b.Op != "int" && b.Op != "bytes" && b.Op != "str" {
			return false
		}
	}
	return len(findTerms(t, func(u *Term) bool {
		switch u.Op {
		case "cat", "b8", "int", "bytes", "str", "bstr":
			return false
		}
		return true
	})) == 0
}

var secret1 = []string{"τ", "α", "β"}

func (c *Ctx) verify1() *Run { return c.run("phase1", "Verify", "in", "tr") }

type regime struct {
	name  string
	k     *Term
	facts map[*Term]bool
	prev  *con1 // values of the contribution before (nil hash: the first)
}

func (c *Ctx) regimes1(r *Run) []regime {
	in, tr := ph1{f: r.Args[0]}, ph1{f: r.Args[1]}
	n := in.n()
	k := freshIdx()
	setBounds(k, []*Term{I(1)}, []*Term{sub(n, I(1))})
	kp := in.con(sub(k, I(1)))
	any := le0(sub(I(1), n))
	later := withLit(withLit(nil, any), le0(sub(I(1), k)))
	later = withLit(later, le0(add(sub(k, n), I(1))))
	none := beq(r.Args[1], str(""))
	g := con1{T: sym("gen1", SGrp), A: sym("gen1", SGrp), B: sym("gen1", SGrp), T2: sym("gen2", SGrp), B2: sym("gen2", SGrp)}
	g.T, g.A, g.B, g.T2, g.B2 = gen1, gen1, gen1, gen2, gen2
	s := con1{T: tr.tauG1(I(1)), A: tr.alpha(I(0)), B: tr.beta(I(0)), T2: tr.tauG2(I(1)), B2: tr.betaG2()}
	if nn, ok := constI(n); ok {
		// at a fixed size: the last contribution
		if nn > 1 {
			k = sub(n, I(1))
			kp = in.con(sub(k, I(1)))
		} else {
			k = nil
		}
	}
	rs := []regime{
		{"the first contribution, without a transformed file", I(0), withLit(withLit(nil, any), none), &g},
		{"the first contribution, with a transformed file", I(0), withLit(withLit(nil, any), not(none)), &s},
	}
	if k != nil {
		rs = append(rs, regime{"a later contribution", k, later, &kp})
	}
	return rs
}

func checkC01(c *Ctx) {
	r := c.verify1()
	if !c.need(r) {
		return
	}
	in := ph1{f: r.Args[0]}
	for _, g := range c.regimes1(r) {
		fs := r.factsAt(g.k, g.facts)
		x := in.con(g.k)
		var tags []*Term
		for i := 0; i < 3; i++ {
			h := findChal(fs, chalData(x.SG[i], x.SXG[i], g.prev.hash), g.facts)
			what := fmt.Sprintf("phase1.Verify, %s: challenge of the proof for %s", g.name, secret1[i])
			if h == nil {
				c.oblige(what, false, anyUnknown(fs), "no requirement of success uses a challenge made of the public key and the hash of the previous contribution")
				continue
			}
			c.oblige(what+" has a constant tag", constTag(h.Args[1]), unknown(h.Args[1]), "the tag is "+show(h.Args[1]))
			tags = append(tags, h.Args[1])
			c.requires(r, fmt.Sprintf("phase1.Verify, %s: proof of knowledge of %s", g.name, secret1[i]), fs, pairEq(x.SG[i], x.XR[i], x.SXG[i], h))
			px := []*Term{x.T, x.A, x.B}[i]
			pp := []*Term{g.prev.T, g.prev.A, g.prev.B}[i]
			c.requires(r, fmt.Sprintf("phase1.Verify, %s: [%s]₁ is the previous one times %s", g.name, secret1[i], secret1[i]), fs, pairEq(px, h, pp, x.XR[i]))
			switch i {
			case 0:
				c.requires(r, fmt.Sprintf("phase1.Verify, %s: [τ]₂ is the previous one times τ", g.name), fs, pairEq(x.SG[0], x.T2, x.SXG[0], g.prev.T2))
			case 2:
				c.requires(r, fmt.Sprintf("phase1.Verify, %s: [β]₂ is the previous one times β", g.name), fs, pairEq(x.SG[2], x.B2, x.SXG[2], g.prev.B2))
			}
		}
		if len(tags) == 3 {
			for i := 0; i < 3; i++ {
				for j := 0; j < i; j++ {
					c.oblige(fmt.Sprintf("phase1.Verify, %s: tags of %s and %s differ", g.name, secret1[j], secret1[i]), tags[i] != tags[j], false, "both use "+show(tags[i]))
				}
			}
		}
		c.requires(r, fmt.Sprintf("phase1.Verify, %s: recorded hash", g.name), fs, beq(x.hash, shaOf(x.points())))
	}
}

func checkC03(c *Ctx) {
	r := c.verify1()
	if !c.need(r) {
		return
	}
	in := ph1{f: r.Args[0]}
	c.requires(r, "phase1.Verify: at least one contribution", r.factsAt(I(0), nil), le0(sub(I(1), in.n())))
	for _, g := range c.regimes1(r)[:2] {
		fs := r.factsAt(g.k, g.facts)
		x := in.con(g.k)
		for i := 0; i < 3; i++ {
			// the challenge, whatever it is made of, is the one its proof uses
			px := []*Term{x.T, x.A, x.B}[i]
			pp := []*Term{g.prev.T, g.prev.A, g.prev.B}[i]
			what := fmt.Sprintf("phase1.Verify, %s: [%s]₁ follows from the starting point", g.name, secret1[i])
			ok := false
			for _, f := range fs {
				if f.Op != "pceq0" {
					continue
				}
				for _, h := range findTerms(f, func(t *Term) bool { return t.Op == "h2g" && t.fbv == 0 }) {
					if f == pairEq(px, h, pp, x.XR[i]) || eqUnder(f, pairEq(px, h, pp, x.XR[i]), g.facts) {
						ok = true
					}
				}
			}
			c.oblige(what, ok, anyUnknown(fs), "no requirement of success relates "+show(px)+" to "+show(pp))
			switch i {
			case 0:
				c.requires(r, fmt.Sprintf("phase1.Verify, %s: [τ]₂ follows from the starting point", g.name), fs, pairEq(x.SG[0], x.T2, x.SXG[0], g.prev.T2))
			case 2:
				c.requires(r, fmt.Sprintf("phase1.Verify, %s: [β]₂ follows from the starting point", g.name), fs, pairEq(x.SG[2], x.B2, x.SXG[2], g.prev.B2))
			}
		}
	}
}

// ---------- random linear combinations

type rlc struct {
	j    family // a point of the left side
	to   family // the point of the right side with the same coefficient
	lit  *Term
	done bool
}

// Takes the requirements of the form e(Σ c·P, x) = e(Σ c·Q, y) apart into
// pairs of points with the same random coefficient. x and y are given for the
// side of the sums (g2: the sums are in G2).
func rlcs(fs []*Term, x, y *Term, g2 bool) (out []rlc, odd []*Term) {
	for _, f := range fs {
		if f.Op != "pceq0" {
			continue
		}
		l, rr := G0, G0
		ok := true
		for _, p := range pairsOf(f) {
			s, o := p.p, p.q
			if g2 {
				s, o = p.q, p.p
			}
			switch {
			case o == x:
				l = gAdd(l, gScale(s, p.c))
			case o == y:
				rr = gAdd(rr, gScale(s, p.c))
			default:
				ok = false
			}
		}
		if !ok {
			continue
		}
		lf, rf := families(l), families(rr)
		used := make([]bool, len(rf))
		bad := false
		var ps []rlc
		for _, a := range lf {
			m := false
			for i, b := range rf {
				if !used[i] && sameBinders(a.bs, b.bs) && fAdd(a.coef, b.coef) == F(0) && (len(a.conds) == 0 && len(b.conds) == 0 || sameConds(a.conds, b.conds)) {
					// several points may share one coefficient: keep those in order
					used[i], m = true, true
					ps = append(ps, rlc{j: a, to: b, lit: f})
					break
				}
			}
			if !m {
				bad = true
			}
		}
		for i := range used {
			if !used[i] {
				bad = true
			}
		}
		if bad || len(ps) == 0 {
			odd = append(odd, f)
			continue
		}
		out = append(out, ps...)
	}
	return
}

// one section of a file: are all its pairs (i, i+shift) tied?
func (c *Ctx) section(r *Run, what string, fs []*Term, rs []rlc, odd []*Term, op string, f, base *Term, stride int64, f2, base2 *Term, m *Term) {
	var cs []cover
	var mine []rlc
	var wrong []string
	for _, q := range rs {
		if q.j.pt.Op != op || q.j.pt.Args[0] != f || len(q.j.pt.Args) != 2 {
			continue
		}
		j, ok := indexOf(q.j.pt.Args[1], base, stride)
		if !ok || len(findTerms(j, func(t *Term) bool { return t.Op == "pow2" || t.Op == "goblen" })) > 0 && !provable(sub(j, m), nil) {
			continue
		}
		want := mk(op, "", SGrp, nil, f2, add(base2, mulc(j, stride)))
		if q.to.pt != want && !eqT(q.to.pt, want) {
			wrong = append(wrong, fmt.Sprintf("%s is paired with %s", show(q.j.pt), show(q.to.pt)))
			continue
		}
		a := randCoef(q.j.coef)
		if a == nil || !injective(a, q.j.bs) {
			wrong = append(wrong, fmt.Sprintf("%s is weighted by %s, which isn't a random value of its own", show(q.j.pt), show(q.j.coef)))
			continue
		}
		clash := false
		for _, o := range mine {
			b := randCoef(o.j.coef)
			if a.Str == b.Str && !apart(a, b) {
				clash = true
				wrong = append(wrong, fmt.Sprintf("%s and %s share their random coefficient %s", show(q.j.pt), show(o.j.pt), show(a)))
			}
		}
		if clash {
			continue
		}
		mine = append(mine, q)
		cs = append(cs, cover{q.j.bs, q.j.conds, j})
	}
	ok, decided := covers(cs, m)
	unk := !decided
	for _, o := range append(append([]*Term{}, odd...), fs...) {
		if unknown(o) {
			unk = true
		}
	}
	d := fmt.Sprintf("the requirements of success don't tie every one of %s points", show(m))
	for _, w := range wrong {
		d += "; " + w
	}
	for _, o := range odd {
		d += "; the two sides of " + show(o) + " don't match"
	}
	c.oblige(what, ok, unk && len(wrong) == 0, d)
}

func checkC02(c *Ctx) {
	r := c.verify1()
	if !c.need(r) {
		return
	}
	fs := c.phase1Sections(r)
	in := ph1{f: r.Args[0]}
	last := in.con(sub(in.n(), I(1)))
	start := func(what string, a, b *Term) {
		c.requires(r, "phase1.Verify: "+what, fs, geq0(gAdd(a, gNeg(b))))
	}
	start("[τ⁰]₁ is the generator", in.tauG1(I(0)), gen1)
	start("[τ⁰]₂ is the generator", in.tauG2(I(0)), gen2)
	start("[ατ⁰]₁ is the last contribution's α", in.alpha(I(0)), last.A)
	start("[βτ⁰]₁ is the last contribution's β", in.beta(I(0)), last.B)
	start("[β]₂ is the last contribution's", in.betaG2(), last.B2)
}

func (c *Ctx) phase1Sections(r *Run) []*Term {
	in := ph1{f: r.Args[0]}
	n, N := in.n(), in.N()
	last := in.con(sub(n, I(1)))
	facts := withLit(nil, le0(sub(I(1), n)))
	fs := r.factsAt(sub(n, I(1)), facts)
	f := r.Args[0]
	rs, odd := rlcs(fs, last.T2, gen2, false)
	rs2, odd2 := rlcs(fs, last.T, gen1, true)
	sec := func(what, op string, first *Term, stride int64, m *Term, rs []rlc, odd []*Term) {
		base := first.Args[1]
		c.section(r, "phase1.Verify: every two consecutive points of "+what+" have ratio τ", fs, rs, odd, op, f, base, stride, f, add(base, I(stride)), m)
	}
	sec("[τⁱ]₁", "rdG1", in.tauG1(I(0)), 32, sub(mulc(N, 2), I(2)), rs, odd)
	sec("[ατⁱ]₁", "rdG1", in.alpha(I(0)), 32, sub(N, I(1)), rs, odd)
	sec("[βτⁱ]₁", "rdG1", in.beta(I(0)), 32, sub(N, I(1)), rs, odd)
	sec("[τⁱ]₂", "rdG2", in.tauG2(I(0)), 64, sub(N, I(1)), rs2, odd2)
	return fs
}

// ---------- phase 1 writers

func (c *Ctx) init1() *Run    { return c.run("phase1", "Initialize", "power", "out") }
func (c *Ctx) contrib1() *Run { return c.run("phase1", "Contribute", "in", "out") }

func be2(t *Term) *Term { return mk("be2", "", SBytes, nil, t) }

func checkC06(c *Ctx) {
	r := c.init1()
	if !c.need(r) {
		return
	}
	N := pow2(r.Args[0])
	same := func(x *Term) func(*Term) *Term { return func(*Term) *Term { return x } }
	c.writes(r, r.Args[1], []want{
		{"C06", "the power", wbytes(byteOf(r.Args[0]))},
		{"C06", "no contributions", wbytes(be2(I(0)))},
		{"C06", "2N-1 generators for [τⁱ]₁", loopW(sub(mulc(N, 2), I(1)), same(wG1(gen1)))},
		{"C06", "N generators for [ατⁱ]₁", loopW(N, same(wG1(gen1)))},
		{"C06", "N generators for [βτⁱ]₁", loopW(N, same(wG1(gen1)))},
		{"C06", "N generators for [τⁱ]₂", loopW(N, same(wG2(gen2)))},
		{"C06", "[β]₂", wG2(gen2)},
	})
}

func checkC07(c *Ctx) {
	r := c.run("phase1", "Transform", "in", "out", "p", "q")
	if !c.need(r) {
		return
	}
	in, p, q := r.Args[0], r.Args[2], r.Args[3]
	N, M := pow2(p), pow2(q)
	// an uncompressed point takes twice the bytes; the hash comes first
	sec := func(base *Term) func(*Term) *Term {
		return func(i *Term) *Term { return wG1(rdG1(in, add(base, mulc(i, rawG1)))) }
	}
	sec2 := func(base *Term) func(*Term) *Term {
		return func(i *Term) *Term { return wG2(rdG2(in, add(base, mulc(i, 2*rawG1)))) }
	}
	b0 := I(64)
	b1 := add(b0, mulc(sub(mulc(N, 2), I(1)), rawG1)) // [τⁱ]₂ comes second in these files
	b2 := add(b1, mulc(N, 2*rawG1))
	b3 := add(b2, mulc(N, rawG1))
	b4 := add(b3, mulc(N, rawG1))
	c.writes(r, r.Args[1], []want{
		{"C07", "the new power", wbytes(byteOf(q))},
		{"C07", "no contributions", wbytes(be2(I(0)))},
		{"C07", "the first 2M-1 [τⁱ]₁", loopW(sub(mulc(M, 2), I(1)), sec(b0))},
		{"C07", "the first M [ατⁱ]₁", loopW(M, sec(b2))},
		{"C07", "the first M [βτⁱ]₁", loopW(M, sec(b3))},
		{"C07", "the first M [τⁱ]₂", loopW(M, sec2(b1))},
		{"C07", "[β]₂", wG2(rdG2(in, b4))},
	})
}

const rawG1 = 64

// the coefficient if t is one random multiple of something
func coefOf(t *Term) *Term {
	es := grpOf(t)
	if len(es) != 1 {
		return nil
	}
	return randCoef(es[0].c)
}

func vote(ts []*Term) *Term {
	var best *Term
	n := map[*Term]int{}
	for _, t := range ts {
		if t == nil {
			continue
		}
		n[t]++
		if best == nil || n[t] > n[best] {
			best = t
		}
	}
	return best
}

func fldAtom(a *Term) *Term { return fMul(F(1), a) }

// every point that is written, at some index of its section
func secretVotes(got []*Term, match func(t *Term) bool) []*Term {
	var out []*Term
	for _, g := range got {
		for _, w := range findTerms(g, func(t *Term) bool { return t.Op == "w" && len(t.Args) == 1 && t.Args[0].Sort == SGrp }) {
			es := grpOf(w.Args[0])
			if len(es) == 1 && match(es[0].b) {
				out = append(out, randCoef(es[0].c))
			}
		}
	}
	return out
}

func recPoint(rec []*Term) func(i int) *Term {
	return func(i int) *Term {
		if t := rec[i]; t.Op == "w" && len(t.Args) == 1 && t.Args[0].Sort == SGrp {
			return t.Args[0]
		}
		return G0
	}
}

// τ, α and β of a contribution: what most of the points depending on each are
// multiplied by
func (c *Ctx) secrets1(r *Run) [3]*Term {
	in := ph1{f: r.Args[0]}
	got := r.content(r.Args[1])
	if len(got) < 20 {
		return [3]*Term{}
	}
	rec := got[len(got)-15:]
	pt := recPoint(rec)
	sect := func(base *Term) *Term { // coefficient of the point at index 0 of a section
		for _, g := range got {
			if ln, body := loopParts(g); ln != nil {
				for _, w := range body(I(0)) {
					if w.Op == "w" && len(w.Args) == 1 && w.Args[0].Sort == SGrp {
						es := grpOf(w.Args[0])
						if len(es) == 1 && es[0].b == base {
							return randCoef(es[0].c)
						}
					}
				}
			}
		}
		return nil
	}
	sect1 := func(base *Term) *Term {
		for _, g := range got {
			if ln, body := loopParts(g); ln != nil {
				for _, w := range body(I(1)) {
					if w.Op == "w" && len(w.Args) == 1 && w.Args[0].Sort == SGrp {
						es := grpOf(w.Args[0])
						if len(es) == 1 && es[0].b == base {
							return randCoef(es[0].c)
						}
					}
				}
			}
		}
		return nil
	}
	return [3]*Term{
		vote([]*Term{sect1(in.tauG1(I(1))), sect1(in.tauG2(I(1))), coefOf(pt(0)), coefOf(pt(3)), coefOf(pt(7))}),
		vote([]*Term{sect(in.alpha(I(0))), coefOf(pt(1)), coefOf(pt(10))}),
		vote([]*Term{sect(in.beta(I(0))), coefOf(pt(2)), coefOf(pt(4)), coefOf(pt(13))}),
	}
}

func (c *Ctx) contribWants1(r *Run) ([]want, bool) {
	in := ph1{f: r.Args[0]}
	n, N := in.n(), in.N()
	got := r.content(r.Args[1])
	if len(got) < 20 {
		c.undecided = append(c.undecided, r.Name+": the output isn't a sequence of known writes")
		if len(got) > 0 && !anyUnknown(got) {
			c.viol = append(c.viol, r.Name+" writes only "+show(wl(got...)))
		}
		return nil, false
	}
	rec := got[len(got)-15:]
	pt := recPoint(rec)
	x := c.secrets1(r)
	var s [3]*Term
	for i := 0; i < 3; i++ {
		s[i] = coefOf(pt(5 + 3*i))
		if x[i] == nil || s[i] == nil {
			unk := anyUnknown(got)
			c.oblige(fmt.Sprintf("%s: a fresh secret %s", r.Name, secret1[i]), false, unk, "the points written aren't multiplied by a random value each")
			return nil, false
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < i; j++ {
			c.oblige(fmt.Sprintf("%s: %s and %s are drawn separately", r.Name, secret1[j], secret1[i]), x[i] != x[j], false, "they are the same random value")
			c.oblige(fmt.Sprintf("%s: blinding scalars of %s and %s are drawn separately", r.Name, secret1[j], secret1[i]), s[i] != s[j], false, "they are the same random value")
		}
	}
	tau, al, be := fldAtom(x[0]), fldAtom(x[1]), fldAtom(x[2])
	w := []want{
		{"C04", "the power", wbytes(byteOf(rdInt(1, in.f, I(0))))},
		{"C05", "the number of contributions, plus one", wbytes(be2(add(n, I(1))))},
		{"C04", "[τⁱ]₁ times τⁱ", loopW(sub(mulc(N, 2), I(1)), func(i *Term) *Term { return wG1(gScale(in.tauG1(i), fPow(tau, i))) })},
		{"C04", "[ατⁱ]₁ times ατⁱ", loopW(N, func(i *Term) *Term { return wG1(gScale(in.alpha(i), fMul(al, fPow(tau, i)))) })},
		{"C04", "[βτⁱ]₁ times βτⁱ", loopW(N, func(i *Term) *Term { return wG1(gScale(in.beta(i), fMul(be, fPow(tau, i)))) })},
		{"C04", "[τⁱ]₂ times τⁱ", loopW(N, func(i *Term) *Term { return wG2(gScale(in.tauG2(i), fPow(tau, i))) })},
		{"C04", "[β]₂ times β", wG2(gScale(in.betaG2(), be))},
		{"C05", "the earlier contributions", mkWloop(n, sym("§i", SInt), wl(append(in.con(sym("§i", SInt)).points(), wbytes(in.con(sym("§i", SInt)).hash))...))},
	}
	cc := con1{
		T: gScale(in.tauG1(I(1)), tau), A: gScale(in.alpha(I(0)), al), B: gScale(in.beta(I(0)), be),
		T2: gScale(in.tauG2(I(1)), tau), B2: gScale(in.betaG2(), be),
	}
	prev := ite(le0(sub(I(1), n)), in.con(sub(n, I(1))).hash, nilBytes)
	tags := c.tags1()
	for i := 0; i < 3; i++ {
		cc.SG[i] = gScale(gen1, fldAtom(s[i]))
		cc.SXG[i] = gScale(gen1, fMul(fldAtom(s[i]), fldAtom(x[i])))
		tag := tags[i]
		if tag == nil {
			tag = byteOf(I(int64(i + 1)))
		}
		h := mk("h2g", "bn254.HashToG2", SGrp, nil, chalData(cc.SG[i], cc.SXG[i], prev), tag)
		for _, o := range findTerms(wl(rec...), func(t *Term) bool { return t.Op == "h2g" }) {
			h = mk("h2g", o.Str, SGrp, nil, h.Args[0], h.Args[1])
			break
		}
		cc.XR[i] = gScale(h, fldAtom(x[i]))
	}
	names := []string{"new τ", "new α", "new β", "new τ in G2", "new β in G2"}
	for i, t := range append(cc.points(), wbytes(shaOf(cc.points()))) {
		nm := "hash of the record"
		if i < 5 {
			nm = names[i]
		} else if i < 14 {
			nm = fmt.Sprintf("%s of the public key of %s", []string{"s·G", "s·x·G", "x·R"}[(i-5)%3], secret1[(i-5)/3])
		}
		w = append(w, want{"C05", nm, t})
	}
	return w, true
}

// the tags phase1.Verify uses
func (c *Ctx) tags1() [3]*Term {
	var out [3]*Term
	r := c.verify1()
	if !r.ok {
		return out
	}
	in := ph1{f: r.Args[0]}
	g := c.regimes1(r)[0]
	fs := r.factsAt(g.k, g.facts)
	x := in.con(g.k)
	for i := 0; i < 3; i++ {
		if h := findChal(fs, chalData(x.SG[i], x.SXG[i], g.prev.hash), g.facts); h != nil {
			out[i] = h.Args[1]
		}
	}
	return out
}

func checkC04(c *Ctx) {
	r := c.contrib1()
	if !c.need(r) {
		return
	}
	if w, ok := c.contribWants1(r); ok {
		c.writes(r, r.Args[1], w)
	}
}

func checkC05(c *Ctx) {
	r := c.contrib1()
	if !c.need(r) {
		return
	}
	if w, ok := c.contribWants1(r); ok {
		c.writes(r, r.Args[1], w)
	}
	n := ph1{f: r.Args[0]}.n()
	fs := r.factsAt(I(0), nil)
	c.oblige(r.Name+": the number of contributions can't wrap around", factsProve(fs, sub(n, I(65534))), anyUnknown(fs), "nothing keeps 65535 contributions from becoming 0")
}

func factsProve(fs []*Term, p *Term) bool {
	m := map[*Term]bool{}
	for _, f := range fs {
		m[f] = true
	}
	return provable(p, m)
}
