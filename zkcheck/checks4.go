package main

import "fmt"

// ---------- phase 2 initialization

func (c *Ctx) init2() *Run { return c.run("phase2", "Initialize", "phase1", "r1cs", "out") }
func (c *Ctx) init2p() *Run {
	return c.run("phase2", "InitializeFromPartedR1CS", "phase1", "session", "out", "nbCons", "nbR1C", "batchSize")
}

func circuitOf(path *Term) *Term { return mk("circuit", "", SOther, nil, path) }

// number of constraints of the circuit
func consOf(circuit *Term) *Term { return mk("nbcons", "", SInt, nil, circuit) }

func checkC14(c *Ctx) {
	a, b := c.init2(), c.init2p()
	if !c.need(a) || !c.need(b) {
		return
	}
	ca, cb := circuitOf(a.Args[1]), circuitOf(b.Args[1])
	fs := b.factsAt(I(0), nil)
	n := consOf(cb)
	c.requires(b, b.Name+": the given number of constraints is the circuit's", fs, eqInt(b.Args[3], n))
	for _, e := range b.ev.events {
		if e.kind == "load parts" {
			for i, want := range []*Term{b.Args[1], b.Args[4], b.Args[5]} {
				c.oblige(fmt.Sprintf("%s reads the parts of the circuit: the %s it is given", b.Name, []string{"session", "number of constraints in parts", "size of a part"}[i]), e.args[i] == want, unknown(e.args[i]), "it uses "+show(e.args[i])+c.where(e.pos))
			}
		}
	}
	// what the second writes, when it succeeds, for the same circuit
	m := map[*Term]*Term{cb: ca, b.Args[3]: consOf(ca)}
	for _, f := range []*Term{a.Args[2], str("srs.lag"), str("evals")} {
		wantd := a.content(f)
		var spec []want
		for i, w := range wantd {
			spec = append(spec, want{"C14", fmt.Sprintf("part %d (%s) as the regular initialization does", i+1, short(w)), w})
		}
		var got []*Term
		for _, w := range b.content(f) {
			got = append(got, subst(subst(w, m), m))
		}
		if len(spec) == 0 {
			c.oblige(a.Name+" writes "+show(f), false, false, "it writes nothing")
			continue
		}
		c.compare(b, f, explode(got), spec)
	}
}

func checkC17(c *Ctx) {
	for _, r := range []*Run{c.init2(), c.init2p()} {
		if !c.need(r) {
			continue
		}
		fs := r.factsAt(I(0), nil)
		n := consOf(circuitOf(r.Args[1]))
		power := rdInt(1, r.Args[0], I(0))
		fits := sub(n, pow2(power))
		c.oblige(r.Name+": it fails if the circuit has more constraints than phase 1 supports", factsProve(fs, fits) || factsProve(substAll(fs, eqSubst(fs)), subst(fits, eqSubst(fs))), anyUnknown(fs), "success doesn't require "+show(le0(sub(n, pow2(power)))))
		// the smallest power of two of at least 2
		facts := map[*Term]bool{}
		for _, f := range fs {
			facts[f] = true
		}
		got := r.content(r.Args[2])
		var dom *Term
		if len(got) > 0 && got[0].Op == "w" && len(got[0].Args) == 1 && got[0].Args[0].Op == "struct" && len(got[0].Args[0].Args) == 7 {
			dom = got[0].Args[0].Args[5]
		}
		if dom == nil {
			c.oblige(r.Name+": domain in the header", false, anyUnknown(got), "it writes no header")
			continue
		}
		want := mk("np2", "", SInt, nil, n)
		ok := eqUnder(dom, want, facts)
		if !ok {
			ok = eqT(subst(dom, eqSubst(fs)), subst(want, eqSubst(fs)))
		}
		c.oblige(r.Name+": the domain is the smallest power of two, at least 2, that fits the constraints", ok, unknown(dom), "the domain is "+show(dom))
	}
	if r := c.contrib1(); c.need(r) {
		n := ph1{f: r.Args[0]}.n()
		fs := r.factsAt(I(0), nil)
		c.oblige(r.Name+": the number of contributions can't wrap around", factsProve(fs, sub(n, I(65534))), anyUnknown(fs), "nothing keeps 65535 contributions from becoming 0")
	}
	c.cliRanges()
}

// equalities between a symbol and something else, as a substitution
func eqSubst(fs []*Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, f := range fs {
		if f.Op != "eq0" {
			continue
		}
		for _, s := range findTerms(f, func(t *Term) bool { return t.Op == "sym" && t.Sort == SInt }) {
			for _, k := range []*Term{add(s, f.Args[0]), sub(s, f.Args[0])} {
				if !contains(k, s) {
					m[s] = k
				}
			}
		}
	}
	return m
}

// ---------- keys

type evals struct {
	f *Term
	w *Term // wires
}

func (x evals) alpha1() *Term { return rdG1(x.f, I(0)) }
func (x evals) beta1() *Term  { return rdG1(x.f, I(32)) }
func (x evals) beta2() *Term  { return rdG2(x.f, I(64)) }
func (x evals) A(i *Term) *Term {
	return rdG1(x.f, add(I(132), mulc(i, 32)))
}
func (x evals) B(i *Term) *Term {
	return rdG1(x.f, add(I(136), mulc(x.w, 32), mulc(i, 32)))
}
func (x evals) B2(i *Term) *Term {
	return rdG2(x.f, add(I(140), mulc(x.w, 64), mulc(i, 64)))
}
func slenAt(f, pos *Term) *Term   { return mk("slen", "", SInt, nil, f, pos) }
func (x evals) vkkPos() *Term     { return add(I(140), mulc(x.w, 128)) }
func (x evals) nVKK() *Term       { return slenAt(x.f, x.vkkPos()) }
func (x evals) VKK(i *Term) *Term { return rdG1(x.f, add(x.vkkPos(), I(4), mulc(i, 32))) }
func (x evals) ckkPos() *Term     { return add(x.vkkPos(), I(4), mulc(x.nVKK(), 32)) }
func (x evals) nCKK() *Term       { return slenAt(x.f, x.ckkPos()) }
func (x evals) CKK(i *Term) *Term { return rdG1(x.f, add(x.ckkPos(), I(4), mulc(i, 32))) }
func (x evals) commitmentInfo() *Term {
	return mk("gob", "", SOther, nil, x.f, add(x.ckkPos(), I(4), mulc(x.nCKK(), 32)))
}

func wItem2(kind string, n *Term, f func(i *Term) *Term) *Term {
	v := sym("§i", SInt)
	return mk("w", kind, SOther, nil, n, bindMark(v, f(v)))
}

// the elements of a sequence satisfying a condition
func filtered(kind string, n *Term, el func(i *Term) *Term, keep func(t *Term) *Term) *Term {
	v := sym("§i", SInt)
	return wItem2(kind, mkCnt(n, v, keep(el(v))), func(i *Term) *Term { return el(mkNth(v, keep(el(v)), i)) })
}

func notInf(t *Term) *Term { return not(geq0(t)) }

type keyParts struct {
	domain, domain8, alpha1, beta1, delta1, A, B, Z, K, beta2, delta2, B2, wires, nbA, nbB, infA, infB *Term
}

func pkParts(in, ev *Term, raw bool) keyParts {
	x := ph2{in}
	e := evals{ev, x.hdr("Wires")}
	r := "c"
	if raw {
		r = "r"
	}
	v := sym("§i", SInt)
	g1 := func(t *Term) *Term { return wItem("G1"+r, t) }
	g2 := func(t *Term) *Term { return wItem("G2"+r, t) }
	inf := func(f func(i *Term) *Term) (*Term, *Term) {
		return wItem("be8", mkCnt(e.w, v, geq0(f(v)))), wItem2("bools", e.w, func(i *Term) *Term { return geq0(f(i)) })
	}
	k := keyParts{
		domain: wItem("domain", mk("domain", "", SOther, nil, x.hdr("Domain"))), domain8: wItem("be8", x.hdr("Domain")),
		alpha1: g1(e.alpha1()), beta1: g1(e.beta1()), delta1: g1(x.delta1()), beta2: g2(e.beta2()), delta2: g2(x.delta2()),
		A: filtered("G1s"+r, e.w, e.A, notInf), B: filtered("G1s"+r, e.w, e.B, notInf), B2: filtered("G2s"+r, e.w, e.B2, notInf),
		Z: wItem2("G1s"+r, sub(x.hdr("Domain"), I(1)), x.Z), K: wItem2("G1s"+r, x.hdr("Witness"), x.PKK),
		wires: wItem("be8", e.w),
	}
	k.nbA, k.infA = inf(e.A)
	k.nbB, k.infB = inf(e.B)
	return k
}

func checkC18(c *Ctx) {
	w := func(what string, t *Term) want { return want{"C18", what, t} }
	if r := c.run("keys", "ExtractKeys", "in"); c.need(r) {
		k := pkParts(r.Args[0], str("evals"), false)
		c.writes(r, str("pk"), []want{
			w("the domain", k.domain), w("[α]₁", k.alpha1), w("[β]₁", k.beta1), w("[δ]₁ of phase 2", k.delta1),
			w("A without infinities", k.A), w("B without infinities", k.B), w("Z", k.Z), w("the private section", k.K),
			w("[β]₂", k.beta2), w("[δ]₂ of phase 2", k.delta2), w("B in G2 without infinities", k.B2),
			w("number of wires", k.wires), w("number of infinities of A", k.nbA), w("number of infinities of B", k.nbB),
			w("infinities of A", k.infA), w("infinities of B", k.infB),
		})
	}
	if r := c.run("keys", "ExtractSplitKeys", "in", "session"); c.need(r) {
		k := pkParts(r.Args[0], str("evals"), true)
		f := func(s string) *Term { return strcat(r.Args[1], str(s)) }
		c.writes(r, f(".pk.E.save"), []want{
			w("the size of the domain", k.domain8), w("[α]₁", k.alpha1), w("[β]₁", k.beta1), w("[δ]₁ of phase 2", k.delta1),
			w("[β]₂", k.beta2), w("[δ]₂ of phase 2", k.delta2),
			w("number of wires", k.wires), w("number of infinities of A", k.nbA), w("number of infinities of B", k.nbB),
			w("infinities of A", k.infA), w("infinities of B", k.infB),
		})
		c.writes(r, f(".pk.A.save"), []want{w("A without infinities", k.A)})
		c.writes(r, f(".pk.B1.save"), []want{w("B without infinities", k.B)})
		c.writes(r, f(".pk.Z.save"), []want{w("Z", k.Z)})
		c.writes(r, f(".pk.K.save"), []want{w("the private section", k.K)})
		c.writes(r, f(".pk.B2.save"), []want{w("B in G2 without infinities", k.B2)})
	}
}

func checkC19(c *Ctx) {
	w := func(what string, t *Term) want { return want{"C19", what, t} }
	vk := func(r *Run, path *Term) []want {
		x := ph2{r.Args[0]}
		e := evals{str("evals"), x.hdr("Wires")}
		key := c.commitmentKey(r, path, e)
		return []want{
			w("the commitment key", key), w("[α]₁", wItem("G1r", e.alpha1())), w("[β]₁", wItem("G1r", e.beta1())),
			w("[β]₂", wItem("G2r", e.beta2())), w("[γ]₂, the generator", wItem("G2r", gen2)),
			w("[δ]₁ of phase 2", wItem("G1r", x.delta1())), w("[δ]₂ of phase 2", wItem("G2r", x.delta2())),
			w("the public section", wItem2("G1sr", e.nVKK(), e.VKK)), w("the commitment's description", wItem("gob", e.commitmentInfo())),
		}
	}
	if r := c.run("keys", "ExtractKeys", "in"); c.need(r) {
		c.writes(r, str("vk"), vk(r, str("vk")))
	}
	if r := c.run("keys", "ExtractSplitKeys", "in", "session"); c.need(r) {
		path := strcat(r.Args[1], str(".vk.save"))
		spec := vk(r, path)
		c.writes(r, path, spec)
		c.writes(r, strcat(r.Args[1], str(".pk.CommitmentKey.save")), []want{w("the commitment key of the verifying key, once", spec[0].t)})
	}
}

// the commitment key made of the commitment section, by whichever call
func (c *Ctx) commitmentKey(r *Run, path *Term, e evals) *Term {
	v := sym("§i", SInt)
	arr := mk("arr", "", SOther, nil, e.nCKK(), bindMark(v, e.CKK(v)))
	key := "?"
	for _, g := range r.content(path) {
		for _, p := range findTerms(g, func(t *Term) bool { return t.Op == "pedersen" }) {
			key = p.Str
		}
	}
	return wItem("pedersenKey", mk("pedersen", key, SOther, nil, arr))
}

// ---------- parameters of the circuit

type circ struct {
	cs, phase1 *Term
}

func cf(n string, s Sort, of *Term) *Term { return fieldOf(n, s, of) }

func (x circ) info() *Term { return fieldOf("CommitmentInfo", SOther, x.cs) }
func (x circ) sys(n string) *Term {
	return mk("sys", n, SInt, nil, x.cs)
}
func (x circ) public() *Term   { return x.sys("NbPublicVariables") }
func (x circ) secret() *Term   { return x.sys("NbSecretVariables") }
func (x circ) internal() *Term { return fieldOf("NbInternalVariables", SInt, x.cs) }
func (x circ) wires() *Term    { return add(x.public(), x.secret(), x.internal()) }
func (x circ) committed() *Term {
	return fieldOf("NbPrivateCommitted", SInt, x.info())
}
func (x circ) hasCmt() *Term   { return mk("cmtIs", "", SBool, nil, x.info()) }
func (x circ) cmtIndex() *Term { return fieldOf("CommitmentIndex", SInt, x.info()) }
func (x circ) member(u *Term) *Term {
	return mk("member", "", SBool, nil, mk("privCommitted", "", SOther, nil, x.info()), x.committed(), u)
}
func (x circ) cons() *Term { return consOf(x.cs) }
func (x circ) n() *Term    { return mk("np2", "", SInt, nil, x.cons()) }

// sizes of the private, public and commitment sections
func (x circ) sizes() [3]*Term {
	one := func(v int64) *Term { return ite(x.hasCmt(), I(v), I(0)) }
	return [3]*Term{
		add(sub(add(x.internal(), x.secret()), x.committed()), one(-1)),
		add(x.public(), one(1)),
		x.committed(),
	}
}

var sectionName = [3]string{"private section", "public section", "commitment section"}

// which wires go to which section
func (x circ) wants(u *Term) [3]*Term {
	isC := and(x.hasCmt(), eqInt(u, x.cmtIndex()))
	pub := or(lt(u, x.public()), isC)
	m := x.member(u)
	return [3]*Term{and(not(m), not(pub)), and(not(m), pub), m}
}

// every possible kind of wire: values of the four facts that matter
func (x circ) kinds(u *Term, f func(under func(*Term) *Term)) {
	at := []*Term{x.hasCmt(), x.member(u), le0(sub(x.public(), u)), eqInt(u, x.cmtIndex())}
	for k := 0; k < 16; k++ {
		cmt, mem, priv, idx := k&1 != 0, k&2 != 0, k&4 != 0, k&8 != 0
		if mem && (!cmt || !priv || idx) || cmt && idx && !priv {
			continue
		}
		vals := []bool{cmt, mem, priv, idx}
		f(func(t *Term) *Term {
			for i, a := range at {
				t = assignAtom(t, a, vals[i])
			}
			return t
		})
	}
}

// do two values depending on the kind of wire u agree?
func (x circ) agree(u, a, b *Term) bool {
	ok := true
	x.kinds(u, func(under func(*Term) *Term) {
		p, q := under(a), under(b)
		if p != q && !eqT(p, q) {
			ok = false
		}
	})
	return ok
}

// is t the number of wires satisfying lam?
func (x circ) counts(t *Term, lam *Term) bool {
	u := freshIdx()
	d := I(0)
	m := map[*Term]*Term{}
	for _, k := range findTerms(t, func(v *Term) bool { return v.Op == "cnt" && v.fbv == 0 }) {
		if k.Args[0] != x.wires() {
			return false
		}
		m[k] = ite(applyLam(k.Args[1], u), I(1), I(0))
	}
	if len(m) == 0 {
		return false
	}
	m[x.internal()] = sub(I(1), add(x.public(), x.secret())) // one wire
	d = sub(subst(t, m), ite(applyLam(lam, u), I(1), I(0)))
	return x.agree(u, d, I(0))
}

// Σ over the constraints' terms for wire u at the Lagrange points of a section
func (x circ) poly(side string, u *Term, g string, lagr *Term) *Term {
	k, t := sym("§k", SInt), sym("§t", SInt)
	cons := mk("constr", "", SOther, nil, x.cs, k)
	le := fieldOf(side, SOther, cons)
	term := mkSel(SOther, le, t)
	coef := mkSel(SField, fieldOf("Coefficients", SOther, x.cs), mk("cid", "", SInt, nil, term))
	pt := mkLagr(g, x.n(), mk("domain", "", SOther, nil, x.n()), lagr, k)
	body := gScale(ite(eqInt(mk("wid", "", SInt, nil, term), u), pt, G0), coef)
	inner := mkSum(mk("len", "", SInt, nil, le), t, body)
	return mkSum(x.cons(), k, inner)
}

func (x circ) lagr(section int) *Term {
	p := ph1{f: x.phase1}
	v := sym("§i", SInt)
	var e *Term
	switch section {
	case 0: // τ; file positions don't depend on the power
		e = p.tauG1(v)
	case 1:
		e = p.alpha(v)
	case 2:
		e = p.beta(v)
	default:
		e = p.tauG2(v)
	}
	return bindMark(v, e)
}

func (x circ) K(u *Term) *Term {
	return gAdd(gAdd(x.poly("O", u, "1", x.lagr(0)), x.poly("R", u, "1", x.lagr(1))), x.poly("L", u, "1", x.lagr(2)))
}

// one section of witness polynomials as it was written
type wireSection struct {
	n, el *Term // number of elements, and element §x
	cond  *Term // (nil: every element) the condition for element §x to be one
	lam   *Term // the condition of the wires that go there
	idx   *Term
	val   *Term // the polynomial of wire §u
	why   string
	unk   bool
}

var secU = sym("§u", SInt)

func takeSection(n, el *Term) wireSection {
	s := wireSection{n: n, el: el, unk: unknown(el) || unknown(n)}
	v := el
	if v.Op == "ite" && v.Args[2] == G0 {
		s.cond, v = v.Args[0], v.Args[1]
	}
	nths := findTerms(v, func(t *Term) bool { return t.Op == "nth" })
	for _, t := range nths {
		if s.lam == nil {
			s.lam, s.idx = t.Args[0], t.Args[1]
		} else if s.lam != t.Args[0] || s.idx != t.Args[1] {
			s.why = "its elements aren't those of wires selected one after the other"
			return s
		}
	}
	if s.lam == nil {
		s.why = "its elements aren't those of selected wires: " + show(el)
		return s
	}
	m := map[*Term]*Term{}
	for _, t := range nths {
		m[t] = secU
	}
	s.val = subst(v, m)
	return s
}

func isWl(t *Term, kind string) bool { return t.Op == "w" && t.Str == kind && len(t.Args) == 2 }

// the three sections of what an initialization writes; nil if it isn't known
func (c *Ctx) sections2(r *Run) (hdr []*Term, secs [3]wireSection, ok bool) {
	got := r.content(r.Args[2])
	if len(got) == 0 || got[0].Op != "w" || got[0].Str != "gob" || got[0].Args[0].Op != "struct" || len(got[0].Args[0].Args) != 7 {
		c.oblige(r.Name+" writes "+show(r.Args[2])+": a header", false, anyUnknown(got), "it writes "+short(wl(got...)))
		return
	}
	hdr = got[0].Args[0].Args
	ev := r.content(str("evals"))
	last := got[len(got)-1]
	n, body := loopParts(last)
	good := true
	if n != nil && len(got) >= 3 {
		if b := body(xs); len(b) == 1 && b[0].Op == "w" && b[0].Str == "G1c" {
			secs[0] = takeSection(n, b[0].Args[0])
		} else {
			good = false
		}
	} else {
		good = false
	}
	if !good {
		c.oblige(r.Name+" writes "+show(r.Args[2])+": the private section", false, anyUnknown(got), "the file ends with "+short(last))
		return
	}
	if len(ev) < 3 || !isWl(ev[len(ev)-3], "G1sc") || !isWl(ev[len(ev)-2], "G1sc") {
		c.oblige(r.Name+" writes evals: the public and the commitment section", false, anyUnknown(ev), "it ends with "+short(wl(ev...)))
		return
	}
	for i, w := range []*Term{ev[len(ev)-3], ev[len(ev)-2]} {
		secs[i+1] = takeSection(w.Args[0], applyLam(w.Args[1], xs))
	}
	return hdr, secs, true
}

func (c *Ctx) inits() []*Run { return []*Run{c.init2(), c.init2p()} }

func checkC15(c *Ctx) {
	for _, r := range c.inits() {
		if !c.need(r) {
			continue
		}
		if sized != nil {
			c.sectionsSized(r)
			continue
		}
		hdr, secs, ok := c.sections2(r)
		if !ok {
			continue
		}
		x := circ{circuitOf(r.Args[1]), r.Args[0]}
		sz := x.sizes()
		names := [4]string{"Wires", "Witness", "Public", "PrivateCommitted"}
		for i, w := range append([]*Term{x.wires()}, sz[:]...) {
			same := eqT(hdr[i], w)
			if !same && i > 0 {
				same = x.counts(hdr[i], bindMark(secU, x.wants(secU)[i-1]))
			}
			c.oblige(r.Name+": the header announces the right "+names[i], same, unknown(hdr[i]), "it announces "+show(hdr[i])+" instead of "+show(w))
		}
		u := freshIdx()
		setBounds(u, []*Term{I(0)}, []*Term{sub(x.wires(), I(1))})
		for i, s := range secs {
			nm := r.Name + ": " + sectionName[i]
			if s.why != "" {
				c.oblige(nm+" has the polynomials of selected wires", false, s.unk, s.why)
				continue
			}
			c.oblige(nm+" has exactly its wires", x.agree(u, applyLam(s.lam, u), x.wants(u)[i]), unknown(s.lam), "the wires that go there are those with "+show(applyLam(s.lam, sym("wire", SInt)))+" instead of "+show(x.wants(sym("wire", SInt))[i]))
			c.oblige(nm+" is in increasing order of wires, without gaps", s.idx == xs, unknown(s.idx), "element i is the wire number "+show(s.idx))
			full := eqT(s.n, sz[i]) || x.counts(s.n, s.lam)
			c.oblige(nm+" has as many elements as announced", full, unknown(s.n), "it has "+show(s.n)+" elements instead of "+show(sz[i]))
			if s.cond != nil {
				// §x < number of wires
				k := TFalse
				if s.cond.Op == "le0" {
					k = sub(add(xs, I(1)), s.cond.Args[0])
				}
				c.oblige(nm+" has no other elements", k != TFalse && (eqT(k, sz[i]) || x.counts(k, s.lam)), unknown(s.cond), "element i is the polynomial of a wire only if "+show(s.cond))
			}
		}
		ev := r.content(str("evals"))
		ci := wItem("gob", x.info())
		c.oblige(r.Name+" writes evals: the circuit's description of the commitment", eqT(ev[len(ev)-1], ci), unknown(ev[len(ev)-1]), "it ends with "+show(ev[len(ev)-1]))
	}
}

func checkC13(c *Ctx) {
	for _, r := range c.inits() {
		if !c.need(r) {
			continue
		}
		if sized != nil {
			c.sectionsSized(r)
			continue
		}
		hdr, secs, ok := c.sections2(r)
		if !ok {
			continue
		}
		x := circ{circuitOf(r.Args[1]), r.Args[0]}
		sub1 := func(t *Term) *Term { return t }
		if r.Name == "phase2.InitializeFromPartedR1CS" { // the given number of constraints is required to be the circuit's
			m := eqSubst(r.factsAt(I(0), nil))
			sub1 = func(t *Term) *Term { return subst(t, m) }
		}
		c.oblige(r.Name+": the header has the number of constraints", eqT(sub1(hdr[4]), x.cons()), unknown(hdr[4]), "it has "+show(hdr[4]))
		c.oblige(r.Name+": the header has no contributions", eqT(hdr[6], I(0)), unknown(hdr[6]), "it has "+show(hdr[6]))
		p := ph1{f: x.phase1}
		n := x.n()
		got := r.content(r.Args[2])
		for i, g := range got {
			got[i] = sub1(g)
		}
		Z := loopW(sub(n, I(1)), func(i *Term) *Term {
			j := mkRev(n, i)
			return wG1(gAdd(p.tauG1(add(n, j)), gNeg(p.tauG1(j))))
		})
		w := func(what string, t *Term) want { return want{"C13", what, t} }
		c.compare(r, r.Args[2], got[1:len(got)-1], []want{
			w("[δ]₁ is the generator", wG1(gen1)), w("[δ]₂ is the generator", wG2(gen2)),
			w("Z in bit-reversed order", Z),
		})
		ev := r.content(str("evals"))
		for i, g := range ev {
			ev[i] = sub1(g)
		}
		side := func(s, g string, l int) *Term {
			return wItem2("G"+g+"sc", x.wires(), func(i *Term) *Term { return x.poly(s, i, g, x.lagr(l)) })
		}
		c.compare(r, str("evals"), ev[:len(ev)-3], []want{
			w("[α]₁ of phase 1", wG1(p.alpha(I(0)))), w("[β]₁ of phase 1", wG1(p.beta(I(0)))), w("[β]₂ of phase 1", wG2(p.betaG2())),
			w("A from the left terms", side("L", "1", 0)), w("B from the right terms", side("R", "1", 0)), w("B in G2 from the right terms", side("R", "2", 3)),
		})
		for i, s := range secs {
			nm := r.Name + ": polynomials of the " + sectionName[i]
			if s.why != "" {
				c.oblige(nm, false, true, s.why)
				continue
			}
			v := sub1(s.val)
			c.oblige(nm+" are output·τ + right·ατ + left·βτ", eqT(v, x.K(secU)), unknown(v), "the polynomial of wire u is "+show(v)+" instead of "+show(x.K(secU)))
		}
	}
}
