package main

import "fmt"

// ---------- phase 2 files

type ph2 struct{ f *Term }

func (x ph2) hdr(n string) *Term {
	return fieldOf(n, SInt, mk("gob", "", SOther, nil, x.f, I(0)))
}
func (x ph2) g0() *Term { return mk("goblen", "", SInt, nil, x.f, I(0)) }
func (x ph2) at(o int64, i *Term) *Term {
	return add(x.g0(), I(o), mulc(i, 32))
}
func (x ph2) delta1() *Term     { return rdG1(x.f, x.g0()) }
func (x ph2) delta2() *Term     { return rdG2(x.f, x.at(32, I(0))) }
func (x ph2) Z(i *Term) *Term   { return rdG1(x.f, x.at(96, i)) }
func (x ph2) PKK(i *Term) *Term { return rdG1(x.f, x.at(64, add(x.hdr("Domain"), i))) }

type con2 struct{ D, SG, SXG, XR, hash *Term }

func (x ph2) con(k *Term) con2 {
	b := add(x.at(64, add(x.hdr("Domain"), x.hdr("Witness"))), mulc(k, 192))
	g1 := func(o int64) *Term { return rdG1(x.f, add(b, I(o))) }
	return con2{g1(0), g1(32), g1(64), rdG2(x.f, add(b, I(96))), rdBytes(x.f, add(b, I(160)), I(32))}
}
func (c con2) points() []*Term { return []*Term{wG1(c.D), wG1(c.SG), wG1(c.SXG), wG2(c.XR)} }

var hdrFields = []string{"Wires", "Witness", "Public", "PrivateCommitted", "Constraints", "Domain"}

func (c *Ctx) verify2() *Run { return c.run("phase2", "Verify", "in", "origin") }

// the dimensions of the two files are the same: use those of the first
func sameDims(a, b ph2) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, h := range hdrFields {
		m[b.hdr(h)] = a.hdr(h)
	}
	return m
}

func substAll(ts []*Term, m map[*Term]*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		out = append(out, conj(subst(t, m))...)
	}
	return out
}

func (c *Ctx) headersEqual(r *Run, report bool) bool {
	in, or := ph2{r.Args[0]}, ph2{r.Args[1]}
	fs := r.factsAt(I(0), nil)
	all := true
	for _, h := range hdrFields {
		t := eqInt(in.hdr(h), or.hdr(h))
		ok := holds(fs, t)
		all = all && ok
		if report {
			c.requires(r, "phase2.Verify: both files have the same "+h, fs, t)
		}
	}
	return all
}

type regime2 struct {
	name  string
	k     *Term
	facts map[*Term]bool
	prev  con2
}

func (c *Ctx) regimes2(r *Run) []regime2 {
	in, or := ph2{r.Args[0]}, ph2{r.Args[1]}
	n := in.hdr("Contributions")
	k := freshIdx()
	setBounds(k, []*Term{I(1)}, []*Term{sub(n, I(1))})
	any := le0(sub(I(1), n))
	later := withLit(withLit(withLit(nil, any), le0(sub(I(1), k))), le0(add(sub(k, n), I(1))))
	rs := []regime2{{"the first contribution", I(0), withLit(nil, any), con2{D: or.delta1()}}}
	if nn, ok := constI(n); ok { // at a fixed size: the last contribution
		if nn == 1 {
			return rs
		}
		k = I(nn - 1)
	}
	return append(rs, regime2{"a later contribution", k, later, in.con(sub(k, I(1)))})
}

func (c *Ctx) facts2(r *Run, k *Term, facts map[*Term]bool) []*Term {
	fs := r.factsAt(k, facts)
	if c.headersEqual(r, false) {
		fs = append(fs, substAll(fs, sameDims(ph2{r.Args[0]}, ph2{r.Args[1]}))...)
	}
	return fs
}

func checkC08(c *Ctx) {
	r := c.verify2()
	if !c.need(r) {
		return
	}
	in := ph2{r.Args[0]}
	n := in.hdr("Contributions")
	for _, g := range c.regimes2(r) {
		fs := c.facts2(r, g.k, g.facts)
		x := in.con(g.k)
		h := findChal(fs, chalData(x.SG, x.SXG, g.prev.hash), g.facts)
		what := "phase2.Verify, " + g.name
		if h == nil {
			c.oblige(what+": challenge of the proof", false, anyUnknown(fs), "no requirement of success uses a challenge made of the public key and the hash of the previous contribution")
		} else {
			c.oblige(what+": challenge of the proof has a constant tag", constTag(h.Args[1]), unknown(h.Args[1]), "the tag is "+show(h.Args[1]))
			c.requires(r, what+": proof of knowledge of δ", fs, pairEq(x.SG, x.XR, x.SXG, h))
			c.requires(r, what+": [δ]₁ is the previous one times δ", fs, pairEq(x.D, h, g.prev.D, x.XR))
		}
		c.requires(r, what+": recorded hash", fs, beq(x.hash, shaOf(x.points())))
	}
	fs := c.facts2(r, sub(n, I(1)), withLit(nil, le0(sub(I(1), n))))
	c.requires(r, "phase2.Verify: at least one contribution", r.factsAt(I(0), nil), le0(sub(I(1), n)))
	c.requires(r, "phase2.Verify: the last δ is the one in the parameters", fs, geq0(gAdd(in.delta1(), gNeg(in.con(sub(n, I(1))).D))))
}

func checkC09(c *Ctx) {
	r := c.verify2()
	if !c.need(r) {
		return
	}
	in, or := ph2{r.Args[0]}, ph2{r.Args[1]}
	c.headersEqual(r, true)
	fs := c.phase2Sections(r)
	c.requires(r, "phase2.Verify: [δ]₁ and [δ]₂ agree relative to the origin", fs, pairEq(or.delta1(), in.delta2(), in.delta1(), or.delta2()))
}

func (c *Ctx) phase2Sections(r *Run) []*Term {
	in, or := ph2{r.Args[0]}, ph2{r.Args[1]}
	m := sameDims(in, or)
	fs := c.facts2(r, I(0), withLit(nil, le0(sub(I(1), in.hdr("Contributions")))))
	rs, odd := rlcs(fs, in.delta2(), or.delta2(), false)
	c.section(r, "phase2.Verify: every point of Z is the origin's divided by δ", fs, rs, odd, "rdG1", in.f, in.Z(I(0)).Args[1], 32, or.f, subst(or.Z(I(0)).Args[1], m), sub(in.hdr("Domain"), I(1)))
	c.section(r, "phase2.Verify: every point of the private section is the origin's divided by δ", fs, rs, odd, "rdG1", in.f, in.PKK(I(0)).Args[1], 32, or.f, subst(or.PKK(I(0)).Args[1], m), in.hdr("Witness"))
	return fs
}

func (c *Ctx) contrib2() *Run { return c.run("phase2", "Contribute", "in", "out") }

func (c *Ctx) tag2() *Term {
	r := c.verify2()
	if !r.ok {
		return nil
	}
	g := c.regimes2(r)[0]
	x := ph2{r.Args[0]}.con(g.k)
	if h := findChal(r.factsAt(g.k, g.facts), chalData(x.SG, x.SXG, g.prev.hash), g.facts); h != nil {
		return h.Args[1]
	}
	return nil
}

func ptCoef(t *Term) *Term {
	if t.Op == "w" && len(t.Args) == 1 && t.Args[0].Sort == SGrp {
		return coefOf(t.Args[0])
	}
	return nil
}

// δ of a contribution
func (c *Ctx) secret2(r *Run) *Term {
	got := r.content(r.Args[1])
	if len(got) < 9 {
		return nil
	}
	rec := got[len(got)-5:]
	return vote([]*Term{ptCoef(got[1]), ptCoef(got[2]), ptCoef(rec[0]), ptCoef(rec[3])})
}

func checkC10(c *Ctx) {
	r := c.contrib2()
	if !c.need(r) {
		return
	}
	in := ph2{r.Args[0]}
	n := in.hdr("Contributions")
	got := r.content(r.Args[1])
	if len(got) < 9 {
		c.oblige(r.Name+": the output is a complete file", false, anyUnknown(got), "it writes only "+show(wl(got...)))
		return
	}
	rec := got[len(got)-5:]
	d := c.secret2(r)
	s := ptCoef(rec[1])
	if d == nil || s == nil {
		c.oblige(r.Name+": a fresh secret δ", false, anyUnknown(got), "the points written aren't multiplied by a random value")
		return
	}
	c.oblige(r.Name+": the blinding scalar isn't δ", s != d, false, "they are the same random value")
	de := fldAtom(d)
	inv := fInv(de)
	var hs []*Term
	for _, h := range hdrFields {
		hs = append(hs, in.hdr(h))
	}
	hs = append(hs, add(n, I(1)))
	tn := "phase2.Header"
	if got[0].Op == "w" && len(got[0].Args) == 1 && got[0].Args[0].Op == "struct" {
		tn = got[0].Args[0].Str
	}
	v := sym("§i", SInt)
	w := []want{
		{"C10", "the header with one contribution more", wItem("gob", mk("struct", tn, SOther, nil, hs...))},
		{"C10", "[δ]₁ times δ", wG1(gScale(in.delta1(), de))},
		{"C10", "[δ]₂ times δ", wG2(gScale(in.delta2(), de))},
		{"C10", "Z divided by δ", loopW(sub(in.hdr("Domain"), I(1)), func(i *Term) *Term { return wG1(gScale(in.Z(i), inv)) })},
		{"C10", "the private section divided by δ", loopW(in.hdr("Witness"), func(i *Term) *Term { return wG1(gScale(in.PKK(i), inv)) })},
		{"C10", "the earlier contributions", mkWloop(n, v, wl(append(in.con(v).points(), wbytes(in.con(v).hash))...))},
	}
	cc := con2{D: gScale(in.delta1(), de), SG: gScale(gen1, fldAtom(s)), SXG: gScale(gen1, fMul(fldAtom(s), de))}
	tag := c.tag2()
	hn := "bn254.HashToG2"
	for _, o := range findTerms(wl(rec...), func(t *Term) bool { return t.Op == "h2g" }) {
		hn = o.Str
		if tag == nil {
			tag = o.Args[1]
		}
	}
	if tag == nil {
		tag = byteOf(I(1))
	}
	prev := ite(le0(sub(I(1), n)), in.con(sub(n, I(1))).hash, nilBytes)
	cc.XR = gScale(mk("h2g", hn, SGrp, nil, chalData(cc.SG, cc.SXG, prev), tag), de)
	for i, t := range append(cc.points(), wbytes(shaOf(cc.points()))) {
		w = append(w, want{"C10", []string{"new δ", "s·G of the public key", "s·δ·G of the public key", "δ·R of the public key", "hash of the record"}[i], t})
	}
	c.writes(r, r.Args[1], w)
}

// ---------- hashes and challenges of both phases

func checkC11(c *Ctx) {
	type contrib struct {
		r    *Run
		keys int
		rec  int // points of a record
		prev *Term
		n    *Term
	}
	var cs []contrib
	r1, r2 := c.contrib1(), c.contrib2()
	if c.need(r1) {
		x := ph1{f: r1.Args[0]}
		cs = append(cs, contrib{r1, 3, 14, x.con(sub(x.n(), I(1))).hash, x.n()})
	}
	if c.need(r2) {
		x := ph2{r2.Args[0]}
		n := x.hdr("Contributions")
		cs = append(cs, contrib{r2, 1, 4, x.con(sub(n, I(1))).hash, n})
	}
	t1, t2 := c.tags1(), c.tag2()
	for _, k := range cs {
		got := k.r.content(k.r.Args[1])
		if len(got) < k.rec+1 {
			c.oblige(k.r.Name+" appends a record", false, anyUnknown(got), "it writes only "+show(wl(got...)))
			continue
		}
		rec := got[len(got)-k.rec-1:]
		unk := anyUnknown(rec)
		// every point of the record goes into the hash that is recorded
		h := rec[k.rec]
		var in []*Term
		if h.Op == "wb" && h.Args[0].Op == "sha256" {
			in = explode(items(h.Args[0].Args[0]))
		}
		for i, p := range rec[:k.rec] {
			found := false
			for _, x := range in {
				if p.Op == "w" && x.Op == "w" && len(x.Args) == 1 && len(p.Args) == 1 && eqT(x.Args[0], p.Args[0]) {
					found = true
				}
			}
			c.oblige(fmt.Sprintf("%s: the hash covers point %d of the record", k.r.Name, i+1), found, unk, "the recorded hash is "+show(h)+", without "+show(p))
		}
		// challenges of the proofs
		first := k.rec - 3*k.keys
		var used []*Term
		for i := 0; i < k.keys; i++ {
			nm := fmt.Sprintf("%s: challenge of proof %d", k.r.Name, i+1)
			sg, sxg, xr := rec[first+3*i], rec[first+3*i+1], rec[first+3*i+2]
			if sg.Op != "w" || sxg.Op != "w" || xr.Op != "w" || len(xr.Args) != 1 || xr.Args[0].Sort != SGrp {
				c.oblige(nm, false, unk, "the record doesn't have the points of a public key where they are read")
				continue
			}
			es := grpOf(xr.Args[0])
			if len(es) != 1 || es[0].b.Op != "h2g" {
				c.oblige(nm, false, unk, "the proof isn't a multiple of a challenge point: "+show(xr))
				continue
			}
			prev := ite(le0(sub(I(1), k.n)), k.prev, nilBytes)
			want := chalData(sg.Args[0], sxg.Args[0], prev)
			c.oblige(nm+" is made of the public key and the previous hash", eqT(es[0].b.Args[0], want), unk, "it is made of "+show(es[0].b.Args[0])+" instead of "+show(want))
			for j, u := range used {
				c.oblige(fmt.Sprintf("%s: proofs %d and %d have different tags", k.r.Name, j+1, i+1), u != es[0].b.Args[1], unk, "both use "+show(u))
			}
			used = append(used, es[0].b.Args[1])
			tag := t2
			if k.keys == 3 {
				tag = t1[i]
			}
			if tag != nil {
				c.oblige(nm+" has the verifier's tag", eqT(es[0].b.Args[1], tag), unk, "its tag is "+show(es[0].b.Args[1])+", the verifier's "+show(tag))
			}
		}
		// the hash is printed
		printed := false
		var hash *Term
		if h.Op == "wb" {
			hash = h.Args[0]
		}
		for _, e := range k.r.ev.events {
			if e.kind != "print" {
				continue
			}
			for _, a := range e.args {
				for _, x := range findTerms(a, func(t *Term) bool { return t.Op == "hex" || t.Sort == SBytes }) {
					if hash != nil && (x == hash || x.Op == "hex" && eqT(x.Args[0], hash)) {
						printed = true
					}
				}
			}
		}
		c.oblige(k.r.Name+" prints the hash it recorded", printed, unk, "no output of it is the recorded hash")
	}
	// the verifiers
	v1 := c.verify1()
	if c.need(v1) {
		x := ph1{f: v1.Args[0]}
		for _, g := range c.regimes1(v1) {
			fs := v1.factsAt(g.k, g.facts)
			k := x.con(g.k)
			c.covered(v1, "phase1.Verify, "+g.name, fs, k.hash, k.points(), g.facts)
			for i := 0; i < 3; i++ {
				h := findChal(fs, chalData(k.SG[i], k.SXG[i], g.prev.hash), g.facts)
				c.oblige(fmt.Sprintf("phase1.Verify, %s: challenge of the proof for %s is made of the public key and the previous hash", g.name, secret1[i]), h != nil, anyUnknown(fs), "no requirement of success uses such a challenge")
			}
		}
	}
	v2 := c.verify2()
	if c.need(v2) {
		x := ph2{v2.Args[0]}
		for _, g := range c.regimes2(v2) {
			fs := c.facts2(v2, g.k, g.facts)
			k := x.con(g.k)
			c.covered(v2, "phase2.Verify, "+g.name, fs, k.hash, k.points(), g.facts)
			h := findChal(fs, chalData(k.SG, k.SXG, g.prev.hash), g.facts)
			c.oblige(fmt.Sprintf("phase2.Verify, %s: challenge of the proof is made of the public key and the previous hash", g.name), h != nil, anyUnknown(fs), "no requirement of success uses such a challenge")
		}
	}
}

// the recorded hash is required to be one that covers every point
func (c *Ctx) covered(r *Run, what string, fs []*Term, hash *Term, pts []*Term, facts map[*Term]bool) {
	for i, p := range pts {
		found := false
		for _, f := range fs {
			if f.Op != "beq" && f.Op != "eqb" {
				continue
			}
			if !contains(f, hash) {
				continue
			}
			for _, s := range findTerms(f, func(t *Term) bool { return t.Op == "sha256" }) {
				for _, x := range explode(items(s.Args[0])) {
					if x.Op == "w" && len(x.Args) == 1 && eqUnder(x.Args[0], p.Args[0], facts) {
						found = true
					}
				}
			}
		}
		c.oblige(fmt.Sprintf("%s: the recorded hash covers point %d", what, i+1), found, anyUnknown(fs), "no requirement of success compares the recorded hash with one of "+show(p))
	}
}

func checkC12(c *Ctx) {
	v1 := c.verify1()
	if c.need(v1) {
		x := ph1{f: v1.Args[0]}
		c.requires(v1, "phase1.Verify: at least one contribution", v1.factsAt(I(0), nil), le0(sub(I(1), x.n())))
		for _, g := range c.regimes1(v1) {
			fs := v1.factsAt(g.k, g.facts)
			k := x.con(g.k)
			for i := 0; i < 3; i++ {
				c.requires(v1, fmt.Sprintf("phase1.Verify, %s: s·G for %s isn't infinity", g.name, secret1[i]), fs, not(geq0(k.SG[i])))
				c.requires(v1, fmt.Sprintf("phase1.Verify, %s: s·x·G for %s isn't infinity", g.name, secret1[i]), fs, not(geq0(k.SXG[i])))
			}
		}
	}
	v2 := c.verify2()
	if c.need(v2) {
		x := ph2{v2.Args[0]}
		c.requires(v2, "phase2.Verify: at least one contribution", v2.factsAt(I(0), nil), le0(sub(I(1), x.hdr("Contributions"))))
		for _, g := range c.regimes2(v2) {
			fs := c.facts2(v2, g.k, g.facts)
			k := x.con(g.k)
			c.requires(v2, fmt.Sprintf("phase2.Verify, %s: s·G isn't infinity", g.name), fs, not(geq0(k.SG)))
			c.requires(v2, fmt.Sprintf("phase2.Verify, %s: s·δ·G isn't infinity", g.name), fs, not(geq0(k.SXG)))
		}
	}
}
