package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- every operation

type opDesc struct {
	pkg, name string
	args      []string
	inputs    []int                // arguments that are paths of files it reads
	guarded   []int                // inputs the output must be told apart from
	out       func(r *Run) []*Term // documented outputs
	main      int                  // the argument that is the output's path (-1: none)
}

func outArg(i int) func(r *Run) []*Term {
	return func(r *Run) []*Term { return []*Term{r.Args[i]} }
}

func sess(r *Run, i int, suffix ...string) []*Term {
	var out []*Term
	for _, s := range suffix {
		out = append(out, strcat(r.Args[i], str(s)))
	}
	return out
}

var ops = []opDesc{
	{"phase1", "Initialize", []string{"power", "out"}, nil, nil, outArg(1), 1},
	{"phase1", "Contribute", []string{"in", "out"}, []int{0}, []int{0}, outArg(1), 1},
	{"phase1", "Verify", []string{"in", "tr"}, []int{0, 1}, nil, func(*Run) []*Term { return nil }, -1},
	{"phase1", "Transform", []string{"in", "out", "p", "q"}, []int{0}, []int{0}, outArg(1), 1},
	{"phase2", "Initialize", []string{"phase1", "r1cs", "out"}, []int{0, 1}, []int{0, 1}, func(r *Run) []*Term {
		return []*Term{r.Args[2], str("srs.lag"), str("evals")}
	}, 2},
	{"phase2", "InitializeFromPartedR1CS", []string{"phase1", "session", "out", "nbCons", "nbR1C", "batchSize"}, []int{0, 1}, []int{0}, func(r *Run) []*Term {
		return []*Term{r.Args[2], str("srs.lag"), str("evals")}
	}, 2},
	{"phase2", "Contribute", []string{"in", "out"}, []int{0}, []int{0}, outArg(1), 1},
	{"phase2", "Verify", []string{"in", "origin"}, []int{0, 1}, nil, func(*Run) []*Term { return nil }, -1},
	{"keys", "ExtractKeys", []string{"in"}, []int{0}, nil, func(*Run) []*Term { return []*Term{str("pk"), str("vk")} }, -1},
	{"keys", "ExtractSplitKeys", []string{"in", "session"}, []int{0}, nil, func(r *Run) []*Term {
		return sess(r, 1, ".pk.E.save", ".pk.A.save", ".pk.B1.save", ".pk.Z.save", ".pk.K.save", ".pk.B2.save", ".vk.save", ".pk.CommitmentKey.save")
	}, -1},
	{"keys", "ExportSol", []string{"session"}, nil, nil, func(r *Run) []*Term { return sess(r, 0, ".sol") }, -1},
}

func (c *Ctx) op(d opDesc) *Run { return c.run(d.pkg, d.name, d.args...) }

func (c *Ctx) where(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	return " (" + c.p.pos(p) + ")"
}

// ---------- C20

func forms(m map[*Term]bool) []*Term {
	var out []*Term
	for _, l := range lits(m) {
		if l.Op == "box" {
			l = l.Args[0]
		}
		out = append(out, conj(l)...)
	}
	return out
}

// a readable place of an operation that can fail
func opPlace(t *Term) string {
	return strings.ReplaceAll(show(t), "»", " in ")
}

func checkC20(c *Ctx) {
	for _, d := range ops {
		r := c.op(d)
		if !c.need(r) {
			continue
		}
		unk := anyUnknown(r.S)
		inS := map[*Term]bool{}
		nOK := 0
		for _, l := range r.S {
			inS[l] = true
			for range findTerms(l, func(t *Term) bool { return t.Op == "ok" }) {
				nOK++
			}
		}
		c.obligations += nOK
		c.discharged += nOK
		if len(c.samples) < 60 {
			for _, l := range r.S {
				if l.Op == "ok" {
					c.samples = append(c.samples, r.Name+" succeeds only if "+opPlace(l))
				}
			}
		}
		sticky := r.flushed()
		for _, l := range forms(r.st.assume) {
			if inS[l] || l == TTrue {
				continue
			}
			l = underLits(unboxed(l), inS)
			if len(findTerms(l, func(t *Term) bool { return t.Op == "ok" })) == 0 {
				continue
			}
			if ok := atomOK(l); ok != nil && sticky[litKey(ok)] {
				// a buffered writer keeps its error until it is flushed
				c.oblige(r.Name+": "+opPlace(l)+" is reported by the flush", true, false, "")
				continue
			}
			if ok := atomOK(l); ok != nil && inLostGo(r, litKey(ok)) {
				c.viol = append(c.viol, r.Name+": failure of "+opPlace(l)+" isn't success: it runs in a goroutine of its own and nothing receives its error")
				c.obligations++
				continue
			}
			c.oblige(r.Name+": failure of "+opPlace(l)+" isn't success", false, unknown(l) || undecidedCmp(r.S), "it can report success although this operation failed: "+opPlace(l))
		}
		p := r.st.poison
		for i := 0; i < 3 && p != TFalse && p != TTrue; i++ {
			p = underLits(p, inS)
		}
		c.oblige(r.Name+": no path goes on to success after a failure", p == TFalse, p != TFalse && p != TTrue && unknown(p), "it can report success on a path where an operation failed"+poisonText(p))
		c.recovered(r)
		// buffers
		for _, o := range r.st.objs() {
			x, ok := r.st.heap[o].(*ExtV)
			if !ok || x.kind != "bufw" {
				continue
			}
			pend, _ := x.f["pend"].(*Term)
			left := explode(items(pend))
			c.oblige(r.Name+": buffer "+opKey(o.key)+" is flushed", len(left) == 0, unk || anyUnknown(left), fmt.Sprintf("%d writes are left in the buffer made at %s when it reports success: %s", len(left), opKey(o.key), show(pend)))
		}
	}
}

// is the operation with this key in a goroutine that reports nothing?
func inLostGo(r *Run, key string) bool {
	for k := range r.ev.goLost {
		if strings.HasPrefix(key, k) && !strings.HasPrefix(key[len(k):], ".") {
			if n := len(key); n == len(k) || key[len(k)] < '0' || key[len(k)] > '9' {
				return true
			}
		}
	}
	return false
}

// a goroutine that can't tell anyone of an error: a library function, or a
// function that stores, sends and hands on none
func mute(call *ssa.CallCommon) bool {
	g := call.StaticCallee()
	if mc, ok := call.Value.(*ssa.MakeClosure); ok {
		g, _ = mc.Fn.(*ssa.Function)
	}
	if g == nil {
		return call.IsInvoke()
	}
	if !inModule(g) {
		return true
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic, *ssa.Send, *ssa.MapUpdate, *ssa.Go, *ssa.Select:
				return false
			case *ssa.Store:
				if isErr(in.Val.Type()) {
					if _, local := in.Addr.(*ssa.Alloc); !local {
						return false
					}
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if _, ok := cc.Value.(*ssa.Builtin); ok {
					continue
				}
				h := cc.StaticCallee()
				if h == nil && !cc.IsInvoke() || h != nil && inModule(h) {
					return false
				}
				pk := ""
				if h != nil && h.Pkg != nil {
					pk = h.Pkg.Pkg.Path()
				}
				for _, a := range cc.Args {
					if isErr(a.Type()) && pk != "log" && pk != "fmt" {
						return false
					}
				}
				if pk == "log" || pk == "os" && h.Name() == "Exit" {
					if n := h.Name(); strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic") || n == "Exit" {
						return false
					}
				}
			}
		}
	}
	return true
}

// does success depend on a comparison the analysis couldn't decide?
func undecidedCmp(S []*Term) bool {
	for _, l := range S {
		if len(findTerms(l, func(t *Term) bool { return t.Op == "cmp" })) > 0 {
			return true
		}
	}
	return false
}

func isErr(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// recovered: a deferred recover that only swallows the panic turns a failure
// reported by panicking into success
func (c *Ctx) recovered(r *Run) {
	for _, f := range sortedFns(r.ev.fnsSeen) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				d, ok := in.(*ssa.Defer)
				if !ok {
					continue
				}
				g := d.Call.StaticCallee()
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					g, _ = mc.Fn.(*ssa.Function)
				}
				if g == nil || !swallows(g) {
					continue
				}
				at := panicsUnder(f, map[*ssa.Function]bool{})
				if at == nil {
					continue
				}
				c.oblige(r.Name+": a failure reported by a panic isn't success", false, false, fmt.Sprintf("%s recovers%s from the panic%s and goes on as if nothing had failed", f, c.where(d.Pos()), c.where(at.Pos())))
			}
		}
	}
}

func sortedFns(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// does g recover and do nothing with it that could reach the result?
func swallows(g *ssa.Function) bool {
	rec := false
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic, *ssa.Send, *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Select:
				return false
			case *ssa.Store:
				a := in.Addr
				for {
					if x, ok := a.(*ssa.IndexAddr); ok {
						a = x.X
					} else if x, ok := a.(*ssa.FieldAddr); ok {
						a = x.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					rec = rec || b.Name() == "recover"
					continue
				}
				k := in.Call.StaticCallee()
				if k == nil || k.Pkg == nil {
					return false
				}
				switch p := k.Pkg.Pkg.Path(); {
				case p == "fmt", p == "strings", p == "strconv", p == "log" && strings.HasPrefix(k.Name(), "Print"):
				default:
					return false
				}
			}
		}
	}
	return rec
}

// an explicit panic in what f calls, on its own goroutine
func panicsUnder(f *ssa.Function, seen map[*ssa.Function]bool) *ssa.Panic {
	if seen[f] || f.Blocks == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Panic:
				return in
			case *ssa.Call:
				k := in.Call.StaticCallee()
				if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
					k, _ = mc.Fn.(*ssa.Function)
				}
				if k != nil {
					if p := panicsUnder(k, seen); p != nil {
						return p
					}
				}
			}
		}
	}
	return nil
}

func poisonText(p *Term) string {
	if p == TTrue || p == TFalse {
		return ""
	}
	return ", when " + show(p)
}

func opKey(k string) string {
	k = strings.ReplaceAll(k, "github.com/bnb-chain/zkbnb-setup/", "")
	return strings.TrimSpace(strings.ReplaceAll(k, "»", " "))
}

func atomOK(l *Term) *Term {
	for l.Op == "all" {
		l = l.Args[1]
		if l.Op == "lam" {
			l = l.Args[0]
		}
	}
	if l.Op == "ok" {
		return l
	}
	return nil
}

func litKey(l *Term) string { return l.Str[strings.Index(l.Str, "@")+1:] }

// writes through a buffer whose flush is required to succeed: their ok
// literals may be left unchecked
func (r *Run) flushed() map[string]bool {
	out := map[string]bool{}
	req := map[string]bool{}
	for _, l := range r.S {
		if l.Op == "ok" && strings.HasPrefix(l.Str, "Flush@") {
			req[litKey(l)] = true
		}
	}
	for f, ws := range r.ev.bufOps {
		if req[f] {
			for _, w := range ws {
				out[w] = true
			}
		}
	}
	return out
}

// ---------- C21, C22

// the random values of a term
func randsOf(t *Term) []*Term {
	return findTerms(t, func(u *Term) bool { return u.Op == "rand" || u.Op == "wrand" })
}

func checkC21(c *Ctx) {
	secretsOf := func(r *Run, when string, names []string, recLen int, first int, x []*Term) {
		got := r.content(r.Args[1])
		if when != "" {
			var ns []string
			for _, n := range names {
				ns = append(ns, n+when)
			}
			names = ns
		}
		if len(got) < recLen+1 {
			c.oblige(r.Name+": appends a record", false, anyUnknown(got), "it doesn't write one")
			return
		}
		rec := got[len(got)-recLen-1:]
		unk := anyUnknown(got)
		all := map[*Term]string{}
		var order []*Term
		type later struct {
			n  string
			pt *Term
		}
		var derived []later
		var put func(n string, t, pt *Term)
		put = func(n string, t, pt *Term) {
			if t == nil {
				if alts := drawCases(pt); len(alts) > 0 {
					for _, a := range alts {
						put(n+a.when, anyRand(a.pt), a.pt)
					}
					return
				}
				if why := notRandom(pt); why != "" {
					c.oblige(r.Name+": "+n+" is random", false, false, "the point it is in is "+why+": "+show(pt))
					return
				}
				derived = append(derived, later{n, pt})
				return
			}
			c.oblige(r.Name+": "+n+" comes from the cryptographic source", t.Op == "rand", unk, "it is "+show(t))
			if o, dup := all[t]; dup {
				c.oblige(r.Name+": "+n+" is drawn separately", false, unk, "it is the same value as "+o)
				return
			}
			all[t] = n
			order = append(order, t)
			c.oblige(r.Name+": "+n+" is used only if the draw succeeded", !c.failsInS(r, t), unk, "success doesn't require that the draw at "+opKey(t.Str)+" succeeded")
		}
		for i, n := range names {
			put(n, x[i], grpItem(rec[i]))
		}
		for i, n := range names {
			var s *Term
			if t := rec[first+3*i]; t.Op == "w" && len(t.Args) == 1 && t.Args[0].Sort == SGrp {
				s = anyRand(t.Args[0])
			}
			put("the blinding scalar of "+n, s, grpItem(rec[first+3*i]))
		}
		for _, d := range derived {
			if by := computedFrom(d.pt, all); by != "" {
				c.oblige(r.Name+": "+d.n+" is drawn separately", false, unk, "it is computed from "+by+": "+show(d.pt))
				continue
			}
			c.oblige(r.Name+": "+d.n+" is random", false, true, "the points it should be in aren't multiplied by a value of their own from the cryptographic source")
		}
	}
	if r := c.contrib1(); c.need(r) {
		for _, k := range secretCases(r) {
			x := c.secrets1(k.r)
			secretsOf(k.r, k.when, secret1, 14, 5, x[:])
		}
	}
	if r := c.contrib2(); c.need(r) {
		for _, k := range secretCases(r) {
			secretsOf(k.r, k.when, []string{"δ"}, 4, 1, []*Term{c.secret2(k.r)})
		}
	}
	for _, d := range ops {
		if d.name != "Contribute" {
			continue
		}
		r := c.op(d)
		if !c.need(r) {
			continue
		}
		for _, g := range c.p.globalWriters().all {
			o, ok := r.ev.val(g, nil).(*PtrV)
			if !ok {
				continue
			}
			v, has := r.st.heap[o.obj]
			if !has || len(leaks(r.ev.valTerm(r.st, v))) == 0 {
				continue
			}
			used, lossy := c.keptFrom(d, g)
			c.oblige(r.Name+": uses no secret kept from an earlier contribution in "+g.Name(), !used, lossy, "the secret it leaves in "+g.Name()+" goes into what the next contribution writes")
		}
	}
	if r := c.verify1(); c.need(r) {
		c.phase1Sections(r)
		c.drawn(r)
	}
	if r := c.verify2(); c.need(r) {
		c.phase2Sections(r)
		c.drawn(r)
	}
	for _, d := range ops {
		r := c.op(d)
		if !c.need(r) {
			continue
		}
		for _, e := range r.ev.events {
			if e.kind == "weakrand" {
				used := false
				for _, f := range r.files() {
					for _, w := range r.content(f) {
						used = used || len(findTerms(w, func(t *Term) bool { return t.Op == "wrand" })) > 0
					}
				}
				for _, l := range r.S {
					used = used || len(findTerms(l, func(t *Term) bool { return t.Op == "wrand" })) > 0
				}
				c.oblige(r.Name+": values it uses aren't from a predictable source", !used, false, "a value from math/rand"+c.where(e.pos)+" goes into its results")
			}
		}
	}
}

type runCase struct {
	r    *Run
	when string
}

// secretCases: where a scalar written into the record is one of two values,
// by a condition on what isn't drawn, each case on its own
func secretCases(r *Run) []runCase {
	whole := []runCase{{r, ""}}
	conds := map[*Term]bool{}
	for _, w := range r.content(r.Args[1]) {
		for _, u := range findTerms(unboxed(w), func(u *Term) bool { return u.Op == "ite" && u.Sort == SField }) {
			k := u.Args[0]
			if conds[not(k)] {
				continue
			}
			conds[k] = true
		}
	}
	var cond *Term
	for k := range conds {
		cond = k
	}
	if len(conds) != 1 || len(leaks(cond)) > 0 || len(findTerms(cond, func(u *Term) bool { return u.Op == "ok" })) > 0 || unknown(cond) {
		return whole
	}
	var out []runCase
	if q := r.when(cond, true); q != nil {
		out = append(out, runCase{q, " (when " + show(cond) + ")"})
	}
	if q := r.when(cond, false); q != nil {
		out = append(out, runCase{q, " (unless " + show(cond) + ")"})
	}
	if len(out) == 0 {
		return whole
	}
	return out
}

func grpItem(t *Term) *Term {
	if t.Op == "w" && len(t.Args) == 1 && t.Args[0].Sort == SGrp {
		return t.Args[0]
	}
	return nil
}

// does what the operation writes depend on what the variable holds before it?
func (c *Ctx) keptFrom(d opDesc, g *ssa.Global) (used, lossy bool) {
	c.preset = func(ev *Ev, st *State) {
		if p, ok := ev.val(g, nil).(*PtrV); ok {
			t := g.Type().(*types.Pointer).Elem()
			so := SOther
			if s, ok := atomSort(t); ok {
				so = s
			}
			st.heap[p.obj] = symVal(t, mk("earlier", g.String(), so, nil))
		}
	}
	runs := c.runs
	c.runs = map[string]*Run{}
	r := c.op(d)
	c.runs, c.preset = runs, nil
	if r.st == nil {
		return false, true
	}
	for _, f := range r.files() {
		for _, w := range r.content(f) {
			used = used || len(findTerms(w, func(t *Term) bool { return t.Op == "earlier" })) > 0
		}
	}
	return used, r.lost() != ""
}

type drawCase struct {
	when string
	pt   *Term
}

// the cases of a point that depends on whether a draw failed, or on whether
// what was drawn is zero, which it isn't
func drawCases(pt *Term) []drawCase {
	if pt == nil {
		return nil
	}
	m := map[*Term]*Term{}
	for _, z := range findTerms(pt, func(u *Term) bool { return u.Op == "feq0" && u.Args[0].Op == "rand" }) {
		m[z] = TFalse
	}
	if p := subst(pt, m); p != pt {
		return []drawCase{{"", p}}
	}
	oks := findTerms(pt, func(u *Term) bool { return u.Op == "ok" && strings.Contains(u.Str, "SetRandom") })
	if len(oks) == 0 || len(oks) > 4 {
		return nil
	}
	a := subst(pt, map[*Term]*Term{oks[0]: TTrue})
	b := subst(pt, map[*Term]*Term{oks[0]: TFalse})
	if a == pt || b == pt {
		return nil
	}
	return []drawCase{{"", a}, {" (if the draw at " + opKey(litKey(oks[0])) + " fails)", b}}
}

// why a known multiple of a point isn't a random one ("" if it may be)
func notRandom(pt *Term) string {
	if pt == nil || unknown(pt) {
		return ""
	}
	es := grpOf(pt)
	if len(es) != 1 {
		return ""
	}
	c := es[0].c
	src := findTerms(c, func(u *Term) bool {
		return u.Op == "rand" || u.Op == "wrand" || u.Op == "randbytes" || u.Op == "randint"
	})
	switch {
	case len(src) == 0:
		return "multiplied by nothing random"
	case len(src) > 1:
		return ""
	}
	switch s := src[0]; s.Op {
	case "randbytes":
		if n, ok := constI(s.Args[0]); ok && n < 30 {
			return fmt.Sprintf("multiplied by only %d random bytes", n)
		}
	case "randint":
		if nf := fldOf(s.Args[0]); len(nf.m) == 1 && len(nf.m[0].v) == 0 && nf.m[0].c.Sign() > 0 && nf.m[0].c.BitLen() < 240 {
			return fmt.Sprintf("multiplied by only %d random bits", nf.m[0].c.BitLen()-1)
		}
	case "rand", "wrand":
		// every use goes through one machine word of it
		words := findTerms(c, func(u *Term) bool { return u.Op == "limb" })
		if len(words) == 1 {
			if !contains(subst(c, map[*Term]*Term{words[0]: sym("§word", SInt)}), s) {
				return "multiplied by a part of a random value, of at most 64 bits"
			}
		}
	}
	return ""
}

// is the coefficient of pt a function of the other secrets only?
func computedFrom(pt *Term, secrets map[*Term]string) string {
	if pt == nil || unknown(pt) {
		return ""
	}
	es := grpOf(pt)
	if len(es) != 1 {
		return ""
	}
	src := findTerms(es[0].c, func(u *Term) bool {
		return u.Op == "rand" || u.Op == "wrand" || u.Op == "randbytes" || u.Op == "randint"
	})
	var names []string
	for _, s := range src {
		n, ok := secrets[s]
		if !ok {
			return ""
		}
		names = append(names, n)
	}
	sort.Strings(names)
	return strings.Join(names, " and ")
}

// can the draw fail without the operation failing?
func (c *Ctx) failsInS(r *Run, t *Term) bool {
	if strings.HasSuffix(t.Str, nofail) {
		return false
	}
	inS := map[*Term]bool{}
	for _, l := range r.S {
		inS[l] = true
	}
	for _, l := range forms(r.st.assume) {
		if inS[l] {
			continue
		}
		l = underLits(unboxed(l), inS)
		for _, o := range findTerms(l, func(u *Term) bool { return u.Op == "ok" }) {
			if litKey(o) == t.Str {
				return true
			}
		}
	}
	for _, l := range r.S {
		for _, o := range findTerms(l, func(u *Term) bool { return u.Op == "ok" }) {
			if litKey(o) == t.Str {
				return false
			}
		}
	}
	return true
}

func anyRand(t *Term) *Term {
	es := grpOf(t)
	if len(es) != 1 {
		return nil
	}
	if a := randCoef(es[0].c); a != nil {
		return a
	}
	// one random factor among others
	nf := fldOf(es[0].c)
	if len(nf.m) != 1 {
		return nil
	}
	var r *Term
	for _, v := range nf.m[0].v {
		if v.a.Op == "rand" || v.a.Op == "wrand" {
			if r != nil {
				return nil
			}
			r = v.a
		}
	}
	return r
}

// every coefficient the verifier uses was drawn successfully
func (c *Ctx) drawn(r *Run) {
	seen := map[string]bool{}
	for _, l := range r.S {
		for _, t := range randsOf(l) {
			if seen[t.Str] {
				continue
			}
			seen[t.Str] = true
			c.oblige(r.Name+": coefficients drawn at "+opKey(t.Str)+" come from the cryptographic source", t.Op == "rand", anyUnknown(r.S), "they come from a predictable source")
			c.oblige(r.Name+": coefficients drawn at "+opKey(t.Str)+" are used only if the draw succeeded", !c.failsInS(r, t), anyUnknown(r.S) || undecidedCmp(r.S), "success doesn't require that the draw succeeded")
		}
	}
	c.oblige(r.Name+": random coefficients", len(seen) > 0, anyUnknown(r.S), "no requirement of success has random coefficients")
}

// secrets in t outside of the coefficients of group elements
func leaks(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(u *Term)
	walk = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		switch u.Op {
		case "rand", "wrand", "randbytes", "randint":
			out = append(out, u)
			return
		}
		if u.Sort == SGrp {
			if es := grpOf(u); u.Op == "grp" {
				for _, e := range es {
					walk(e.b)
					for _, x := range findTerms(e.c, func(y *Term) bool { return y.Op == "ite" }) {
						walk(x.Args[0])
					}
				}
				return
			}
		}
		for _, a := range u.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func checkC22(c *Ctx) {
	for _, d := range ops {
		if d.name != "Contribute" {
			continue
		}
		r := c.op(d)
		if !c.need(r) {
			continue
		}
		for _, o := range r.st.objs() {
			if !strings.HasPrefix(o.key, "content:") {
				continue
			}
			t, ok := r.st.heap[o].(*Term)
			if !ok {
				continue
			}
			for _, it := range explode(items(t)) {
				ls := leaks(it)
				d := ""
				if len(ls) > 0 {
					d = "a file is written with " + show(it) + ", which depends on the secret " + opPlace(ls[0])
				}
				c.oblige(fmt.Sprintf("%s: written value %s reveals secrets only through group elements", r.Name, short(it)), len(ls) == 0, false, d)
			}
		}
		for _, e := range r.ev.events {
			switch e.kind {
			case "print", "errmsg", "fatal", "panic", "exit", "create", "append", "overwrite", "unmodelled":
			default:
				if !strings.HasPrefix(e.kind, "fs:") && !strings.HasPrefix(e.kind, "sink:") {
					continue
				}
			}
			for _, a := range e.args {
				if a.Sort == SBool {
					continue // whether a secret is zero, say
				}
				ls := leaks(a)
				d := ""
				if len(ls) > 0 {
					d = fmt.Sprintf("%s%s gets %s, which depends on the secret %s", e.kind, c.where(e.pos), show(a), opPlace(ls[0]))
				}
				lossy := c.lossy
				if !unknown(a) {
					c.lossy = ""
				}
				c.oblige(fmt.Sprintf("%s: %s%s of %s reveals no secret", r.Name, e.kind, c.where(e.pos), short(a)), len(ls) == 0, e.kind == "unmodelled", d)
				c.lossy = lossy
			}
		}
	}
}

func short(t *Term) string {
	s := show(t)
	if len(s) > 80 {
		s = s[:80] + "…"
	}
	return s
}

// ---------- C24

func checkC24(c *Ctx) {
	for _, d := range ops {
		r := c.op(d)
		if !c.need(r) {
			continue
		}
		input := func(t *Term) bool {
			for _, i := range d.inputs {
				if t == r.Args[i] {
					return true
				}
			}
			return false
		}
		outs := d.out(r)
		known := func(t *Term) bool {
			for _, o := range outs {
				if o == t {
					return true
				}
			}
			return false
		}
		created := map[*Term]bool{}
		for _, e := range r.ev.events {
			at := c.where(e.pos)
			switch {
			case e.kind == "open":
				c.oblige(r.Name+": "+show(e.args[0])+" is opened read-only"+at, true, false, "")
			case e.kind == "write to input":
				c.oblige(r.Name+": nothing is written to an input", false, false, "it writes to "+show(e.args[0])+at)
			case e.kind == "create" || e.kind == "append" || e.kind == "overwrite":
				p := e.args[0]
				c.oblige(r.Name+": "+show(p)+" is one of its documented outputs"+at, known(p) && !input(p), unknown(p), fmt.Sprintf("it %ss %s, which isn't one of its outputs", e.kind, show(p)))
				if d.main < 0 || p != r.Args[d.main] || created[p] {
					continue
				}
				created[p] = true
				for _, i := range d.guarded {
					in := r.Args[i]
					refused, unk := excluded(e.guard, func(x *Term) (*Term, bool) {
						switch { // out is the file in: it exists, and has a name
						case x == sameFile(in, p):
							return TTrue, true
						case x.Op == "exists" && (x.Args[0] == in || x.Args[0] == p):
							return TTrue, true
						case x == beq(in, str("")) || x == beq(p, str("")):
							return TFalse, true
						}
						return nil, false
					})
					c.oblige(fmt.Sprintf("%s: refuses %s as output when it is the file %s, before creating it", r.Name, show(p), show(in)), refused, unk, fmt.Sprintf("%s%s truncates %s even if it is the same file as %s", e.fn, at, show(p), show(in)))
				}
			case strings.HasPrefix(e.kind, "fs:"):
				ok := true
				for _, a := range e.args {
					if a.Sort == SStr && a.Op != "str" && !known(a) {
						ok = false
					}
				}
				if e.kind == "fs:os.Rename" && len(e.args) == 2 && !known(e.args[0]) {
					ok = false
				}
				c.oblige(r.Name+": "+e.kind[3:]+" changes only its outputs"+at, ok, anyUnknown(e.args), fmt.Sprintf("%s of %v", e.kind[3:], e.args))
			}
		}
		if d.main >= 0 {
			c.oblige(r.Name+": it creates its output", created[r.Args[d.main]], anyUnknown(r.files()), "it never creates "+show(r.Args[d.main]))
		}
	}
}

// excluded: no truth values of the atoms of the guard, those given fixed,
// satisfy it. The second result: an atom left is unknown.
func excluded(guard map[*Term]bool, fixed func(*Term) (*Term, bool)) (bool, bool) {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	unk := false
	var atoms func(t *Term)
	atoms = func(t *Term) {
		if t.Sort != SBool || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "and", "or", "not", "ite":
			for _, a := range t.Args {
				atoms(a)
			}
			return
		}
		if v, ok := fixed(t); ok {
			m[t] = v
		} else if t != TTrue && t != TFalse {
			unk = unk || unknown(t)
		}
	}
	for g := range guard {
		atoms(g)
	}
	for g := range guard {
		if subst(g, m) == TFalse {
			return true, unk
		}
	}
	var gs []*Term
	for g := range guard {
		if g = subst(g, m); g != TTrue {
			gs = append(gs, g)
		}
	}
	for x := range seen { // a file that exists has a name
		if x.Op == "exists" || x.Op == "samefile" {
			for _, p := range x.Args {
				if e := beq(p, str("")); seen[e] {
					gs = append(gs, or(not(subst(x, m)), not(subst(e, m))))
				}
			}
		}
	}
	var sat func(gs []*Term, n int) bool
	sat = func(gs []*Term, n int) bool {
		if len(gs) == 0 {
			return true
		}
		if n == 0 {
			return true // too many: not excluded
		}
		var x *Term
		var first func(t *Term)
		first = func(t *Term) {
			if x != nil {
				return
			}
			switch t.Op {
			case "and", "or", "not", "ite":
				for _, a := range t.Args {
					first(a)
				}
			default:
				x = t
			}
		}
		for _, g := range gs {
			first(g)
		}
		if x == nil {
			return true
		}
		for _, v := range []*Term{TTrue, TFalse} {
			var r []*Term
			bad := false
			for _, g := range gs {
				h := subst(g, map[*Term]*Term{x: v})
				if h == TFalse {
					bad = true
					break
				}
				if h != TTrue {
					r = append(r, h)
				}
			}
			if !bad && sat(r, n-1) {
				return true
			}
		}
		return false
	}
	return !sat(gs, 16), unk
}

// ---------- C26

func checkC26(c *Ctx) {
	for _, d := range ops {
		r := c.op(d)
		if !c.need(r) {
			continue
		}
		for _, e := range r.ev.events {
			at := c.where(e.pos)
			switch e.kind {
			case "decode":
				c.oblige(r.Name+": points are read by a checking decoder"+at, true, false, "")
			case "full read":
				c.oblige(r.Name+": bytes are read completely or it fails"+at, true, false, "")
			case "unchecked decoder":
				c.oblige(r.Name+": points are read by a checking decoder"+at, false, false, "a decoder that doesn't check that points are in the subgroup"+at)
			case "partial read":
				ok := false
				if len(e.args) == 2 {
					n, l := e.args[0], e.args[1]
					for _, s := range r.S {
						if s.Op == "all" || s.Op == "allc" || s.Op == "or" {
							for _, x := range findTerms(s, func(t *Term) bool { return t.Op == "eq0" || t.Op == "le0" }) {
								for _, y := range findTerms(x, func(t *Term) bool { return t.Op == "nread" && t.Str == n.Str }) {
									z := subst(x, map[*Term]*Term{y: n})
									ok = ok || z == eqInt(n, l) || z == le0(sub(l, n))
								}
							}
						}
						ok = ok || s == eqInt(n, l) || s == le0(sub(l, n))
					}
				}
				c.oblige(r.Name+": bytes are read completely or it fails"+at, ok, false, "a read that may be partial"+at+" in "+e.fn)
			}
		}
	}
}

// ---------- C27

func checkC27(c *Ctx) {
	r := c.run("keys", "ExportSol", "session")
	if !c.need(r) {
		return
	}
	vk := strcat(r.Args[0], str(".vk.save"))
	sol := strcat(r.Args[0], str(".sol"))
	c.writes(r, sol, []want{{"C27", "the contract of the key in " + show(vk), wItem("solidity", mk("vkfile", "", SOther, nil, vk, I(0)))}})
	for _, what := range []string{"os.Open@", "ReadFrom@", "os.Create@", "ExportSolidity@"} {
		n := 0
		for _, l := range r.S {
			if l.Op == "ok" && strings.Contains(l.Str, what) {
				n++
			}
		}
		c.oblige(r.Name+": success requires that "+strings.TrimSuffix(what, "@")+" succeeded", n > 0, anyUnknown(r.S), "it can report success although "+strings.TrimSuffix(what, "@")+" failed")
	}
	for _, e := range r.ev.events {
		if e.kind == "panic" || e.kind == "fatal" || e.kind == "exit" {
			c.oblige(r.Name+": errors are reported, without a crash", false, false, "it ends by "+e.kind+c.where(e.pos)+" instead of returning an error")
		}
	}
	c.oblige(r.Name+": errors are reported, without a crash", !r.panics(), false, "it panics")
}

func (r *Run) panics() bool {
	for _, e := range r.ev.events {
		if e.kind == "panic" {
			return true
		}
	}
	return false
}
