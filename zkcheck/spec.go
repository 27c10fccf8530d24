package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---------- summaries of the operations

// Run is the summary of one operation of the repository, evaluated over
// symbolic arguments: what success requires, what the files it writes contain,
// and what else it does.
type Run struct {
	Name string
	Args []*Term
	ev   *Ev
	st   *State
	res  Value
	S    []*Term // what success requires
	ok   bool    // the operation can succeed and was evaluated
	why  string
	sub  map[*Term]*Term // a case: what conditions are
}

// when is the run in the case that a condition has a value (nil: it can't succeed then)
func (r *Run) when(cond *Term, v bool) *Run {
	q := *r
	q.sub = map[*Term]*Term{cond: B(v), not(cond): B(!v)}
	q.S = nil
	for _, l := range r.S {
		l = subst(unboxed(l), q.sub)
		if l == TFalse {
			return nil
		}
		if l != TTrue {
			q.S = append(q.S, l)
		}
	}
	return &q
}

type Ctx struct {
	preset func(ev *Ev, st *State) // changes the state an entry point starts in
	p      *Program
	runs   map[string]*Run
	id     string

	obligations int
	discharged  int
	samples     []string
	undecided   []string
	viol        []string
	funcs       map[string]bool
	steps       int
	sites       int
	lossy       string
}

func (c *Ctx) run(pkg, name string, argNames ...string) *Run {
	key := pkg + "." + name
	if r := c.runs[key]; r != nil {
		return r
	}
	r := &Run{Name: key}
	c.runs[key] = r
	fn := c.p.fn("/"+pkg, name)
	if fn == nil || len(fn.Params) != len(argNames) {
		r.why = "the entry point " + key + " isn't there with the expected parameters"
		return r
	}
	r.ev = newEv(c.p)
	r.ev.recovers = c.id == "C22"
	if c.setup(key, r.ev) {
		defer func() { slenCfgs = nil }()
	}
	var args []Value
	for i, q := range fn.Params {
		so := SOther
		if s, ok := atomSort(q.Type()); ok {
			so = s
		}
		t := sym(argNames[i], so)
		r.Args = append(r.Args, t)
		args = append(args, symVal(q.Type(), t))
	}
	st0 := r.ev.initState(fn)
	if c.preset != nil {
		c.preset(r.ev, st0)
	}
	for _, l := range assumed {
		st0.add(l)
	}
	r.res, r.st = r.ev.callFn(fn, args, nil, st0, "")
	for f := range r.ev.fnsSeen {
		c.funcs[f.String()] = true
	}
	c.steps += r.ev.steps
	c.sites += len(r.ev.sites)
	c.finish(r)
	return r
}

// what success of an evaluated function requires
func (c *Ctx) finish(r *Run) {
	key := r.Name
	if r.st == nil {
		r.why = key + " never returns"
		return
	}
	e, ok := r.res.(*ErrV)
	if tv, isT := r.res.(TupleV); isT && len(tv) == 1 {
		e, ok = tv[0].(*ErrV)
	}
	if !ok {
		r.why = key + " doesn't return an error"
		return
	}
	r.ok = true
	if e.ok.Op == "box" {
		r.S = conj(e.ok.Args[0])
	} else {
		r.S = conj(e.ok)
	}
	for l := range r.st.guard {
		r.S = append(r.S, conj(l)...)
	}
	var flat []*Term
	for _, l := range r.S {
		flat = append(flat, conj(unboxed(l))...)
	}
	r.S = propagate(bothCoords(flat))
	sortTerms(r.S)
	for _, l := range r.S {
		if len(assumed) > 0 && l == TFalse {
			r.ok, r.why = false, "this case doesn't happen"
		}
	}
}

// points with equal X and equal Y are equal
func bothCoords(ls []*Term) []*Term {
	on := func(l *Term, co string) *Term {
		m := map[*Term]*Term{}
		for _, t := range findTerms(l, func(t *Term) bool { return t.Op == "ceq" && t.Str == co }) {
			m[t] = beq(t.Args[0], t.Args[1])
		}
		if len(m) == 0 {
			return nil
		}
		return subst(l, m)
	}
	xs := map[*Term]bool{}
	for _, l := range ls {
		if t := on(l, "X"); t != nil {
			xs[t] = true
		}
	}
	if len(xs) == 0 {
		return ls
	}
	for _, l := range ls {
		if t := on(l, "Y"); t != nil && xs[t] {
			ls = append(ls, conj(t)...)
		}
	}
	return ls
}

var unboxMemo = map[*Term]*Term{}

// without the marks of error conditions
func unboxed(t *Term) *Term {
	if !hasCond(t) {
		return t
	}
	if r, ok := unboxMemo[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "box" {
		r = unboxed(t.Args[0])
	} else {
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = unboxed(a)
			ch = ch || args[i] != a
		}
		r = t
		if ch {
			r = rebuild(t, args)
		}
	}
	unboxMemo[t] = r
	return r
}

// alternatives decided by the other literals of the conjunction
func propagate(ls []*Term) []*Term {
	for round := 0; round < 4; round++ {
		units := map[*Term]bool{}
		for _, l := range ls {
			if l.Op != "or" {
				units[l] = true
			}
		}
		var out []*Term
		again := false
		for _, l := range ls {
			if l.Op == "or" {
				if n := underLits(l, units); n != l {
					again = true
					for _, x := range conj(n) {
						if x != TTrue {
							out = append(out, x)
						}
					}
					continue
				}
			}
			out = append(out, l)
		}
		ls = out
		if !again {
			break
		}
	}
	return ls
}

func (c *Ctx) setup(key string, ev *Ev) bool {
	switch {
	case key == "phase1.Transform":
		ev.rawPaths[sym("in", SStr)] = true
	case strings.HasPrefix(key, "keys."):
		w := fieldOf("Wires", SInt, mk("gob", "", SOther, nil, sym("in", SStr), I(0)))
		evals := str("evals")
		// A, B in G1 and B in G2 have one point per wire
		p1 := I(128)
		p2 := add(p1, I(4), mulc(w, 32))
		p3 := add(p2, I(4), mulc(w, 32))
		slenCfgs = []slenCfg{{evals, func(pos *Term) *Term {
			if pos == p1 || pos == p2 || pos == p3 {
				return w
			}
			return nil
		}}}
		return true
	}
	return false
}

// the content of a file the operation writes
func (r *Run) content(path *Term) []*Term {
	t, _ := r.st.heap[contentObj(path)].(*Term)
	if t == nil {
		return nil
	}
	if r.sub != nil {
		t = subst(unboxed(t), r.sub)
	}
	if len(findTerms(t, func(u *Term) bool { return u.Op == "wite" })) > 0 {
		units := map[*Term]bool{}
		for _, l := range r.S {
			units[l] = true
		}
		t = underLits(unboxed(t), units)
	}
	return explode(items(t))
}

func (r *Run) files() []*Term {
	var out []*Term
	for _, e := range r.ev.events {
		if e.kind == "create" && len(e.args) > 0 {
			out = append(out, e.args[0])
		}
	}
	return out
}

func explode(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "wl" {
			out = append(out, explode(t.Args)...)
			continue
		}
		if t.Op == "wb" && t.Args[0].Op == "cat" {
			for _, b := range t.Args[0].Args {
				out = append(out, explode([]*Term{wbytes(b)})...)
			}
			continue
		}
		out = append(out, t)
	}
	return out
}

// ---------- constructors for the expected values

func sStr(n string) *Term { return sym(n, SStr) }
func rdInt(k int, f, pos *Term) *Term {
	return mk("rdint", fmt.Sprint(k), SInt, nil, f, pos)
}
func rdG1(f, pos *Term) *Term       { return mk("rdG1", "", SGrp, nil, f, pos) }
func rdG2(f, pos *Term) *Term       { return mk("rdG2", "", SGrp, nil, f, pos) }
func rdBytes(f, pos, n *Term) *Term { return mk("rdbytes", "", SBytes, nil, f, pos, n) }
func wG1(t *Term) *Term             { return wItem("G1c", t) }
func wG2(t *Term) *Term             { return wItem("G2c", t) }
func loopW(n *Term, f func(i *Term) *Term) *Term {
	v := sym("§i", SInt)
	return mkWloop(n, v, wl(f(v)))
}

// ---------- deciding equalities and inequalities

// does t contain a part the analysis couldn't determine?
func unknown(t *Term) bool {
	return len(findTerms(t, func(u *Term) bool {
		switch u.Op {
		case "havoc", "chi", "opaque", "unknownErr", "iters", "oldcontent", "ahead", "lv", "wite?", "top", "wchunks", "prevchunk", "stale", "opq", "wlbytes", "tmpfile", "bits", "shr", "bin", "mathfn", "cmp":
			return true
		}
		return strings.HasPrefix(u.Op, "?")
	})) > 0
}

func firstCond(ts ...*Term) *Term {
	var best *Term
	for _, t := range ts {
		for _, u := range findTerms(t, func(u *Term) bool { return u.Op == "ite" && u.Args[0].fbv == 0 }) {
			m := map[*Term]bool{}
			var at []*Term
			boolAtoms(u.Args[0], m, &at)
			for _, a := range at {
				if a.fbv == 0 && (best == nil || a.ID < best.ID) {
					best = a
				}
			}
		}
	}
	return best
}

var eqCount int

func eqT(a, b *Term) bool { return eqD(a, b, 8, nil) }
func eqUnder(a, b *Term, facts map[*Term]bool) bool {
	return eqD(underLits(a, facts), underLits(b, facts), 8, facts)
}

func withLit(f map[*Term]bool, l *Term) map[*Term]bool {
	m := map[*Term]bool{}
	for x := range f {
		m[x] = true
	}
	for _, x := range conj(l) {
		m[x] = true
	}
	return m
}

func eqD(a, b *Term, depth int, facts map[*Term]bool) bool {
	if a == b {
		return true
	}
	if a.Sort != b.Sort || depth < 0 {
		return false
	}
	eqCount++
	switch a.Sort {
	case SInt:
		if sub(a, b) == I(0) {
			return true
		}
	case SGrp:
		if gAdd(a, gNeg(b)) == G0 {
			return true
		}
	case SField:
		if fAdd(a, fNeg(b)) == F(0) {
			return true
		}
	case SBool:
		if propEq(a, b) {
			return true
		}
	}
	if c := firstCond(a, b); c != nil {
		f1, f2 := withLit(facts, c), withLit(facts, not(c))
		return eqD(underLits(a, f1), underLits(b, f1), depth-1, f1) && eqD(underLits(a, f2), underLits(b, f2), depth-1, f2)
	}
	if a.Op != b.Op || a.Str != b.Str || len(a.Args) != len(b.Args) || len(a.Args) == 0 {
		return false
	}
	if a.Op == "lam" {
		z := freshIdx()
		return eqD(applyLam(a, z), applyLam(b, z), depth-1, facts)
	}
	if a.Op == "int" || a.Op == "fld" {
		return false
	}
	for i := range a.Args {
		if !eqD(a.Args[i], b.Args[i], depth-1, facts) {
			return false
		}
	}
	return true
}

var idxN int

func freshIdx() *Term {
	idxN++
	v := sym(fmt.Sprintf("§e%d", idxN), SInt)
	setBounds(v, []*Term{I(0)}, nil)
	return v
}

func provable(p *Term, facts map[*Term]bool) bool { // p <= 0
	var fs []*Term
	for f := range facts {
		fs = append(fs, f)
	}
	sortTerms(fs)
	return proveLe0(p, fs)
}

// ---------- comparing what is written

type want struct {
	prop string
	what string
	t    *Term // a write item or wloop
}

type mismatch struct {
	w    want
	got  string
	unk  bool
	more bool
}

// Compares a written file with the expected content, from both ends; returns
// what is left over in between.
func matchWrites(got []*Term, spec []want) ([]*Term, []want) {
	got = append([]*Term{}, got...)
	for i := range got {
		got[i] = listed(got[i])
	}
	var flat []want
	for _, w := range spec {
		for _, t := range explode([]*Term{w.t}) {
			t = listed(t)
			flat = append(flat, want{w.prop, w.what, t})
		}
	}
	spec = flat
	if m := matchFront(&got, &spec); m == nil {
		return nil, nil
	}
	matchBack(&got, &spec)
	matchFront(&got, &spec)
	return got, spec
}

func loopParts(t *Term) (n *Term, body func(i *Term) []*Term) {
	if t.Op != "wloop" {
		return nil, nil
	}
	return t.Args[0], func(i *Term) []*Term { return explode(items(applyLam(t.Args[1], i))) }
}

func seqEq(a, b []*Term, facts map[*Term]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqUnder(a[i], b[i], facts) {
			return false
		}
	}
	return true
}

func shiftLoop(n *Term, body func(i *Term) []*Term, from *Term) []*Term {
	v := sym("§i", SInt)
	w := mkWloop(sub(n, from), v, wl(body(add(v, from))...))
	return explode(items(w))
}

func matchFront(got *[]*Term, spec *[]want) *mismatch {
	for steps := 0; ; steps++ {
		g, s := *got, *spec
		if len(s) == 0 {
			if len(g) == 0 {
				return nil
			}
			return &mismatch{w: want{what: "end of the file"}, got: show(g[0]), unk: unknown(g[0]), more: true}
		}
		if len(g) == 0 {
			return &mismatch{w: s[0], got: "nothing more"}
		}
		if steps > 200 {
			return &mismatch{w: s[0], got: "?", unk: true}
		}
		bad := &mismatch{w: s[0], got: show(g[0]), unk: unknown(g[0]) || unknown(s[0].t)}
		if eqT(g[0], s[0].t) {
			*got, *spec = g[1:], s[1:]
			continue
		}
		repl := func(ts []*Term) []want {
			var r []want
			for _, t := range ts {
				r = append(r, want{s[0].prop, s[0].what, t})
			}
			return append(r, s[1:]...)
		}
		gn, gb := loopParts(g[0])
		sn, sb := loopParts(s[0].t)
		switch {
		case gn != nil && sn != nil:
			z := freshIdx()
			if len(gb(z)) != len(sb(z)) || !seqEq(gb(z), sb(z), nil) {
				return bad
			}
			d := sub(sn, gn)
			switch {
			case provable(neg(d), nil):
				*got, *spec = g[1:], repl(shiftLoop(sn, sb, gn))
			case provable(d, nil):
				*got, *spec = append(shiftLoop(gn, gb, sn), g[1:]...), s[1:]
			default:
				return bad
			}
		case sn != nil:
			if !provable(sub(I(1), sn), nil) || steps > 40 {
				return bad
			}
			*spec = repl(append(append([]*Term{}, sb(I(0))...), shiftLoop(sn, sb, I(1))...))
		case gn != nil:
			if !provable(sub(I(1), gn), nil) || steps > 40 {
				return bad
			}
			*got = append(append(append([]*Term{}, gb(I(0))...), shiftLoop(gn, gb, I(1))...), g[1:]...)
		default:
			return bad
		}
	}
}

func matchBack(got *[]*Term, spec *[]want) *mismatch {
	for steps := 0; ; steps++ {
		g, s := *got, *spec
		if len(s) == 0 || len(g) == 0 {
			if len(s) == len(g) {
				return nil
			}
			return &mismatch{}
		}
		gl, sl := g[len(g)-1], s[len(s)-1]
		if eqT(gl, sl.t) {
			*got, *spec = g[:len(g)-1], s[:len(s)-1]
			continue
		}
		gn, gb := loopParts(gl)
		sn, sb := loopParts(sl.t)
		if steps > 40 {
			return &mismatch{}
		}
		v := sym("§i", SInt)
		switch {
		case gn != nil && sn == nil && provable(sub(I(1), gn), nil):
			w := explode(items(mkWloop(sub(gn, I(1)), v, wl(gb(v)...))))
			*got = append(append(append([]*Term{}, g[:len(g)-1]...), w...), gb(sub(gn, I(1)))...)
		case sn != nil && gn == nil && provable(sub(I(1), sn), nil):
			r := append([]want{}, s[:len(s)-1]...)
			for _, t := range append(explode(items(mkWloop(sub(sn, I(1)), v, wl(sb(v)...)))), sb(sub(sn, I(1)))...) {
				r = append(r, want{sl.prop, sl.what, t})
			}
			*spec = r
		default:
			return &mismatch{}
		}
	}
}

// ---------- what success requires, at one index

// the requirements instantiated for index k of every quantified one, under
// the given facts about k
func (r *Run) factsAt(k *Term, facts map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	put := func(t *Term) {
		for _, x := range conj(underLits(t, facts)) {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	var inst func(l *Term, wrap func(*Term) *Term)
	inst = func(l *Term, wrap func(*Term) *Term) {
		switch l.Op {
		case "all":
			for _, d := range []int64{0, -1, 1} {
				i := add(k, I(d))
				if provable(neg(i), facts) && provable(add(sub(i, l.Args[0]), I(1)), facts) {
					inst(applyLam(l.Args[1], i), wrap)
				}
			}
		case "and":
			for _, a := range l.Args {
				inst(a, wrap)
			}
		case "or":
			for i, a := range l.Args {
				if a.Op == "all" || a.Op == "and" {
					var rest []*Term
					rest = append(rest, l.Args[:i]...)
					rest = append(rest, l.Args[i+1:]...)
					inst(a, func(x *Term) *Term { return wrap(or(append([]*Term{x}, rest...)...)) })
					return
				}
			}
			put(wrap(l))
		default:
			put(wrap(l))
		}
	}
	for _, l := range r.S {
		inst(l, func(x *Term) *Term { return x })
	}
	return out
}

func holds(fs []*Term, t *Term) bool {
	for _, f := range fs {
		if f == t {
			return true
		}
	}
	for _, f := range fs {
		if f.Op == t.Op && eqT(f, t) {
			return true
		}
	}
	return false
}

// ---------- pairings

type pair struct{ p, q, c *Term }

func pairsOf(t *Term) []pair {
	var out []pair
	for i := 0; i+2 < len(t.Args)+0; i += 3 {
		out = append(out, pair{t.Args[i], t.Args[i+1], t.Args[i+2]})
	}
	return out
}

// e(a,b) = e(c,d)
func pairEq(a, b, c, d *Term) *Term {
	return pceq0([]*Term{a, gNeg(c)}, []*Term{b, d})
}

// ---------- reporting

func show(t *Term) string {
	s := t.String()
	s = strings.ReplaceAll(s, "github.com/bnb-chain/zkbnb-setup/", "")
	if len(s) > 700 {
		s = s[:700] + "…"
	}
	return s
}

func (c *Ctx) oblige(what string, held bool, unk bool, detail string) {
	c.obligations++
	if !held && c.lossy != "" {
		unk = true
		detail = "(" + c.lossy + ") " + detail
	}
	switch {
	case held:
		c.discharged++
		if len(c.samples) < 400 {
			c.samples = append(c.samples, what)
		}
	case unk:
		c.undecided = append(c.undecided, what+": "+detail)
	default:
		c.viol = append(c.viol, what+": "+detail)
	}
}

// constructs with effects the analysis lost track of: nothing that depends on
// them is reported
func (r *Run) lost() string {
	var ns []string
	for n := range r.ev.notes {
		if strings.HasPrefix(n, "unmodelled call of (") {
			for _, m := range []string{").Encode at", ").Decode at", ").Write at", ").WriteString at", ").WriteTo at", ").WriteRawTo at", ").Read at", ").ReadFrom at", ").ReadFull at", ").Seek at", ").Flush at", ").Reset at"} {
				if strings.Contains(n, m) {
					ns = append(ns, n)
				}
			}
			continue
		}
		for _, p := range []string{"write to", "write through", "read from", "goroutine started", "unsupported instruction", "irreducible", "call of an unknown function", "call of ", "call through", "recursive call", "parallel call", "encoding of an unknown", "decoding", "read into an unknown", "buffered reader", "a receive before", "a channel whose", "receive from an unknown", "send on an unknown", "select in", "copy to unknown", "bytes read into", "unknown coder"} {
			if strings.HasPrefix(n, p) {
				ns = append(ns, n)
				break
			}
		}
	}
	sort.Strings(ns)
	return strings.Join(ns, "; ")
}

// is the content of the file known to the analysis?
func (c *Ctx) need(r *Run) bool {
	if r.ok {
		if n := r.lost(); n != "" {
			c.lossy = n
		}
		return true
	}
	c.undecided = append(c.undecided, r.why)
	return false
}

// compare a file with its expected content, for the segments of this property
func (c *Ctx) writes(r *Run, path *Term, spec []want) {
	if !c.need(r) {
		return
	}
	c.compare(r, path, r.content(path), spec)
}

func (c *Ctx) compare(r *Run, path *Term, got []*Term, spec []want) {
	n := 0
	for _, w := range spec {
		if w.prop == c.id {
			n++
		}
	}
	rest, left := matchWrites(got, spec)
	unk := anyUnknown(rest)
	// parts that are there, among others that shouldn't be
	open := map[string]bool{}
	detail := map[string]string{}
	used := make([]bool, len(rest))
	for _, w := range left {
		found := false
		for i, g := range rest {
			if !used[i] && eqT(g, w.t) {
				used[i], found = true, true
				break
			}
		}
		unk = unk || unknown(w.t)
		if !found {
			open[w.prop+w.what] = true
			d := "nothing more"
			for i, g := range rest {
				if !used[i] {
					d = show(g)
					break
				}
			}
			detail[w.prop+w.what] = fmt.Sprintf("expected %s but it writes %s", show(w.t), d)
		}
	}
	var extra []string
	for i, g := range rest {
		if !used[i] {
			extra = append(extra, show(g))
		}
	}
	order := len(left) > 0 && len(open) == 0
	for _, w := range spec {
		if w.prop != c.id {
			continue
		}
		c.oblige(fmt.Sprintf("%s writes %s: %s", r.Name, show(path), w.what), !open[w.prop+w.what], unk, detail[w.prop+w.what])
	}
	if n > 0 && len(open) == 0 {
		c.oblige(r.Name+" writes "+show(path)+": nothing else", len(extra) == 0, unk, "it also writes "+strings.Join(extra, ", "))
		c.oblige(r.Name+" writes "+show(path)+": in this order", !order || len(extra) > 0, unk, "the parts are in another order")
	}
}

// spec of one requirement of success
func (c *Ctx) requires(r *Run, what string, fs []*Term, t *Term) {
	if t == TTrue {
		c.oblige(what, true, false, "")
		return
	}
	held := true
	missing := ""
	for _, x := range conj(t) {
		if !holds(fs, x) {
			held = false
			missing = show(x)
		}
	}
	unk := false
	if !held {
		for _, f := range fs {
			if unknown(f) {
				unk = true
			}
		}
	}
	c.oblige(what, held, unk, r.Name+" can succeed without requiring "+missing)
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
