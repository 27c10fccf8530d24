package main

// Loop summaries. The cells a loop changes become unknowns χ; the body is
// evaluated once on them, which gives a recurrence per cell; recurrences with a
// closed form in the iteration number p are solved by induction rules, the
// body is evaluated again with the closed forms in place, and the state after
// the loop is the closed forms at the last iteration. In a batched loop p
// counts the processed elements and c is the size of the current batch.

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type leaf struct {
	chi    *Term
	init   *Term
	arr    bool
	n      *Term // value after one iteration, in terms of the χs, p and c
	closed *Term // value at the head of iteration p (arrays: of element §x)
	dead   bool  // no closed form
	end    *Term // value after the loop, if it has no closed form in p
}

type loopEval struct {
	ev     *Ev
	fr     *Frame
	l      *Loop
	key    string
	st0    *State
	env0   Env
	phis   []*ssa.Phi
	phi    []Value        // head values, abstracted
	heap   map[*Obj]Value // abstracted cells
	leaves []*leaf
	byChi  map[*Term]*leaf
	fresh  map[*Obj]bool // objects allocated by the body
	p, c   *Term
	chunk  bool
	par    bool
	raced  []string
	writes [][2]*Term // parallel: array, shift of the write
	reads  [][3]*Term // parallel: array, shift of the write, index difference read
	T, B   *Term      // number of iterations, or total number of elements and batch size
}

var loopNum = map[string]int{}

func loopID(key string) int {
	if n, ok := loopNum[key]; ok {
		return n
	}
	loopNum[key] = len(loopNum) + 1
	return loopNum[key]
}

type evMark struct {
	nev, nex int
	ncr      int
	notes    map[string]bool
	trace    int
}

func (ev *Ev) mark(fr *Frame) evMark {
	m := evMark{len(ev.events), len(fr.exits), len(ev.crashes), map[string]bool{}, 0}
	if ev.tr != nil {
		m.trace = len(ev.tr.log)
	}
	for k := range ev.notes {
		m.notes[k] = true
	}
	return m
}
func (ev *Ev) reset(fr *Frame, m evMark) {
	ev.events = ev.events[:m.nev]
	ev.crashes = ev.crashes[:m.ncr]
	fr.exits = fr.exits[:m.nex]
	if ev.tr != nil {
		ev.tr.log = ev.tr.log[:m.trace]
	}
	ev.notes = map[string]bool{}
	for k := range m.notes {
		ev.notes[k] = true
	}
}

func (ev *Ev) evalLoop(fr *Frame, l *Loop, edges []Edge) []Edge {
	st, env, pv := ev.joinEdges(l.header, edges)
	st, env = st.clone(), env.clone()
	if outs, ok := ev.unroll(fr, l, st, env, pv); ok {
		return outs
	}
	if ev.tr != nil {
		ev.tr.lose("a loop in %s whose end isn't known", fr.fn)
		panic(tracerStop{})
	}
	le := &loopEval{ev: ev, fr: fr, l: l, st0: st, env0: env, phi: append([]Value{}, pv...),
		heap: map[*Obj]Value{}, byChi: map[*Term]*leaf{}, fresh: map[*Obj]bool{}}
	le.key = fmt.Sprintf("%sL%d", fr.ctx, l.header.Index)
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			le.phis = append(le.phis, p)
		}
	}
	return le.run()
}

func exitsAtHeader(l *Loop) bool {
	for _, s := range l.header.Succs {
		if !l.blocks[s] {
			return true
		}
	}
	return false
}

// how far the two sides of a loop's condition are apart
type distance struct {
	seen int
	gap  int64
	step int64
}

// whether at least n further iterations are to come, as far as the last ones
// show
func (d *distance) after(ev *Ev, l *Loop, env Env, n int) bool {
	ins := l.header.Instrs
	br, ok := ins[len(ins)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	side := func(v ssa.Value) (int64, bool) {
		var x Value
		if k, ok := v.(*ssa.Const); ok {
			if k.Value == nil || k.Value.Kind() != constant.Int {
				return 0, false
			}
			return k.Int64(), true
		}
		if x, ok = env[v]; !ok {
			return 0, false
		}
		t, ok := x.(*Term)
		if !ok || t.Sort != SInt {
			return 0, false
		}
		return constI(t)
	}
	a, ok1 := side(c.X)
	b, ok2 := side(c.Y)
	if !ok1 || !ok2 {
		return false
	}
	g := a - b
	step := g - d.gap
	same := d.seen >= 2 && step == d.step
	d.gap, d.step = g, step
	d.seen++
	if !same || step == 0 || (g > 0) == (step > 0) {
		return false
	}
	if step < 0 {
		g, step = -g, -step
	}
	return -g/step > int64(n)
}

// run the loop iteration by iteration if its exit is decided each time
func (ev *Ev) unroll(fr *Frame, l *Loop, st *State, env Env, pv []Value) ([]Edge, bool) {
	max := 64
	if ev.tr != nil {
		max = 600
	}
	m := ev.mark(fr)
	ctx := fr.ctx
	defer func() { fr.ctx = ctx }()
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	var outs []Edge
	var far distance
	hx := exitsAtHeader(l)
	for i := 0; i < max; i++ {
		fr.ctx = fmt.Sprintf("%s#%d", ctx, i)
		s, e := st.clone(), env.clone()
		for j, p := range phis {
			e[p] = pv[j]
		}
		if hx {
			m2 := ev.mark(fr)
			he := e.clone()
			es := ev.execBlock(fr, l.header, s.clone(), he)
			ev.reset(fr, m2)
			if len(es) > 1 {
				ev.reset(fr, m)
				return nil, false
			}
			if far.after(ev, l, he, max-i) {
				ev.reset(fr, m)
				return nil, false
			}
		}
		back, o := ev.evalBlocks(fr, l, l.header, []Edge{{nil, l.header, s, e}}, true)
		if !hx && len(back) > 0 && len(o) > 0 {
			ev.reset(fr, m)
			return nil, false
		}
		outs = append(outs, o...)
		if len(back) == 0 {
			return outs, true
		}
		if !hx && i >= 8 && len(outs) == 0 && len(fr.exits) == m.nex {
			break
		}
		st, env, pv = ev.joinEdges(l.header, back)
	}
	ev.reset(fr, m)
	return nil, false
}

func (le *loopEval) iterate(st *State, phi []Value) (*State, []Value, []Edge) {
	ev := le.ev
	s, e := st.clone(), le.env0.clone()
	for i, p := range le.phis {
		e[p] = phi[i]
	}
	ctx := le.fr.ctx
	le.fr.ctx = ctx + "~" + strconv.Itoa(le.l.header.Index)
	back, outs := ev.evalBlocks(le.fr, le.l, le.l.header, []Edge{{nil, le.l.header, s, e}}, true)
	le.fr.ctx = ctx
	if len(back) == 0 {
		return nil, nil, outs
	}
	bst, _, bphi := ev.joinEdges(le.l.header, back)
	return bst, bphi, outs
}

// head state with the given substitution for the unknowns
func (le *loopEval) head(m map[*Term]*Term) (*State, []Value) {
	st := le.st0.clone()
	f := func(t *Term) *Term { return subst(t, m) }
	for o, v := range le.heap {
		st.heap[o] = mapTerms(v, f)
	}
	var phi []Value
	for _, v := range le.phi {
		if v == nil {
			phi = append(phi, nil)
		} else {
			phi = append(phi, mapTerms(v, f))
		}
	}
	return st, phi
}

func (le *loopEval) newLeaf(path string, init *Term, arr bool) *Term {
	so := init.Sort
	if arr {
		so = SOther
	}
	chi := mk("chi", fmt.Sprintf("%d|%s", loopID(le.key), path), so, nil)
	if _, ok := le.byChi[chi]; !ok {
		lf := &leaf{chi: chi, init: init, arr: arr}
		le.leaves = append(le.leaves, lf)
		le.byChi[chi] = lf
	}
	return chi
}

func (le *loopEval) isChi(t *Term) bool { return le.byChi[t] != nil }

// the head value h with everything that differs after an iteration replaced
// by unknowns
func (le *loopEval) abstract(path string, h, n Value, hs, ns *State) Value {
	if h == nil || n == nil || valEq(h, n) && !le.pointsFresh(n) {
		return h
	}
	top := func(why string) Value { return &TopV{why} }
	// byte slices are compared by content
	if hb, ok := le.asBytes(h, hs); ok {
		if nb, ok := le.asBytes(n, ns); ok {
			if hb == nb {
				return hb
			}
			if le.isChi(hb) {
				return hb
			}
			return le.newLeaf(path, hb, false)
		}
	}
	switch x := h.(type) {
	case *Term:
		y, ok := n.(*Term)
		if !ok || y.Sort != x.Sort {
			return top("loop-carried value of changing kind")
		}
		if le.isChi(x) {
			return x
		}
		return le.newLeaf(path, x, false)
	case *SymV:
		return le.abstract(path, expandSym(x), n, hs, ns)
	case *StructV:
		y, ok := n.(*StructV)
		if !ok {
			if s, ok2 := n.(*SymV); ok2 {
				y, ok = expandSym(s), true
			}
		}
		if !ok {
			return top("loop-carried struct of changing kind")
		}
		r := &StructV{t: x.t, f: make([]Value, len(x.f))}
		for i := range x.f {
			r.f[i] = le.abstract(fmt.Sprintf("%s.%d", path, i), x.f[i], y.f[i], hs, ns)
		}
		return r
	case *ArrC:
		y, ok := n.(*ArrC)
		if !ok || len(y.e) != len(x.e) {
			return top("loop-carried array of changing kind")
		}
		r := &ArrC{elem: x.elem, e: make([]Value, len(x.e))}
		for i := range x.e {
			r.e[i] = le.abstract(fmt.Sprintf("%s[%d]", path, i), x.e[i], y.e[i], hs, ns)
		}
		return r
	case *ArrL:
		if _, ok := n.(*ArrL); !ok {
			return top("loop-carried array of changing kind")
		}
		if x.body.Op == "sel" && le.isChi(x.body.Args[0]) && x.body.Args[1] == xs {
			return x
		}
		chi := le.newLeaf(path+"[]", x.body, true)
		return &ArrL{x.elem, mk("sel", "", x.body.Sort, nil, chi, xs)}
	case *SliceV:
		y, ok := n.(*SliceV)
		if !ok {
			return top("loop-carried slice of changing kind")
		}
		if x.obj == nil && y.obj != nil && !strings.HasSuffix(y.obj.key, "+app") {
			return top("slice made in the loop")
		}
		if x.obj == nil && y.obj != nil {
			x = &SliceV{y.obj, y.path, y.off, I(0), I(0)}
			if at, ok := y.obj.typ.Underlying().(*types.Array); ok {
				if _, ok := le.st0.heap[y.obj]; !ok {
					le.st0.heap[y.obj] = newArray(at.Elem(), I(0))
				}
			}
		}
		if x.obj != y.obj || len(x.path) != len(y.path) || !pathEq(x.path, y.path) || le.fresh[y.obj] && hs.heap[y.obj] == nil {
			return top("slice of another iteration")
		}
		ab := func(sfx string, a, b *Term) *Term {
			if a == b || le.isChi(a) {
				return a
			}
			return le.newLeaf(path+sfx, a, false)
		}
		return &SliceV{x.obj, x.path, ab(".off", x.off, y.off), ab(".len", x.len, y.len), ab(".cap", x.cap, y.cap)}
	case *PtrV:
		y, ok := n.(*PtrV)
		if !ok || x.obj == nil || x.obj != y.obj || len(x.path) != len(y.path) || le.fresh[y.obj] {
			return top("pointer of another iteration")
		}
		r := &PtrV{obj: x.obj}
		for i, e := range x.path {
			f := y.path[i]
			if e.idx != nil && f.idx != nil {
				if e.idx != f.idx && !le.isChi(e.idx) {
					e.idx = le.newLeaf(fmt.Sprintf("%s@%d", path, i), e.idx, false)
				}
			} else if e != f {
				return top("pointer of another iteration")
			}
			r.path = append(r.path, e)
		}
		return r
	case *IfaceV:
		y, ok := n.(*IfaceV)
		if !ok || x.t == nil || y.t == nil || !types.Identical(x.t, y.t) {
			return top("interface of changing kind")
		}
		return &IfaceV{x.t, le.abstract(path+".i", x.v, y.v, hs, ns)}
	case *ErrV:
		y, ok := n.(*ErrV)
		if !ok {
			return top("error of changing kind")
		}
		if le.isChi(x.ok) {
			return x
		}
		if x.ok == y.ok {
			return x
		}
		return &ErrV{le.newLeaf(path+".ok", x.ok, false)}
	case *ExtV:
		y, ok := n.(*ExtV)
		if !ok || x.kind != y.kind || len(x.f) != len(y.f) {
			return top("library object of changing kind")
		}
		r := &ExtV{x.kind, map[string]Value{}}
		for _, k := range x.keys() {
			r.f[k] = le.abstract(path+"."+k, x.f[k], y.f[k], hs, ns)
		}
		return r
	case TupleV:
		y, ok := n.(TupleV)
		if !ok || len(x) != len(y) {
			return top("tuple of changing kind")
		}
		var r TupleV
		for i := range x {
			r = append(r, le.abstract(fmt.Sprintf("%s#%d", path, i), x[i], y[i], hs, ns))
		}
		return r
	case *TopV:
		return x
	}
	return top(fmt.Sprintf("loop-carried %T", h))
}

func (le *loopEval) pointsFresh(v Value) bool {
	switch x := v.(type) {
	case *SliceV:
		return x.obj != nil && le.fresh[x.obj]
	case *PtrV:
		return x.obj != nil && le.fresh[x.obj]
	case *StructV:
		for _, f := range x.f {
			if le.pointsFresh(f) {
				return true
			}
		}
	case *IfaceV:
		return x.t != nil && le.pointsFresh(x.v)
	}
	return false
}

// the content of a byte slice that doesn't live in a cell of this loop
func (le *loopEval) asBytes(v Value, st *State) (*Term, bool) {
	switch x := v.(type) {
	case *Term:
		return x, x.Sort == SBytes
	case *SliceV:
		if x.obj == nil {
			return nilBytes, true
		}
		if at, ok := x.obj.typ.(*types.Array); ok {
			if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return le.ev.bytesOf(st, x), true
			}
		}
	case *IteV:
		a, ok := le.asBytes(x.a, st)
		b, ok2 := le.asBytes(x.b, st)
		if ok && ok2 {
			return ite(x.c, a, b), true
		}
	}
	return nil, false
}

// record the values of the unknowns after one iteration
func (le *loopEval) collect(h, n Value, ns *State) {
	if h == nil || n == nil {
		return
	}
	set := func(chi *Term, v *Term) {
		if lf := le.byChi[chi]; lf != nil {
			lf.n = v
		}
	}
	switch x := h.(type) {
	case *Term:
		if !le.isChi(x) {
			return
		}
		if x.Sort == SBytes {
			if b, ok := le.asBytes(n, ns); ok {
				set(x, b)
			}
			return
		}
		if y, ok := n.(*Term); ok && y.Sort == x.Sort {
			set(x, y)
		}
	case *StructV:
		if s, ok := n.(*SymV); ok {
			n = expandSym(s)
		}
		if y, ok := n.(*StructV); ok {
			for i := range x.f {
				le.collect(x.f[i], y.f[i], ns)
			}
		}
	case *ArrC:
		if y, ok := n.(*ArrC); ok && len(x.e) == len(y.e) {
			for i := range x.e {
				le.collect(x.e[i], y.e[i], ns)
			}
		}
	case *ArrL:
		if y, ok := n.(*ArrL); ok && x.body.Op == "sel" && le.isChi(x.body.Args[0]) {
			set(x.body.Args[0], y.body)
		}
	case *SliceV:
		if y, ok := n.(*SliceV); ok && x.obj == y.obj {
			set(x.off, y.off)
			set(x.len, y.len)
			set(x.cap, y.cap)
		}
	case *PtrV:
		if y, ok := n.(*PtrV); ok && len(x.path) == len(y.path) {
			for i := range x.path {
				if x.path[i].idx != nil && y.path[i].idx != nil {
					set(x.path[i].idx, y.path[i].idx)
				}
			}
		}
	case *IfaceV:
		if y, ok := n.(*IfaceV); ok && x.t != nil && y.t != nil {
			le.collect(x.v, y.v, ns)
		}
	case *ErrV:
		if y, ok := n.(*ErrV); ok {
			set(x.ok, y.ok)
		}
	case *ExtV:
		if y, ok := n.(*ExtV); ok && x.kind == y.kind {
			for _, k := range x.keys() {
				le.collect(x.f[k], y.f[k], ns)
			}
		}
	case TupleV:
		if y, ok := n.(TupleV); ok && len(x) == len(y) {
			for i := range x {
				le.collect(x[i], y[i], ns)
			}
		}
	}
}

func (le *loopEval) collectAll(bst *State, bphi []Value) {
	for _, lf := range le.leaves {
		lf.n = nil
	}
	for i := range le.phi {
		le.collect(le.phi[i], bphi[i], bst)
	}
	for o, v := range le.heap {
		le.collect(v, bst.get(o), bst)
	}
}

func (le *loopEval) discoverPhis(st, bst *State, bphi []Value) bool {
	le.noteFresh(bst)
	changed := false
	for i := range le.phi {
		if le.phi[i] == nil {
			continue
		}
		v := le.abstract(le.phis[i].Name(), le.phi[i], bphi[i], st, bst)
		if !valEq(v, le.phi[i]) {
			changed = true
		}
		le.phi[i] = v
	}
	return changed
}

func (le *loopEval) noteFresh(bst *State) {
	for o := range bst.heap {
		if _, ok := le.st0.heap[o]; !ok && o.init == nil && !strings.HasPrefix(o.key, "content:") && o != le.ev.traceObj {
			le.fresh[o] = true
		}
	}
}

// abstract the heap cells that differ after an iteration
func (le *loopEval) discover(st, bst *State) bool {
	le.noteFresh(bst)
	changed := false
	for _, o := range bst.objs() {
		if le.fresh[o] {
			continue
		}
		h := st.get(o)
		if o == le.ev.traceObj || strings.HasPrefix(o.key, "content:") {
			if _, ok := st.heap[o]; !ok {
				h = wl()
			}
		}
		n := bst.get(o)
		if valEq(h, n) && !le.pointsFresh(n) {
			continue
		}
		v := le.abstract(o.key, h, n, st, bst)
		if old, ok := le.heap[o]; !ok || !valEq(old, v) {
			changed = true
		}
		le.heap[o] = v
	}
	return changed
}

func (le *loopEval) run() []Edge {
	ev, fr := le.ev, le.fr
	m0 := ev.mark(fr)
	id := loopID(le.key)
	le.p = mk("lv", fmt.Sprintf("p%d", id), SInt, nil)
	le.c = mk("lv", fmt.Sprintf("c%d", id), SInt, nil)
	setBounds(le.p, []*Term{I(0)}, nil)
	ev.loopVars = append(ev.loopVars, le.p)
	pop := func() { ev.loopVars = ev.loopVars[:len(ev.loopVars)-1] }

	// find the cells the loop changes
	var bst *State
	var bphi []Value
	var outs []Edge
	for round := 0; round < 8; round++ {
		st, phi := le.head(nil)
		bst, bphi, outs = le.iterate(st, phi)
		ev.reset(fr, m0)
		if bst == nil {
			break
		}
		changed := le.discoverPhis(st, bst, bphi)
		if le.discover(st, bst) {
			changed = true
		}
		if !changed {
			break
		}
	}
	if bst == nil {
		// the body never comes back: at most one iteration
		pop()
		st, phi := le.st0, le.phi
		_, _, outs = le.iterate(st, phi)
		return outs
	}
	le.collectAll(bst, bphi)
	le.findCounter(bst, outs)
	// solve, evaluating again with what is known
	for round := 0; round < 5; round++ {
		progress := le.solveAll(round)
		if !progress {
			break
		}
		left := false
		for _, lf := range le.leaves {
			if lf.closed == nil {
				left = true
			}
		}
		if !left {
			break
		}
		st, phi := le.head(le.closedMap())
		bst, bphi, outs = le.iterate(st, phi)
		ev.reset(fr, m0)
		if bst == nil {
			break
		}
		le.collectAll(bst, bphi)
	}
	for _, lf := range le.leaves {
		if lf.closed == nil {
			lf.dead = true
			n := "<none>"
			if lf.n != nil {
				n = lf.n.String()
			}
			if debugLoops {
				fmt.Printf("unsolved %s in %s (T=%v B=%v chunk=%v):\n   init %s\n   next %s\n", lf.chi.Str, le.key, le.T, le.B, le.chunk, lf.init, n)
			}
			if lf.arr {
				lf.closed = mkSel(lf.init.Sort, mk("havoc", lf.chi.Str, SOther, nil, append([]*Term{}, ev.loopVars...)...), xs)
			} else {
				lf.closed = mk("havoc", lf.chi.Str, lf.chi.Sort, nil, append([]*Term{}, ev.loopVars...)...)
			}
		}
	}
	if debugLeaves {
		fmt.Println("LOOP", le.key, "T", le.T, "B", le.B)
		for _, lf := range le.leaves {
			fmt.Printf("  %s\n     init %.300s\n     next %.300s\n     closed %.600s\n", lf.chi.Str, lf.init, lf.n, lf.closed)
		}
	}
	// the generic iteration
	m := le.closedMap()
	st, phi := le.head(m)
	n0 := len(fr.exits)
	bst, _, outs = le.iterate(st, phi)
	pop()
	if bst == nil {
		bst = st
	}
	var early []Edge
	for _, o := range outs {
		if !le.isEnd(o, st) {
			early = append(early, o)
		}
	}
	// conditions every iteration has passed
	var gl, al []*Term
	for _, t := range diffLits(bst.guard, st.guard) {
		gl = append(gl, le.forAll(t))
	}
	for _, t := range diffLits(bst.assume, st.assume) {
		al = append(al, le.forAll(t))
	}
	poison := TFalse
	if bst.poison != st.poison {
		switch bst.poison {
		case TTrue:
			poison = TTrue
		default:
			poison = not(le.forAll(not(bst.poison)))
		}
	}
	for i := n0; i < len(fr.exits); i++ {
		le.liftExit(&fr.exits[i], st)
	}
	// after the loop
	end := map[*Term]*Term{}
	for k, v := range m {
		end[k] = subst1(v, le.p, le.T)
	}
	for _, lf := range le.leaves {
		if lf.end != nil {
			end[lf.chi] = lf.end
		}
	}
	est, ephi := le.head(end)
	for _, t := range gl {
		est.add(t)
	}
	for _, t := range al {
		if t != TTrue {
			est.assume[t] = true
		}
	}
	if poison != TFalse {
		est.poison = or(est.poison, poison)
	}
	mk2 := ev.mark(fr)
	_, _, eouts := le.iterate(est, ephi)
	fr.exits = fr.exits[:mk2.nex]
	for i := range early {
		le.liftEdge(&early[i], st)
	}
	res := append(eouts, early...)
	for i := range res {
		res[i].st = res[i].st.clone()
		for o := range res[i].st.heap {
			if le.fresh[o] {
				if _, ok := le.st0.heap[o]; !ok {
					// still reachable through values computed in the last, partial iteration
					continue
				}
			}
		}
	}
	return res
}

var debugLoops, debugLeaves = false, os.Getenv("ZK_LEAVES") != ""

func (le *loopEval) closedMap() map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, lf := range le.leaves {
		if lf.closed != nil {
			m[lf.chi] = le.asValue(lf, lf.closed)
		}
	}
	return m
}
func (le *loopEval) asValue(lf *leaf, t *Term) *Term {
	if lf.arr {
		return mkArr(I(0), xs, t)
	}
	return t
}

// is o the exit taken when the iterations are used up?
func (le *loopEval) isEnd(o Edge, st *State) bool {
	if le.T.Op == "iters" {
		return true
	}
	return false
}

// f(p) holds for every iteration
func (le *loopEval) forAll(t *Term) *Term { return le.allUpto(le.T, t) }

func (le *loopEval) allUpto(q, t *Term) *Term {
	if t.Op == "and" {
		var r []*Term
		for _, a := range t.Args {
			r = append(r, le.allUpto(q, a))
		}
		return and(r...)
	}
	if !contains(t, le.p) && !contains(t, le.c) {
		if proveLe0(sub(I(1), q), nil) {
			return t
		}
		return or(le0(q), t)
	}
	if !le.chunk {
		return mkAll(q, le.p, t)
	}
	if t.Op == "all" && t.Args[0] == le.c {
		if b := le.flatten(t.Args[1]); b != nil {
			return mkAll(q, xs2, b)
		}
	}
	return le.chunkOp("allc", SBool, q, t)
}

var xs2 = sym("§z", SInt)

// body of a λ over [0,c), rewritten over the position p+i (named §z)
func (le *loopEval) flatten(lam *Term) *Term {
	b := applyLam(lam, sub(xs2, le.p))
	if contains(b, le.p) || contains(b, le.c) {
		b = le.reindex(b, xs2)
	}
	if contains(b, le.p) || contains(b, le.c) {
		return nil
	}
	return b
}

func isFreshOp(op string) bool { return op == "rand" || op == "ok" || op == "opaque" }

// name what is drawn anew at each position by the position
func (le *loopEval) reindex(t, z *Term) *Term {
	d := sub(z, le.p)
	m := map[*Term]*Term{}
	for _, f := range findTerms(t, func(x *Term) bool { return isFreshOp(x.Op) && contains(x, le.p) }) {
		var a []*Term
		for i := 0; i < len(f.Args); i++ {
			if f.Args[i] == le.p && i+1 < len(f.Args) && f.Args[i+1] == d {
				a = append(a, z)
				i++
				continue
			}
			a = append(a, f.Args[i])
		}
		m[f] = mk(f.Op, f.Str, f.Sort, nil, a...)
	}
	return subst(t, m)
}

// an operation over the batches of [0,q): batch start and size are bound
func (le *loopEval) chunkOp(op string, so Sort, q, body *Term) *Term {
	return mk(op, "", so, nil, q, le.T, le.B, bindMark(le.p, bindMark(le.c, body)))
}

// the exit condition of an exit taken in the middle of the loop
func (le *loopEval) liftLits(st, head *State) (conds []*Term) {
	return diffLits(st.guard, head.guard)
}

func (le *loopEval) liftExit(e *Exit, head *State) {
	if n := len(e.res); n > 0 {
		if ov, ok := e.res[n-1].(*ErrV); ok && e.st.cond(ov.ok) == TFalse {
			return
		}
	}
	e.st = e.st.clone()
	f := le.firstSubst(e.st, head)
	for i, r := range e.res {
		e.res[i] = mapTerms(r, f)
	}
}
func (le *loopEval) liftEdge(e *Edge, head *State) {
	e.st = e.st.clone()
	f := le.firstSubst(e.st, head)
	env := Env{}
	for k, v := range e.env {
		env[k] = mapTerms(v, f)
	}
	e.env = env
}

// move a state reached in the middle of the loop to after the loop: the
// iteration number is the first one taking this exit
func (le *loopEval) firstSubst(st, head *State) func(*Term) *Term {
	ls := diffLits(st.guard, head.guard)
	var cond []*Term
	for _, t := range ls {
		if contains(t, le.p) || contains(t, le.c) {
			cond = append(cond, t)
		}
	}
	c := and(cond...)
	K := mk("first", "", SInt, nil, le.T, bindMark(le.p, c))
	f := func(t *Term) *Term { return subst1(t, le.p, K) }
	none := le.forAll(not(c))
	for o, v := range st.heap {
		st.heap[o] = mapTerms(v, f)
	}
	g := map[*Term]bool{}
	for t := range st.guard {
		g[t] = true
	}
	for _, t := range cond {
		delete(g, t)
	}
	st.guard = g
	st.add(not(none))
	for _, t := range cond {
		st.add(f(t))
	}
	as := map[*Term]bool{}
	for _, t := range lits(st.assume) {
		as[f(t)] = true
	}
	st.assume = as
	st.poison = f(st.poison)
	return f
}
