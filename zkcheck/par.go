package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Functions of the module that have a summary of their own: the parallel
// helper, the Lagrange conversions and the bit reversals. Their
// implementations are checked separately.
func (ev *Ev) intrinsic(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args, bind []Value, st *State, key string) (Value, *State, bool) {
	if !inModule(fn) && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		return TupleV{}, st, true
	}
	if !inModule(fn) || fn.Signature.Recv() != nil || ev.noIntrinsic[fn] {
		return nil, nil, false
	}
	switch {
	case !ev.noPar && isParHelper(fn):
		f, ok := args[1].(*FuncV)
		if !ok {
			return nil, nil, false
		}
		ns := ev.parallel(fr, in, f, ev.intT(args[0]), st, key)
		if ns == nil {
			return nil, nil, true
		}
		return TupleV{}, ns, true
	case strings.HasSuffix(fn.String(), "/lagrange.ConvertG1"), strings.HasSuffix(fn.String(), "/lagrange.ConvertG2"):
		s, ok := args[0].(*SliceV)
		if !ok || s.obj == nil || len(args) != 2 {
			return nil, nil, false
		}
		dom := ev.valTerm(st, args[1])
		g := fn.String()[len(fn.String())-1:]
		a := ev.arrTerm(st, s)
		el := mkLagr(g, s.len, dom, a.Args[1], xs)
		return TupleV{}, ev.setSlice(st, s, el), true
	case isBitReverse(fn):
		s, ok := args[0].(*SliceV)
		if !ok || s.obj == nil || len(args) != 1 {
			return nil, nil, false
		}
		e, ok := ev.elemUnder(st, s)
		if !ok {
			return nil, nil, false
		}
		return TupleV{}, ev.setSlice(st, s, subst1(e, xs, mkRev(s.len, xs))), true
	}
	return nil, nil, false
}

func isBitReverse(fn *ssa.Function) bool {
	return strings.HasSuffix(fn.String(), "/common.BitReverseG1") || strings.HasSuffix(fn.String(), "/common.BitReverseG2")
}

// func(n int, work func(start, end int), ...) starting goroutines
func isParHelper(fn *ssa.Function) bool {
	ps := fn.Signature.Params()
	if ps.Len() < 2 || fn.Parent() != nil {
		return false
	}
	if b, ok := ps.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
		return false
	}
	w, ok := ps.At(1).Type().Underlying().(*types.Signature)
	if !ok || w.Params().Len() != 2 || w.Results().Len() != 0 {
		return false
	}
	return startsGoroutines(fn, 0)
}

// does fn start goroutines, itself or in the module's functions it calls?
func startsGoroutines(fn *ssa.Function, d int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Go); ok {
				return true
			}
			if c, ok := in.(*ssa.Call); ok && d < 4 {
				if f := c.Call.StaticCallee(); f != nil && inModule(f) && !isParHelper(f) && startsGoroutines(f, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// replace the elements of s; el gives element §x of s
func (ev *Ev) setSlice(st *State, s *SliceV, el *Term) *State {
	a, ok := walk(st.get(s.obj), s.path).(*ArrL)
	if !ok {
		st.store(&PtrV{s.obj, s.path}, &TopV{"slice"})
		return st
	}
	v := subst1(el, xs, sub(xs, s.off))
	st.store(&PtrV{s.obj, s.path}, &ArrL{a.elem, ite(and(le(s.off, xs), lt(xs, add(s.off, s.len))), v, a.body)})
	return st
}

// work(start,end) called for disjoint ranges covering [0,n): one batch of a
// batched loop, except that the batches run at the same time
func (ev *Ev) parallel(fr *Frame, in ssa.CallInstruction, f *FuncV, n *Term, st *State, key string) *State {
	fn, ok := f.fn.(*ssa.Function)
	if !ok || len(fn.Blocks) == 0 {
		ev.note("parallel call of an unknown function in %s", fr.fn)
		return st
	}
	if nn, ok := constI(n); ok && sized != nil && nn <= 64 && os.Getenv("ZK_NOSPLIT") == "" {
		// at a fixed size: the shares of two CPUs, one after the other
		h := (nn + 1) / 2
		for i, s := range [][2]int64{{0, h}, {h, nn}} {
			if s[0] < s[1] && st != nil {
				_, st = ev.callFn(fn, []Value{I(s[0]), I(s[1])}, f.bind, st, fmt.Sprintf("%spar#%d", key, i))
			}
		}
		return st
	}
	le := &loopEval{ev: ev, fr: fr, st0: st.clone(), key: key + "par", heap: map[*Obj]Value{}, byChi: map[*Term]*leaf{}, fresh: map[*Obj]bool{}, par: true}
	id := loopID(le.key)
	le.p = mk("lv", fmt.Sprintf("s%d", id), SInt, nil)
	le.c = mk("lv", fmt.Sprintf("n%d", id), SInt, nil)
	le.chunk, le.T, le.B = true, n, mk("share", "", SInt, nil, n)
	setBounds(le.B, []*Term{I(1)}, []*Term{n})
	setBounds(le.p, []*Term{I(0)}, []*Term{sub(n, I(1))})
	setBounds(le.c, []*Term{I(1)}, []*Term{sub(n, le.p)})
	m0 := ev.mark(fr)
	ev.loopVars = append(ev.loopVars, le.p)
	pop := func() { ev.loopVars = ev.loopVars[:len(ev.loopVars)-1] }
	run := func(s *State) *State {
		_, ns := ev.callFn(fn, []Value{le.p, add(le.p, le.c)}, f.bind, s, key+"par")
		return ns
	}
	var bst *State
	for round := 0; round < 6; round++ {
		s, _ := le.head(nil)
		bst = run(s.clone())
		ev.reset(fr, m0)
		if bst == nil {
			pop()
			return nil
		}
		if !le.discover(s, bst) {
			break
		}
	}
	le.collectAll(bst, nil)
	race := func(what string) {
		ev.event(&extCall{fr: fr, in: in, st: st}, "race", str(what))
	}
	le.solveAll(0)
	for _, lf := range le.leaves {
		if !lf.arr {
			if lf.n != lf.chi {
				ev.deferRace = append(ev.deferRace, func() { race(lf.chi.Str) })
			}
			lf.closed = mk("havoc", lf.chi.Str, lf.chi.Sort, nil, ev.loopVars[:len(ev.loopVars)-1]...)
			continue
		}
		if lf.closed == nil {
			if debugLoops {
				fmt.Printf("unsolved parallel write %s:\n   next %s\n", lf.chi.Str, lf.n)
			}
			lf.closed = mkSel(lf.init.Sort, mk("havoc", lf.chi.Str, SOther, nil, append([]*Term{}, ev.loopVars[:len(ev.loopVars)-1]...)...), xs)
		}
	}
	if debugLeaves {
		for _, lf := range le.leaves {
			fmt.Printf("PARLEAF %s\n   init %s\n   next %s\n   closed %s\n", lf.chi.Str, lf.init, lf.n, lf.closed)
		}
	}
	// an element read by one worker must not be written by another
	for _, r := range le.reads {
		ok, apart := false, true
		for _, w := range le.writes {
			if w[0] != r[0] {
				continue
			}
			d := sub(w[1], add(r[1], r[2])) // region of w starts d after the elements read
			if d == I(0) {
				ok = true
			}
			if !proveLe0(sub(n, d), nil) && !proveLe0(add(d, n), nil) {
				apart = false
			}
		}
		if !ok && !apart {
			ev.deferRace = append(ev.deferRace, func() { race(r[0].Str) })
		}
	}
	m := le.closedMap()
	s, _ := le.head(m)
	bst = run(s.clone())
	pop()
	for _, f := range ev.deferRace {
		f()
	}
	ev.deferRace = nil
	if bst == nil {
		return nil
	}
	end := map[*Term]*Term{}
	for k, v := range m {
		end[k] = subst1(v, le.p, n)
	}
	est, _ := le.head(end)
	for _, t := range diffLits(bst.guard, s.guard) {
		est.add(le.forAll(t))
	}
	for _, t := range diffLits(bst.assume, s.assume) {
		if t = le.forAll(t); t != TTrue {
			est.assume[t] = true
		}
	}
	if bst.poison != s.poison {
		est.poison = or(est.poison, not(le.forAll(not(bst.poison))))
	}
	return est
}
