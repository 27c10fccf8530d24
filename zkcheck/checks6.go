package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- goroutines and the Lagrange conversion at fixed sizes

// evaluate fn with every goroutine recorded
func (c *Ctx) traced(name string, ncpu int64, f func(ev *Ev, st *State) *State) (*Ev, *State, concResult) {
	old := sized
	ns := sizes{"ncpu": ncpu}
	for k, v := range old {
		ns[k] = v
	}
	sized = ns
	ev := newEv(c.p)
	ev.tr = newTracer()
	ev.noPar = true
	theTracer = ev.tr
	var st *State
	func() {
		defer func() {
			theTracer = nil
			sized = old
			if x := recover(); x != nil {
				if _, ok := x.(tracerStop); !ok {
					panic(x)
				}
			}
		}()
		st = f(ev, ev.initState(nil))
	}()
	for f := range ev.fnsSeen {
		c.funcs[f.String()] = true
	}
	c.steps += ev.steps
	r := ev.tr.analyse(c.p)
	if st == nil && len(r.lossy) == 0 && len(r.joins) == 0 {
		r.lossy = append(r.lossy, "it wasn't evaluated to its end")
	}
	for n := range ev.notes {
		r.lossy = append(r.lossy, n)
	}
	r.crash = ev.crashes
	return ev, st, r
}

// the parallel helpers of the module
func (c *Ctx) parHelpers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.p.allFuncs() {
		if inModule(fn) && len(fn.Blocks) > 0 && isParHelper(fn) {
			out = append(out, fn)
		}
	}
	return out
}

type share struct{ lo, hi int64 }

// what a helper hands out for n items, with the given limits of CPUs
func (c *Ctx) shares(fn *ssa.Function, n, ncpu int64, limits []int64) (sh []share, res concResult, why string) {
	_, _, res = c.traced(fn.Name(), ncpu, func(ev *Ev, st *State) *State {
		items := getObj("items", nil)
		work := &FuncV{fn: func(a []Value) {
			lo, ok := constI(ev.intT(a[0]))
			hi, ok2 := constI(ev.intT(a[1]))
			if !ok || !ok2 {
				why = "a share isn't known"
				return
			}
			sh = append(sh, share{lo, hi})
			for i := lo; i < hi && i-lo < 1000; i++ {
				ev.tr.log = append(ev.tr.log, cEvent{thread: ev.tr.cur, kind: "write", obj: items, path: fmt.Sprintf("%d/", i), pos: fn.Pos()})
			}
		}}
		args := []Value{I(n), work}
		if fn.Signature.Variadic() {
			if len(limits) == 0 {
				args = append(args, &SliceV{off: I(0), len: I(0), cap: I(0)})
			} else {
				o := getObj("limits", nil)
				a := &ArrC{elem: fn.Signature.Params().At(2).Type()}
				for _, l := range limits {
					a.e = append(a.e, I(l))
				}
				st.heap[o] = a
				args = append(args, &SliceV{obj: o, off: I(0), len: I(int64(len(limits))), cap: I(int64(len(limits)))})
			}
		}
		_, ns := ev.callFn(fn, args, nil, st, "")
		if ns == nil {
			why = "it doesn't return"
		}
		return ns
	})
	return
}

func partitionOf(sh []share, n int64) string {
	by := map[int64]int{}
	for _, s := range sh {
		if s.lo > s.hi || s.hi > s.lo && (s.lo < 0 || s.hi > n) {
			return fmt.Sprintf("a share goes from %d to %d", s.lo, s.hi)
		}
		for i := s.lo; i < s.hi; i++ {
			by[i]++
		}
	}
	for i := int64(0); i < n; i++ {
		if by[i] != 1 {
			return fmt.Sprintf("item %d is in %d shares", i, by[i])
		}
	}
	return ""
}

// ---------- the transform

// coefficients of powers of ω below n/2 (ω^(n/2) = -1), times the inverse of n
type rootPoly struct {
	c []*big.Int
}

// t as Σ_j p_j·a_j; why it isn't one
func asTransform(t *Term, n int64, elems map[*Term]int64) (map[int64][]*big.Int, string) {
	out := map[int64][]*big.Int{}
	for _, e := range grpOf(t) {
		j, ok := elems[e.b]
		if !ok {
			return nil, "it depends on " + show(e.b)
		}
		p := out[j]
		if p == nil {
			p = make([]*big.Int, n)
			for i := range p {
				p[i] = new(big.Int)
			}
			out[j] = p
		}
		for _, m := range fldOf(e.c).m {
			k, inv := int64(0), int64(0)
			for _, v := range m.v {
				x, ok := constI(v.e)
				if !ok {
					return nil, "the power " + show(v.e)
				}
				switch a := v.a; {
				case a.Op == "sel" && a.Args[0].Op == "sel" && a.Args[0].Args[0].Op == "f":
					s, ok := constI(a.Args[0].Args[1])
					i, ok2 := constI(a.Args[1])
					if !ok || !ok2 {
						return nil, "it depends on " + show(a)
					}
					switch a.Args[0].Args[0].Str {
					case "TwiddlesInv":
						k += x * i << uint(s)
					case "Twiddles":
						k -= x * i << uint(s)
					default:
						return nil, "it depends on " + show(a)
					}
				case a.Op == "f" && a.Str == "CardinalityInv":
					inv += x
				case a.Op == "f" && a.Str == "GeneratorInv":
					k += x
				case a.Op == "f" && a.Str == "Generator":
					k -= x
				default:
					return nil, "it depends on " + show(a)
				}
			}
			k = ((k % n) + n) % n
			c := new(big.Int).Set(m.c)
			if n > 1 && k >= n/2 {
				k -= n / 2
				c.Neg(c)
			}
			for ; inv < 1; inv++ {
				c.Mul(c, big.NewInt(n))
			}
			if inv > 1 {
				return nil, "it is divided by the size more than once"
			}
			p[k].Add(p[k], c)
		}
	}
	return out, ""
}

// element i of the conversion of n elements is Σ_j ω^(-ij) a_j / n
func checkTransform(t *Term, i, n int64, elems map[*Term]int64) string {
	got, why := asTransform(t, n, elems)
	if why != "" {
		return why
	}
	for j := int64(0); j < n; j++ {
		k, s := i*j%n, int64(1)
		if n > 1 && k >= n/2 {
			k, s = k-n/2, -1
		}
		p := got[j]
		for l := int64(0); l < n; l++ {
			w := int64(0)
			if l == k {
				w = s
			}
			if p == nil && w != 0 || p != nil && p[l].Cmp(big.NewInt(w)) != 0 {
				return fmt.Sprintf("element %d is multiplied by a wrong power of the root of unity", j)
			}
		}
	}
	return ""
}

type convRun struct {
	fn    *ssa.Function
	n     int64
	cpu   int64
	res   concResult
	elems []*Term
	names map[*Term]int64
	why   string
}

func (c *Ctx) convert(fn *ssa.Function, n, ncpu int64) *convRun {
	x := &convRun{fn: fn, n: n, cpu: ncpu, names: map[*Term]int64{}}
	_, _, x.res = c.traced(fn.Name(), ncpu, func(ev *Ev, st *State) *State {
		buf := getObj("buff", nil)
		a := &ArrC{elem: elemOf(fn.Params[0].Type())}
		for i := int64(0); i < n; i++ {
			t := sym(fmt.Sprintf("a%d", i), SGrp)
			x.names[t] = i
			a.e = append(a.e, t)
		}
		st.heap[buf] = a
		dom := symVal(fn.Params[1].Type(), sym("domain", SOther))
		_, ns := ev.callFn(fn, []Value{&SliceV{obj: buf, off: I(0), len: I(n), cap: I(n)}, dom}, nil, st, "")
		if ns == nil {
			x.why = "it doesn't return"
			return nil
		}
		r, ok := ns.heap[buf].(*ArrC)
		if !ok || int64(len(r.e)) != n {
			x.why = "its result isn't known"
			return ns
		}
		for _, e := range r.e {
			t, ok := e.(*Term)
			if !ok {
				x.why = "its result isn't known"
				return ns
			}
			x.elems = append(x.elems, t)
		}
		return ns
	})
	return x
}

func checkC16(c *Ctx) {
	cpusOf := func(n int64) []int64 {
		switch {
		case os.Getenv("VERIF_TIER") == "thorough":
			return []int64{1, 2, 3, 4, 5, 7, 8, 16}
		case n <= 8:
			return []int64{1, 2, 3, 5, 8, 12}
		case n <= 64:
			return []int64{1, 2, 3, 8, 11}
		case n == 128:
			return []int64{1, 3, 6, 13}
		case n == 256:
			return []int64{1, 8}
		}
		return []int64{1}
	}
	sizes := []int64{1, 2, 4, 8, 16, 32, 64, 128, 256}
	for _, name := range []string{"ConvertG1", "ConvertG2"} {
		fn := c.p.fn("/lagrange", name)
		if fn == nil || len(fn.Params) != 2 {
			c.undecided = append(c.undecided, "there is no lagrange."+name)
			continue
		}
		nv := len(c.viol)
		for _, n := range sizes {
			for _, k := range cpusOf(n) {
				if len(c.viol) > nv {
					break // larger sizes of a wrong transform say nothing new
				}
				x := c.convert(fn, n, k)
				bad := x.why
				lossy := len(x.res.lossy) > 0
				for i, t := range x.elems {
					if w := checkTransform(t, int64(i), n, x.names); w != "" && bad == "" {
						bad = fmt.Sprintf("element %d: %s", i, w)
						lossy = lossy || unknown(t)
					}
				}
				if len(x.res.joins) > 0 && bad == "" {
					bad = x.res.joins[0]
				}
				if len(x.res.crash) > 0 {
					bad, lossy = "it crashes: "+x.res.crash[0], false
				}
				det := bad
				if lossy {
					det += " (" + strings.Join(x.res.lossy, "; ") + ")"
				}
				c.oblige(fmt.Sprintf("lagrange.%s: inverse transform of %d elements on %d CPUs", name, n, k), bad == "" && !lossy, lossy, det)
			}
		}
	}
}

func checkC23(c *Ctx) {
	c.concOps()
	c.concLagrange()
	for _, fn := range c.parHelpers() {
		name := strings.TrimPrefix(fn.String(), modPath+"/")
		for ncpu := int64(1); ncpu <= 6; ncpu++ {
			lims := [][]int64{nil}
			if fn.Signature.Variadic() && ncpu == 3 {
				for l := int64(1); l <= 9; l++ {
					lims = append(lims, []int64{l})
				}
			}
			for _, lim := range lims {
				nv := len(c.viol)
				for n := int64(0); n <= 20 && len(c.viol) < nv+3; n++ {
					sh, res, why := c.shares(fn, n, ncpu, lim)
					if why == "" {
						why = partitionOf(sh, n)
					}
					if why == "" && len(res.races) > 0 {
						why = res.races[0]
					}
					if why == "" && len(res.joins) > 0 {
						why = res.joins[0]
					}
					lossy := len(res.lossy) > 0
					det := why
					if lossy {
						det += " (" + strings.Join(res.lossy, "; ") + ")"
					}
					c.oblige(fmt.Sprintf("%s: %d items on %d CPUs%s", name, n, ncpu, limS(lim)), why == "" && !lossy, lossy, det)
				}
			}
		}
	}
}

func limS(l []int64) string {
	if l == nil {
		return ""
	}
	return fmt.Sprintf(", at most %d used", l[0])
}

// the operations at the sizes their goroutines are looked at
func (c *Ctx) concSizes(d opDesc) []sizes {
	switch d.pkg {
	case "phase1":
		var out []sizes
		for _, p := range []int64{1, 3, 5} {
			out = append(out, sizes{"power": p, "contributions": 2, "sym:power": p, "sym:p": p, "sym:q": p - p/2})
		}
		return out
	case "phase2":
		var out []sizes
		if strings.HasPrefix(d.name, "Init") {
			for _, s := range shapeSizes {
				x := sizes{"power": 4}
				for k, v := range s {
					x[k] = v
				}
				out = append(out, x)
			}
			return out
		}
		return []sizes{{"Domain": 2, "Witness": 1, "Contributions": 1}, {"Domain": 16, "Witness": 21, "Contributions": 2}, {"Domain": 64, "Witness": 40, "Contributions": 1}}
	}
	return nil
}

// does the operation start goroutines?
func (c *Ctx) concurrent(r *Run) bool {
	if r.ev == nil {
		return false
	}
	var goes func(f *ssa.Function, seen map[*ssa.Function]bool) bool
	goes = func(f *ssa.Function, seen map[*ssa.Function]bool) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && inModule(g) && !isConversion(g) && goes(g, seen) {
						return true
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.Function]bool{}
	for f := range r.ev.fnsSeen {
		if goes(f, seen) {
			return true
		}
	}
	return false
}

func (c *Ctx) concOp(d opDesc, s sizes, ncpu int64) (res concResult, why string) {
	old := sized
	sized = s
	defer func() { sized = old }()
	fn := c.p.fn("/"+d.pkg, d.name)
	_, _, res = c.traced(d.pkg+"."+d.name, ncpu, func(ev *Ev, st *State) *State {
		defer func() { slenCfgs = nil }()
		c.setup(d.pkg+"."+d.name, ev)
		var args []Value
		for i, q := range fn.Params {
			so := SOther
			if s, ok := atomSort(q.Type()); ok {
				so = s
			}
			t := sym(d.args[i], so)
			args = append(args, symVal(q.Type(), t))
		}
		_, ns := ev.callFn(fn, args, nil, st, "")
		if ns == nil {
			why = "it doesn't return"
		}
		return ns
	})
	return
}

func (c *Ctx) concLagrange() {
	for _, name := range []string{"ConvertG1", "ConvertG2"} {
		fn := c.p.fn("/lagrange", name)
		if fn == nil || len(fn.Params) != 2 {
			c.undecided = append(c.undecided, "there is no lagrange."+name)
			continue
		}
		for _, n := range []int64{1, 2, 4, 16, 64} {
			for _, k := range []int64{1, 2, 3, 8} {
				x := c.convert(fn, n, k)
				c.concOblige(fmt.Sprintf("lagrange.%s of %d elements on %d CPUs", name, n, k), x.res, "")
			}
		}
	}
}

func (c *Ctx) concOblige(what string, res concResult, why string) {
	if len(res.races) > 0 {
		why = res.races[0]
	} else if len(res.joins) > 0 {
		why = res.joins[0]
	}
	lossy := len(res.lossy) > 0
	det := why
	if lossy {
		det += " (" + strings.Join(res.lossy, "; ") + ")"
	}
	c.oblige(fmt.Sprintf("%s: no races, every goroutine awaited (%d goroutines, %d accesses)", what, res.nthrds-1, res.naccs), why == "" && !lossy, lossy, det)
}

func (c *Ctx) concOps() {
	for _, d := range ops {
		r := c.op(d)
		if !c.concurrent(r) {
			continue
		}
		// for every number of items: no two shares touch the same element
		var at []string
		for _, e := range r.ev.events {
			if e.kind == "race" {
				at = append(at, c.p.pos(e.pos))
			}
		}
		c.oblige(fmt.Sprintf("%s.%s: the work of every parallel call touches its own elements only, for every number of items", d.pkg, d.name), len(at) == 0 && r.ok && r.lost() == "", true, strings.Join(at, ", "))
		for _, s := range c.concSizes(d) {
			res, why := c.concOp(d, s, 3)
			c.concOblige(fmt.Sprintf("%s.%s with %s on 3 CPUs", d.pkg, d.name, s), res, why)
		}
	}
}

func isConversion(fn *ssa.Function) bool {
	return strings.HasSuffix(fn.String(), "/lagrange.ConvertG1") || strings.HasSuffix(fn.String(), "/lagrange.ConvertG2")
}
