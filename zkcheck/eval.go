package main

// Abstract interpreter over SSA: one pass over every block of a region in
// topological order, states joined where control flow joins, loops summarised
// (loop.go), calls inlined, library calls modelled (ext.go).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	kind  string
	args  []*Term
	guard map[*Term]bool
	pos   token.Pos
	fn    string
	note  string
}

type Ev struct {
	p           *Program
	loopVars    []*Term
	depth       int
	noInline    func(*ssa.Function) bool
	crashes     []string
	onApp       func(appRun)
	events      []Event
	notes       map[string]bool // undecided constructs
	fnsSeen     map[*ssa.Function]bool
	sites       map[ssa.Instruction]bool
	rawPaths    map[*Term]bool // files holding uncompressed points
	loops       map[*ssa.Function]*loopInfo
	traceObj    *Obj
	steps       int
	extCalls    map[string]int
	noIntrinsic map[*ssa.Function]bool
	recovers    bool // recover may return something
	deferRace   []func()
	tr          *tracer             // records accesses and synchronisation, at fixed sizes
	noPar       bool                // the parallel helpers are evaluated like other functions
	bufW        map[string][]string // calls writing to a buffer
	goLost      map[string]bool     // goroutines whose errors nothing receives
	bufOps      map[string][]string // the same, by the call of Flush following them
}

func newEv(p *Program) *Ev {
	return &Ev{p: p, notes: map[string]bool{}, fnsSeen: map[*ssa.Function]bool{}, sites: map[ssa.Instruction]bool{},
		rawPaths: map[*Term]bool{}, loops: map[*ssa.Function]*loopInfo{}, traceObj: getObj("trace", nil), extCalls: map[string]int{}, bufW: map[string][]string{}, bufOps: map[string][]string{}, goLost: map[string]bool{}}
}

func (ev *Ev) note(f string, a ...interface{}) {
	ev.notes[fmt.Sprintf(f, a...)] = true
}

type Frame struct {
	fn    *ssa.Function
	ctx   string
	bind  []Value
	args  []Value
	exits []Exit
}

type Exit struct {
	st  *State
	res []Value
	pos token.Pos
}

type Env map[ssa.Value]Value

func (e Env) clone() Env {
	n := make(Env, len(e))
	for k, v := range e {
		n[k] = v
	}
	return n
}

type Edge struct {
	from, to *ssa.BasicBlock
	st       *State
	env      Env
}

// ---------- loops of a function

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}
type loopInfo struct {
	loops map[*ssa.BasicBlock]*Loop // by header
	inner map[*ssa.BasicBlock]*Loop // innermost loop of a block
	rpo   []*ssa.BasicBlock
	bad   bool
}

func (ev *Ev) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := ev.loops[fn]; ok {
		return li
	}
	li := &loopInfo{loops: map[*ssa.BasicBlock]*Loop{}, inner: map[*ssa.BasicBlock]*Loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		num[post[i]] = len(li.rpo)
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, h := range b.Succs {
			if num[h] <= num[b] {
				if !h.Dominates(b) {
					li.bad = true
					continue
				}
				l := li.loops[h]
				if l == nil {
					l = &Loop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					li.loops[h] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	var ls []*Loop
	for _, l := range li.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return ls[i].header.Index < ls[j].header.Index
	})
	for _, l := range ls { // from the outermost to the innermost
		l.parent = li.inner[l.header]
		for b := range l.blocks {
			li.inner[b] = l
		}
	}
	ev.loops[fn] = li
	return li
}

// ---------- function evaluation

// returns the value and the state on return; nil state if it never returns
func (ev *Ev) callFn(fn *ssa.Function, args, bind []Value, st *State, ctx string) (Value, *State) {
	if len(fn.Blocks) == 0 {
		ev.note("call of %s, whose body isn't available", fn)
		return symResult(fn.Signature, ctx), st
	}
	deep, rec := 60, 0
	if ev.tr != nil {
		deep, rec = 200, 16
	}
	if ev.depth > deep || strings.Count(ctx, "»"+fn.String()+"@") > rec {
		ev.note("recursive call of %s", fn)
		return &TopV{"recursion"}, st
	}
	ev.depth++
	defer func() { ev.depth-- }()
	ev.fnsSeen[fn] = true
	fr := &Frame{fn: fn, ctx: ctx + "»" + fn.String() + "@", bind: bind, args: args}
	env := Env{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			env[fv] = bind[i]
		}
	}
	if ev.loopsOf(fn).bad {
		ev.note("irreducible control flow in %s", fn)
	}
	entry := st
	start := st.clone()
	start.defers = nil
	_, outs := ev.evalBlocks(fr, nil, fn.Blocks[0], []Edge{{nil, fn.Blocks[0], start, env}}, false)
	_ = outs
	return ev.finish(fr, entry)
}

func hasErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && types.Identical(sig.Results().At(n-1).Type(), errType)
}

func (ev *Ev) finish(fr *Frame, entry *State) (Value, *State) {
	sig := fr.fn.Signature
	n := sig.Results().Len()
	isErr := hasErr(sig)
	var ok []Exit
	var failed *Exit
	for i := range fr.exits {
		e := &fr.exits[i]
		if isErr {
			ov, isE := e.res[n-1].(*ErrV)
			if !isE {
				ov = &ErrV{mk("unknownErr", fr.ctx, SBool, nil)}
			}
			c := e.st.cond(ov.ok)
			if c == TFalse {
				failed = e
				continue
			}
			e.st.add(ov.ok)
			if ov.ok.Op != "box" && ov.ok.Op != "ok" {
				e.st.add(c)
			}
			e.res = append(append([]Value{}, e.res[:n-1]...), &ErrV{TTrue})
		}
		ok = append(ok, *e)
	}
	if len(ok) == 0 {
		if failed == nil {
			return nil, nil // never returns
		}
		s := entry.clone()
		s.poison = TTrue
		r := append(append([]Value{}, failed.res[:n-1]...), &ErrV{TFalse})
		return tupleOf(r), s
	}
	cur := ok[0]
	for _, e := range ok[1:] {
		m, c := mergeStates(cur.st, e.st)
		var res []Value
		for i := range cur.res {
			res = append(res, valIte(c, cur.res[i], e.res[i]))
		}
		cur = Exit{m, res, e.pos}
	}
	for i, r := range cur.res {
		if t, ok := r.(*Term); ok && t.Sort == SInt {
			cur.res[i] = normPow(t)
		}
	}
	s := cur.st
	s.defers = entry.defers
	if isErr {
		nl := diffLits(s.guard, entry.guard)
		S := mkBox(and(nl...))
		for _, l := range nl {
			delete(s.guard, l)
		}
		if S != TTrue {
			s.assume[S] = true
		}
		cur.res[n-1] = &ErrV{S}
		if len(fr.exits) == len(ok) && S == TTrue {
			cur.res[n-1] = &ErrV{TTrue}
		}
	}
	return tupleOf(cur.res), s
}

func tupleOf(r []Value) Value {
	switch len(r) {
	case 0:
		return TupleV{}
	case 1:
		return r[0]
	}
	return TupleV(r)
}

func symResult(sig *types.Signature, ctx string) Value {
	var r []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r = append(r, opaque(t, fmt.Sprintf("%s#%d", ctx, i)))
	}
	return tupleOf(r)
}

func opaque(t types.Type, key string, deps ...*Term) Value {
	if types.Identical(t, errType) {
		return &ErrV{mk("unknownErr", key, SBool, nil)}
	}
	so := SOther
	if s, ok := atomSort(t); ok {
		so = s
	}
	return symVal(t, mk("opaque", key, so, nil, deps...))
}

// merge the edges entering block b
func (ev *Ev) joinEdges(b *ssa.BasicBlock, es []Edge) (*State, Env, []Value) {
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	phiVals := func(e Edge) []Value {
		var r []Value
		for _, p := range phis {
			var v Value
			for i, pr := range b.Preds {
				if pr == e.from {
					v = ev.val(p.Edges[i], e.env)
					break
				}
			}
			r = append(r, settle(v, e.st))
		}
		return r
	}
	st, env, pv := es[0].st, es[0].env, phiVals(es[0])
	for _, e := range es[1:] {
		q := phiVals(e)
		m, c := mergeStates(st, e.st)
		for i := range pv {
			pv[i] = valIte(c, pv[i], q[i])
		}
		ne := make(Env, len(env))
		var diff []ssa.Value
		for k, v := range env {
			ne[k] = v
			if w, ok := e.env[k]; ok && !valEq(v, w) {
				diff = append(diff, k)
			}
		}
		sort.Slice(diff, func(i, j int) bool { return diff[i].Name() < diff[j].Name() })
		for _, k := range diff {
			ne[k] = valIte(c, settle(env[k], st), settle(e.env[k], e.st))
		}
		for k, w := range e.env {
			if _, ok := env[k]; !ok {
				ne[k] = w
			}
		}
		st, env = m, ne
	}
	return st, env, pv
}

// Evaluate the blocks of a region (a loop's body, or the whole function if
// self is nil) from the given entry edges. Returns the edges back to the
// region's header and those leaving the region.
func (ev *Ev) evalBlocks(fr *Frame, self *Loop, start *ssa.BasicBlock, in []Edge, phisDone bool) (back, outs []Edge) {
	li := ev.loopsOf(fr.fn)
	pend := map[*ssa.BasicBlock][]Edge{start: in}
	push := func(e Edge) {
		if self != nil && e.to == self.header {
			back = append(back, e)
		} else if self != nil && !self.blocks[e.to] {
			outs = append(outs, e)
		} else {
			pend[e.to] = append(pend[e.to], e)
		}
	}
	for _, b := range li.rpo {
		es := pend[b]
		if len(es) == 0 {
			continue
		}
		delete(pend, b)
		if l := li.loops[b]; l != nil && l != self {
			for _, e := range ev.evalLoop(fr, l, es) {
				push(e)
			}
			continue
		}
		var st *State
		var env Env
		if b == start && phisDone {
			st, env = es[0].st.clone(), es[0].env.clone()
		} else {
			var pv []Value
			st, env, pv = ev.joinEdges(b, es)
			st, env = st.clone(), env.clone()
			for i, v := range pv {
				env[b.Instrs[i].(*ssa.Phi)] = v
			}
		}
		for _, e := range ev.execBlock(fr, b, st, env) {
			push(e)
		}
	}
	return
}

func (ev *Ev) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, env Env) []Edge {
	for _, in := range b.Instrs {
		ev.steps++
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := ev.termOf(ev.val(in.Cond, env), SBool)
			c = st.cond(c)
			if c == TTrue {
				return []Edge{{b, b.Succs[0], st, env}}
			}
			if c == TFalse {
				return []Edge{{b, b.Succs[1], st, env}}
			}
			st2 := st.clone()
			st.add(c)
			st2.add(not(c))
			var r []Edge
			if !contradictory(st) {
				r = append(r, Edge{b, b.Succs[0], st, env})
			}
			if !contradictory(st2) {
				r = append(r, Edge{b, b.Succs[1], st2, env.clone()})
			}
			return r
		case *ssa.Jump:
			return []Edge{{b, b.Succs[0], st, env}}
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, ev.val(r, env))
			}
			fr.exits = append(fr.exits, Exit{st, res, in.Pos()})
			return nil
		case *ssa.Panic:
			ev.events = append(ev.events, Event{kind: "panic", args: []*Term{ev.valTerm(st, ev.val(in.X, env))}, fn: fr.fn.String(), pos: in.Pos()})
			return nil
		default:
			if !ev.exec(fr, in, st, env) {
				return nil
			}
		}
	}
	return nil
}

func contradictory(st *State) bool { return st.guard[TFalse] }

func (ev *Ev) val(v ssa.Value, env Env) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{fn: v}
	case *ssa.Global:
		o := getObj("global:"+v.String(), v.Type().(*types.Pointer).Elem())
		if o.init == nil {
			t := v.Type().(*types.Pointer).Elem()
			if v.Name() == "init$guard" {
				o.init = TFalse
			} else if types.Identical(t, errType) {
				o.init = &ErrV{TFalse}
			} else if v.String() == "crypto/rand.Reader" {
				o.init = &TopV{randReader}
			} else if v.String() == "os.Stdout" || v.String() == "os.Stderr" {
				s := getObj("std:"+v.String(), nil)
				s.init = &ExtV{"std", map[string]Value{}}
				o.init = &PtrV{obj: s}
			} else if v.String() == "io.Discard" {
				s := getObj("std:"+v.String(), nil)
				s.init = &ExtV{"discard", map[string]Value{}}
				o.init = &IfaceV{t, &PtrV{obj: s}}
			} else {
				o.init = opaque(t, "global:"+v.String())
			}
		}
		return &PtrV{obj: o}
	}
	if x, ok := env[v]; ok {
		return x
	}
	return &TopV{"undefined " + v.Name()}
}

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		return str(constant.StringVal(c.Value))
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return IB(b)
	case constant.Float:
		if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
			b, _ := new(big.Int).SetString(i.ExactString(), 10)
			return IB(b)
		}
		return mk("float", c.Value.ExactString(), SInt, nil)
	}
	return &TopV{"constant " + c.String()}
}

// the scalar denoted by v
func (ev *Ev) termOf(v Value, so Sort) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *IteV:
		a, b := ev.termOf(x.a, so), ev.termOf(x.b, so)
		if a.Sort == b.Sort {
			return ite(x.c, a, b)
		}
	case *TopV:
		ev.note("unknown value: %s", x.why)
		return mk("top", x.why, so, nil)
	}
	ev.note("scalar expected, got %T", v)
	return mk("top", fmt.Sprintf("%T", v), so, nil)
}

func (ev *Ev) intT(v Value) *Term { return ev.termOf(v, SInt) }

func (fr *Frame) key(in ssa.Instruction) string {
	// position of the instruction in the function
	return fmt.Sprintf("%s%d.%d", fr.ctx, in.Block().Index, instrIndex(in))
}

var instrIdx = map[ssa.Instruction]int{}

func instrIndex(in ssa.Instruction) int {
	if i, ok := instrIdx[in]; ok {
		return i
	}
	for i, x := range in.Block().Instrs {
		instrIdx[x] = i
	}
	return instrIdx[in]
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func addPE(v Value, e PE) Value {
	return mapIte(v, func(v Value) Value {
		switch p := v.(type) {
		case *PtrV:
			if p.obj == nil {
				return &TopV{"nil dereference"}
			}
			return &PtrV{p.obj, append(append([]PE{}, p.path...), e)}
		}
		return &TopV{"address in unknown pointer"}
	})
}

// executes a non-control instruction; false if execution can't continue
func (ev *Ev) exec(fr *Frame, in ssa.Instruction, st *State, env Env) bool {
	n := clobbers
	defer func() {
		if clobbers != n {
			ev.note("write through an unknown pointer at %s", ev.p.pos(in.Pos()))
		}
	}()
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := getObj(ev.allocKey(fr, in), t)
		st.heap[o] = zeroVal(t)
		env[in] = &PtrV{obj: o}
	case *ssa.Store:
		if ev.tr != nil {
			ev.tr.access(ev.val(in.Addr, env), true, in.Pos())
		}
		st.storeRaw(ev.val(in.Addr, env), ev.val(in.Val, env))
	case *ssa.UnOp:
		x := ev.val(in.X, env)
		switch in.Op {
		case token.MUL:
			if ev.tr != nil {
				ev.tr.access(x, false, in.Pos())
			}
			v := st.loadRaw(x)
			env[in] = ev.simp(st, v)
		case token.NOT:
			env[in] = not(ev.termOf(x, SBool))
		case token.SUB:
			env[in] = neg(ev.intT(x))
		case token.ARROW:
			env[in] = zeroVal(in.Type()) // joins are checked separately
			if ev.tr != nil || sized != nil {
				env[in] = ev.recv(st, in, x)
			}
		default:
			env[in] = mk("unop", in.Op.String(), SInt, nil, ev.intT(x))
		}
	case *ssa.FieldAddr:
		x := ev.val(in.X, env)
		st0 := deref(in.X.Type())
		if _, atom := atomSort(st0); atom {
			env[in] = addPE(x, PE{coord: st0.Underlying().(*types.Struct).Field(in.Field).Name()})
		} else {
			env[in] = addPE(x, PE{field: in.Field})
		}
	case *ssa.Field:
		x := ev.val(in.X, env)
		if _, atom := atomSort(in.X.Type()); atom {
			env[in] = walk(x, []PE{{coord: in.X.Type().Underlying().(*types.Struct).Field(in.Field).Name()}})
		} else {
			env[in] = walk(x, []PE{{field: in.Field}})
		}
	case *ssa.IndexAddr:
		x := ev.val(in.X, env)
		i := ev.intT(ev.val(in.Index, env))
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			env[in] = mapIte(x, func(v Value) Value {
				s, ok := v.(*SliceV)
				if !ok {
					if t, ok := v.(*Term); ok && t.Sort == SBytes {
						s = ev.thaw(st, t)
					} else {
						return &TopV{"index of unknown slice"}
					}
				}
				ev.inRange(st, in.Pos(), i, s)
				if s.obj == nil {
					return &TopV{"index of nil slice"}
				}
				return &PtrV{s.obj, append(append([]PE{}, s.path...), PE{idx: add(s.off, i)})}
			})
		} else {
			env[in] = addPE(x, PE{idx: i})
		}
	case *ssa.Index:
		x := ev.val(in.X, env)
		i := ev.intT(ev.val(in.Index, env))
		if t, ok := x.(*Term); ok && t.Sort == SStr {
			env[in] = mk("charat", "", SInt, nil, t, i)
		} else {
			env[in] = walk(x, []PE{{idx: i}})
		}
	case *ssa.BinOp:
		env[in] = ev.binop(st, in, ev.val(in.X, env), ev.val(in.Y, env))
	case *ssa.Convert:
		env[in] = ev.convert(st, in, ev.val(in.X, env))
	case *ssa.ChangeType:
		env[in] = ev.val(in.X, env)
	case *ssa.MakeInterface:
		x := ev.val(in.X, env)
		if types.Identical(in.Type(), errType) {
			env[in] = &ErrV{TFalse}
		} else {
			env[in] = &IfaceV{in.X.Type(), x}
		}
	case *ssa.ChangeInterface:
		x := ev.val(in.X, env)
		if _, ok := x.(*IfaceV); ok && types.Identical(in.Type(), errType) {
			x = &ErrV{TFalse}
		}
		env[in] = x
	case *ssa.TypeAssert:
		env[in] = ev.typeAssert(in, ev.val(in.X, env))
	case *ssa.Extract:
		x := ev.val(in.Tuple, env)
		switch t := x.(type) {
		case TupleV:
			if in.Index < len(t) {
				env[in] = t[in.Index]
			} else {
				env[in] = &TopV{"extract"}
			}
		case *TopV:
			if types.Identical(in.Type(), errType) {
				env[in] = &ErrV{mk("unknownErr", fr.key(in), SBool, nil)}
			} else {
				env[in] = t
			}
		default:
			env[in] = &TopV{fmt.Sprintf("extract %T", x)}
		}
	case *ssa.Slice:
		env[in] = ev.slice(st, in, env)
	case *ssa.MakeSlice:
		n := ev.intT(ev.val(in.Len, env))
		c := ev.intT(ev.val(in.Cap, env))
		el := in.Type().Underlying().(*types.Slice).Elem()
		o := getObj(ev.allocKey(fr, in), types.NewArray(el, 0))
		st.heap[o] = newArray(el, n)
		env[in] = &SliceV{obj: o, off: I(0), len: n, cap: c}
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range in.Bindings {
			b = append(b, ev.val(x, env))
		}
		env[in] = &FuncV{fn: in.Fn, bind: b}
	case *ssa.Call:
		v, ok := ev.call(fr, in, &in.Call, st, env)
		if !ok {
			return false
		}
		env[in] = v
	case *ssa.Defer:
		var args []Value
		for _, a := range in.Call.Args {
			args = append(args, ev.val(a, env))
		}
		var f Value
		if in.Call.IsInvoke() {
			f = ev.val(in.Call.Value, env)
		} else {
			f = ev.val(in.Call.Value, env)
		}
		st.defers = append(append([]deferRec{}, st.defers...), deferRec{in, f, args, fr.key(in)})
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			d := ds[i]
			in := d.call.(*ssa.Defer)
			_, ns := ev.invoke(fr, in, &in.Call, d.fn, d.args, st, d.fnKey+"defer")
			if ns == nil {
				return false
			}
			*st = *ns
		}
	case *ssa.Go:
		if ev.tr == nil && sized == nil { // at fixed sizes each runs to its end where it starts, which is one of the schedules
			ev.note("goroutine started in %s outside of the parallel helper", fr.fn)
		}
		if mute(&in.Call) {
			ev.goLost[fr.key(in)] = true
		}
		var args []Value
		for _, a := range in.Call.Args {
			args = append(args, ev.val(a, env))
		}
		var parent int
		if ev.tr != nil {
			parent = ev.tr.start(in.Pos())
		}
		_, ns := ev.invoke(fr, in, &in.Call, ev.val(in.Call.Value, env), args, st, fr.key(in))
		if ev.tr != nil {
			ev.tr.cur = parent
		}
		if ns == nil {
			return false
		}
		*st = *ns
	case *ssa.MakeChan:
		o := getObj(ev.allocKey(fr, in), in.Type())
		if ev.tr == nil && sized != nil {
			st.heap[o] = TupleV{}
		}
		env[in] = &PtrV{obj: o}
	case *ssa.Send:
		if ev.tr != nil || sized != nil {
			ev.send(st, in, ev.val(in.Chan, env), ev.val(in.X, env))
		}
	case *ssa.Select:
		if ev.tr != nil {
			ev.tr.lose("select")
		} else {
			ev.note("select in %s", fr.fn)
		}
		env[in] = &TopV{"select"}
	case *ssa.MakeMap:
		o := getObj(ev.allocKey(fr, in), in.Type())
		st.heap[o] = &ExtV{"map", map[string]Value{}}
		env[in] = &PtrV{obj: o}
	case *ssa.Lookup:
		env[in] = ev.mapLookup(st, in, ev.val(in.X, env), ev.val(in.Index, env))
	case *ssa.MapUpdate:
		m, k, v := ev.val(in.Map, env), ev.val(in.Key, env), ev.val(in.Value, env)
		if ev.tr != nil {
			ev.tr.access(m, true, in.Pos())
		}
		st.storeRaw(m, mapIte(st.loadRaw(m), func(old Value) Value {
			if e, ok := old.(*ExtV); ok && strings.HasPrefix(e.kind, "map") {
				return &ExtV{"mapput", map[string]Value{"k": k, "v": v, "rest": e}}
			}
			return old
		}))
	case *ssa.Next, *ssa.Range, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		env[in.(ssa.Value)] = &TopV{fmt.Sprintf("%T", in)}
	default:
		ev.note("unsupported instruction %T in %s", in, fr.fn)
		if v, ok := in.(ssa.Value); ok {
			env[v] = &TopV{fmt.Sprintf("%T", in)}
		}
	}
	return true
}

// the element of a map: that of the last entry whose key equals k
func (ev *Ev) mapLookup(st *State, in *ssa.Lookup, x, k Value) Value {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		if t, ok := x.(*Term); ok && t.Sort == SStr {
			return mk("charat", "", SInt, nil, t, ev.intT(k))
		}
		return &TopV{"lookup"}
	}
	if ev.tr != nil {
		ev.tr.access(x, false, in.Pos())
	}
	lost := &TopV{"lookup in an unknown map"}
	zero := zeroVal(mt.Elem())
	var look func(m Value, d int) (Value, Value)
	look = func(m Value, d int) (Value, Value) {
		switch m := m.(type) {
		case *PtrV:
			if m.obj == nil {
				return zero, TFalse
			}
		case *IteV:
			a, af := look(m.a, d+1)
			b, bf := look(m.b, d+1)
			return valIte(m.c, a, b), valIte(m.c, af, bf)
		case *ExtV:
			if m.kind == "map" {
				return zero, TFalse
			}
			if m.kind != "mapput" || d > 40 {
				break
			}
			var eq *Term
			a, aok := k.(*Term)
			b, bok := m.f["k"].(*Term)
			switch {
			case aok && bok && a.Sort == b.Sort:
				eq = beq(a, b)
			case valEq(k, m.f["k"]):
				if _, top := k.(*TopV); !top {
					eq = TTrue
				}
			default:
				eq = ev.deepEq(st, mt.Key(), k, m.f["k"])
			}
			if eq == nil {
				break
			}
			if eq = st.cond(eq); eq == TTrue {
				return m.f["v"], TTrue
			}
			r, rf := look(m.f["rest"], d+1)
			return valIte(eq, m.f["v"], r), valIte(eq, TTrue, rf)
		}
		return lost, lost
	}
	var v, found Value
	if p, ok := x.(*PtrV); ok && p.obj == nil {
		v, found = zero, TFalse
	} else {
		v, found = look(st.loadRaw(x), 0)
	}
	if in.CommaOk {
		return TupleV{v, found}
	}
	return v
}

// use what is known on this path to simplify a loaded scalar
func (ev *Ev) simp(st *State, v Value) Value {
	switch t := v.(type) {
	case *Term:
		if hasCond(t) {
			return underLits(t, st.guard)
		}
	case *ErrV:
		return &ErrV{st.cond(t.ok)}
	case *IteV:
		c := st.cond(t.c)
		if c == TTrue {
			return ev.simp(st, t.a)
		}
		if c == TFalse {
			return ev.simp(st, t.b)
		}
	}
	return v
}

func intKind(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "u8"
		case types.Uint16:
			return "u16"
		case types.Uint32:
			return "u32"
		case types.Int32:
			return "i32"
		}
	}
	return ""
}

func (ev *Ev) convAt(st *State, kind string, x *Term) *Term {
	r := conv(kind, x)
	if r.Op == "conv" && r.Args[0] == x {
		mx := convMax[kind]
		lo := I(0)
		if kind == "i32" {
			lo = I(-2147483648)
		}
		f := lits(st.guard)
		if proveLe0(sub(x, I(mx)), f) && proveLe0(sub(lo, x), f) {
			return x
		}
	}
	return r
}

func (ev *Ev) convert(st *State, in *ssa.Convert, x Value) Value {
	ft, tt := in.X.Type(), in.Type()
	fs, fok := atomSort(ft)
	ts, tok := atomSort(tt)
	if fok && tok && fs == SInt && ts == SInt {
		t := ev.intT(x)
		if k := intKind(tt); k != "" {
			return ev.convAt(st, k, t)
		}
		return t
	}
	if fok && fs == SStr {
		if _, ok := tt.Underlying().(*types.Slice); ok {
			return mk("strbytes", "", SBytes, nil, ev.termOf(x, SStr))
		}
	}
	if tok && ts == SStr {
		if _, ok := ft.Underlying().(*types.Slice); ok {
			return mk("bytesstr", "", SStr, nil, ev.bytesOf(st, x))
		}
		if fok && fs == SInt {
			return mk("runestr", "", SStr, nil, ev.intT(x))
		}
	}
	return x
}

func (ev *Ev) typeAssert(in *ssa.TypeAssert, x Value) Value {
	wrap := func(v Value, ok *Term) Value {
		if in.CommaOk {
			return TupleV{v, ok}
		}
		return v
	}
	i, ok := x.(*IfaceV)
	if !ok {
		return wrap(&TopV{"type assertion"}, mk("assertok", "", SBool, nil))
	}
	if i.t == nil {
		return wrap(zeroVal(in.AssertedType), TFalse)
	}
	if types.IsInterface(in.AssertedType) {
		if types.Implements(i.t, in.AssertedType.Underlying().(*types.Interface)) {
			return wrap(i, TTrue)
		}
		return wrap(&IfaceV{}, TFalse)
	}
	if types.Identical(i.t, in.AssertedType) {
		return wrap(i.v, TTrue)
	}
	return wrap(zeroVal(in.AssertedType), TFalse)
}

// an index or a slice expression that certainly panics, on a path that takes
// nothing but successful calls
func (ev *Ev) inRange(st *State, pos token.Pos, i *Term, s *SliceV) {
	n := s.len
	if s.obj == nil {
		n = I(0)
	}
	if k, ok := constI(i); ok {
		if l, ok := constI(n); ok && (k < 0 || k >= l) {
			ev.crash(st, pos, fmt.Sprintf("index %d of %d elements", k, l))
		}
	}
}

func (ev *Ev) sliceable(st *State, pos token.Pos, lo, hi, cap *Term) {
	l, ok := constI(lo)
	h, ok2 := constI(hi)
	c, ok3 := constI(cap)
	if ok && ok2 && ok3 && (l < 0 || h < l || h > c) {
		ev.crash(st, pos, fmt.Sprintf("slice [%d:%d] of a capacity of %d", l, h, c))
	}
}

// conditions that hold when files are where they should be and calls succeed
func ordinary(t *Term) bool {
	switch t.Op {
	case "ok", "box", "exists", "samefile", "const":
		return true
	case "or", "and", "not":
		for _, a := range t.Args {
			if !ordinary(a) {
				return false
			}
		}
		return true
	}
	return false
}

func (ev *Ev) crash(st *State, pos token.Pos, what string) {
	if len(ev.loopVars) > 0 {
		return
	}
	for l := range st.guard {
		if !ordinary(l) {
			return
		}
	}
	ev.crashes = append(ev.crashes, what+" at "+ev.p.pos(pos))
}

func (ev *Ev) slice(st *State, in *ssa.Slice, env Env) Value {
	x := ev.val(in.X, env)
	var lo, hi *Term
	if in.Low != nil {
		lo = ev.intT(ev.val(in.Low, env))
	} else {
		lo = I(0)
	}
	if in.High != nil {
		hi = ev.intT(ev.val(in.High, env))
	}
	return mapIte(x, func(x Value) Value {
		switch s := x.(type) {
		case *SliceV:
			h := hi
			if h == nil {
				h = s.len
			}
			ev.sliceable(st, in.Pos(), lo, h, s.cap)
			return &SliceV{s.obj, s.path, add(s.off, lo), sub(h, lo), sub(s.cap, lo)}
		case *PtrV: // pointer to array
			if s.obj == nil {
				return &TopV{"slice of nil"}
			}
			at, ok := deref(in.X.Type()).Underlying().(*types.Array)
			if !ok {
				return &TopV{"slice of pointer"}
			}
			n := I(at.Len())
			h := hi
			if h == nil {
				h = n
			}
			return &SliceV{s.obj, s.path, lo, sub(h, lo), sub(n, lo)}
		case *Term:
			if s.Sort == SBytes {
				if isConst(lo, 0) && hi == nil {
					return s
				}
				h := hi
				if h == nil {
					h = blen(s)
				}
				return bslice(s, lo, sub(h, lo))
			}
			if s.Sort == SStr {
				a := []*Term{s, lo}
				if hi != nil {
					a = append(a, hi)
				}
				return mk("substr", "", SStr, nil, a...)
			}
		}
		return &TopV{"slice"}
	})
}

func isNilV(v Value) (*Term, bool) {
	switch x := v.(type) {
	case *PtrV:
		return B(x.obj == nil), true
	case *SliceV:
		return B(x.obj == nil), true
	case *IfaceV:
		return B(x.t == nil), true
	case *FuncV:
		return B(x.fn == nil), true
	case *ErrV:
		return x.ok, true
	case *IteV:
		a, ok := isNilV(x.a)
		b, ok2 := isNilV(x.b)
		if ok && ok2 {
			return ite(x.c, a, b), true
		}
	case *Term:
		if x.Sort == SBytes {
			return bnil(x), true
		}
	}
	return nil, false
}

// is the byte slice nil?
func bnil(t *Term) *Term {
	if t == nilBytes {
		return TTrue
	}
	switch t.Op {
	case "ite":
		return ite(t.Args[0], bnil(t.Args[1]), bnil(t.Args[2]))
	case "chi", "havoc":
		return mk("bnil", "", SBool, nil, t)
	}
	return TFalse
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (ev *Ev) binop(st *State, in *ssa.BinOp, x, y Value) Value {
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		if isNilConst(in.Y) || isNilConst(in.X) {
			v := x
			if isNilConst(in.X) {
				v = y
			}
			if t, ok := isNilV(v); ok {
				r = t
			}
		}
		if r == nil {
			a, aok := x.(*Term)
			b, bok := y.(*Term)
			if aok && bok && a.Sort == b.Sort {
				r = beq(a, b)
			} else if e, ok := x.(*ErrV); ok {
				// comparison of an error with a particular one
				if f, ok := y.(*ErrV); ok && e.ok == TTrue && f.ok == TTrue {
					r = TTrue
				} else {
					r = and(not(e.ok), mk("errIs", fmt.Sprint(in.Pos()), SBool, nil, e.ok))
				}
			} else if valEq(x, y) {
				if _, top := x.(*TopV); !top {
					r = TTrue
				}
			}
			if r == nil {
				r = ev.deepEq(st, in.X.Type(), x, y)
			}
		}
		if r == nil {
			ev.note("undecided comparison at %s", ev.p.pos(in.Pos()))
			r = mk("cmp", fmt.Sprint(in.Pos()), SBool, nil)
		}
		if in.Op == token.NEQ {
			return not(r)
		}
		return r
	}
	a, b := ev.termOf(x, SInt), ev.termOf(y, SInt)
	if a.Sort == SStr || b.Sort == SStr {
		if in.Op == token.ADD {
			return strcat(a, b)
		}
		return mk("strcmp", in.Op.String(), SBool, nil, a, b)
	}
	if a.Sort == SBool {
		switch in.Op {
		case token.AND:
			return and(a, b)
		case token.OR:
			return or(a, b)
		case token.XOR:
			return not(beq(a, b))
		}
	}
	switch in.Op {
	case token.LSS:
		return st.cond(lt(a, b))
	case token.LEQ:
		return st.cond(le(a, b))
	case token.GTR:
		return st.cond(lt(b, a))
	case token.GEQ:
		return st.cond(le(b, a))
	}
	r := foldBits(in.Op, a, b)
	if ev.tr != nil && (in.Op == token.QUO || in.Op == token.REM) && b == I(0) {
		ev.tr.issues = append(ev.tr.issues, "division by zero at "+ev.p.pos(in.Pos()))
		panic(tracerStop{})
	}
	op := in.Op
	if r != nil {
		op = token.ILLEGAL
	}
	switch op {
	case token.ADD:
		r = add(a, b)
	case token.SUB:
		r = sub(a, b)
	case token.MUL:
		r = mul(a, b)
	case token.SHL:
		if _, ok := constI(b); !ok && ev.tr != nil {
			ev.tr.lose("unknown shift")
		}
		r = mul(a, pow2(b))
	case token.SHR:
		r = shr(a, b)
	case token.QUO:
		r = idiv(a, b)
	case token.REM:
		r = imod(a, b)
	case token.AND:
		if c, ok := constI(b); ok && c == 255 {
			r = conv("u8", a)
		} else if c, ok := constI(b); ok && c == 65535 {
			r = conv("u16", a)
		} else if ok && c == 1<<32-1 {
			r = conv("u32", a)
		} else if ok && c > 0 && c&(c+1) == 0 && (isUnsigned(in.X.Type()) || proveLe0(neg(a), nil)) {
			r = imod(a, I(c+1))
		}
	case token.OR:
		// disjoint bits: x<<8 | y
		for i := 0; i < 2; i++ {
			p, q := a, b
			if i == 1 {
				p, q = b, a
			}
			for _, s := range []int64{8, 16, 24} {
				if _, ok := divExact(p, 1<<uint(s)); ok && proveLe0(sub(q, I(1<<uint(s)-1)), nil) && proveLe0(neg(q), nil) {
					r = add(p, q)
				}
			}
		}
	}
	if r == nil {
		r = mk("bin", in.Op.String(), SInt, nil, a, b)
	}
	if k := intKind(in.Type()); k != "" {
		return ev.convAt(st, k, r)
	}
	return r
}

func (ev *Ev) deepEq(st *State, t types.Type, x, y Value) *Term {
	if i, ok := x.(*IteV); ok {
		a, b := ev.deepEq(st, t, i.a, y), ev.deepEq(st, t, i.b, y)
		if a != nil && b != nil {
			return ite(i.c, a, b)
		}
		return nil
	}
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok && a.Sort == b.Sort {
			return beq(a, b)
		}
	case *SymV:
		return ev.deepEq(st, t, expandSym(a), y)
	case *StructV:
		if s, ok := y.(*SymV); ok {
			y = expandSym(s)
		}
		if b, ok := y.(*StructV); ok {
			r := TTrue
			for i := range a.f {
				e := ev.deepEq(st, nil, a.f[i], b.f[i])
				if e == nil {
					return nil
				}
				r = and(r, e)
			}
			return r
		}
	case *ArrC:
		if b, ok := y.(*ArrC); ok && len(a.e) == len(b.e) {
			r := TTrue
			for i := range a.e {
				e := ev.deepEq(st, nil, a.e[i], b.e[i])
				if e == nil {
					return nil
				}
				r = and(r, e)
			}
			return r
		}
	case *PtrV:
		if b, ok := y.(*PtrV); ok {
			return B(a.obj == b.obj && pathEq(a.path, b.path))
		}
	}
	return nil
}

// ---------- calls

func (ev *Ev) call(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, st *State, env Env) (Value, bool) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ev.val(a, env))
	}
	v, ns := ev.invoke(fr, in, c, ev.val(c.Value, env), args, st, fr.key(in.(ssa.Instruction)))
	if ns == nil {
		return nil, false
	}
	if ns != st {
		*st = *ns
	}
	return v, true
}

func (ev *Ev) invoke(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, f Value, args []Value, st *State, key string) (Value, *State) {
	ev.sites[in] = true
	if c.IsInvoke() {
		switch i := f.(type) {
		case *IfaceV:
			if i.t == nil {
				return nil, nil // panics
			}
			if e, ok := ev.extIface(i); ok {
				return ev.ext(&extCall{fr: fr, in: in, name: e + "." + c.Method.Name(), args: append([]Value{i.v}, args...), st: st, key: key, sig: c.Signature()})
			}
			fn := ev.p.prog.LookupMethod(i.t, c.Method.Pkg(), c.Method.Name())
			if fn == nil {
				ev.note("no method %s on %s", c.Method.Name(), i.t)
				return &TopV{"method"}, st
			}
			return ev.callTarget(fr, in, fn, append([]Value{i.v}, args...), nil, st, key)
		case *ErrV: // err.Error()
			return mk("errstr", "", SStr, nil), st
		}
		ev.note("call of %s on an unknown value at %s", c.Method.Name(), ev.p.pos(c.Pos()))
		return ev.havocCall(c.Signature(), args, st, key)
	}
	switch fv := f.(type) {
	case *FuncV:
		switch fn := fv.fn.(type) {
		case func([]Value):
			fn(args)
			return TupleV{}, st
		case *ssa.Builtin:
			return ev.builtin(fr, in, fn, c, args, st, key)
		case *ssa.Function:
			return ev.callTarget(fr, in, fn, args, fv.bind, st, key)
		}
		return nil, nil
	case *IteV:
		ev.note("call through a conditional function value in %s", fr.fn)
	}
	ev.note("call of an unknown function at %s", ev.p.pos(c.Pos()))
	return ev.havocCall(c.Signature(), args, st, key)
}

// The result of a call of unknown code: anything computed from its
// arguments. Results that aren't group elements, flags or counts are taken to
// reveal the secrets among the arguments.
func (ev *Ev) havocCall(sig *types.Signature, args []Value, st *State, key string) (Value, *State) {
	deps := ev.secretsIn(st, args)
	for _, a := range args {
		ev.havocArg(st, a, key, 0)
	}
	var r []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		k := fmt.Sprintf("%s#%d", key, i)
		if len(deps) > 0 && revealing(t) {
			r = append(r, opaque(t, k, deps...))
		} else {
			r = append(r, opaque(t, k))
		}
	}
	return tupleOf(r), st
}

func revealing(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.Int, types.UntypedInt, types.Uintptr:
			return false
		}
		return true
	}
	if s, ok := atomSort(t); ok {
		return s != SGrp && s != SBool
	}
	n := t.String()
	return !strings.Contains(n, "bn254.G") && !strings.Contains(n, "bn254.E")
}

// random values that the values depend on, other than through group elements
func (ev *Ev) secretsIn(st *State, args []Value) []*Term {
	save := map[string]bool{}
	for k := range ev.notes {
		save[k] = true
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range args {
		var ts []*Term
		if s, ok := a.(*SliceV); ok && s.obj != nil {
			for _, x := range ev.variadic(st, s) {
				ts = append(ts, ev.valTerm(st, x))
			}
		}
		if _, x := ev.extPtr(st, a); x != nil {
			for _, k := range []string{"data", "pend"} {
				if t, ok := x.f[k].(*Term); ok {
					ts = append(ts, t)
				}
			}
		}
		ts = append(ts, ev.valTerm(st, a))
		for _, t := range ts {
			for _, l := range leaks(t) {
				if !seen[l] {
					seen[l] = true
					out = append(out, l)
				}
			}
		}
	}
	ev.notes = save
	return out
}

// a call of code that isn't analysed, which may do anything with its arguments
func (ev *Ev) unmodelled(c *extCall, name string) {
	if c.in == nil {
		return
	}
	d := ev.secretsIn(c.st, c.args)
	if len(d) == 0 {
		return
	}
	if sinkFunc(name) {
		ev.event(c, "sink:"+name, d...)
	} else if !pureFunc(name) {
		ev.event(c, "unmodelled", d...)
	}
}

// functions that show what they get to someone else
func sinkFunc(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range []string{"os", "log", "log/slog", "net", "net/http", "syscall", "os/exec", "io/ioutil", "expvar", "runtime/trace", "runtime/debug"} {
		if strings.HasPrefix(n, p+".") {
			return true
		}
	}
	return false
}

// functions that only compute their results
func pureFunc(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range []string{"math", "math/big", "math/bits", "strings", "bytes", "strconv", "unicode", "unicode/utf8", "sort", "slices", "maps", "errors", "encoding/hex", "encoding/base64", "encoding/binary", "crypto/sha256", "crypto/sha512", "hash", "gnark-crypto/"} {
		if strings.HasPrefix(n, p+".") || strings.HasSuffix(p, "/") && strings.HasPrefix(n, p) {
			return !strings.Contains(n, ".Write") && !strings.Contains(n, "Encoder") && !strings.Contains(n, "Fprint")
		}
	}
	return false
}

func (ev *Ev) havocArg(st *State, v Value, key string, d int) {
	if d > 3 {
		return
	}
	switch x := v.(type) {
	case *PtrV:
		if x.obj != nil {
			if e, ok := st.loadRaw(x).(*ExtV); ok {
				ev.note("write to or read through a %s changed by a call outside the model", e.kind)
			}
			st.store(x, &TopV{"changed by a call"})
		}
	case *SliceV:
		if x.obj != nil {
			st.store(&PtrV{x.obj, x.path}, &TopV{"changed by a call"})
		}
	case *IfaceV:
		ev.havocArg(st, x.v, key, d+1)
	case *IteV:
		ev.havocArg(st, x.a, key, d+1)
		ev.havocArg(st, x.b, key, d+1)
	case *StructV:
		for _, f := range x.f {
			ev.havocArg(st, f, key, d+1)
		}
	case *FuncV:
		for _, f := range x.bind {
			ev.havocArg(st, f, key, d+1)
		}
	}
}

func (ev *Ev) callTarget(fr *Frame, in ssa.CallInstruction, fn *ssa.Function, args, bind []Value, st *State, key string) (Value, *State) {
	if fn.Synthetic != "" && len(fn.Blocks) == 0 {
		ev.p.prog.Build()
	}
	if v, ns, ok := ev.intrinsic(fr, in, fn, args, bind, st, key); ok {
		return v, ns
	}
	if len(fn.Blocks) > 0 && !(ev.noInline != nil && ev.noInline(fn)) && inModule(fn) {
		return ev.callFn(fn, args, bind, st, key)
	}
	if ev.noInline != nil && inModule(fn) {
		return ev.recordCall(fn, args, st, key)
	}
	return ev.ext(&extCall{fr: fr, in: in, name: shortName(fn.String()), args: args, st: st, key: key, sig: fn.Signature, bind: bind, fn: fn})
}

func inModule(fn *ssa.Function) bool {
	for p := fn; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return strings.HasPrefix(p.Pkg.Pkg.Path(), modPath)
		}
		if p.Object() != nil && p.Object().Pkg() != nil {
			return strings.HasPrefix(p.Object().Pkg().Path(), modPath)
		}
	}
	// synthetic wrappers, bound methods
	return len(fn.Blocks) > 0
}

// a call of a module function that is left as it is
func (ev *Ev) recordCall(fn *ssa.Function, args []Value, st *State, key string) (Value, *State) {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, ev.valTerm(st, a))
	}
	g := map[*Term]bool{}
	for t := range st.guard {
		g[t] = true
	}
	ev.events = append(ev.events, Event{kind: "call", args: ts, guard: g, fn: fn.String(), note: strings.TrimPrefix(fn.String(), modPath)})
	ev.trace(st, mk("call", strings.TrimPrefix(fn.String(), modPath), SOther, nil, ts...))
	var r []Value
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		t := fn.Signature.Results().At(i).Type()
		if types.Identical(t, errType) {
			l := mk("ok", "call "+strings.TrimPrefix(fn.String(), modPath), SBool, nil, ts...)
			st.assume[l] = true
			r = append(r, &ErrV{l})
		} else {
			r = append(r, opaque(t, fmt.Sprintf("%s#%d", key, i)))
		}
	}
	return tupleOf(r), st
}

func (ev *Ev) trace(st *State, item *Term) {
	old, ok := st.heap[ev.traceObj].(*Term)
	if !ok {
		old = wl()
	}
	st.heap[ev.traceObj] = wl(old, item)
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, gc, "")
	s = strings.ReplaceAll(s, "github.com/consensys/gnark/", "gnark/")
	s = strings.ReplaceAll(s, "github.com/bnb-chain/gnark/", "gnark/")
	s = strings.ReplaceAll(s, "ecc/bn254", "bn254")
	return s
}

func (ev *Ev) builtin(fr *Frame, in ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon, args []Value, st *State, key string) (Value, *State) {
	switch b.Name() {
	case "len", "cap":
		r := mapIte(args[0], func(v Value) Value {
			switch s := v.(type) {
			case *SliceV:
				if b.Name() == "cap" {
					return s.cap
				}
				return s.len
			case *Term:
				if s.Sort == SBytes {
					return blen(s)
				}
				return mk("strlen", "", SInt, nil, s)
			case *ArrC:
				return I(int64(len(s.e)))
			}
			if a, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return I(a.Len())
			}
			return &TopV{"len"}
		})
		return ev.intT(r), st
	case "append":
		return ev.appendB(fr, in, c, args, st, key), st
	case "copy":
		return ev.copyB(c, args, st, key), st
	case "print", "println":
		return TupleV{}, st
	case "min", "max":
		r := ev.intT(args[0])
		for _, a := range args[1:] {
			t := ev.intT(a)
			if b.Name() == "min" {
				r = mkMin(r, t)
			} else {
				r = add(r, t, neg(mkMin(r, t)))
			}
		}
		return r, st
	case "panic":
		return nil, nil
	case "close", "delete":
		if ev.tr != nil && b.Name() == "close" {
			if o := syncObj(args[0]); o != nil {
				ev.tr.add("close", o, 0, in.Pos(), st)
			} else {
				ev.tr.lose("an unknown channel is closed")
			}
		}
		if b.Name() == "delete" {
			if ev.tr != nil {
				ev.tr.access(args[0], true, in.Pos())
			}
			st.storeRaw(args[0], &TopV{"map with entries deleted"})
		}
		return TupleV{}, st
	case "recover":
		if ev.recovers { // what runs only after a panic matters too
			any := types.NewInterfaceType(nil, nil)
			return valIte(mk("recovered", key, SBool, nil), &IfaceV{any, &TopV{"recovered value"}}, &IfaceV{}), st
		}
		return &IfaceV{}, st
	case "ssa:wrapnilchk":
		return args[0], st
	}
	ev.note("builtin %s", b.Name())
	return symResult(c.Signature(), key), st
}

func elemOf(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ev *Ev) appendB(fr *Frame, in ssa.CallInstruction, c *ssa.CallCommon, args []Value, st *State, key string) Value {
	t := c.Args[0].Type()
	if isByteSlice(t) {
		return cat(ev.bytesOf(st, args[0]), ev.bytesOf(st, args[1]))
	}
	el := elemOf(t)
	if len(args) < 2 {
		return args[0]
	}
	y, ok := args[1].(*SliceV)
	if !ok {
		return &TopV{"append of unknown slice"}
	}
	x, ok := args[0].(*SliceV)
	if !ok {
		return &TopV{"append to unknown slice"}
	}
	n, konst := constI(y.len)
	if y.obj == nil || konst && n == 0 {
		return x
	}
	if xn, ok := constI(x.len); ok && konst && xn+n <= 256 {
		if _, scalar := atomSort(el); !scalar {
			r := &ArrC{elem: el}
			for i := int64(0); i < xn; i++ {
				r.e = append(r.e, ev.elem(st, x, I(i)))
			}
			for i := int64(0); i < n; i++ {
				r.e = append(r.e, ev.elem(st, y, I(i)))
			}
			o := getObj(key+"+app", types.NewArray(el, 0))
			st.heap[o] = r
			return &SliceV{obj: o, off: I(0), len: I(xn + n), cap: I(xn + n)}
		}
	}
	so, scalar := atomSort(el)
	if !scalar {
		return &TopV{"append"}
	}
	_ = so
	// scalars: append in place (or to a fresh array when growing a nil slice)
	if x.obj == nil {
		o := getObj(key+"+app", types.NewArray(el, 0))
		if _, ok := st.heap[o]; !ok || true {
			st.heap[o] = newArray(el, I(0))
		}
		x = &SliceV{obj: o, off: I(0), len: I(0), cap: I(0)}
	}
	p := append([]PE{}, x.path...)
	for i := int64(0); konst && i < n && i < 256; i++ {
		st.store(&PtrV{x.obj, append(append([]PE{}, p...), PE{idx: add(x.off, x.len, I(i))})}, ev.elem(st, y, I(i)))
	}
	if !konst {
		a, ok := walk(st.get(x.obj), x.path).(*ArrL)
		if !ok {
			return &TopV{"append"}
		}
		lo := add(x.off, x.len)
		src, ok := ev.elem(st, y, sub(xs, lo)).(*Term)
		if !ok {
			return &TopV{"append"}
		}
		nb := ite(and(le(lo, xs), lt(xs, add(lo, y.len))), src, a.body)
		st.store(&PtrV{x.obj, x.path}, &ArrL{el, nb})
	}
	l := add(x.len, y.len)
	return &SliceV{x.obj, x.path, x.off, l, l}
}

func (ev *Ev) copyB(c *ssa.CallCommon, args []Value, st *State, key string) Value {
	d, ok := args[0].(*SliceV)
	if !ok || d.obj == nil {
		return I(0)
	}
	if isByteSlice(c.Args[0].Type()) {
		src := ev.bytesOf(st, args[1])
		n := mkMin(d.len, blen(src))
		a, ok := walk(st.get(d.obj), d.path).(*ArrL)
		if !ok {
			ev.note("copy to unknown")
			return n
		}
		if k, ok := constI(n); ok && k <= 64 {
			body := a.body
			for i := int64(0); i < k; i++ {
				body = writeAt(body, add(d.off, I(i)), byteAt(src, I(i)))
			}
			st.store(&PtrV{d.obj, d.path}, &ArrL{a.elem, body})
			return n
		}
		body := ite(and(le(d.off, xs), lt(xs, add(d.off, n))), mk("byteat", "", SInt, nil, src, sub(xs, d.off)), a.body)
		st.store(&PtrV{d.obj, d.path}, &ArrL{a.elem, body})
		return n
	}
	s, ok := args[1].(*SliceV)
	if !ok {
		st.store(&PtrV{d.obj, d.path}, &TopV{"copy"})
		return mk("copied", key, SInt, nil)
	}
	n := mkMin(d.len, s.len)
	switch a := walk(st.get(d.obj), d.path).(type) {
	case *ArrL:
		if v, ok := ev.elem(st, s, sub(xs, d.off)).(*Term); ok {
			st.store(&PtrV{d.obj, d.path}, &ArrL{a.elem, ite(and(le(d.off, xs), lt(xs, add(d.off, n))), v, a.body)})
			return n
		}
	case *ArrC:
		if k, ok := constI(n); ok {
			for i := int64(0); i < k; i++ {
				st.store(&PtrV{d.obj, append(append([]PE{}, d.path...), PE{idx: add(d.off, I(i))})}, ev.elem(st, s, I(i)))
			}
			return n
		}
	}
	st.store(&PtrV{d.obj, d.path}, &TopV{"copy"})
	return n
}

// element i of a slice
func (ev *Ev) elem(st *State, s *SliceV, i *Term) Value {
	if s.obj == nil {
		return &TopV{"element of nil slice"}
	}
	return st.load(&PtrV{s.obj, append(append([]PE{}, s.path...), PE{idx: add(s.off, i)})})
}

func (ev *Ev) allocKey(fr *Frame, in ssa.Instruction) string {
	if ev.tr == nil {
		return fr.key(in)
	}
	ev.tr.allocs++
	return fmt.Sprintf("%s~%d", fr.key(in), ev.tr.allocs)
}

// operations on the bits of given numbers
func foldBits(op token.Token, a, b *Term) *Term {
	x, ok := constInt(a)
	y, ok2 := constInt(b)
	if !ok || !ok2 || x.Sign() < 0 || y.Sign() < 0 {
		return nil
	}
	z := new(big.Int)
	switch op {
	case token.AND:
		z.And(x, y)
	case token.OR:
		z.Or(x, y)
	case token.XOR:
		z.Xor(x, y)
	case token.AND_NOT:
		z.AndNot(x, y)
	case token.SHR:
		if y.BitLen() > 16 {
			return I(0)
		}
		z.Rsh(x, uint(y.Int64()))
	default:
		return nil
	}
	return IB(z)
}

// bits functions of given numbers
func foldBitFn(name string, a *Term) *Term {
	x, ok := constInt(a)
	if !ok || !x.IsUint64() {
		return nil
	}
	v := x.Uint64()
	switch strings.TrimPrefix(name, "math/bits.") {
	case "TrailingZeros64", "TrailingZeros":
		return I(int64(bits.TrailingZeros64(v)))
	case "Len64", "Len":
		return I(int64(bits.Len64(v)))
	case "Reverse64", "Reverse":
		return IB(new(big.Int).SetUint64(bits.Reverse64(v)))
	case "LeadingZeros64", "LeadingZeros":
		return I(int64(bits.LeadingZeros64(v)))
	case "OnesCount64", "OnesCount":
		return I(int64(bits.OnesCount64(v)))
	}
	return nil
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
