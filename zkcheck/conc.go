package main

// Goroutines at fixed numbers of items and CPUs: the operation is evaluated
// with its loops unrolled, every goroutine at the point where it starts, and
// every access to memory and every synchronisation is recorded. From the
// record the happens-before order is computed, and two accesses to the same
// element, one of them a write, that it doesn't order are a race.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type cEvent struct {
	thread int
	kind   string // read, write, go, send, recv, close, add, done, wait, lock, unlock, end
	obj    *Obj
	path   string // of an access; elements separated by /
	n      int64
	pos    token.Pos
	guard  map[*Term]bool
}

type tracer struct {
	cur, threads int
	log          []cEvent
	allocs       int
	inExt        bool
	extPos       token.Pos
	lossy        map[string]bool
	issues       []string
	parent       []int
	where        []token.Pos
}

type tracerStop struct{} // the evaluation can't go on

var theTracer *tracer // the one library summaries report to

func newTracer() *tracer {
	return &tracer{threads: 1, lossy: map[string]bool{}, parent: []int{0}, where: []token.Pos{0}}
}

func (tr *tracer) lose(f string, a ...any) { tr.lossy[fmt.Sprintf(f, a...)] = true }

func (tr *tracer) add(kind string, o *Obj, n int64, pos token.Pos, st *State) {
	g := map[*Term]bool{}
	if st != nil {
		for t := range st.guard {
			g[t] = true
		}
	}
	tr.log = append(tr.log, cEvent{tr.cur, kind, o, "", n, pos, g})
}

func (tr *tracer) access(p Value, w bool, pos token.Pos) {
	switch p := p.(type) {
	case *PtrV:
		if p.obj == nil {
			return
		}
		var sb strings.Builder
		for _, e := range p.path {
			switch {
			case e.idx != nil:
				k, ok := constI(e.idx)
				if !ok {
					if !tr.inExt || w { // libraries read slices as a whole
						tr.lose("access at an unknown index")
					}
					return
				}
				fmt.Fprintf(&sb, "%d/", k)
			case e.coord != "":
				sb.WriteString(e.coord + "/")
			default:
				fmt.Fprintf(&sb, "f%d/", e.field)
			}
		}
		kind := "read"
		if w {
			kind = "write"
		}
		tr.log = append(tr.log, cEvent{thread: tr.cur, kind: kind, obj: p.obj, path: sb.String(), pos: pos})
	case *IteV:
		tr.access(p.a, w, pos)
		tr.access(p.b, w, pos)
	case *TopV:
		tr.lose("access through an unknown pointer")
	}
}

// the object a synchronisation call works on
func syncObj(v Value) *Obj {
	p, ok := v.(*PtrV)
	if !ok || p.obj == nil {
		return nil
	}
	if len(p.path) == 0 {
		return p.obj
	}
	key := "sync:" + p.obj.key
	for _, e := range p.path {
		if e.idx != nil {
			key += fmt.Sprintf("[%d]", e.idx.ID)
		} else {
			key += fmt.Sprintf(".%d", e.field)
		}
	}
	return getObj(key, nil)
}

// a call of package sync; false if it isn't modelled
func (tr *tracer) sync(ev *Ev, c *extCall) bool {
	n := c.name
	pos := c.in.Pos()
	if v, ok := tr.atomic(ev, c); ok {
		c.result = v
		return true
	}
	switch n {
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		o := syncObj(c.args[0])
		if o == nil {
			tr.lose("synchronisation on an unknown object")
			return true
		}
		k := int64(1)
		kind := strings.ToLower(n[strings.LastIndex(n, ".")+1:])
		if kind == "add" {
			var ok bool
			if k, ok = constI(ev.intT(c.args[1])); !ok {
				tr.lose("unknown number added to a wait group")
			}
		}
		tr.add(strings.TrimPrefix(strings.TrimPrefix(kind, "r"), "un")+map[bool]string{true: "-un"}[strings.Contains(kind, "un")], o, k, pos, c.st)
		return true
	}
	return false
}

// ---------- happens-before

type clock []int

func (a clock) join(b clock) clock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (a clock) get(i int) int {
	if i < len(a) {
		return a[i]
	}
	return 0
}
func (a clock) copy() clock { return append(clock{}, a...) }

type accNode struct {
	kids map[string]*accNode
	w    *accRec
	r    map[int]accRec
}
type accRec struct {
	thread, clock int
	pos           token.Pos
}

func (n *accNode) kid(k string) *accNode {
	if n.kids == nil {
		n.kids = map[string]*accNode{}
	}
	x := n.kids[k]
	if x == nil {
		x = &accNode{r: map[int]accRec{}}
		n.kids[k] = x
	}
	return x
}

type concResult struct {
	races  []string // conflicting accesses
	joins  []string // work not awaited, wait groups misused
	lossy  []string
	crash  []string // certain panics
	naccs  int
	nthrds int
}

func exclusive(a, b map[*Term]bool) bool {
	for t := range a {
		if b[not(t)] {
			return true
		}
	}
	return false
}

func (tr *tracer) analyse(p *Program) concResult {
	var res concResult
	vc := make([]clock, tr.threads)
	last := make([]accRec, tr.threads) // last access of a thread
	for i := range vc {
		vc[i] = make(clock, i+1)
		vc[i][i] = 1
	}
	tick := func(t int) { vc[t][t]++ }
	type wgState struct {
		adds []accRec
		n    []int64
		done clock
		nd   int64
	}
	wgs := map[*Obj]*wgState{}
	type chState struct {
		q      []clock
		closed clock
		short  bool
	}
	chs := map[*Obj]*chState{}
	locks := map[*Obj]clock{}
	roots := map[*Obj]*accNode{}
	seen := map[string]bool{}
	say := func(l *[]string, f string, a ...any) {
		s := fmt.Sprintf(f, a...)
		if !seen[s] {
			seen[s] = true
			*l = append(*l, s)
		}
	}
	posS := func(x token.Pos) string {
		if x == 0 {
			return "the end of the operation"
		}
		return p.pos(x)
	}
	conflict := func(o *Obj, path string, a accRec, kinds string, b cEvent) {
		say(&res.races, "%s: %s and %s, with nothing that orders them", kinds, posS(a.pos), posS(b.pos))
	}
	for _, x := range tr.issues {
		say(&res.joins, "%s", x)
	}
	perObj := map[*Obj][]cEvent{}
	for _, e := range tr.log {
		t := e.thread
		switch e.kind {
		case "read", "write":
			res.naccs++
			n := roots[e.obj]
			if n == nil {
				n = &accNode{r: map[int]accRec{}}
				roots[e.obj] = n
			}
			check := func(x *accNode) {
				if x.w != nil && x.w.thread != t && vc[t].get(x.w.thread) < x.w.clock {
					conflict(e.obj, e.path, *x.w, map[bool]string{true: "two writes", false: "a write and a read"}[e.kind == "write"], e)
				}
				if e.kind == "write" {
					for _, r := range x.r {
						if r.thread != t && vc[t].get(r.thread) < r.clock {
							conflict(e.obj, e.path, r, "a read and a write", e)
						}
					}
				}
			}
			parts := strings.Split(strings.TrimSuffix(e.path, "/"), "/")
			if e.path == "" {
				parts = nil
			}
			for _, k := range parts {
				check(n)
				n = n.kid(k)
			}
			var sub func(x *accNode)
			sub = func(x *accNode) {
				check(x)
				for _, k := range x.kids {
					sub(k)
				}
			}
			sub(n)
			rec := accRec{t, vc[t][t], e.pos}
			last[t] = rec
			if e.kind == "write" {
				n.w = &rec
			} else {
				n.r[t] = rec
			}
			continue
		case "go":
			c := int(e.n)
			vc[c] = vc[c].join(vc[t])
			vc[c][c] = 1
			tick(t)
			continue
		}
		for _, x := range perObj[e.obj] {
			if x.thread == e.thread && exclusive(x.guard, e.guard) {
				tr.lose("synchronisation that depends on a condition")
			}
		}
		if e.obj != nil {
			perObj[e.obj] = append(perObj[e.obj], e)
		}
		switch e.kind {
		case "add", "done", "wait":
			w := wgs[e.obj]
			if w == nil {
				w = &wgState{}
				wgs[e.obj] = w
			}
			switch {
			case e.kind == "add" && e.n >= 0:
				w.adds = append(w.adds, accRec{t, vc[t][t], e.pos})
				w.n = append(w.n, e.n)
				tick(t)
			case e.kind == "add" || e.kind == "done":
				k := int64(1)
				if e.kind == "add" {
					k = -e.n
				}
				w.nd += k
				w.done = w.done.join(vc[t])
				tick(t)
			default:
				sum := int64(0)
				for i, a := range w.adds {
					if a.thread == t || vc[t].get(a.thread) >= a.clock {
						sum += w.n[i]
					}
				}
				switch {
				case sum < w.nd:
					say(&res.joins, "Wait at %s can return before all goroutines are done: only %d of %d are added before it", posS(e.pos), sum, w.nd)
				case sum > w.nd:
					say(&res.joins, "Wait at %s never returns: %d added, %d done", posS(e.pos), sum, w.nd)
				default:
					vc[t] = vc[t].join(w.done)
				}
			}
		case "send", "recv", "close":
			c := chs[e.obj]
			if c == nil {
				c = &chState{}
				chs[e.obj] = c
			}
			switch e.kind {
			case "send":
				c.q = append(c.q, vc[t].copy())
				tick(t)
			case "close":
				c.closed = vc[t].copy()
				tick(t)
			case "recv":
				if len(c.q) > 0 {
					vc[t] = vc[t].join(c.q[0])
					c.q = c.q[1:]
				} else if c.closed != nil {
					vc[t] = vc[t].join(c.closed)
				} else if t == 0 {
					say(&res.joins, "the receive at %s waits for more than is sent", posS(e.pos))
				} else {
					tr.lose("a goroutine receives what is sent after it started")
				}
			}
		case "lock":
			vc[t] = vc[t].join(locks[e.obj])
		case "lock-un":
			locks[e.obj] = locks[e.obj].copy().join(vc[t])
			tick(t)
		}
	}
	for t := 1; t < tr.threads; t++ {
		if last[t].clock > 0 && vc[0].get(t) < last[t].clock {
			say(&res.joins, "the goroutine started at %s isn't awaited (its work at %s)", posS(tr.where[t]), posS(last[t].pos))
		}
	}
	for x := range tr.lossy {
		res.lossy = append(res.lossy, x)
	}
	sort.Strings(res.lossy)
	res.nthrds = tr.threads
	return res
}

// a goroutine starts; returns the thread that starts it
func (tr *tracer) start(pos token.Pos) int {
	p := tr.cur
	tr.cur = tr.threads
	tr.threads++
	tr.parent = append(tr.parent, p)
	tr.where = append(tr.where, pos)
	tr.log = append(tr.log, cEvent{thread: p, kind: "go", n: int64(tr.cur), pos: pos})
	return p
}

// values sent over a channel, in the order they are sent
func (ev *Ev) loseChan(f string) {
	if ev.tr != nil {
		ev.tr.lose("%s", f)
	} else {
		ev.note("%s", f)
	}
}

func (ev *Ev) send(st *State, in *ssa.Send, ch, v Value) {
	o := syncObj(ch)
	if o == nil {
		ev.loseChan("send on an unknown channel")
		return
	}
	if ev.tr != nil {
		ev.tr.add("send", o, 0, in.Pos(), st)
	}
	q, isQ := st.heap[o].(TupleV)
	if st.heap[o] != nil && !isQ && ev.tr == nil {
		ev.note("a channel whose contents aren't known")
		return
	}
	st.heap[o] = append(append(TupleV{}, q...), v)
}

func (ev *Ev) recv(st *State, in *ssa.UnOp, ch Value) Value {
	el := ch2elem(in.X.Type())
	o := syncObj(ch)
	if o == nil {
		ev.loseChan("receive from an unknown channel")
		return zeroVal(in.Type())
	}
	if ev.tr != nil {
		ev.tr.add("recv", o, 0, in.Pos(), st)
	}
	v, got := zeroVal(el), TFalse
	if q, ok := st.heap[o].(TupleV); ok && len(q) > 0 {
		v, got = q[0], TTrue
		st.heap[o] = append(TupleV{}, q[1:]...)
	} else if ev.tr == nil {
		if _, q := st.heap[o].(TupleV); !q || !in.CommaOk {
			ev.note("a receive before what it waits for is sent")
		}
	}
	if in.CommaOk {
		return TupleV{v, got}
	}
	return v
}

func ch2elem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

// an operation of sync/atomic
func (tr *tracer) atomic(ev *Ev, c *extCall) (Value, bool) {
	m := c.name[strings.LastIndex(c.name, ".")+1:]
	p, ok := c.args[0].(*PtrV)
	switch {
	case !ok || p.obj == nil:
		return nil, false
	case strings.HasPrefix(c.name, "sync/atomic."):
		m = strings.TrimRight(m, "0123456789")
		m = strings.TrimSuffix(strings.TrimSuffix(m, "Int"), "Uint")
	case strings.HasPrefix(c.name, "(*sync/atomic."):
		s, isS := deref(c.fn.Params[0].Type()).Underlying().(*types.Struct)
		if !isS {
			return nil, false
		}
		f := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "v" {
				f = i
			}
		}
		if f < 0 {
			return nil, false
		}
		p = &PtrV{p.obj, append(append([]PE{}, p.path...), PE{field: f})}
	default:
		return nil, false
	}
	o := syncObj(p)
	var r Value = TupleV{}
	old := c.st.loadRaw(p)
	switch m {
	case "Load":
		r = old
	case "Store":
		c.st.storeRaw(p, c.args[1])
	case "Add":
		r = add(ev.intT(old), ev.intT(c.args[1]))
		c.st.storeRaw(p, r)
	default:
		return nil, false
	}
	tr.add("lock", o, 1, c.in.Pos(), nil)
	tr.add("lock-un", o, 1, c.in.Pos(), nil)
	return r, true
}
