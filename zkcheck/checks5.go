package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- the command line

type cmdDesc struct {
	name string
	n    int64
	op   string
	args []string // p0: argument 0 as it is, n3: argument 3 as a number, "": the empty string
}

var cmds = []cmdDesc{
	{"p1n", 2, "/phase1.Initialize", []string{"n0", "p1"}},
	{"p1c", 2, "/phase1.Contribute", []string{"p0", "p1"}},
	{"p1v", 1, "/phase1.Verify", []string{"p0", ""}},
	{"p1t", 4, "/phase1.Transform", []string{"p0", "p1", "n2", "n3"}},
	{"p1vt", 2, "/phase1.Verify", []string{"p0", "p1"}},
	{"p2n", 3, "/phase2.Initialize", []string{"p0", "p1", "p2"}},
	{"p2np", 6, "/phase2.InitializeFromPartedR1CS", []string{"p0", "p1", "p2", "n3", "n4", "n5"}},
	{"p2c", 2, "/phase2.Contribute", []string{"p0", "p1"}},
	{"p2v", 2, "/phase2.Verify", []string{"p0", "p1"}},
	{"key", 1, "/keys.ExtractKeys", []string{"p0"}},
	{"keys", 2, "/keys.ExtractSplitKeys", []string{"p0", "p1"}},
	{"sol", 1, "/keys.ExportSol", []string{"p0"}},
}

func cliArg(i int64) *Term { return mk("arg", "", SStr, nil, I(i)) }
func atoi(s *Term) *Term   { return mk("atoi", "", SInt, nil, s) }

func (d cmdDesc) want(k int) *Term {
	a := d.args[k]
	if a == "" {
		return str("")
	}
	t := cliArg(int64(a[1] - '0'))
	if a[0] == 'n' {
		return atoi(t)
	}
	return t
}

type appRun struct {
	app  Value
	args Value
	ok   *Term
	st   *State
}

type command struct {
	action Value
	odd    string
}

// a function the library calls around a command
type cliHook struct {
	name string
	f    *FuncV
}

type cliProg struct {
	hooks []cliHook
	ev    *Ev
	main  *Run
	apps  []appRun
	cmds  map[string]command
	why   string
}

func (c *Ctx) loadCli() *cliProg {
	x := &cliProg{cmds: map[string]command{}}
	fn := c.p.fn("", "main")
	if fn == nil {
		x.why = "there is no main function"
		return x
	}
	r := &Run{Name: "main"}
	x.main = r
	c.runs["main"] = r
	r.ev = newEv(c.p)
	x.ev = r.ev
	r.ev.noInline = func(f *ssa.Function) bool {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		return p.Pkg != nil && p.Pkg.Pkg.Path() != modPath
	}
	r.ev.onApp = func(a appRun) { x.apps = append(x.apps, a) }
	r.res, r.st = r.ev.callFn(fn, nil, nil, r.ev.initState(fn), "")
	for f := range r.ev.fnsSeen {
		c.funcs[f.String()] = true
	}
	c.steps += r.ev.steps
	if len(x.apps) != 1 {
		x.why = fmt.Sprintf("main runs %d command line applications", len(x.apps))
		return x
	}
	a := x.apps[0]
	app := a.st.load(a.app)
	cs, ok := fieldNamed(app, "Commands").(*SliceV)
	x.hook(app, "")
	n := int64(0)
	if ok {
		n, ok = constI(cs.len)
	}
	if !ok {
		x.why = "the table of commands isn't known"
		return x
	}
	for i := int64(0); i < n; i++ {
		cmd := a.st.load(r.ev.elem(a.st, cs, I(i)))
		nm, ok := fieldNamed(cmd, "Name").(*Term)
		if !ok || nm.Op != "str" {
			x.why = "the name of a command isn't known"
			return x
		}
		names := []string{nm.Str}
		if al, ok := fieldNamed(cmd, "Aliases").(*SliceV); ok && al.obj != nil {
			k, _ := constI(al.len)
			for j := int64(0); j < k; j++ {
				if t, ok := r.ev.elem(a.st, al, I(j)).(*Term); ok {
					names = append(names, t.Str)
				}
			}
		}
		x.hook(cmd, " of "+nm.Str)
		odd := ""
		for _, f := range []string{"Before", "Subcommands", "SkipFlagParsing"} {
			switch v := fieldNamed(cmd, f).(type) {
			case *FuncV:
				if v.fn != nil {
					odd = f
				}
			case *SliceV:
				if v.obj != nil {
					odd = f
				}
			case *Term:
				if v != TFalse {
					odd = f
				}
			}
		}
		for _, nm := range names {
			if _, dup := x.cmds[nm]; !dup {
				x.cmds[nm] = command{fieldNamed(cmd, "Action"), odd}
			}
		}
	}
	return x
}

func (x *cliProg) hook(v Value, of string) {
	for _, n := range []string{"ExitErrHandler", "After", "Before", "OnUsageError", "CommandNotFound"} {
		if f, ok := fieldNamed(v, n).(*FuncV); ok && f.fn != nil {
			x.hooks = append(x.hooks, cliHook{n + of, f})
		}
	}
}

// the functions called around the commands don't end the process as if the
// command had succeeded
func (c *Ctx) cliHooks(x *cliProg) {
	for _, h := range x.hooks {
		fn, ok := h.f.fn.(*ssa.Function)
		if !ok || len(fn.Blocks) == 0 {
			c.undecided = append(c.undecided, "the function "+h.name+" isn't known")
			continue
		}
		ev := newEv(c.p)
		ev.noInline = x.ev.noInline
		st := x.apps[0].st.clone()
		st.guard = map[*Term]bool{}
		done := mk("ok", "the command", SBool, nil)
		var args []Value
		for i, p := range fn.Params {
			if isErr(p.Type()) {
				args = append(args, &ErrV{done})
				continue
			}
			args = append(args, symVal(p.Type(), sym(fmt.Sprintf("%s#%d", h.name, i), SOther)))
		}
		_, end := ev.callFn(fn, args, h.f.bind, st, "hook")
		for f := range ev.fnsSeen {
			c.funcs[f.String()] = true
		}
		c.exits(h.name, ev.events, done)
		_ = end
	}
}

func fieldNamed(v Value, name string) Value {
	s, ok := v.(*StructV)
	if !ok {
		return nil
	}
	t := s.t.Underlying().(*types.Struct)
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == name {
			return s.f[i]
		}
	}
	return nil
}

// the action of a command on an arbitrary command line
func (c *Ctx) command(x *cliProg, name string) *Run {
	key := "command " + name
	if r := c.runs[key]; r != nil {
		return r
	}
	r := &Run{Name: key}
	c.runs[key] = r
	f, ok := x.cmds[name].action.(*FuncV)
	fn, ok2 := (*ssa.Function)(nil), false
	if ok {
		fn, ok2 = f.fn.(*ssa.Function)
	}
	if !ok2 || fn == nil || len(fn.Params) != 1 {
		r.why = key + ": its action isn't known"
		return r
	}
	if o := x.cmds[name].odd; o != "" {
		r.why = key + ": it uses " + o
		return r
	}
	r.ev = newEv(c.p)
	r.ev.noInline = x.ev.noInline
	st := x.apps[0].st.clone()
	st.guard = map[*Term]bool{}
	ctx := symVal(fn.Params[0].Type(), sym("ctx", SOther))
	r.res, r.st = r.ev.callFn(fn, []Value{ctx}, f.bind, st, "")
	for f := range r.ev.fnsSeen {
		c.funcs[f.String()] = true
	}
	c.steps += r.ev.steps
	c.finish(r)
	return r
}

func (r *Run) calls() []Event {
	var out []Event
	for _, e := range r.ev.events {
		if e.kind == "call" {
			out = append(out, e)
		}
	}
	return out
}

func isOp(name string) bool {
	for _, d := range ops {
		if name == "/"+d.pkg+"."+d.name {
			return true
		}
	}
	return false
}

func guardOf(e Event) []*Term {
	var g []*Term
	for t := range e.guard {
		g = append(g, conj(t)...)
	}
	sortTerms(g)
	return g
}

func stripConv(t *Term) *Term {
	for t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// a number that is converted to a smaller type, whatever its range
func cliSame(got, want *Term) bool {
	return got == want || got.Sort == SInt && stripConv(got) == want
}

// number n of arguments refused?
func refuses(g []*Term, n int64) bool {
	na := mk("nargs", "", SInt, nil)
	for _, l := range g {
		if subst1(l, na, I(n)) == TFalse {
			return true
		}
	}
	return false
}

func checkC25(c *Ctx) {
	x := c.loadCli()
	if x.why != "" {
		c.undecided = append(c.undecided, x.why)
		return
	}
	for _, d := range cmds {
		nm := "command " + d.name
		if _, ok := x.cmds[d.name]; !ok {
			c.oblige(nm+": it is there", false, false, "the table of commands has none of this name")
			continue
		}
		r := c.command(x, d.name)
		c.lossy = ""
		if !c.need(r) {
			continue
		}
		var call *Event
		other := ""
		for _, e := range r.calls() {
			e := e
			if e.note == d.op && call == nil {
				call = &e
			} else if isOp(e.note) {
				other = e.note
			}
		}
		unkC := len(r.ev.notes) > 0
		c.oblige(nm+": it runs no other operation", other == "", unkC, "it also runs "+other)
		c.oblige(nm+": it runs "+d.op[1:], call != nil, unkC, "it doesn't")
		if call == nil {
			continue
		}
		g := guardOf(*call)
		unkG := anyUnknown(g)
		// the number of arguments
		bad := ""
		for n := int64(0); n <= 12; n++ {
			if n != d.n && !refuses(g, n) {
				bad = fmt.Sprintf("it runs the operation with %d arguments", n)
			}
			if n == d.n && refuses(g, n) {
				bad = fmt.Sprintf("it refuses %d arguments", n)
			}
		}
		c.oblige(fmt.Sprintf("%s: exactly %d arguments are accepted", nm, d.n), bad == "", unkG, bad)
		// its arguments
		for k := range d.args {
			w := d.want(k)
			got := TTrue
			if k < len(call.args) {
				got = call.args[k]
			}
			c.oblige(fmt.Sprintf("%s: argument %d of the operation is %s", nm, k+1, show(w)), cliSame(got, w), unknown(got), "it is "+show(got))
			if w.Op == "atoi" {
				parsed := false
				for _, l := range g {
					parsed = parsed || l.Op == "ok" && strings.HasPrefix(l.Str, "strconv.") && parsesArg(r, l, w.Args[0])
				}
				c.oblige(fmt.Sprintf("%s: it refuses a %s that isn't a number", nm, show(w.Args[0])), parsed, unkG, "it runs the operation although the argument may not be a number")
			}
		}
		// its result
		done := mk("ok", "call "+d.op, SBool, nil, call.args...)
		c.oblige(nm+": it fails if the operation fails", holds(r.S, done), anyUnknown(r.S), "it succeeds although the operation may have failed")
		c.exits(nm, r.ev.events, done)
	}
	// the process
	a := x.apps[0]
	if s, ok := a.args.(*SliceV); ok {
		c.oblige("main: it hands on the whole command line", s.off == I(0), unknown(s.off), "it leaves out the first "+show(s.off))
	}
	if x.main.st != nil {
		var g []*Term
		for t := range x.main.st.guard {
			g = append(g, conj(t)...)
		}
		c.oblige("main: it doesn't end normally if the command failed", holds(g, a.ok), anyUnknown(g), "it returns although the command failed")
	}
	c.exits("main", x.ev.events, a.ok)
	c.cliHooks(x)
}

// no exit with status 0 after a failure
func (c *Ctx) exits(nm string, es []Event, ok *Term) {
	for _, e := range es {
		if e.kind != "exit" && e.kind != "cliexit" {
			continue
		}
		failed := true
		for _, l := range guardOf(e) {
			if l == ok {
				failed = false
			}
		}
		code := subst(e.args[0], map[*Term]*Term{ok: TFalse})
		k, isC := constI(code)
		c.oblige(nm+": it doesn't exit with status 0 after a failure"+c.where(e.pos), !failed || isC && k != 0, !isC, "the status is "+show(code))
	}
}

// is the literal that of a conversion of the given string?
func parsesArg(r *Run, l, s *Term) bool {
	return len(l.Args) > 0 && l.Args[len(l.Args)-1] == s
}

// the ranges of powers
func (c *Ctx) cliRanges() {
	x := c.loadCli()
	if x.why != "" {
		c.undecided = append(c.undecided, x.why)
		return
	}
	at := func(name, op string) ([]*Term, bool) {
		if _, ok := x.cmds[name]; !ok {
			c.undecided = append(c.undecided, "there is no command "+name)
			return nil, false
		}
		r := c.command(x, name)
		c.lossy = ""
		if !c.need(r) {
			return nil, false
		}
		for _, e := range r.calls() {
			if e.note == op {
				return guardOf(e), true
			}
		}
		c.undecided = append(c.undecided, "command "+name+" doesn't run "+op)
		return nil, false
	}
	refused := func(g []*Term, m map[*Term]*Term) (bool, bool) {
		known := true
		for _, l := range g {
			switch t := subst(l, m); t {
			case TFalse:
				return true, true
			case TTrue:
			default:
				for v := range m {
					known = known && !contains(t, v) && t == l
				}
			}
		}
		return false, known
	}
	// every value of a region around the limits
	all := func(what string, g []*Term, vals func(f func(name string, m map[*Term]*Term, accept bool))) {
		n, bad, unk := 0, "", false
		vals(func(name string, m map[*Term]*Term, accept bool) {
			n++
			no, known := refused(g, m)
			if no == accept && bad == "" {
				bad, unk = name+" accepted", !known || anyUnknown(g)
				if accept {
					bad = name + " refused"
				}
			}
		})
		c.oblige(fmt.Sprintf("%s (%d values)", what, n), bad == "", unk, bad)
	}
	type sub1 = map[*Term]*Term
	if g, ok := at("p1n", "/phase1.Initialize"); ok {
		p := atoi(cliArg(0))
		c.rangeOf("command p1n: the power", g, p, 1, 26)
		all("command p1n: exactly the powers from 1 to 26 are accepted", g, func(f func(string, sub1, bool)) {
			for k := int64(-300); k <= 300; k++ {
				f(fmt.Sprintf("power %d is", k), sub1{p: I(k)}, k >= 1 && k <= 26)
			}
		})
	}
	if g, ok := at("p1t", "/phase1.Transform"); ok {
		p, q := atoi(cliArg(2)), atoi(cliArg(3))
		c.rangeOf("command p1t: the original power", g, p, 1, 28)
		c.rangeOf("command p1t: the reduced power", g, q, 1, 28)
		c.oblige("command p1t: the power doesn't grow", factsProve(g, sub(q, p)), true, "not shown")
		all("command p1t: exactly the powers from 1 to 28 that don't grow are accepted", g, func(f func(string, sub1, bool)) {
			for k := int64(-1); k <= 31; k++ {
				for l := int64(-1); l <= 31; l++ {
					f(fmt.Sprintf("transforming power %d to %d is", k, l), sub1{p: I(k), q: I(l)}, l >= 1 && l <= k && k <= 28)
				}
			}
			for _, k := range []int64{255, 256, 257, 284} {
				f(fmt.Sprintf("transforming power %d to %d is", k, 4), sub1{p: I(k), q: I(4)}, false)
				f(fmt.Sprintf("transforming power %d to %d is", k+10, k), sub1{p: I(k + 10), q: I(k)}, false)
			}
		})
	}
}

func (c *Ctx) rangeOf(what string, g []*Term, v *Term, lo, hi int64) {
	c.oblige(fmt.Sprintf("%s is at least %d", what, lo), factsProve(g, sub(I(lo), v)), true, "not shown")
	c.oblige(fmt.Sprintf("%s is at most %d", what, hi), factsProve(g, sub(v, I(hi))), true, "not shown")
}
