package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The package-level variables of the module before entry runs: what the
// package initialisers leave in them. A variable is left unknown if code that
// entry doesn't reach may change it. Variables that entry itself may change
// have their initial value too, which is what its first call finds.
func (ev *Ev) initState(entry *ssa.Function) *State {
	out := newState()
	writers := ev.p.globalWriters()
	if len(writers.all) == 0 {
		return out
	}
	tr := ev.tr
	ev.tr = nil
	notes, events, sites, fns, steps := ev.notes, ev.events, ev.sites, ev.fnsSeen, ev.steps
	noInline := ev.noInline
	ev.notes, ev.sites, ev.fnsSeen, ev.noInline = map[string]bool{}, map[ssa.Instruction]bool{}, map[*ssa.Function]bool{}, nil
	st := newState()
	for _, p := range ev.p.prog.AllPackages() {
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			if f := p.Func("init"); f != nil && len(f.Blocks) > 0 && st != nil {
				_, st = ev.callFn(f, nil, nil, st, "init:"+p.Pkg.Path())
			}
		}
	}
	ev.notes, ev.events, ev.sites, ev.fnsSeen, ev.steps, ev.noInline, ev.tr = notes, events, sites, fns, steps, noInline, tr
	if st == nil {
		return out
	}
	reach := ev.p.reachable(entry)
	for o, v := range st.heap {
		if strings.HasPrefix(o.key, "init:") {
			out.heap[o] = v
		}
	}
	for _, g := range writers.all {
		ok := true
		for f := range writers.by[g] {
			if !reach[f] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		if types.Identical(t, errType) {
			continue
		}
		p, isP := ev.val(g, nil).(*PtrV)
		if !isP {
			continue
		}
		if v, has := st.heap[p.obj]; has {
			out.heap[p.obj] = v
		} else {
			out.heap[p.obj] = zeroVal(t)
		}
	}
	return out
}

type globalUse struct {
	all []*ssa.Global
	by  map[*ssa.Global]map[*ssa.Function]bool
}

// the module's variables, and the functions besides the initialisers that may
// change each
func (p *Program) globalWriters() *globalUse {
	if p.globals != nil {
		return p.globals
	}
	u := &globalUse{by: map[*ssa.Global]map[*ssa.Function]bool{}}
	p.globals = u
	for _, q := range p.prog.AllPackages() {
		if !strings.HasPrefix(q.Pkg.Path(), modPath) {
			continue
		}
		for _, m := range q.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				u.all = append(u.all, g)
				u.by[g] = map[*ssa.Function]bool{}
			}
		}
	}
	for _, fn := range p.allFuncs() {
		if !inModule(fn) || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && u.by[g] != nil && !readOnly(in, g, 0) {
						u.by[g][fn] = true
					}
				}
			}
		}
	}
	return u
}

// is the address, or value, x only read from by this use?
func readOnly(in ssa.Instruction, x ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	uses := func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			if !readOnly(r, v, d+1) {
				return false
			}
		}
		return true
	}
	switch i := in.(type) {
	case *ssa.UnOp:
		if plainType(i.Type()) {
			return true
		}
		return uses(i)
	case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.Range, *ssa.Next, *ssa.Extract, *ssa.Phi:
		return uses(i.(ssa.Value))
	case *ssa.Lookup, *ssa.Index, *ssa.Field:
		v := i.(ssa.Value)
		return plainType(v.Type()) || uses(v)
	case *ssa.BinOp, *ssa.If, *ssa.DebugRef:
		return true
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
	}
	return false
}

// a value without anything that could be changed through it
func plainType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainType(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return plainType(u.Elem())
	}
	return false
}

// the functions that entry may call, directly or through values and methods
func (p *Program) reachable(entry *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !inModule(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, h := range p.allFuncs() {
						if inModule(h) && h.Name() == c.Common().Method.Name() && h.Signature.Recv() != nil {
							walk(h)
						}
					}
				}
			}
		}
	}
	walk(entry)
	return seen
}
