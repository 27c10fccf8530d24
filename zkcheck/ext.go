package main

// Models of the library functions the repository uses. A fallible operation
// yields an error that is nil iff its "ok" literal holds; the literal stays in
// the state's assume set until the program has checked it.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type extCall struct {
	fr   *Frame
	in   ssa.CallInstruction
	name string
	args []Value
	st   *State
	key  string
	sig  *types.Signature
	bind []Value
	fn   *ssa.Function

	result Value // of a modelled synchronisation
}

var (
	gen1 = mk("gen1", "", SGrp, nil)
	gen2 = mk("gen2", "", SGrp, nil)
)

// the dynamic type of an interface value, if its methods are library code
func (ev *Ev) extIface(i *IfaceV) (string, bool) {
	t := types.Unalias(i.t)
	n := t
	if p, ok := t.(*types.Pointer); ok {
		n = types.Unalias(p.Elem())
	}
	if nm, ok := n.(*types.Named); ok && nm.Obj().Pkg() != nil {
		if strings.HasPrefix(nm.Obj().Pkg().Path(), modPath) {
			return "", false
		}
		return "(" + shortName(t.String()) + ")", true
	}
	return "", false
}

// ---------- conversion of values to terms

func (ev *Ev) valTerm(st *State, v Value) *Term { return ev.valTermD(st, v, 0) }

func (ev *Ev) valTermD(st *State, v Value, d int) *Term {
	if d > 8 {
		return mk("top", "deep", SOther, nil)
	}
	switch x := v.(type) {
	case *Term:
		return x
	case *StructV:
		var a []*Term
		for _, f := range x.f {
			a = append(a, ev.valTermD(st, f, d+1))
		}
		return mk("struct", typeName(x.t), SOther, nil, a...)
	case *SymV:
		st0, ok := x.t.Underlying().(*types.Struct)
		if ok {
			for i := 0; i < st0.NumFields(); i++ {
				if _, ok := atomSort(st0.Field(i).Type()); !ok {
					return x.name
				}
			}
			return ev.valTermD(st, expandSym(x), d)
		}
		return x.name
	case *ArrC:
		var a []*Term
		for _, f := range x.e {
			a = append(a, ev.valTermD(st, f, d+1))
		}
		return mk("arrc", "", SOther, nil, a...)
	case *ArrL:
		return mk("arrl", "", SOther, nil, bindMark(xs, x.body))
	case *ArrS:
		return x.name
	case *PtrV:
		if x.obj == nil {
			return mk("nilptr", "", SOther, nil)
		}
		if w, ok := st.get(x.obj).(*ExtV); ok && len(x.path) == 0 {
			switch w.kind {
			case "file", "finfo":
				return mk("fileobj", "", SOther, nil, w.f["path"].(*Term))
			}
			return mk("extobj", w.kind, SOther, nil)
		}
		return ev.valTermD(st, st.load(x), d+1)
	case *SliceV:
		if x.obj == nil {
			return mk("arr", "", SOther, nil, I(0), bindMark(xs, I(0)))
		}
		if t := ev.sliceBytes(st, x); t != nil {
			return t
		}
		n, konst := constI(x.len)
		if konst && n <= 64 {
			if _, ok := walk(st.get(x.obj), x.path).(*ArrL); !ok {
				var a []*Term
				for i := int64(0); i < n; i++ {
					a = append(a, ev.valTermD(st, ev.elem(st, x, I(i)), d+1))
				}
				return mk("list", "", SOther, nil, a...)
			}
		}
		switch a := walk(st.get(x.obj), x.path).(type) {
		case *ArrL:
			return ev.arrTerm(st, x)
		case *ArrS:
			if isConst(x.off, 0) {
				return a.name
			}
			return mk("subarr", "", SOther, nil, a.name, x.off, x.len)
		}
	case *IfaceV:
		if x.t == nil {
			return mk("nilptr", "", SOther, nil)
		}
		return ev.valTermD(st, x.v, d+1)
	case *ErrV:
		return mk("err", "", SOther, nil, x.ok)
	case *IteV:
		a, b := ev.valTermD(st, x.a, d+1), ev.valTermD(st, x.b, d+1)
		if a.Sort == b.Sort {
			return ite(x.c, a, b)
		}
	case TupleV:
		var a []*Term
		for _, f := range x {
			a = append(a, ev.valTermD(st, f, d+1))
		}
		return mk("tuple", "", SOther, nil, a...)
	case *FuncV:
		return mk("func", fmt.Sprint(x.fn), SOther, nil)
	case *ExtV:
		return mk("extobj", x.kind, SOther, nil)
	case *TopV:
		ev.note("unknown value: %s", x.why)
		return mk("top", x.why, SOther, nil)
	}
	ev.note("no term for %T", v)
	return mk("top", fmt.Sprintf("%T", v), SOther, nil)
}

// the slice's elements as a term arr(n, λx. element)
func (ev *Ev) arrTerm(st *State, s *SliceV) *Term {
	if s.obj == nil {
		return mk("arr", "", SOther, nil, I(0), bindMark(xs, I(0)))
	}
	b, ok := ev.elemUnder(st, s)
	if !ok {
		return mk("top", "array", SOther, nil)
	}
	return mkArr(s.len, xs, b)
}

func mkArr(n, v, b *Term) *Term { return mk("arr", "", SOther, nil, n, bindMark(v, b)) }

// element §x of the slice, simplified under 0 <= §x < len
func (ev *Ev) elemUnder(st *State, s *SliceV) (*Term, bool) {
	e := ev.elem(st, s, xs)
	t, ok := e.(*Term)
	if !ok {
		return nil, false
	}
	old, had := varBounds[xs]
	setBounds(xs, []*Term{I(0)}, []*Term{sub(s.len, I(1))})
	t = renorm(t)
	if had {
		varBounds[xs] = old
		proved = map[proofKey]bool{}
	} else {
		delete(varBounds, xs)
	}
	return t, true
}

// rebuild a term so that conditions decided by the current bounds fold
func renorm(t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.Args) == 0 || !hasCond(t) && len(findTerms(t, func(x *Term) bool { return x.Op == "min" })) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			args[i] = rec(a)
		}
		r := rebuild(t, args)
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---------- bytes

// contents of a byte slice as one piece, if its elements are the consecutive
// bytes of something
func (ev *Ev) sliceBytes(st *State, s *SliceV) *Term {
	if s.obj == nil {
		return nilBytes
	}
	a, ok := walk(st.get(s.obj), s.path).(*ArrL)
	if !ok {
		return nil
	}
	if b, ok := a.elem.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
		return nil
	}
	body, ok := ev.elemUnder(st, s)
	if !ok {
		return nil
	}
	return bytesFrom(body, s.len)
}

func bytesFrom(body, n *Term) *Term {
	if body.Op == "rdint" && body.Str == "1" {
		if k := sub(body.Args[1], xs); !contains(k, xs) {
			return mk("rdbytes", "", SBytes, nil, body.Args[0], k, n)
		}
	}
	if body.Op == "byteat" {
		if k := sub(body.Args[1], xs); !contains(k, xs) && !contains(body.Args[0], xs) {
			return bslice(body.Args[0], k, n)
		}
	}
	if k, ok := constI(n); ok && k <= 256 {
		var p []*Term
		for i := int64(0); i < k; i++ {
			p = append(p, byteOf(subst1(body, xs, I(i))))
		}
		return joinBytes(p)
	}
	return mk("bytesl", "", SBytes, nil, n, bindMark(xs, body))
}

// concatenation of single bytes, joining runs read from one place
func joinBytes(p []*Term) *Term {
	var out []*Term
	for i := 0; i < len(p); {
		x := p[i].Args[0]
		j := i + 1
		if x.Op == "rdint" && x.Str == "1" {
			for j < len(p) && p[j].Args[0].Op == "rdint" && p[j].Args[0].Str == "1" && p[j].Args[0].Args[0] == x.Args[0] &&
				p[j].Args[0].Args[1] == add(x.Args[1], I(int64(j-i))) {
				j++
			}
			if j-i > 2 {
				out = append(out, mk("rdbytes", "", SBytes, nil, x.Args[0], x.Args[1], I(int64(j-i))))
				i = j
				continue
			}
			j = i + 1
		}
		if x.Op == "byteat" {
			for j < len(p) && p[j].Args[0].Op == "byteat" && p[j].Args[0].Args[0] == x.Args[0] &&
				p[j].Args[0].Args[1] == add(x.Args[1], I(int64(j-i))) {
				j++
			}
			if j-i > 1 {
				out = append(out, bslice(x.Args[0], x.Args[1], I(int64(j-i))))
				i = j
				continue
			}
			j = i + 1
		}
		out = append(out, p[i])
		i = j
	}
	return cat(out...)
}

func (ev *Ev) bytesOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if x.Sort == SBytes {
			return x
		}
		if x.Sort == SStr {
			return mk("strbytes", "", SBytes, nil, x)
		}
	case *SliceV:
		if t := ev.sliceBytes(st, x); t != nil {
			return t
		}
		if n, ok := constI(x.len); ok && n <= 64 {
			var p []*Term
			for i := int64(0); i < n; i++ {
				t, ok := ev.elem(st, x, I(i)).(*Term)
				if !ok {
					return mk("top", "bytes", SBytes, nil)
				}
				p = append(p, byteOf(t))
			}
			return joinBytes(p)
		}
	case *IteV:
		return ite(x.c, ev.bytesOf(st, x.a), ev.bytesOf(st, x.b))
	case *IfaceV:
		if x.t != nil {
			return ev.bytesOf(st, x.v)
		}
	case *PtrV:
		return ev.bytesOf(st, st.load(x))
	case *ArrL:
		return mk("bytesl", "", SBytes, nil, bindMark(xs, x.body))
	case *ArrC:
		var p []*Term
		for _, e := range x.e {
			t, ok := e.(*Term)
			if !ok {
				return mk("top", "bytes", SBytes, nil)
			}
			p = append(p, byteOf(t))
		}
		return joinBytes(p)
	}
	ev.note("unknown bytes: %s", showVal(v))
	return mk("top", "bytes", SBytes, nil)
}

// a byte slice value whose contents are the given bytes
func (ev *Ev) thaw(st *State, t *Term) *SliceV {
	o := getObj(fmt.Sprintf("bytes:%d", t.ID), types.NewArray(types.Typ[types.Uint8], 0))
	if o.init == nil {
		o.init = &ArrL{types.Typ[types.Uint8], byteAt(t, xs)}
	}
	n := blen(t)
	return &SliceV{obj: o, off: I(0), len: n, cap: n}
}

// store bytes into a slice
func (ev *Ev) storeBytes(st *State, d Value, src *Term) {
	s, ok := d.(*SliceV)
	if !ok || s.obj == nil {
		if t, ok := d.(*Term); ok && t.Sort == SBytes {
			ev.note("bytes read into a shared slice")
		}
		return
	}
	a, ok := walk(st.get(s.obj), s.path).(*ArrL)
	if !ok {
		ev.note("bytes read into an unknown slice")
		return
	}
	v := byteAt(src, sub(xs, s.off))
	body := ite(and(le(s.off, xs), lt(xs, add(s.off, s.len))), v, a.body)
	st.store(&PtrV{s.obj, s.path}, &ArrL{a.elem, body})
}

// ---------- literals for fallible operations

func (ev *Ev) okLit(c *extCall, what string) *Term {
	l := mk("ok", what+"@"+c.key, SBool, nil, append([]*Term{}, ev.loopVars...)...)
	c.st.assume[l] = true
	return l
}

func (ev *Ev) errOf(c *extCall, what string) Value { return &ErrV{ev.okLit(c, what)} }

func (ev *Ev) event(c *extCall, kind string, args ...*Term) {
	g := map[*Term]bool{}
	for t := range c.st.guard {
		g[t] = true
	}
	e := Event{kind: kind, args: args, guard: g, fn: c.fr.fn.String()}
	if c.in != nil {
		e.pos = c.in.Pos()
	}
	ev.events = append(ev.events, e)
}

// ---------- files

func contentObj(path *Term) *Obj { return getObj(fmt.Sprintf("content:%d", path.ID), nil) }

func (ev *Ev) content(st *State, path *Term) *Term {
	if t, ok := st.heap[contentObj(path)].(*Term); ok {
		return t
	}
	return nil
}

// follow interfaces and pointers to a library object
func (ev *Ev) extPtr(st *State, v Value) (*PtrV, *ExtV) {
	for i := 0; i < 6; i++ {
		switch x := v.(type) {
		case *IfaceV:
			if x.t == nil {
				return nil, nil
			}
			v = x.v
		case *PtrV:
			if x.obj == nil {
				return nil, nil
			}
			w := st.load(x)
			switch y := w.(type) {
			case *ExtV:
				return x, y
			case *PtrV, *IfaceV:
				v = y
			default:
				return nil, nil
			}
		case *IteV:
			// one file opened at two places
			p, a := ev.extPtr(st, x.a)
			_, b := ev.extPtr(st, x.b)
			if a != nil && b != nil && a.kind == "file" && b.kind == "file" && a.f["path"] == b.f["path"] && a.f["mode"] == b.f["mode"] && a.f["mode"] == str("w") {
				return p, a
			}
			return nil, nil
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func (ev *Ev) newExt(c *extCall, kind string, f map[string]Value) *PtrV {
	o := getObj(c.key, nil)
	c.st.heap[o] = &ExtV{kind, f}
	return &PtrV{obj: o}
}

func aheadPos(key string) *Term { return mk("ahead", key, SInt, nil) }

// position of the next read through r, which is moved on by n (nil: unknown)
func (ev *Ev) take(c *extCall, r Value, n func(path, pos *Term) *Term) (path, pos *Term) {
	st := c.st
	p, x := ev.extPtr(st, r)
	if x == nil {
		ev.note("read from an unknown reader at %s", ev.p.pos(c.in.Pos()))
		return mk("top", "reader", SStr, nil), mk("top", "pos@"+c.key, SInt, nil)
	}
	switch x.kind {
	case "file":
		path, pos = x.f["path"].(*Term), ev.intT(x.f["pos"])
		st.store(p, x.with("pos", add(pos, n(path, pos))))
		if x.f["mode"].(*Term) == str("w") {
			ev.event(c, "read of output", path)
		}
		return
	case "bufr":
		src, ok := x.f["src"].(*PtrV)
		if !ok {
			break
		}
		fp, f := ev.extPtr(st, src)
		if f == nil || f.kind != "file" {
			return ev.take(c, src, n)
		}
		path = x.f["path"].(*Term)
		fresh := x.f["fresh"].(*Term)
		pos = ite(fresh, ev.intT(f.f["pos"]), ev.intT(x.f["pos"]))
		st.store(p, x.with("pos", add(pos, n(path, pos))).with("fresh", TFalse))
		st.store(fp, f.with("pos", ite(fresh, aheadPos(fp.obj.key), ev.intT(f.f["pos"]))))
		return
	case "dec":
		return ev.take(c, x.f["r"], n)
	case "hash", "bytesbuf":
	}
	ev.note("read from %s", x.kind)
	return mk("top", "reader", SStr, nil), mk("top", "pos@"+c.key, SInt, nil)
}

// append a write to where w leads
func (ev *Ev) put(c *extCall, w Value, item *Term) {
	st := c.st
	if it, ok := w.(*IteV); ok {
		if p, x := ev.extPtr(st, w); x != nil {
			w = p
		} else {
			cond := st.cond(it.c)
			ev.put(c, it.a, mkWite(cond, wl(item), wl()))
			ev.put(c, it.b, mkWite(cond, wl(), wl(item)))
			return
		}
	}
	p, x := ev.extPtr(st, w)
	if x == nil {
		ev.note("write to an unknown writer at %s", ev.p.pos(c.in.Pos()))
		if i, ok := w.(*IfaceV); ok && i.t != nil && i.t.String() == "*os.File" {
			ev.event(c, "print", item)
		} else if len(leaks(item)) > 0 {
			ev.event(c, "unmodelled", item)
		}
		return
	}
	switch x.kind {
	case "file":
		path := x.f["path"].(*Term)
		o := contentObj(path)
		old, ok := st.heap[o].(*Term)
		if !ok {
			old = wl(mk("oldcontent", "", SOther, nil, path))
		}
		if x.f["mode"].(*Term) == str("r") {
			ev.event(c, "write to input", path)
		}
		st.heap[o] = wl(old, item)
	case "bufw":
		ev.bufW[p.obj.key] = append(ev.bufW[p.obj.key], c.key)
		st.store(p, x.with("pend", wl(x.f["pend"].(*Term), item)))
	case "hash", "bytesbuf":
		st.store(p, x.with("data", wl(x.f["data"].(*Term), item)))
	case "multi":
		for _, k := range x.keys() {
			ev.put(c, x.f[k], item)
		}
	case "discard":
	case "std":
		ev.event(c, "print", item)
	default:
		ev.note("write to %s", x.kind)
	}
}

func constN(n *Term) func(path, pos *Term) *Term { return func(_, _ *Term) *Term { return n } }

// ---------- helpers on arguments

func (c *extCall) ptr(i int) Value { return c.args[i] }

func (ev *Ev) ld(c *extCall, i int, so Sort) *Term {
	v := c.args[i]
	switch v.(type) {
	case *PtrV, *IteV:
		v = c.st.load(v)
	}
	return ev.termOf(ev.simp(c.st, v), so)
}

func (ev *Ev) grp(c *extCall, i int) *Term { return ev.ld(c, i, SGrp) }
func (ev *Ev) fld(c *extCall, i int) *Term { return ev.ld(c, i, SField) }

// store through the receiver, which is also the result
func (ev *Ev) ret(c *extCall, v *Term) (Value, *State) {
	c.st.store(c.args[0], v)
	return c.args[0], c.st
}

func (ev *Ev) fresh(c *extCall, what string, so Sort) *Term {
	return mk(what, c.key, so, nil, append([]*Term{}, ev.loopVars...)...)
}

// the elements of a variadic argument
func (ev *Ev) variadic(st *State, v Value) []Value {
	s, ok := v.(*SliceV)
	if !ok || s.obj == nil {
		return nil
	}
	n, ok := constI(s.len)
	if !ok {
		return nil
	}
	var r []Value
	for i := int64(0); i < n; i++ {
		r = append(r, ev.elem(st, s, I(i)))
	}
	return r
}

func (ev *Ev) optKinds(c *extCall, i int) (raw, nosub bool) {
	if i >= len(c.args) {
		return
	}
	for _, o := range ev.variadic(c.st, c.args[i]) {
		if x, ok := o.(*ExtV); ok {
			switch x.kind {
			case "rawopt":
				raw = true
			case "nosubopt":
				nosub = true
			}
		} else {
			ev.note("unknown coder option")
		}
	}
	return
}

func flatAffine(t types.Type) string { // "1", "2" or ""
	switch typeName(t) {
	case gc + "ecc/bn254.G1Affine":
		return "1"
	case gc + "ecc/bn254.G2Affine":
		return "2"
	}
	return ""
}

// ---------- encoder and decoder

func (ev *Ev) encode(c *extCall, w Value, raw bool, v Value) {
	i, ok := v.(*IfaceV)
	if !ok || i.t == nil {
		ev.note("encoding of an unknown value")
		ev.put(c, w, wItem("top"))
		return
	}
	ev.put(c, w, ev.encItem(c.st, i.t, i.v, raw))
}

func (ev *Ev) encItem(st *State, t types.Type, v Value, raw bool) *Term {
	sfx := "c"
	if raw {
		sfx = "r"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return ev.encItem(st, p.Elem(), ev.simp(st, st.load(v)), raw)
	}
	if g := flatAffine(t); g != "" {
		return wItem("G"+g+sfx, ev.termOf(v, SGrp))
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		k := ""
		if g := flatAffine(u.Elem()); g != "" {
			k = "G" + g + "s" + sfx
		} else if typeName(u.Elem()) == gc+"ecc/bn254/fr.Element" {
			k = "frs"
		} else if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			k = "bools"
		} else {
			k = "slice:" + typeName(u.Elem())
		}
		return mapIteTerm(v, func(v Value) *Term {
			s, ok := v.(*SliceV)
			if !ok {
				ev.note("encoding of an unknown slice (%s)", showVal(v))
				return wItem("top")
			}
			if s.obj == nil {
				return wItem(k, I(0), bindMark(xs, I(0)))
			}
			b, ok := ev.elemUnder(st, s)
			if !ok {
				ev.note("encoding of an unknown slice")
				return wItem("top")
			}
			return wItem(k, s.len, bindMark(xs, b))
		})
	case *types.Basic:
		switch u.Kind() {
		case types.Uint64, types.Int64, types.Uint, types.Int:
			return wItem("be8", ev.termOf(v, SInt))
		case types.Uint32, types.Int32:
			return wItem("be4", ev.termOf(v, SInt))
		case types.Uint16, types.Int16:
			return wbytes(mk("be2", "", SBytes, nil, ev.termOf(v, SInt)))
		case types.Uint8:
			return wbytes(byteOf(ev.termOf(v, SInt)))
		}
	}
	if s, ok := atomSort(t); ok && s == SField {
		return wItem("fr", ev.termOf(v, SField))
	}
	return wItem("val", ev.valTerm(st, v))
}

func mapIteTerm(v Value, f func(Value) *Term) *Term {
	if i, ok := v.(*IteV); ok {
		a, b := mapIteTerm(i.a, f), mapIteTerm(i.b, f)
		return mkWite(i.c, a, b)
	}
	return f(v)
}

func rdSize(kind string, raw bool) *Term {
	n := int64(32)
	if kind == "2" {
		n = 64
	}
	if raw {
		n *= 2
	}
	return I(n)
}

func (ev *Ev) decode(c *extCall, r Value, v Value) {
	i, ok := v.(*IfaceV)
	if !ok || i.t == nil {
		ev.note("decoding of an unknown value")
		return
	}
	p, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		ev.note("decoding into a non-pointer")
		return
	}
	t := p.Elem()
	st := c.st
	isRaw := func(path *Term) bool { return ev.rawPaths[path] }
	if g := flatAffine(t); g != "" {
		path, pos := ev.take(c, r, func(path, pos *Term) *Term { return rdSize(g, isRaw(path)) })
		st.store(i.v, ev.fileGrp(st, g, path, pos))
		return
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if g := flatAffine(sl.Elem()); g != "" {
			var n, el *Term
			ev.take(c, r, func(path, pos *Term) *Term {
				n, el = ev.fileSlice(st, g, path, pos)
				return add(I(4), mul(rdSize(g, isRaw(path)), n))
			})
			o := getObj(c.key+"+dec", types.NewArray(sl.Elem(), 0))
			st.heap[o] = &ArrL{sl.Elem(), el}
			st.store(i.v, &SliceV{obj: o, off: I(0), len: n, cap: n})
			return
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		sz := int64(8)
		switch b.Kind() {
		case types.Uint32, types.Int32:
			sz = 4
		case types.Uint16, types.Int16:
			sz = 2
		case types.Uint8:
			sz = 1
		}
		path, pos := ev.take(c, r, constN(I(sz)))
		st.store(i.v, mk("rdint", fmt.Sprint(sz), SInt, nil, path, pos))
		return
	}
	if s, ok := atomSort(t); ok && s == SField {
		path, pos := ev.take(c, r, constN(I(32)))
		st.store(i.v, mk("rdfr", "", SField, nil, path, pos))
		return
	}
	ev.note("decoding of %s", t)
	st.store(i.v, opaque(t, c.key))
}

// a point read from a file; if the file was written earlier by the same
// operation, what was written there
func (ev *Ev) fileGrp(st *State, g string, path, pos *Term) *Term {
	if w := ev.content(st, path); w != nil {
		if it, ok := itemAt(w, pos); ok && it.Op == "w" && it.Str == "G"+g+"c" {
			return it.Args[0]
		}
	}
	return mk("rdG"+g, "", SGrp, nil, path, pos)
}

// configured lengths of the slices at given places of a file
type slenCfg struct {
	path *Term
	f    func(pos *Term) *Term
}

var slenCfgs []slenCfg

func (ev *Ev) fileSlice(st *State, g string, path, pos *Term) (n, el *Term) {
	if w := ev.content(st, path); w != nil {
		if it, ok := itemAt(w, pos); ok && it.Op == "w" && it.Str == "G"+g+"sc" {
			return it.Args[0], applyLam(it.Args[1], xs)
		}
	}
	for _, c := range slenCfgs {
		if c.path == path {
			if n := c.f(pos); n != nil {
				return n, mk("rdG"+g, "", SGrp, nil, path, add(pos, I(4), mul(xs, rdSize(g, ev.rawPaths[path]))))
			}
		}
	}
	return mk("slen", "", SInt, nil, path, pos), mk("rdG"+g, "", SGrp, nil, path, add(pos, I(4), mul(xs, rdSize(g, ev.rawPaths[path]))))
}

// size in bytes of a write
func itemSize(t *Term) *Term {
	switch t.Op {
	case "wb":
		return blen(t.Args[0])
	case "w":
		switch t.Str {
		case "G1c", "G1r", "G2c", "G2r":
			return rdSize(t.Str[1:2], t.Str[2] == 'r')
		case "G1sc", "G1sr", "G2sc", "G2sr":
			return add(I(4), mul(t.Args[0], rdSize(t.Str[1:2], t.Str[3] == 'r')))
		case "be8":
			return I(8)
		case "be4":
			return I(4)
		case "fr":
			return I(32)
		}
	case "wloop":
		if b := t.Args[1].Args[0]; b.Op == "wl" {
			s := I(0)
			for _, x := range b.Args {
				z := itemSize(x)
				if z == nil || z.fbv != 0 {
					return nil
				}
				s = add(s, z)
			}
			return mul(s, t.Args[0])
		}
	}
	return nil
}

// the write at byte offset pos of a file's contents
func itemAt(w, pos *Term) (*Term, bool) {
	off := I(0)
	for _, it := range items(w) {
		if off == pos {
			return it, true
		}
		sz := itemSize(it)
		if sz == nil {
			return nil, false
		}
		off = add(off, sz)
	}
	return nil, false
}
