package main

// Abstract values and memory.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type Value interface{}

type StructV struct {
	t types.Type
	f []Value
}

// array with explicitly known elements
type ArrC struct {
	elem types.Type
	e    []Value
}

// array of scalars given pointwise: element x is body with §x := x
type ArrL struct {
	elem types.Type
	body *Term
}

// array of structures given by name: element x is the symbolic value sel(name,x)
type ArrS struct {
	elem types.Type
	name *Term
}

type PE struct {
	field int
	idx   *Term // index, or nil
	coord string
}
type PtrV struct {
	obj  *Obj // nil: the nil pointer
	path []PE
}
type SliceV struct {
	obj           *Obj // nil: the nil slice
	path          []PE
	off, len, cap *Term
}
type IfaceV struct { // nil interface: t == nil
	t types.Type
	v Value
}
type FuncV struct {
	fn   interface{} // *ssa.Function or *ssa.Builtin; nil for nil func
	bind []Value
}
type ErrV struct{ ok *Term } // error, nil iff ok
type IteV struct {
	c    *Term
	a, b Value
}
type SymV struct { // value of type t known only by name
	t    types.Type
	name *Term
}
type TupleV []Value
type ExtV struct { // library object
	kind string
	f    map[string]Value
}
type TopV struct{ why string }

type Obj struct {
	id   int
	key  string
	typ  types.Type
	init Value
}

var objTab = map[string]*Obj{}

func getObj(key string, typ types.Type) *Obj {
	if o, ok := objTab[key]; ok {
		return o
	}
	o := &Obj{id: len(objTab) + 1, key: key, typ: typ}
	objTab[key] = o
	return o
}

var xs = sym("§x", SInt)

// ---------- types

var errType = types.Universe.Lookup("error").Type()

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return t.String()
}

const gc = "github.com/consensys/gnark-crypto/"

func atomSort(t types.Type) (Sort, bool) {
	switch typeName(t) {
	case gc + "ecc/bn254.G1Affine", gc + "ecc/bn254.G1Jac", gc + "ecc/bn254.G2Affine", gc + "ecc/bn254.G2Jac":
		return SGrp, true
	case gc + "ecc/bn254/fr.Element", "math/big.Int":
		return SField, true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return SBool, true
		case b.Info()&(types.IsInteger|types.IsFloat) != 0:
			return SInt, true
		case b.Info()&types.IsString != 0:
			return SStr, true
		}
	}
	return 0, false
}

func isGrp(t types.Type) bool { s, ok := atomSort(t); return ok && s == SGrp }

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return I(0)
	case SBool:
		return TFalse
	case SField:
		return F(0)
	case SGrp:
		return G0
	case SStr:
		return str("")
	}
	return mk("zero", "", s, nil)
}

func zeroVal(t types.Type) Value {
	if s, ok := atomSort(t); ok {
		return zeroTerm(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if t.String() == "bytes.Buffer" || t.String() == "strings.Builder" {
			return &ExtV{"bytesbuf", map[string]Value{"data": wl()}}
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return &StructV{t, f}
	case *types.Array:
		return newArray(u.Elem(), I(u.Len()))
	case *types.Pointer, *types.Chan, *types.Map:
		return &PtrV{}
	case *types.Slice:
		return &SliceV{off: I(0), len: I(0), cap: I(0)}
	case *types.Interface:
		if types.Identical(t, errType) {
			return &ErrV{TTrue}
		}
		return &IfaceV{}
	case *types.Signature:
		return &FuncV{}
	case *types.Tuple:
		var r TupleV
		for i := 0; i < u.Len(); i++ {
			r = append(r, zeroVal(u.At(i).Type()))
		}
		return r
	}
	return &TopV{"zero of " + t.String()}
}

func newArray(elem types.Type, n *Term) Value {
	if s, ok := atomSort(elem); ok && (theTracer == nil || s != SGrp && s != SField) {
		return &ArrL{elem, zeroTerm(s)}
	}
	if c, ok := constI(n); isErr(elem) && (!ok || c > 256) {
		return &ArrL{elem, TTrue}
	}
	if c, ok := constI(n); ok && c <= 256 {
		a := &ArrC{elem: elem}
		for i := int64(0); i < c; i++ {
			a.e = append(a.e, zeroVal(elem))
		}
		return a
	}
	return &TopV{"array of " + elem.String()}
}

// the value of type t named by n
func symVal(t types.Type, n *Term) Value {
	if s, ok := atomSort(t); ok {
		if n.Sort == s {
			return n
		}
		return mk("as", "", s, nil, n)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return &SymV{t, n}
	case *types.Slice:
		o := getObj(fmt.Sprintf("sym:%d", n.ID), types.NewArray(u.Elem(), 1))
		if o.init == nil {
			o.init = symArr(u.Elem(), n)
		}
		l := mk("len", "", SInt, nil, n)
		if n.Op == "privCommitted" {
			l = fieldOf("NbPrivateCommitted", SInt, n.Args[0])
		}
		return &SliceV{obj: o, off: I(0), len: l, cap: l}
	case *types.Array:
		return symArr(u.Elem(), n)
	case *types.Pointer:
		o := getObj(fmt.Sprintf("sym:%d", n.ID), u.Elem())
		if o.init == nil {
			o.init = symVal(u.Elem(), n)
		}
		return &PtrV{obj: o}
	}
	return &TopV{"symbolic " + t.String()}
}
func symArr(elem types.Type, n *Term) Value {
	if s, ok := atomSort(elem); ok {
		return &ArrL{elem, mkSel(s, n, xs)}
	}
	return &ArrS{elem, n}
}

func symField(s *SymV, i int) Value {
	st := s.t.Underlying().(*types.Struct)
	f := st.Field(i)
	so := SOther
	if ss, ok := atomSort(f.Type()); ok {
		so = ss
	}
	if f.Embedded() {
		return symVal(f.Type(), s.name) // its fields are promoted
	}
	return symVal(f.Type(), fieldOf(f.Name(), so, s.name))
}

func expandSym(s *SymV) *StructV {
	st := s.t.Underlying().(*types.Struct)
	r := &StructV{t: s.t}
	for i := 0; i < st.NumFields(); i++ {
		r.f = append(r.f, symField(s, i))
	}
	return r
}

// ---------- structural operations

func mapTerms(v Value, f func(*Term) *Term) Value {
	switch v := v.(type) {
	case *Term:
		return f(v)
	case *StructV:
		r := &StructV{t: v.t, f: make([]Value, len(v.f))}
		for i, x := range v.f {
			r.f[i] = mapTerms(x, f)
		}
		return r
	case *ArrC:
		r := &ArrC{elem: v.elem, e: make([]Value, len(v.e))}
		for i, x := range v.e {
			r.e[i] = mapTerms(x, f)
		}
		return r
	case *ArrL:
		return &ArrL{v.elem, f(v.body)}
	case *ArrS:
		return &ArrS{v.elem, f(v.name)}
	case *PtrV:
		if len(v.path) == 0 {
			return v
		}
		return &PtrV{v.obj, mapPath(v.path, f)}
	case *SliceV:
		return &SliceV{v.obj, mapPath(v.path, f), f(v.off), f(v.len), f(v.cap)}
	case *IfaceV:
		if v.t == nil {
			return v
		}
		return &IfaceV{v.t, mapTerms(v.v, f)}
	case *FuncV:
		r := &FuncV{fn: v.fn}
		for _, b := range v.bind {
			r.bind = append(r.bind, mapTerms(b, f))
		}
		return r
	case *ErrV:
		return &ErrV{f(v.ok)}
	case *IteV:
		return valIte(f(v.c), mapTerms(v.a, f), mapTerms(v.b, f))
	case *SymV:
		return &SymV{v.t, f(v.name)}
	case TupleV:
		var r TupleV
		for _, x := range v {
			r = append(r, mapTerms(x, f))
		}
		return r
	case *ExtV:
		r := &ExtV{v.kind, map[string]Value{}}
		for _, k := range v.keys() {
			r.f[k] = mapTerms(v.f[k], f)
		}
		return r
	}
	return v
}
func (v *ExtV) keys() []string {
	var ks []string
	for k := range v.f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
func (v *ExtV) with(k string, x Value) *ExtV {
	r := &ExtV{v.kind, map[string]Value{}}
	for n, y := range v.f {
		r.f[n] = y
	}
	r.f[k] = x
	return r
}
func mapPath(p []PE, f func(*Term) *Term) []PE {
	var r []PE
	for _, e := range p {
		if e.idx != nil {
			e.idx = f(e.idx)
		}
		r = append(r, e)
	}
	return r
}

func pathEq(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func valEq(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			if s, ok := b.(*SymV); ok {
				y = expandSym(s)
			} else {
				return false
			}
		}
		for i := range x.f {
			if !valEq(x.f[i], y.f[i]) {
				return false
			}
		}
		return true
	case *ArrC:
		y, ok := b.(*ArrC)
		if !ok || len(x.e) != len(y.e) {
			return false
		}
		for i := range x.e {
			if !valEq(x.e[i], y.e[i]) {
				return false
			}
		}
		return true
	case *ArrL:
		y, ok := b.(*ArrL)
		return ok && x.body == y.body
	case *ArrS:
		y, ok := b.(*ArrS)
		return ok && x.name == y.name
	case *PtrV:
		y, ok := b.(*PtrV)
		return ok && x.obj == y.obj && pathEq(x.path, y.path)
	case *SliceV:
		y, ok := b.(*SliceV)
		return ok && x.obj == y.obj && pathEq(x.path, y.path) && x.off == y.off && x.len == y.len
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || types.Identical(x.t, y.t) && valEq(x.v, y.v)
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.bind) != len(y.bind) {
			return false
		}
		for i := range x.bind {
			if !valEq(x.bind[i], y.bind[i]) {
				return false
			}
		}
		return true
	case *ErrV:
		y, ok := b.(*ErrV)
		return ok && x.ok == y.ok
	case *IteV:
		y, ok := b.(*IteV)
		return ok && x.c == y.c && valEq(x.a, y.a) && valEq(x.b, y.b)
	case *SymV:
		if s, ok := b.(*StructV); ok {
			return valEq(s, x)
		}
		y, ok := b.(*SymV)
		return ok && x.name == y.name
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !valEq(x[i], y[i]) {
				return false
			}
		}
		return true
	case *ExtV:
		y, ok := b.(*ExtV)
		if !ok || x.kind != y.kind || len(x.f) != len(y.f) {
			return false
		}
		for k := range x.f {
			if !valEq(x.f[k], y.f[k]) {
				return false
			}
		}
		return true
	case *TopV:
		_, ok := b.(*TopV)
		return ok
	}
	return a == nil && b == nil
}

func valIte(c *Term, a, b Value) Value {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if valEq(a, b) {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.Sort == y.Sort {
			return ite(c, x, y)
		}
		if sl, ok := b.(*SliceV); ok && x.Sort == SBytes && sl.obj == nil {
			return ite(c, x, nilBytes)
		}
	case *StructV:
		y, ok := b.(*StructV)
		if s, ok2 := b.(*SymV); ok2 {
			y, ok = expandSym(s), true
		}
		if ok {
			r := &StructV{t: x.t, f: make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = valIte(c, x.f[i], y.f[i])
			}
			return r
		}
	case *SymV:
		if y, ok := b.(*StructV); ok {
			return valIte(c, expandSym(x), y)
		}
		if y, ok := b.(*SymV); ok {
			return valIte(c, expandSym(x), expandSym(y))
		}
	case *ArrC:
		if y, ok := b.(*ArrC); ok && len(x.e) == len(y.e) {
			r := &ArrC{elem: x.elem, e: make([]Value, len(x.e))}
			for i := range x.e {
				r.e[i] = valIte(c, x.e[i], y.e[i])
			}
			return r
		}
	case *ArrL:
		if y, ok := b.(*ArrL); ok {
			return &ArrL{x.elem, ite(c, x.body, y.body)}
		}
	case *ErrV:
		if y, ok := b.(*ErrV); ok {
			return &ErrV{ite(c, x.ok, y.ok)}
		}
	case *ExtV:
		if y, ok := b.(*ExtV); ok && x.kind == y.kind && len(x.f) == len(y.f) {
			r := &ExtV{x.kind, map[string]Value{}}
			for _, k := range x.keys() {
				v := x.f[k]
				w, ok := y.f[k]
				if !ok {
					return &TopV{"merge of different " + x.kind}
				}
				r.f[k] = valIte(c, v, w)
			}
			return r
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok && x.obj != nil && x.obj == y.obj && pathEq(x.path, y.path) {
			return &SliceV{x.obj, x.path, ite(c, x.off, y.off), ite(c, x.len, y.len), ite(c, x.cap, y.cap)}
		}
		if y, ok := b.(*Term); ok && y.Sort == SBytes && x.obj == nil {
			return ite(c, nilBytes, y)
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok && x.obj != nil && x.obj == y.obj && len(x.path) == len(y.path) {
			r := &PtrV{obj: x.obj}
			same := true
			for i := range x.path {
				p, q := x.path[i], y.path[i]
				if p.idx != nil && q.idx != nil {
					r.path = append(r.path, PE{idx: ite(c, p.idx, q.idx)})
				} else if p == q {
					r.path = append(r.path, p)
				} else {
					same = false
				}
			}
			if same {
				return r
			}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			return &IfaceV{x.t, valIte(c, x.v, y.v)}
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			var r TupleV
			for i := range x {
				r = append(r, valIte(c, x[i], y[i]))
			}
			return r
		}
	case *TopV:
		return x
	}
	if t, ok := b.(*TopV); ok {
		return t
	}
	switch a.(type) {
	case *PtrV, *IfaceV:
		iteConds[c] = true
	}
	return &IteV{c, a, b}
}

// conditions that choose between two objects, and the ones assumed in the case
// looked at
var (
	iteConds = map[*Term]bool{}
	assumed  []*Term
)

func mapIte(v Value, f func(Value) Value) Value {
	if i, ok := v.(*IteV); ok {
		return valIte(i.c, mapIte(i.a, f), mapIte(i.b, f))
	}
	return f(v)
}

func valContains(v Value, f func(*Term) bool) bool {
	r := false
	mapTerms(v, func(t *Term) *Term {
		if !r && len(findTerms(t, f)) > 0 {
			r = true
		}
		return t
	})
	return r
}

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return v.String()
	case *StructV:
		var s []string
		for _, x := range v.f {
			s = append(s, showVal(x))
		}
		return "{" + strings.Join(s, "; ") + "}"
	case *ArrC:
		var s []string
		for _, x := range v.e {
			s = append(s, showVal(x))
		}
		return "[" + strings.Join(s, "; ") + "]"
	case *ArrL:
		return "[x ↦ " + v.body.String() + "]"
	case *ArrS:
		return "[" + v.name.String() + "]"
	case *PtrV:
		if v.obj == nil {
			return "nil"
		}
		s := "&" + v.obj.key
		for _, e := range v.path {
			if e.idx != nil {
				s += "[" + e.idx.String() + "]"
			} else if e.coord != "" {
				s += "." + e.coord
			} else {
				s += fmt.Sprintf(".%d", e.field)
			}
		}
		return s
	case *SliceV:
		if v.obj == nil {
			return "nil[]"
		}
		return fmt.Sprintf("slice(%s,%s,%s)", v.obj.key, v.off, v.len)
	case *IfaceV:
		if v.t == nil {
			return "nil"
		}
		return "iface(" + showVal(v.v) + ")"
	case *FuncV:
		return fmt.Sprintf("func(%v)", v.fn)
	case *ErrV:
		return "err(ok=" + v.ok.String() + ")"
	case *IteV:
		return "(" + v.c.String() + " ? " + showVal(v.a) + " : " + showVal(v.b) + ")"
	case *SymV:
		return v.name.String()
	case TupleV:
		var s []string
		for _, x := range v {
			s = append(s, showVal(x))
		}
		return "(" + strings.Join(s, ", ") + ")"
	case *ExtV:
		var s []string
		for k, x := range v.f {
			s = append(s, k+"="+showVal(x))
		}
		return v.kind + "{" + strings.Join(s, " ") + "}"
	case *TopV:
		return "⊤(" + v.why + ")"
	}
	return fmt.Sprintf("%T", v)
}

// ---------- state

type deferRec struct {
	call  interface{} // *ssa.Defer
	fn    Value
	args  []Value
	fnKey string
}

type State struct {
	heap   map[*Obj]Value
	guard  map[*Term]bool
	assume map[*Term]bool
	poison *Term
	defers []deferRec
}

func newState() *State {
	return &State{heap: map[*Obj]Value{}, guard: map[*Term]bool{}, assume: map[*Term]bool{}, poison: TFalse}
}
func (s *State) clone() *State {
	n := &State{heap: make(map[*Obj]Value, len(s.heap)), guard: make(map[*Term]bool, len(s.guard)), assume: make(map[*Term]bool, len(s.assume)), poison: s.poison, defers: s.defers}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k := range s.guard {
		n.guard[k] = true
	}
	for k := range s.assume {
		n.assume[k] = true
	}
	return n
}

// add a literal to the path condition
func (s *State) add(t *Term) {
	switch t.Op {
	case "true":
		return
	case "and":
		for _, x := range t.Args {
			s.add(x)
		}
		return
	case "box":
		delete(s.assume, t)
		s.add(t.Args[0])
		return
	case "not":
		if o := t.Args[0].Op; o == "box" || o == "ok" {
			s.poison = TTrue
		}
	}
	delete(s.assume, t)
	s.guard[t] = true
	if s.poison != TFalse && s.poison != TTrue {
		s.poison = underLits(s.poison, map[*Term]bool{t: true})
	}
}

func (s *State) cond(t *Term) *Term { return underLits(t, s.guard) }

func lits(m map[*Term]bool) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sortTerms(r)
	return r
}

func sortTerms(r []*Term) { sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID }) }

func diffLits(a, b map[*Term]bool) []*Term {
	var r []*Term
	for t := range a {
		if !b[t] {
			r = append(r, t)
		}
	}
	sortTerms(r)
	return r
}

func (s *State) objs() []*Obj {
	var r []*Obj
	for o := range s.heap {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (s *State) get(o *Obj) Value {
	if v, ok := s.heap[o]; ok {
		return v
	}
	if o.init != nil {
		return o.init
	}
	return &TopV{"uninitialised " + o.key}
}

func walk(v Value, path []PE) Value {
	for n, e := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.f[e.field]
		case *SymV:
			v = symField(x, e.field)
		case *ArrC:
			i, ok := constI(e.idx)
			if !ok {
				rest := path[n+1:]
				var r Value
				for j := len(x.e) - 1; j >= 0; j-- {
					w := walk(x.e[j], rest)
					if r == nil {
						r = w
					} else {
						r = valIte(eqInt(e.idx, I(int64(j))), w, r)
					}
				}
				return r
			}
			if i < 0 || i >= int64(len(x.e)) {
				return &TopV{"index out of range"}
			}
			v = x.e[i]
		case *ArrL:
			v = subst1(x.body, xs, e.idx)
			if isErr(x.elem) {
				v = &ErrV{v.(*Term)}
			}
		case *ArrS:
			v = symVal(x.elem, mk("sel", "", SOther, nil, x.name, e.idx))
		case *IteV:
			return valIte(x.c, walk(x.a, path[n:]), walk(x.b, path[n:]))
		case *Term:
			if e.coord != "" {
				return mk("coord", e.coord, SOther, nil, x)
			}
			if x.Sort == SField && e.idx != nil {
				return mk("limb", "", SInt, nil, x, e.idx)
			}
			return &TopV{"field of scalar"}
		case *TopV:
			return x
		default:
			return &TopV{fmt.Sprintf("walk %T", v)}
		}
	}
	return v
}

func update(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch x := v.(type) {
	case *StructV:
		r := &StructV{t: x.t, f: append([]Value{}, x.f...)}
		r.f[e.field] = update(x.f[e.field], path[1:], nv)
		return r
	case *SymV:
		return update(expandSym(x), path, nv)
	case *ArrC:
		r := &ArrC{elem: x.elem, e: append([]Value{}, x.e...)}
		i, ok := constI(e.idx)
		if !ok {
			for j := range r.e {
				r.e[j] = valIte(eqInt(e.idx, I(int64(j))), update(r.e[j], path[1:], nv), r.e[j])
			}
			return r
		}
		if i < 0 || i >= int64(len(x.e)) {
			return &TopV{"index out of range"}
		}
		r.e[i] = update(x.e[i], path[1:], nv)
		return r
	case *ArrL:
		t, ok := nv.(*Term)
		if e, isE := nv.(*ErrV); isE && isErr(x.elem) {
			t, ok = e.ok, true
		}
		if !ok {
			return &TopV{"store of non-scalar"}
		}
		return &ArrL{x.elem, writeAt(x.body, e.idx, t)}
	case *IteV:
		return valIte(x.c, update(x.a, path, nv), update(x.b, path, nv))
	case *TopV:
		return x
	}
	return &TopV{fmt.Sprintf("update %T", v)}
}

// pointwise array with element idx replaced by v
func writeAt(body, idx, v *Term) *Term {
	old := subst1(body, xs, idx)
	if v == old {
		return body
	}
	if v.Sort == SGrp || v.Sort == SField {
		// accumulation: keep it additive
		var d *Term
		if v.Sort == SGrp {
			d = gAdd(v, gNeg(old))
		} else {
			d = fAdd(v, fNeg(old))
		}
		if old != zeroTerm(v.Sort) && simplerThan(d, old) {
			z := ite(eqInt(xs, idx), d, zeroTerm(v.Sort))
			if v.Sort == SGrp {
				return gAdd(body, z)
			}
			return fAdd(body, z)
		}
	}
	return ite(eqInt(xs, idx), v, body)
}

// d doesn't mention any of the atoms making up old
func simplerThan(d, old *Term) bool {
	atoms := map[*Term]bool{}
	for _, e := range grpOf(old) {
		if old.Sort == SGrp {
			atoms[e.b] = true
		}
	}
	if old.Sort == SField {
		for _, m := range fldOf(old).m {
			for _, v := range m.v {
				atoms[v.a] = true
			}
		}
	}
	return len(findTerms(d, func(t *Term) bool { return atoms[t] })) == 0
}

func (s *State) load(p Value) Value {
	if tr := theTracer; tr != nil && tr.inExt {
		tr.access(p, false, tr.extPos)
	}
	return s.loadRaw(p)
}

func (s *State) loadRaw(p Value) Value {
	switch p := p.(type) {
	case *PtrV:
		if p.obj == nil {
			return &TopV{"nil dereference"}
		}
		return walk(s.get(p.obj), p.path)
	case *IteV:
		return valIte(p.c, s.loadRaw(p.a), s.loadRaw(p.b))
	}
	return &TopV{"load through unknown pointer"}
}

func (s *State) store(p Value, v Value) {
	if tr := theTracer; tr != nil && tr.inExt {
		tr.access(p, true, tr.extPos)
	}
	s.storeRaw(p, v)
}

// stores to unknown targets so far
var clobbers int

func (s *State) storeRaw(p Value, v Value) {
	switch p := p.(type) {
	case *PtrV:
		if p.obj == nil {
			return
		}
		s.heap[p.obj] = update(s.get(p.obj), p.path, v)
		return
	case *IteV:
		s.storeRaw(p.a, valIte(p.c, v, s.loadRaw(p.a)))
		s.storeRaw(p.b, valIte(p.c, s.loadRaw(p.b), v))
		return
	}
	// unknown target: anything may have changed
	clobbers++
	for o := range s.heap {
		s.heap[o] = &TopV{"store through unknown pointer"}
	}
}

// merge two states reached under different conditions; returns the condition
// under which the merged state is the first one
// an error whose outcome the state has decided
func settle(v Value, st *State) Value {
	if e, ok := v.(*ErrV); ok && e.ok != TTrue && e.ok != TFalse {
		if c := st.cond(e.ok); c == TFalse || c == TTrue {
			return &ErrV{c}
		}
	}
	return v
}

func mergeStates(a, b *State) (*State, *Term) {
	ra, rb := diffLits(a.guard, b.guard), diffLits(b.guard, a.guard)
	var c *Term
	inB := map[*Term]bool{}
	for _, t := range rb {
		inB[t] = true
	}
	for _, t := range ra {
		if inB[not(t)] && (c == nil || t.ID < c.ID) {
			c = t
		}
	}
	if c == nil && b.poison == TTrue && a.poison != TTrue {
		c = mkBox(and(ra...))
	}
	if c == nil && a.poison == TTrue && b.poison != TTrue {
		c = not(mkBox(and(rb...)))
	}
	if c == nil {
		// the branches may be nested: or-literals
		if len(ra) > 0 && (len(rb) == 0 || len(ra) <= len(rb)) {
			c = and(ra...)
		} else if len(rb) > 0 {
			c = not(and(rb...))
		} else {
			c = mk("either", "", SBool, nil)
		}
	}
	m := &State{heap: map[*Obj]Value{}, guard: map[*Term]bool{}, assume: map[*Term]bool{}}
	for t := range a.guard {
		if b.guard[t] {
			m.guard[t] = true
		}
	}
	m.poison = ite(c, a.poison, b.poison)
	if a.poison == TTrue && b.poison == TTrue {
		// both sides are past a failed operation
	} else if c.Op == "box" || c.Op == "not" && c.Args[0].Op == "box" {
		// one side is past a failed operation; nothing else to remember
	} else if c.Op != "either" {
		for _, t := range ra {
			if t != c {
				m.add(or(not(c), t))
			}
		}
		for _, t := range rb {
			if t != not(c) {
				m.add(or(c, t))
			}
		}
	}
	for _, t := range lits(a.assume) {
		if b.assume[t] {
			m.assume[t] = true
		} else {
			m.assume[or(not(c), t)] = true
		}
	}
	for _, t := range lits(b.assume) {
		if !a.assume[t] {
			m.assume[or(c, t)] = true
		}
	}
	delete(m.assume, TTrue)
	for _, o := range a.objs() {
		v := a.heap[o]
		if w, ok := b.heap[o]; ok {
			m.heap[o] = valIte(c, settle(v, a), settle(w, b))
		} else if o.init != nil {
			m.heap[o] = valIte(c, v, o.init)
		} else {
			m.heap[o] = v
		}
	}
	for _, o := range b.objs() {
		w := b.heap[o]
		if _, ok := a.heap[o]; !ok {
			if o.init != nil {
				m.heap[o] = valIte(c, o.init, w)
			} else {
				m.heap[o] = w
			}
		}
	}
	m.defers = a.defers
	if len(b.defers) > len(a.defers) {
		m.defers = b.defers
	}
	return m, c
}

func mkBox(t *Term) *Term {
	if t == TTrue || t == TFalse || t.Op == "ok" || t.Op == "box" {
		return t
	}
	return mk("box", "", SBool, nil, t)
}
