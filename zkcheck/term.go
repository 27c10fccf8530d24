package main

// Value numbers. A Term is a hash-consed symbolic name for a runtime value;
// two values get the same Term only if they are equal on every execution.
// Integers, field elements and group elements are kept in polynomial normal
// form, booleans in a sorted normal form, so that algebraically equal
// expressions written differently get the same number.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort int8

const (
	SInt Sort = iota
	SBool
	SField
	SGrp
	SStr
	SBytes
	SOther
)

type Term struct {
	Op   string
	Str  string
	Args []*Term
	Sort Sort
	ID   int
	nf   any    // *intNF, *fldNF, *grpNF for "int", "fld", "grp"
	fbv  uint64 // free bound-variable levels
	mbv  int    // number of bound-variable levels used inside: 1+max level
	opn  map[int]bool
}

type intMono struct {
	c *big.Int
	v []intVE
}
type intVE struct {
	a *Term
	e int
}
type intNF struct{ m []intMono }

type fldMono struct {
	c *big.Int
	v []fldVE
}
type fldVE struct {
	a *Term
	e *Term // integer exponent
}
type fldNF struct{ m []fldMono }

type grpE struct {
	b *Term
	c *Term // field coefficient
}
type grpNF struct{ e []grpE }

var termTab = map[string]*Term{}
var termN int

var boolHook func(op string, args []*Term) (*Term, bool)

func mk(op, str string, sort Sort, nf any, args ...*Term) *Term {
	if sized != nil && sort == SInt && op != "int" {
		if v, ok := sizeOf(op, str, args); ok {
			return I(v)
		}
	}
	if sized != nil && sort == SBool {
		if v, ok := boolHook(op, args); ok {
			return v
		}
	}
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(str)
	sb.WriteByte('|')
	sb.WriteByte(byte('0' + sort))
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.ID))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termN++
	t := &Term{Op: op, Str: str, Args: args, Sort: sort, ID: termN, nf: nf}
	if op == "bv" {
		n, _ := strconv.Atoi(str)
		t.mbv = n + 1
		t.fbv = 1 << uint(n)
	}
	for _, a := range args {
		if a.mbv > t.mbv {
			t.mbv = a.mbv
		}
		t.fbv |= a.fbv
	}
	if op == "lam" {
		n, _ := strconv.Atoi(str)
		t.fbv &^= 1 << uint(n)
	}
	termTab[k] = t
	return t
}

// ---------- integers

var big1 = big.NewInt(1)
var big0 = big.NewInt(0)

func I(n int64) *Term { return mkInt([]intMono{{big.NewInt(n), nil}}) }
func IB(n *big.Int) *Term {
	return mkInt([]intMono{{n, nil}})
}

func intOf(t *Term) *intNF {
	if t.Op == "int" {
		return t.nf.(*intNF)
	}
	return &intNF{[]intMono{{big1, []intVE{{t, 1}}}}}
}

func imKey(v []intVE) string {
	var sb strings.Builder
	for _, x := range v {
		fmt.Fprintf(&sb, "%d^%d ", x.a.ID, x.e)
	}
	return sb.String()
}

func mkInt(ms []intMono) *Term {
	acc := map[string]*intMono{}
	for _, m := range ms {
		if m.c.Sign() == 0 {
			continue
		}
		k := imKey(m.v)
		if o, ok := acc[k]; ok {
			o.c = new(big.Int).Add(o.c, m.c)
		} else {
			acc[k] = &intMono{m.c, m.v}
		}
	}
	keys := make([]string, 0, len(acc))
	for k, m := range acc {
		if m.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	nf := &intNF{}
	var args []*Term
	var str strings.Builder
	for _, k := range keys {
		m := acc[k]
		nf.m = append(nf.m, *m)
		str.WriteString(m.c.String())
		for _, x := range m.v {
			args = append(args, x.a)
			fmt.Fprintf(&str, "*%d", x.e)
		}
		str.WriteByte(';')
	}
	if len(nf.m) == 1 && nf.m[0].c.Cmp(big1) == 0 && len(nf.m[0].v) == 1 && nf.m[0].v[0].e == 1 {
		return nf.m[0].v[0].a
	}
	return mk("int", str.String(), SInt, nf, args...)
}

func add(ts ...*Term) *Term {
	var ms []intMono
	for _, t := range ts {
		ms = append(ms, intOf(t).m...)
	}
	return mkInt(ms)
}
func neg(t *Term) *Term { return mulc(t, -1) }
func mulc(t *Term, c int64) *Term {
	var ms []intMono
	for _, m := range intOf(t).m {
		ms = append(ms, intMono{new(big.Int).Mul(m.c, big.NewInt(c)), m.v})
	}
	return mkInt(ms)
}
func sub(a, b *Term) *Term { return add(a, neg(b)) }
func mul(a, b *Term) *Term {
	var ms []intMono
	for _, x := range intOf(a).m {
		for _, y := range intOf(b).m {
			e := map[int]*intVE{}
			var ids []int
			for _, vs := range [][]intVE{x.v, y.v} {
				for _, v := range vs {
					if o, ok := e[v.a.ID]; ok {
						o.e += v.e
					} else {
						e[v.a.ID] = &intVE{v.a, v.e}
						ids = append(ids, v.a.ID)
					}
				}
			}
			sort.Ints(ids)
			var v []intVE
			for _, id := range ids {
				v = append(v, *e[id])
			}
			ms = append(ms, intMono{new(big.Int).Mul(x.c, y.c), v})
		}
	}
	return mkInt(ms)
}

func constInt(t *Term) (*big.Int, bool) {
	if t.Op != "int" {
		return nil, false
	}
	nf := t.nf.(*intNF)
	if len(nf.m) == 0 {
		return big0, true
	}
	if len(nf.m) == 1 && len(nf.m[0].v) == 0 {
		return nf.m[0].c, true
	}
	return nil, false
}
func constI(t *Term) (int64, bool) {
	c, ok := constInt(t)
	if !ok || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}
func isConst(t *Term, n int64) bool { c, ok := constI(t); return ok && c == n }

// 2^x
func pow2(x *Term) *Term {
	nf := intOf(x)
	var rest []intMono
	var k int64
	for _, m := range nf.m {
		if len(m.v) == 0 && m.c.IsInt64() {
			k = m.c.Int64()
		} else {
			rest = append(rest, m)
		}
	}
	if len(rest) == 1 && len(rest[0].v) == 1 && rest[0].v[0].e == 1 && rest[0].c.Cmp(big1) == 0 {
		if a := rest[0].v[0].a; a.Op == "bits" && strings.HasPrefix(a.Str, "math/bits.Len") && k >= 0 {
			return mul(np2e(add(a.Args[0], I(1))), IB(new(big.Int).Lsh(big1, uint(k))))
		}
	}
	if len(rest) == 1 && len(rest[0].v) == 1 && rest[0].v[0].e == 1 && rest[0].c.Cmp(big1) == 0 {
		if a := rest[0].v[0].a; a.Op == "bits" && strings.HasPrefix(a.Str, "math/bits.TrailingZeros") && k >= 0 && isPow2(a.Args[0]) {
			return mul(a.Args[0], IB(new(big.Int).Lsh(big1, uint(k))))
		}
	}
	if len(rest) == 0 {
		if k < 0 {
			return mk("pow2", "", SInt, nil, x)
		}
		return IB(new(big.Int).Lsh(big1, uint(k)))
	}
	if k > 0 && k < 64 {
		return mulc(pow2(mkInt(rest)), 1<<uint(k))
	}
	return mk("pow2", "", SInt, nil, x)
}

// exact division of a polynomial by a positive constant, if possible
func divExact(t *Term, c int64) (*Term, bool) {
	var ms []intMono
	bc := big.NewInt(c)
	for _, m := range intOf(t).m {
		q, r := new(big.Int).QuoRem(m.c, bc, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		ms = append(ms, intMono{q, m.v})
	}
	return mkInt(ms), true
}

// quotient of polynomials when b is a single monomial dividing each monomial of a
func divPoly(a, b *Term) (*Term, bool) {
	nb := intOf(b).m
	if len(nb) == 0 {
		return nil, false
	}
	if len(nb) != 1 {
		// try constant ratio
		na := intOf(a).m
		if len(na) == 0 {
			return I(0), true
		}
		for _, m := range na {
			if imKey(m.v) == imKey(nb[0].v) {
				q, r := new(big.Int).QuoRem(m.c, nb[0].c, new(big.Int))
				if r.Sign() != 0 {
					return nil, false
				}
				if sub(a, mul(IB(q), b)) == I(0) {
					return IB(q), true
				}
			}
		}
		return nil, false
	}
	d := nb[0]
	var ms []intMono
	for _, m := range intOf(a).m {
		q, r := new(big.Int).QuoRem(m.c, d.c, new(big.Int))
		if r.Sign() != 0 {
			return nil, false
		}
		var v []intVE
		used := 0
		for _, x := range m.v {
			e := x.e
			for _, y := range d.v {
				if y.a == x.a {
					e -= y.e
					used++
				}
			}
			if e < 0 {
				return nil, false
			}
			if e > 0 {
				v = append(v, intVE{x.a, e})
			}
		}
		if used != len(d.v) {
			return nil, false
		}
		ms = append(ms, intMono{q, v})
	}
	return mkInt(ms), true
}

func idiv(a, b *Term) *Term {
	if ca, ok := constI(a); ok {
		if cb, ok := constI(b); ok && cb != 0 {
			return I(ca / cb)
		}
	}
	if cb, ok := constI(b); ok && cb > 0 {
		if q, ok := divExact(a, cb); ok {
			return q
		}
	}
	return mk("div", "", SInt, nil, a, b)
}
func imod(a, b *Term) *Term {
	if ca, ok := constI(a); ok {
		if cb, ok := constI(b); ok && cb != 0 {
			return I(ca % cb)
		}
	}
	return mk("mod", "", SInt, nil, a, b)
}

// min(u,v) known under another name
type minEnt struct{ u, v, c *Term }

var minTab []minEnt

func mkMin(a, b *Term) *Term {
	if a == b {
		return a
	}
	for _, m := range minTab {
		if d := sub(m.u, m.v); sub(a, b) == d {
			return add(m.c, sub(a, m.u))
		} else if sub(b, a) == d {
			return add(m.c, sub(b, m.u))
		}
	}
	if proveLe0(sub(a, b), nil) {
		return a
	}
	if proveLe0(sub(b, a), nil) {
		return b
	}
	// common part: min(x+u, y+u) = u + min(x,y), with u the non-constant common monomials
	na, nb := intOf(a).m, intOf(b).m
	km := map[string]intMono{}
	for _, m := range na {
		km[imKey(m.v)] = m
	}
	var common []intMono
	for _, m := range nb {
		if o, ok := km[imKey(m.v)]; ok && o.c.Cmp(m.c) == 0 {
			common = append(common, m)
		}
	}
	if len(common) > 0 {
		u := mkInt(common)
		return add(u, mkMin(sub(a, u), sub(b, u)))
	}
	for i := 0; i < 2; i++ {
		if a == I(2) && b.Op == "np2e" { // max(2, np2e(m)) = np2(m)
			return sub(add(a, b), mk("np2", "", SInt, nil, b.Args[0]))
		}
		a, b = b, a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("min", "", SInt, nil, a, b)
}

// ---------- booleans

var (
	TTrue  = mk("true", "", SBool, nil)
	TFalse = mk("false", "", SBool, nil)
)

func B(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func not(t *Term) *Term {
	switch t.Op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return t.Args[0]
	case "le0":
		// not(p<=0) = 1-p<=0 ; keep the canonical orientation
		return le0(sub(I(1), t.Args[0]))
	}
	return mk("not", "", SBool, nil, t)
}

func le0(p *Term) *Term {
	if c, ok := constInt(p); ok {
		return B(c.Sign() <= 0)
	}
	if proveLe0(p, nil) {
		return TTrue
	}
	if proveLe0(sub(I(1), p), nil) {
		return TFalse
	}
	if x := p; x.Sort == SInt {
		// a choice between two numbers that decides it
		if x.Op != "ite" {
			x = nil
			for _, u := range findTerms(p, func(u *Term) bool { return u.Op == "ite" && u.Sort == SInt }) {
				_, ca := constInt(u.Args[1])
				_, cb := constInt(u.Args[2])
				if ca && cb && x == nil {
					x = u
				}
			}
		}
		if x != nil {
			pa, pb := subst(p, map[*Term]*Term{x: x.Args[1]}), subst(p, map[*Term]*Term{x: x.Args[2]})
			_, ca := constInt(pa)
			_, cb := constInt(pb)
			if ca && cb {
				return or(and(x.Args[0], le0(pa)), and(not(x.Args[0]), le0(pb)))
			}
		}
	}
	return mk("le0", "", SBool, nil, p)
}
func lt(a, b *Term) *Term { return le0(add(sub(a, b), I(1))) }
func le(a, b *Term) *Term { return le0(sub(a, b)) }

func flattenBool(op string, ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == op {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	return out
}
func and(ts ...*Term) *Term {
	ts = flattenBool("and", ts)
	m := map[int]*Term{}
	for _, t := range ts {
		if t == TTrue {
			continue
		}
		if t == TFalse {
			return TFalse
		}
		m[t.ID] = t
	}
	var ids []int
	for id, t := range m {
		if _, ok := m[not(t).ID]; ok {
			return TFalse
		}
		ids = append(ids, id)
	}
	if len(ids) == 0 {
		return TTrue
	}
	sort.Ints(ids)
	if ids = absorbLe(ids, m, false); ids == nil {
		return TFalse
	}
	if len(ids) == 1 {
		return m[ids[0]]
	}
	for _, w := range andRewrites {
		if m[w.a.ID] != nil && m[w.b.ID] != nil {
			rest := []*Term{w.r}
			for _, id := range ids {
				if m[id] != w.a && m[id] != w.b {
					rest = append(rest, m[id])
				}
			}
			return and(rest...)
		}
	}
	var args []*Term
	for _, id := range ids {
		args = append(args, m[id])
	}
	return mk("and", "", SBool, nil, args...)
}
func or(ts ...*Term) *Term {
	ts = flattenBool("or", ts)
	m := map[int]*Term{}
	for _, t := range ts {
		if t == TFalse {
			continue
		}
		if t == TTrue {
			return TTrue
		}
		m[t.ID] = t
	}
	var ids []int
	for id, t := range m {
		if _, ok := m[not(t).ID]; ok {
			return TTrue
		}
		ids = append(ids, id)
	}
	if len(ids) == 0 {
		return TFalse
	}
	sort.Ints(ids)
	if ids = absorbLe(ids, m, true); ids == nil {
		return TTrue
	}
	if len(ids) == 1 {
		return m[ids[0]]
	}
	// factor common conjuncts
	var args []*Term
	for _, id := range ids {
		args = append(args, m[id])
	}
	common := conj(args[0])
	for _, a := range args[1:] {
		s := map[*Term]bool{}
		for _, x := range conj(a) {
			s[x] = true
		}
		var c2 []*Term
		for _, x := range common {
			if s[x] {
				c2 = append(c2, x)
			}
		}
		common = c2
	}
	if len(common) > 0 {
		cs := map[*Term]bool{}
		for _, x := range common {
			cs[x] = true
		}
		var rest []*Term
		for _, a := range args {
			var r []*Term
			for _, x := range conj(a) {
				if !cs[x] {
					r = append(r, x)
				}
			}
			rest = append(rest, and(r...))
		}
		return and(append(append([]*Term{}, common...), or(rest...))...)
	}
	// a or (not a and b) = a or b
	changed := false
	set := map[*Term]bool{}
	for _, a := range args {
		set[a] = true
	}
	for i, a := range args {
		if a.Op == "and" {
			var r []*Term
			for _, x := range a.Args {
				if set[not(x)] {
					changed = true
					continue
				}
				r = append(r, x)
			}
			args[i] = and(r...)
		}
	}
	if changed {
		return or(args...)
	}
	return mk("or", "", SBool, nil, args...)
}

// conjuncts of a boolean
func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	if t == TTrue {
		return nil
	}
	if t.Op == "not" && t.Args[0].Op == "or" {
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, conj(not(a))...)
		}
		return r
	}
	return []*Term{t}
}

func eqInt(a, b *Term) *Term {
	d := sub(a, b)
	if c, ok := constInt(d); ok {
		return B(c.Sign() == 0)
	}
	if proveLe0(neg(d), nil) {
		return le0(d)
	}
	if proveLe0(d, nil) {
		return le0(neg(d))
	}
	// sign-canonical: leading coefficient positive
	m := d.nf
	_ = m
	nf := intOf(d)
	if nf.m[len(nf.m)-1].c.Sign() < 0 {
		d = neg(d)
	}
	if d.Op == "bcmp" { // bytes.Compare
		return beq(d.Args[0], d.Args[1])
	}
	return mk("eq0", "", SBool, nil, d)
}

// the literal says d = 0 (an inequality does at the edge of d's range)
func eqOf(l *Term) (*Term, bool) {
	switch l.Op {
	case "eq0":
		return l.Args[0], true
	case "le0":
		if proveLe0(neg(l.Args[0]), nil) {
			return l.Args[0], true
		}
	}
	return nil, false
}

func beq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	switch a.Sort {
	case SInt:
		return eqInt(a, b)
	case SBool:
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return not(b)
		}
		if b == TFalse {
			return not(a)
		}
	case SGrp:
		return geq0(gAdd(a, gNeg(b)))
	case SField:
		return feq0(fAdd(a, fNeg(b)))
	case SStr:
		if a.Op == "str" && b.Op == "str" {
			return TFalse
		}
		if b.Op == "ite" {
			a, b = b, a
		}
		if a.Op == "ite" && b.Op == "str" {
			return ite(a.Args[0], beq(a.Args[1], b), beq(a.Args[2], b))
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("beq", "", SBool, nil, a, b)
}

// ---------- field elements

func fldOf(t *Term) *fldNF {
	if t.Op == "fld" {
		return t.nf.(*fldNF)
	}
	return &fldNF{[]fldMono{{big1, []fldVE{{t, I(1)}}}}}
}
func fmKey(v []fldVE) string {
	var sb strings.Builder
	for _, x := range v {
		fmt.Fprintf(&sb, "%d^%d ", x.a.ID, x.e.ID)
	}
	return sb.String()
}
func mkFld(ms []fldMono) *Term {
	acc := map[string]*fldMono{}
	for _, m := range ms {
		if m.c.Sign() == 0 {
			continue
		}
		k := fmKey(m.v)
		if o, ok := acc[k]; ok {
			o.c = new(big.Int).Add(o.c, m.c)
		} else {
			acc[k] = &fldMono{m.c, m.v}
		}
	}
	var keys []string
	for k, m := range acc {
		if m.c.Sign() != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	nf := &fldNF{}
	var args []*Term
	var str strings.Builder
	for _, k := range keys {
		m := acc[k]
		nf.m = append(nf.m, *m)
		str.WriteString(m.c.String())
		for _, x := range m.v {
			args = append(args, x.a, x.e)
			str.WriteByte('*')
		}
		str.WriteByte(';')
	}
	if len(nf.m) == 1 && nf.m[0].c.Cmp(big1) == 0 && len(nf.m[0].v) == 1 && isConst(nf.m[0].v[0].e, 1) {
		return nf.m[0].v[0].a
	}
	return mk("fld", str.String(), SField, nf, args...)
}
func F(n int64) *Term { return mkFld([]fldMono{{big.NewInt(n), nil}}) }
func fAdd(ts ...*Term) *Term {
	var ms []fldMono
	for _, t := range ts {
		ms = append(ms, fldOf(t).m...)
	}
	return mkFld(ms)
}
func fNeg(t *Term) *Term { return fMul(F(-1), t) }
func fMonoMul(x, y fldMono) fldMono {
	e := map[int]*fldVE{}
	var ids []int
	for _, vs := range [][]fldVE{x.v, y.v} {
		for _, v := range vs {
			if o, ok := e[v.a.ID]; ok {
				o.e = add(o.e, v.e)
			} else {
				e[v.a.ID] = &fldVE{v.a, v.e}
				ids = append(ids, v.a.ID)
			}
		}
	}
	sort.Ints(ids)
	var v []fldVE
	for _, id := range ids {
		if !isConst(e[id].e, 0) {
			v = append(v, *e[id])
		}
	}
	return fldMono{new(big.Int).Mul(x.c, y.c), v}
}
func fMul(a, b *Term) *Term {
	var ms []fldMono
	for _, x := range fldOf(a).m {
		for _, y := range fldOf(b).m {
			ms = append(ms, fMonoMul(x, y))
		}
	}
	return mkFld(ms)
}

// a^e for an integer term e
func fPow(a, e *Term) *Term {
	nf := fldOf(a)
	if len(nf.m) == 1 && nf.m[0].c.Cmp(big1) == 0 {
		var v []fldVE
		for _, x := range nf.m[0].v {
			ee := mul(x.e, e)
			if !isConst(ee, 0) {
				v = append(v, fldVE{x.a, ee})
			}
		}
		return mkFld([]fldMono{{big1, v}})
	}
	if c, ok := constI(e); ok {
		if c == 0 {
			return F(1)
		}
		if c == 1 {
			return a
		}
		if c > 1 && c <= 8 {
			r := a
			for i := int64(1); i < c; i++ {
				r = fMul(r, a)
			}
			return r
		}
	}
	return mk("fpow", "", SField, nil, a, e)
}
func fInv(a *Term) *Term {
	nf := fldOf(a)
	if len(nf.m) == 1 && nf.m[0].c.Cmp(big1) == 0 {
		return fPow(a, I(-1))
	}
	return mk("finv", "", SField, nil, a)
}
func feq0(a *Term) *Term {
	nf := fldOf(a)
	if len(nf.m) == 0 {
		return TTrue
	}
	if len(nf.m) == 1 {
		drawn := true
		for _, v := range nf.m[0].v {
			drawn = drawn && v.a.Op == "rand"
		}
		if drawn {
			return TFalse // a drawn element isn't zero (but for a chance of 2^-254)
		}
	}
	if nf.m[len(nf.m)-1].c.Sign() < 0 {
		a = fNeg(a)
	}
	return mk("feq0", "", SBool, nil, a)
}

// ---------- group elements: linear combinations

var G0 = mkGrp(nil)

func grpOf(t *Term) []grpE {
	if t.Op == "grp" {
		return t.nf.(*grpNF).e
	}
	return []grpE{{t, F(1)}}
}
func mkGrp(es []grpE) *Term {
	acc := map[int]*grpE{}
	var ids []int
	for _, e := range es {
		if o, ok := acc[e.b.ID]; ok {
			o.c = fAdd(o.c, e.c)
		} else {
			acc[e.b.ID] = &grpE{e.b, e.c}
			ids = append(ids, e.b.ID)
		}
	}
	sort.Ints(ids)
	nf := &grpNF{}
	var args []*Term
	f0 := F(0)
	for _, id := range ids {
		e := acc[id]
		if e.c == f0 {
			continue
		}
		nf.e = append(nf.e, *e)
		args = append(args, e.b, e.c)
	}
	if len(nf.e) == 1 && nf.e[0].c == F(1) {
		return nf.e[0].b
	}
	return mk("grp", "", SGrp, nf, args...)
}
func gAdd(ts ...*Term) *Term {
	var es []grpE
	for _, t := range ts {
		es = append(es, grpOf(t)...)
	}
	return mkGrp(es)
}
func gScale(t, f *Term) *Term {
	var es []grpE
	for _, e := range grpOf(t) {
		es = append(es, grpE{e.b, fMul(e.c, f)})
	}
	return mkGrp(es)
}
func gNeg(t *Term) *Term { return gScale(t, F(-1)) }
func geq0(t *Term) *Term {
	es := grpOf(t)
	if len(es) == 0 {
		return TTrue
	}
	// sign-canonical
	c := fldOf(es[len(es)-1].c)
	if c.m[len(c.m)-1].c.Sign() < 0 {
		t = gNeg(t)
		es = grpOf(t)
	}
	if len(es) == 1 && es[0].c == F(1) && (es[0].b.Op == "gen1" || es[0].b.Op == "gen2") {
		return TFalse
	}
	return mk("geq0", "", SBool, nil, t)
}

// product of pairings equal to one: sum of coef * e(P,Q) = 0
func pceq0(ps, qs []*Term) *Term {
	type ent struct {
		p, q, c *Term
	}
	acc := map[[2]int]*ent{}
	var keys [][2]int
	for i := range ps {
		for _, p := range grpOf(ps[i]) {
			for _, q := range grpOf(qs[i]) {
				k := [2]int{p.b.ID, q.b.ID}
				c := fMul(p.c, q.c)
				if o, ok := acc[k]; ok {
					o.c = fAdd(o.c, c)
				} else {
					acc[k] = &ent{p.b, q.b, c}
					keys = append(keys, k)
				}
			}
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i][0] != keys[j][0] {
			return keys[i][0] < keys[j][0]
		}
		return keys[i][1] < keys[j][1]
	})
	var es []*ent
	for _, k := range keys {
		if acc[k].c != F(0) {
			es = append(es, acc[k])
		}
	}
	if len(es) == 0 {
		return TTrue
	}
	s := F(1)
	nf := fldOf(es[len(es)-1].c)
	if nf.m[len(nf.m)-1].c.Sign() < 0 {
		s = F(-1)
	}
	var args []*Term
	for _, e := range es {
		args = append(args, e.p, e.q, fMul(e.c, s))
	}
	return mk("pceq0", "", SBool, nil, args...)
}

// ---------- conditionals

func ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.Op == "not" {
		return ite(c.Args[0], b, a)
	}
	if c.Op == "le0" {
		n := not(c)
		if n.Op == "le0" && n.ID < c.ID {
			return ite(n, b, a)
		}
	}
	a = underLit(a, c, true)
	b = underLit(b, c, false)
	if a == b {
		return a
	}
	if r := iteEq(c, a, b); r != nil {
		return r
	}
	if c.Op == "is64" && a.Op == "i2f" && a.Args[0].Op == "low64" && a.Args[0].Args[0] == c.Args[0] {
		a = c.Args[0] // a number of one word
		if a == b {
			return a
		}
	}
	// nested conditionals sharing a branch
	if b.Op == "ite" {
		if b.Args[1] == a {
			return ite(or(c, b.Args[0]), a, b.Args[2])
		}
		if b.Args[2] == a {
			return ite(or(c, not(b.Args[0])), a, b.Args[1])
		}
	}
	if a.Op == "ite" {
		if a.Args[2] == b {
			return ite(and(c, a.Args[0]), a.Args[1], b)
		}
		if a.Args[1] == b {
			return ite(and(c, not(a.Args[0])), a.Args[2], b)
		}
	}
	if a.Op == "wl" && b.Op == "wl" {
		return wlIte(c, a, b)
	}
	switch a.Sort {
	case SBool:
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return not(c)
		}
		if a == TTrue {
			return or(c, b)
		}
		if b == TFalse {
			return and(c, a)
		}
		if a == TFalse {
			return and(not(c), b)
		}
		if b == TTrue {
			return or(not(c), a)
		}
	case SInt:
		if r := np2Ite(c, a, b); r != nil {
			return r
		}
		if c.Op == "le0" {
			// min: c says a<=b (or a<b)
			p := c.Args[0]
			d := sub(p, sub(a, b))
			if k, ok := constI(d); ok && (k == 0 || k == 1) {
				return mkMin(a, b)
			}
			d = sub(p, sub(b, a))
			if k, ok := constI(d); ok && (k == 0 || k == 1) {
				return add(a, b, neg(mkMin(a, b)))
			}
		}
		// ite(x==0, y, x..) where they coincide
		na, nb := intOf(a).m, intOf(b).m
		km := map[string]intMono{}
		for _, m := range na {
			km[imKey(m.v)] = m
		}
		var common []intMono
		for _, m := range nb {
			if o, ok := km[imKey(m.v)]; ok && len(m.v) > 0 && o.c.Cmp(m.c) == 0 {
				common = append(common, m)
			}
		}
		if len(common) > 0 {
			u := mkInt(common)
			return add(u, ite(c, sub(a, u), sub(b, u)))
		}
	case SGrp:
		es, fs := grpOf(a), grpOf(b)
		mb := map[*Term]*Term{}
		for _, e := range fs {
			mb[e.b] = e.c
		}
		var common []grpE
		for _, e := range es {
			if cc, ok := mb[e.b]; ok && cc == e.c {
				common = append(common, e)
			}
		}
		if len(common) > 0 {
			u := mkGrp(common)
			return gAdd(u, ite(c, gAdd(a, gNeg(u)), gAdd(b, gNeg(u))))
		}
		// multiples of one base
		if len(es) <= 1 && len(fs) <= 1 {
			ca, cb := F(0), F(0)
			var base *Term
			if len(es) == 1 {
				base, ca = es[0].b, es[0].c
			}
			if len(fs) == 1 {
				if base == nil || base == fs[0].b {
					base, cb = fs[0].b, fs[0].c
				} else {
					base = nil
				}
			}
			if base != nil && !(len(es) == 1 && len(fs) == 0 || len(es) == 0 && len(fs) == 1) {
				return gScale(base, ite(c, ca, cb))
			}
			if base != nil && len(es)+len(fs) == 1 {
				k := ca
				if len(es) == 0 {
					k = cb
				}
				if onlyCid(c) {
					return gScale(base, ite(c, ca, cb))
				}
				if k != F(1) {
					if len(es) == 0 {
						return gScale(ite(c, G0, base), k)
					}
					return gScale(ite(c, base, G0), k)
				}
			}
		}
	case SField:
		na, nb := fldOf(a).m, fldOf(b).m
		if len(na) > 1 || len(nb) > 1 {
			km := map[string]fldMono{}
			for _, m := range na {
				km[fmKey(m.v)] = m
			}
			var common []fldMono
			for _, m := range nb {
				if o, ok := km[fmKey(m.v)]; ok && o.c.Cmp(m.c) == 0 {
					common = append(common, m)
				}
			}
			if len(common) > 0 {
				u := mkFld(common)
				return fAdd(u, ite(c, fAdd(a, fNeg(u)), fAdd(b, fNeg(u))))
			}
		}
		if onlyCid(c) {
			if r := coeffCase(mk("ite", "", SField, nil, c, a, b)); r != nil {
				return r
			}
		}
	}
	return mk("ite", "", a.Sort, nil, c, a, b)
}

// simplify t knowing literal c has the given truth value
func underLit(t, c *Term, val bool) *Term {
	lits := map[*Term]bool{}
	if val {
		for _, x := range conj(c) {
			lits[x] = true
		}
	} else {
		n := not(c)
		for _, x := range conj(n) {
			lits[x] = true
		}
		if c.Op == "or" {
			for _, x := range c.Args {
				lits[not(x)] = true
			}
		}
	}
	return underLits(t, lits)
}

func underLits(t *Term, lits map[*Term]bool) *Term {
	if len(lits) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var facts []*Term
	for l := range lits {
		if l.Op == "le0" || l.Op == "eq0" {
			facts = append(facts, l)
		}
	}
	sortTerms(facts)
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Sort == SBool {
			if lits[t] {
				memo[t] = TTrue
				return TTrue
			}
			if t.Op != "true" && t.Op != "false" && lits[not(t)] {
				memo[t] = TFalse
				return TFalse
			}
			if t.Op == "le0" && len(facts) > 0 && t.fbv == 0 {
				if proveLe0(t.Args[0], facts) {
					memo[t] = TTrue
					return TTrue
				}
				if proveLe0(sub(I(1), t.Args[0]), facts) {
					memo[t] = TFalse
					return TFalse
				}
			}
			if t.Op == "eq0" && len(facts) > 0 && t.fbv == 0 {
				if proveLe0(add(t.Args[0], I(1)), facts) || proveLe0(sub(I(1), t.Args[0]), facts) {
					memo[t] = TFalse
					return TFalse
				}
			}
		}
		if !hasCond(t) {
			memo[t] = t
			return t
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r = t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

var hasCondMemo = map[*Term]bool{}

// does t contain a boolean that could be decided by context?
func hasCond(t *Term) bool {
	if r, ok := hasCondMemo[t]; ok {
		return r
	}
	r := t.Sort == SBool && t.Op != "true" && t.Op != "false"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasCond(a)
	}
	hasCondMemo[t] = r
	return r
}

// ---------- rebuilding and substitution

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "int":
		var ms []intMono
		parts := t.nf.(*intNF).m
		i := 0
		r := I(0)
		_ = ms
		for _, m := range parts {
			x := IB(m.c)
			for _, v := range m.v {
				for e := 0; e < v.e; e++ {
					x = mul(x, args[i])
				}
				i++
			}
			r = add(r, x)
		}
		return r
	case "fld":
		i := 0
		r := F(0)
		for _, m := range t.nf.(*fldNF).m {
			x := mkFld([]fldMono{{m.c, nil}})
			for range m.v {
				x = fMul(x, fPow(args[i], args[i+1]))
				i += 2
			}
			r = fAdd(r, x)
		}
		return r
	case "grp":
		r := G0
		for i := 0; i < len(args); i += 2 {
			r = gAdd(r, gScale(args[i], args[i+1]))
		}
		return r
	case "pow2":
		return pow2(args[0])
	case "shr":
		return shr(args[0], args[1])
	case "bits":
		return bitFn(t.Str, args[0])
	case "mathfn":
		return mathFn(t.Str, args[0])
	case "min":
		return mkMin(args[0], args[1])
	case "div":
		return idiv(args[0], args[1])
	case "mod":
		return imod(args[0], args[1])
	case "not":
		return not(args[0])
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "le0":
		return le0(args[0])
	case "eq0":
		return eqInt(args[0], I(0))
	case "beq":
		return beq(args[0], args[1])
	case "geq0":
		return geq0(args[0])
	case "feq0":
		return feq0(args[0])
	case "fpow":
		return fPow(args[0], args[1])
	case "finv":
		return fInv(args[0])
	case "ite":
		return ite(args[0], args[1], args[2])
	case "pceq0":
		var ps, qs []*Term
		for i := 0; i < len(args); i += 3 {
			ps = append(ps, gScale(args[i], args[i+2]))
			qs = append(qs, args[i+1])
		}
		return pceq0(ps, qs)
	case "conv":
		return conv(t.Str, args[0])
	case "cat":
		return cat(args...)
	case "xzero":
		return xzero(args[0])
	case "all":
		return mkAllRaw(args[0], args[1])
	case "sum":
		return mkSumRaw(args[0], args[1])
	case "rev":
		return mkRev(args[0], args[1])
	case "sel":
		return mkSel(t.Sort, args[0], args[1])
	case "concat":
		return strcat(args...)
	case "box":
		return mkBox(args[0])
	case "wl":
		return wl(args...)
	case "wite":
		return mkWite(args[0], args[1], args[2])
	case "wloop":
		return mkWloopRaw(args[0], args[1])
	case "cnt":
		return mkCntRaw(args[0], args[1])
	case "nth":
		return mkNthRaw(args[0], args[1])
	case "lagr":
		return mkLagr(t.Str, args[0], args[1], args[2], args[3])
	case "np2e":
		return np2e(args[0])
	case "f":
		return fieldOf(t.Str, t.Sort, args[0])
	case "np2", "member", "rdint", "rdG1", "rdG2":
		return mk(t.Op, t.Str, t.Sort, nil, args...)
	case "byteat":
		return byteAt(args[0], args[1])
	case "bslice":
		return bslice(args[0], args[1], args[2])
	case "len":
		if args[0].Sort == SBytes {
			return blen(args[0])
		}
	case "bnil":
		return bnil(args[0])
	case "wb":
		return wbytes(args[0])
	}
	return mk(t.Op, t.Str, t.Sort, nil, args...)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
func subst1(t, from, to *Term) *Term { return subst(t, map[*Term]*Term{from: to}) }

func contains(t *Term, x *Term) bool {
	memo := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if memo[t] {
			return false
		}
		memo[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// find subterms satisfying f (pre-order, each once)
func findTerms(t *Term, f func(*Term) bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if f(t) {
			out = append(out, t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	return out
}

// ---------- binders

func bv(level int) *Term { return mk("bv", strconv.Itoa(level), SInt, nil) }

// replace variable v by the canonical bound variable of body
func bind(v, body *Term) *Term { return subst1(body, v, bv(body.mbv)) }

// the bound variable of a binder body (as created by bind), by its level
func unbind(body *Term, level int, x *Term) *Term { return subst1(body, bv(level), x) }

// Binder bodies keep their level as the Str of the binder term, so that
// nested binders stay distinguishable.
func mkAll(T, v, body *Term) *Term {
	if body.Op == "or" && propEq(body, TTrue) {
		return TTrue
	}
	if body == TTrue || isConst(T, 0) {
		return TTrue
	}
	if body.Op == "and" {
		var out []*Term
		for _, b := range body.Args {
			out = append(out, mkAll(T, v, b))
		}
		return and(out...)
	}
	if !contains(body, v) {
		return or(le0(T), body)
	}
	return mkAllRaw(T, bindMark(v, body))
}

// bound bodies are wrapped: lam(level; body)
func bindMark(v, body *Term) *Term {
	l := body.mbv
	return mk("lam", strconv.Itoa(l), body.Sort, nil, subst1(body, v, bv(l)))
}
func lamLevel(l *Term) int { n, _ := strconv.Atoi(l.Str); return n }
func applyLam(l, x *Term) *Term {
	return subst1(l.Args[0], bv(lamLevel(l)), x)
}
func mkAllRaw(T, lam *Term) *Term {
	if lam.Args[0] == TTrue || isConst(T, 0) {
		return TTrue
	}
	if c, ok := constI(T); ok && c >= 1 && c <= 4 {
		var out []*Term
		for i := int64(0); i < c; i++ {
			out = append(out, applyLam(lam, I(i)))
		}
		return and(out...)
	}
	return mk("all", "", SBool, nil, T, lam)
}
func mkSum(T, v, body *Term) *Term { return mkSumRaw(T, bindMark(v, body)) }
func mkSumRaw(T, lam *Term) *Term {
	if isConst(T, 0) || lam.Args[0] == G0 || lam.Args[0] == F(0) {
		if lam.Sort == SField {
			return F(0)
		}
		return G0
	}
	// linear: a sum of several terms is the sum of the sums
	if lam.Sort == SGrp && lam.Args[0].Op == "grp" {
		es := grpOf(lam.Args[0])
		if len(es) > 1 {
			var parts []*Term
			for _, e := range es {
				b := mkGrp([]grpE{e})
				parts = append(parts, mkSumRaw(T, mk("lam", lam.Str, SGrp, nil, b)))
			}
			return gAdd(parts...)
		}
	}
	if c, ok := constI(T); ok && sized != nil && c <= 64 && lam.Sort == SGrp {
		var parts []*Term
		for i := int64(0); i < c; i++ {
			parts = append(parts, applyLam(lam, I(i)))
		}
		return gAdd(parts...)
	}
	return mk("sum", "", lam.Sort, nil, T, lam)
}

// ---------- misc constructors

func sym(name string, s Sort) *Term { return mk("sym", name, s, nil) }
func str(s string) *Term            { return mk("str", s, SStr, nil) }
func strcat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Op == "concat" {
			out = append(out, t.Args...)
		} else {
			out = append(out, t)
		}
	}
	var r []*Term
	for _, t := range out {
		if t.Op == "str" && t.Str == "" {
			continue
		}
		if t.Op == "str" && len(r) > 0 && r[len(r)-1].Op == "str" {
			r[len(r)-1] = str(r[len(r)-1].Str + t.Str)
			continue
		}
		r = append(r, t)
	}
	if len(r) == 0 {
		return str("")
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk("concat", "", SStr, nil, r...)
}

var convMax = map[string]int64{"u8": 255, "u16": 65535, "u32": 4294967295, "i32": 2147483647}

func conv(k string, x *Term) *Term {
	mx, ok := convMax[k]
	if !ok {
		return x
	}
	lo := I(0)
	if k == "i32" {
		lo = I(-2147483648)
	}
	if c, ok := constI(x); ok && k != "i32" {
		return I(c & mx)
	}
	if proveLe0(sub(x, I(mx)), nil) && proveLe0(sub(lo, x), nil) {
		return x
	}
	return mk("conv", k, SInt, nil, x)
}

// is p the point at infinity
func xzero(p *Term) *Term {
	if p == G0 {
		return TTrue
	}
	if p.Op == "ite" {
		return ite(p.Args[0], xzero(p.Args[1]), xzero(p.Args[2]))
	}
	if assumedNonzero[p] {
		return TFalse
	}
	return geq0(p)
}

// points taken to be different from infinity
var assumedNonzero = map[*Term]bool{}

// bit reversal of i in [0,n)
func mkRev(n, i *Term) *Term {
	if i.Op == "rev" && i.Args[0] == n {
		return i.Args[1]
	}
	if c, ok := constI(n); ok && c > 0 && c <= 1<<24 && c&(c-1) == 0 {
		if k, ok := constI(i); ok && k >= 0 && k < c {
			r := int64(0)
			for b := int64(1); b < c; b *= 2 {
				r = 2*r + k&1
				k >>= 1
			}
			return I(r)
		}
	}
	return mk("rev", "", SInt, nil, n, i)
}

// element i of an opaque array
func mkSel(s Sort, arr, i *Term) *Term {
	if arr.Op == "arr" { // arr(n, lam)
		return applyLam(arr.Args[1], i)
	}
	if sized != nil {
		if c := shapeCoeff(arr, i); c != nil {
			return c
		}
	}
	return mk("sel", "", s, nil, arr, i)
}

// ---------- bytes: concatenation of pieces

var nilBytes = mk("cat", "", SBytes, nil)

func cat(ts ...*Term) *Term {
	var out []*Term
	push := func(t *Term) {
		// two bytes of one 16-bit number
		if n := len(out); n > 0 && t.Op == "b8" && out[n-1].Op == "b8" {
			if w := joinBE(out[n-1].Args[0], t.Args[0]); w != nil {
				out[n-1] = w
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		if t.Op == "cat" {
			for _, x := range t.Args {
				push(x)
			}
		} else {
			push(t)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("cat", "", SBytes, nil, out...)
}

// ---------- printing

func (t *Term) String() string { return t.show(0) }
func (t *Term) show(d int) string {
	if d > 14 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.show(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "int":
		var parts []string
		for _, m := range t.nf.(*intNF).m {
			var f []string
			for _, v := range m.v {
				x := v.a.show(d + 1)
				if v.e != 1 {
					x += fmt.Sprintf("^%d", v.e)
				}
				f = append(f, x)
			}
			if len(f) == 0 {
				parts = append(parts, m.c.String())
			} else if m.c.Cmp(big1) == 0 {
				parts = append(parts, strings.Join(f, "*"))
			} else {
				parts = append(parts, m.c.String()+"*"+strings.Join(f, "*"))
			}
		}
		if len(parts) == 0 {
			return "0"
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, " + ") + ")"
	case "fld":
		var parts []string
		for _, m := range t.nf.(*fldNF).m {
			var f []string
			for _, v := range m.v {
				x := v.a.show(d + 1)
				if !isConst(v.e, 1) {
					x += "^" + v.e.show(d+1)
				}
				f = append(f, x)
			}
			if m.c.Cmp(big1) != 0 || len(f) == 0 {
				f = append([]string{m.c.String()}, f...)
			}
			parts = append(parts, strings.Join(f, "·"))
		}
		if len(parts) == 0 {
			return "0f"
		}
		return "[" + strings.Join(parts, "+") + "]"
	case "grp":
		var parts []string
		for _, e := range t.nf.(*grpNF).e {
			if e.c == F(1) {
				parts = append(parts, e.b.show(d+1))
			} else {
				parts = append(parts, e.c.show(d+1)+"*"+e.b.show(d+1))
			}
		}
		if len(parts) == 0 {
			return "O"
		}
		return "{" + strings.Join(parts, " + ") + "}"
	case "sym", "lv":
		return t.Str
	case "str":
		return strconv.Quote(t.Str)
	case "bv":
		return "β" + t.Str
	case "lam":
		return "λβ" + t.Str + "." + t.Args[0].show(d+1)
	case "pow2":
		return "2^" + t.Args[0].show(d+1)
	case "not":
		return "!" + t.Args[0].show(d+1)
	case "le0":
		return "(" + t.Args[0].show(d+1) + " ≤ 0)"
	case "pceq0":
		var p []string
		for i := 0; i < len(t.Args); i += 3 {
			p = append(p, fmt.Sprintf("%s·e(%s, %s)", t.Args[i+2].show(d+1), t.Args[i].show(d+1), t.Args[i+1].show(d+1)))
		}
		return "(" + strings.Join(p, " + ") + " = 0)"
	case "ite":
		return "(" + t.Args[0].show(d+1) + " ? " + t.Args[1].show(d+1) + " : " + t.Args[2].show(d+1) + ")"
	}
	n := t.Op
	if t.Str != "" {
		n += "<" + t.Str + ">"
	}
	if len(t.Args) == 0 {
		return n
	}
	return n + "(" + as() + ")"
}
