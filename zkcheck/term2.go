package main

// Value numbers of byte strings, write lists, counters and other composite
// notions.

import (
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// ---------- conditionals

// Is c a condition on the coefficient id of one constraint term only?
func onlyCid(c *Term) bool { return cidOf(c) != nil }

func cidOf(c *Term) *Term {
	var id *Term
	bad := false
	var rec func(t *Term)
	rec = func(t *Term) {
		switch t.Op {
		case "and", "or", "not", "true", "false":
			for _, a := range t.Args {
				rec(a)
			}
		case "eq0", "le0":
			n := 0
			for _, m := range intOf(t.Args[0]).m {
				for _, v := range m.v {
					n++
					if v.a.Op != "cid" || id != nil && id != v.a || v.e != 1 {
						bad = true
						return
					}
					id = v.a
				}
			}
			if n != 1 {
				bad = true
			}
		default:
			bad = true
		}
	}
	rec(c)
	if bad {
		return nil
	}
	return id
}

// The coefficient table of an R1CS starts with the constants 0, 1, 2, -1, -2
// (gnark constraint.CoeffIdZero...), so a case split on the coefficient id that
// returns those constants is the table lookup itself.
var coeffTab = []int64{0, 1, 2, -1, -2}

func coeffCase(t *Term) *Term {
	var id *Term
	conds := findTerms(t, func(x *Term) bool { return x.Op == "ite" })
	for _, x := range conds {
		c := cidOf(x.Args[0])
		if c == nil || id != nil && c != id {
			return nil
		}
		id = c
	}
	if id == nil {
		return nil
	}
	at := func(k int64) *Term { return pickIte(t, func(c *Term) *Term { return subst1(c, id, I(k)) }) }
	def := at(1000) // an id above every special one
	if def == nil || def.Op != "sel" || def.Args[1] != id || def.Args[0].Op != "f" || def.Args[0].Str != "Coefficients" {
		return nil
	}
	for k := int64(0); k < 8; k++ {
		v := at(k)
		if v == def {
			continue
		}
		if k >= int64(len(coeffTab)) || v != F(coeffTab[k]) {
			return nil
		}
	}
	return def
}

// resolve the conditionals at the top of t whose condition f decides
func pickIte(t *Term, f func(*Term) *Term) *Term {
	for t.Op == "ite" {
		switch f(t.Args[0]) {
		case TTrue:
			t = t.Args[1]
		case TFalse:
			t = t.Args[2]
		default:
			return nil
		}
	}
	return t
}

// ite(v == t, a, b): the first branch may use t for v
func iteEq(c, a, b *Term) *Term {
	if r := iteEq1(c, a, b); r != nil {
		return r
	}
	// the condition is canonically written as its negation
	if c.Op == "le0" {
		return iteEq1(not(c), b, a)
	}
	return nil
}
func iteEq1(c, a, b *Term) *Term {
	for _, l := range conj(c) {
		d, ok := eqOf(l)
		if !ok {
			continue
		}
		if v, t := solveEq(d, nil); v != nil {
			a2 := a
			if contains(a, v) {
				a2 = subst1(a, v, t)
			}
			if a2 == b || l == c && contains(b, v) && subst1(b, v, t) == a2 {
				return b
			}
			if isLoopVar(v) && a2 != a {
				return ite(c, a2, b)
			}
		}
	}
	return nil
}

func isLoopVar(v *Term) bool { return v == xs || v.Op == "lv" || v.Op == "bv" }

// solve d = 0 for a variable occurring linearly with coefficient ±1
func solveEq(d, want *Term) (*Term, *Term) {
	nf := intOf(d)
	for _, m := range nf.m {
		if len(m.v) != 1 || m.v[0].e != 1 || !m.c.IsInt64() {
			continue
		}
		k := m.c.Int64()
		if k != 1 && k != -1 {
			continue
		}
		v := m.v[0].a
		if want != nil && v != want || want == nil && !isLoopVar(v) {
			continue
		}
		rest := sub(d, mulc(v, k))
		if contains(rest, v) {
			continue
		}
		return v, mulc(rest, -k)
	}
	return nil, nil
}

// next power of two (at least 2) written as a chain of comparisons of one
// number with constants
func normPow(t *Term) *Term {
	if t.Op != "ite" {
		return t
	}
	m := map[*Term]bool{}
	var at []*Term
	var walk func(u *Term) bool
	walk = func(u *Term) bool {
		if u.Op != "ite" {
			_, ok := constI(u)
			return ok
		}
		boolAtoms(u.Args[0], m, &at)
		return walk(u.Args[1]) && walk(u.Args[2])
	}
	if !walk(t) || len(at) < 20 {
		return t
	}
	// atom: s·n <= c
	var n *Term
	type th struct {
		a *Term
		s int
		c int64
	}
	var ths []th
	for _, a := range at {
		if a.Op != "le0" {
			return t
		}
		cst, lin := splitConst(a.Args[0])
		if !cst.IsInt64() {
			return t
		}
		s := 1
		if n == nil {
			n = lin
			if c, _ := leadCoeff(lin); c < 0 {
				n, s = neg(lin), -1
			}
		} else if lin == neg(n) {
			s = -1
		} else if lin != n {
			return t
		}
		ths = append(ths, th{a, s, -cst.Int64()}) // s·n <= c
	}
	var pts []int64 // the largest n of each interval
	for _, x := range ths {
		if x.s == 1 {
			pts = append(pts, x.c)
		} else {
			pts = append(pts, -x.c-1)
		}
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	pts = append(pts, pts[len(pts)-1]+1)
	for i, p := range pts {
		sm := map[*Term]*Term{}
		for _, x := range ths {
			v := int64(x.s)*p <= x.c
			sm[x.a] = B(v)
			if q := not(x.a); q.Op != "not" {
				sm[q] = B(!v)
			}
		}
		got, ok := constI(subst(t, sm))
		want := int64(2)
		for want < p {
			want *= 2
		}
		if !ok || got != want {
			return t
		}
		if i > 0 && p > 2 && p != want && i < len(pts)-1 {
			return t // a step that isn't a power of two
		}
	}
	if pts[len(pts)-2] < 1<<26 {
		return t
	}
	return mk("np2", "", SInt, nil, n)
}

// the smallest power of two that is at least m
func np2e(m *Term) *Term {
	if c, ok := constI(m); ok && c < 1<<40 {
		r := int64(1)
		for r < c {
			r *= 2
		}
		return I(r)
	}
	if nf := intOf(m); len(nf.m) == 1 && len(nf.m[0].v) == 1 {
		mo := nf.m[0]
		if a := mo.v[0].a; a.Op == "pow2" || a.Op == "np2" || a.Op == "np2e" {
			if mo.c.Sign() > 0 && new(big.Int).And(mo.c, new(big.Int).Sub(mo.c, big1)).Sign() == 0 {
				return m
			}
		}
	}
	return mk("np2e", "", SInt, nil, m)
}

// 2 for small m and the smallest power of two of at least m otherwise
func np2Ite(c, a, b *Term) *Term {
	for _, x := range []struct{ c, a, b *Term }{{c, a, b}, {not(c), b, a}} {
		if x.c.Op == "le0" && x.a == I(2) && x.b.Op == "np2e" { // m <= k
			if k, ok := constI(sub(x.b.Args[0], x.c.Args[0])); ok && k >= 1 && k <= 2 {
				return mk("np2", "", SInt, nil, x.b.Args[0])
			}
		}
	}
	return nil
}

// certainly a power of two
func isPow2(t *Term) bool {
	nf := intOf(t)
	if len(nf.m) != 1 {
		return false
	}
	m := nf.m[0]
	if m.c.Sign() <= 0 || new(big.Int).And(m.c, new(big.Int).Sub(m.c, big1)).Sign() != 0 {
		return false
	}
	for _, v := range m.v {
		if v.a.Op != "pow2" && v.a.Op != "np2" && v.a.Op != "np2e" {
			return false
		}
	}
	return true
}

// functions of math/bits; for powers of two, in terms of the number of
// trailing zeros
func bitFn(name string, a *Term) *Term {
	if t := foldBitFn(name, a); t != nil {
		return t
	}
	const tz = "math/bits.TrailingZeros64"
	f := strings.TrimSuffix(strings.TrimPrefix(name, "math/bits."), "64")
	switch {
	case f == "TrailingZeros":
		if a.Op == "pow2" {
			return a.Args[0]
		}
		return mk("bits", tz, SInt, nil, a)
	case isPow2(a) && f == "Len":
		return add(bitFn(tz, a), I(1))
	case isPow2(a) && f == "LeadingZeros":
		return sub(I(63), bitFn(tz, a))
	case f == "LeadingZeros":
		return sub(I(64), bitFn("math/bits.Len64", a))
	case f == "Len" && isPow2(add(a, I(1))):
		return bitFn(tz, add(a, I(1)))
	}
	return mk("bits", "math/bits."+f+"64", SInt, nil, a)
}

// rounding and logarithms; all other quantities are whole numbers
func mathFn(n string, a *Term) *Term {
	if n == "math.Log2" {
		if a.Op == "pow2" {
			return a.Args[0]
		}
		if k, ok := constI(a); ok && k > 0 && k&(k-1) == 0 {
			return I(int64(bits.TrailingZeros64(uint64(k))))
		}
		return mk("mathfn", n, SInt, nil, a)
	}
	logs := findTerms(a, func(t *Term) bool { return t.Op == "mathfn" && t.Str == "math.Log2" })
	switch {
	case n == "math.Abs":
		if proveLe0(neg(a), nil) {
			return a
		}
	case len(logs) == 0:
		return a
	case len(logs) == 1:
		l := logs[0]
		k := sub(a, l)
		if len(findTerms(k, func(t *Term) bool { return t == l })) > 0 {
			break
		}
		x := l.Args[0]
		switch {
		case n == "math.Ceil": // of a number of at least 1
			return add(bitFn("math/bits.Len64", sub(x, I(1))), k)
		case n == "math.Floor" || n == "math.Trunc" && proveLe0(neg(k), nil):
			return add(bitFn("math/bits.Len64", x), add(k, I(-1)))
		}
	}
	return mk("mathfn", n, SInt, nil, a)
}

// a small number as a field element
func i2f(n *Term) *Term {
	if n.Op == "ite" {
		return ite(n.Args[0], i2f(n.Args[1]), i2f(n.Args[2]))
	}
	return mk("i2f", "", SField, nil, n)
}

// a >> b
func shr(a, b *Term) *Term {
	if c, ok := constI(b); ok && c >= 0 && c < 62 {
		return idiv(a, I(1<<uint(c)))
	}
	if x := a; x.Op == "bits" && x.Str == "math/bits.Reverse64" {
		x = x.Args[0]
		// the reversal within n elements, n a power of two
		n := pow2(sub(I(64), b))
		if isPow2(n) && proveLe0(add(sub(x, n), I(1)), nil) && proveLe0(neg(x), nil) {
			return mkRev(n, x)
		}
	}
	return mk("shr", "", SInt, nil, a, b)
}

// field of an unknown value
func fieldOf(name string, so Sort, x *Term) *Term {
	if x.Op == "domain" && name == "Cardinality" {
		return np2e(x.Args[0])
	}
	return mk("f", name, so, nil, x)
}

func splitConst(t *Term) (*big.Int, *Term) {
	for _, m := range intOf(t).m {
		if len(m.v) == 0 {
			return m.c, sub(t, IB(m.c))
		}
	}
	return big.NewInt(0), t
}
func leadCoeff(t *Term) (int64, bool) {
	nf := intOf(t)
	if len(nf.m) == 0 || !nf.m[0].c.IsInt64() {
		return 0, false
	}
	return nf.m[0].c.Int64(), true
}

// comparisons of the same quantity with different constants: keep the
// weakest (in an or) or the strongest (in an and)
func absorbLe(ids []int, m map[int]*Term, weakest bool) []int {
	n := 0
	for _, id := range ids {
		if m[id].Op == "le0" {
			n++
		}
	}
	if n < 2 {
		return ids
	}
	best := map[*Term]int{}
	bc := map[*Term]*big.Int{}
	for _, id := range ids {
		if t := m[id]; t.Op == "le0" {
			c, lin := splitConst(t.Args[0])
			if o := bc[lin]; o == nil || (c.Cmp(o) < 0) == weakest {
				bc[lin], best[lin] = c, id
			}
		}
	}
	for lin, c := range bc {
		if c2 := bc[neg(lin)]; c2 != nil {
			s := new(big.Int).Add(c, c2) // lin <= -c, lin >= c2
			if weakest && s.Cmp(big1) <= 0 || !weakest && s.Sign() > 0 {
				return nil // always (or), never (and)
			}
		}
	}
	if len(best) == n {
		return ids
	}
	var out []int
	for _, id := range ids {
		if t := m[id]; t.Op == "le0" {
			if _, lin := splitConst(t.Args[0]); best[lin] != id {
				continue
			}
		}
		out = append(out, id)
	}
	return out
}

// ---------- counters

func mkCnt(T, v, body *Term) *Term {
	body = canonBool(body)
	if body == TFalse {
		return I(0)
	}
	if body == TTrue {
		return T
	}
	return mkCntRaw(T, bindMark(v, body))
}
func mkCntRaw(T, lam *Term) *Term {
	if isConst(T, 0) || lam.Args[0] == TFalse {
		return I(0)
	}
	if lam.Args[0] == TTrue {
		return T
	}
	if b := lam.Args[0]; b.Op == "not" { // count the simpler condition
		return sub(T, mkCntRaw(T, mk("lam", lam.Str, SBool, nil, b.Args[0])))
	}
	// one more element
	nf := intOf(T)
	for _, m := range nf.m {
		if len(m.v) == 0 && m.c.Sign() > 0 && m.c.IsInt64() && m.c.Int64() <= 4 && len(nf.m) > 1 {
			p := sub(T, I(1))
			return add(mkCntRaw(p, lam), ite(applyLam(lam, p), I(1), I(0)))
		}
	}
	if c, ok := constI(T); ok && sized != nil && c <= 64 {
		n := I(0)
		for i := int64(0); i < c; i++ {
			n = add(n, ite(applyLam(lam, I(i)), I(1), I(0)))
		}
		return n
	}
	return mk("cnt", "", SInt, nil, T, lam)
}

// the x-th index from 0 that satisfies lam
func mkNthRaw(lam, x *Term) *Term {
	if k, ok := constI(x); ok && sized != nil && k >= 0 {
		for i := int64(0); i < 64; i++ {
			switch applyLam(lam, I(i)) {
			case TTrue:
				if k == 0 {
					return I(i)
				}
				k--
			case TFalse:
			default:
				return mk("nth", "", SInt, nil, lam, x)
			}
		}
	}
	return mk("nth", "", SInt, nil, lam, x)
}

func mkNth(v, body, x *Term) *Term {
	return mkNthRaw(bindMark(v, canonBool(body)), x)
}

// atoms of a propositional formula
func boolAtoms(t *Term, m map[*Term]bool, out *[]*Term) {
	switch t.Op {
	case "true", "false":
	case "and", "or", "not":
		for _, a := range t.Args {
			boolAtoms(a, m, out)
		}
	case "ite":
		for _, a := range t.Args {
			boolAtoms(a, m, out)
		}
	default:
		k := t
		if n := not(t); n.Op != "not" && n.ID < t.ID {
			k = n
		}
		if !m[k] {
			m[k] = true
			*out = append(*out, k)
		}
	}
}

func assignAtom(t, a *Term, val bool) *Term {
	m := map[*Term]*Term{a: B(val)}
	if n := not(a); n.Op != "not" {
		m[n] = B(!val)
	}
	return subst(t, m)
}

// canonical form of a propositional formula over its atoms
func canonBool(t *Term) *Term {
	m := map[*Term]bool{}
	var at []*Term
	boolAtoms(t, m, &at)
	if len(at) > 8 || len(at) <= 1 {
		return t
	}
	sortTerms(at)
	var rec func(t *Term, i int) *Term
	rec = func(t *Term, i int) *Term {
		if t == TTrue || t == TFalse || i == len(at) {
			return t
		}
		hi := rec(assignAtom(t, at[i], true), i+1)
		lo := rec(assignAtom(t, at[i], false), i+1)
		if hi == lo {
			return hi
		}
		if hi == TTrue && lo == TFalse {
			return at[i]
		}
		if hi == TFalse && lo == TTrue {
			return not(at[i])
		}
		return mk("bdd", "", SBool, nil, at[i], hi, lo)
	}
	r := rec(t, 0)
	return unbdd(r)
}
func unbdd(t *Term) *Term {
	if t.Op != "bdd" {
		return t
	}
	return ite(t.Args[0], unbdd(t.Args[1]), unbdd(t.Args[2]))
}

// are two formulas equal under every assignment of their atoms?
func propEq(a, b *Term) bool {
	if a == b {
		return true
	}
	m := map[*Term]bool{}
	var at []*Term
	boolAtoms(a, m, &at)
	boolAtoms(b, m, &at)
	if len(at) > 10 {
		return false
	}
	var rec func(a, b *Term, i int) bool
	rec = func(a, b *Term, i int) bool {
		if a == b {
			return true
		}
		if i == len(at) {
			return false
		}
		return rec(assignAtom(a, at[i], true), assignAtom(b, at[i], true), i+1) &&
			rec(assignAtom(a, at[i], false), assignAtom(b, at[i], false), i+1)
	}
	return rec(a, b, 0)
}

// ---------- bytes

func byteOf(x *Term) *Term { return mk("b8", "", SBytes, nil, x) }

// the 16-bit number with the given high and low bytes
func joinBE(hi, lo *Term) *Term {
	if hi.Op == "bey" && lo.Op == "bey" && hi.Str == "2.0" && lo.Str == "2.1" && hi.Args[0] == lo.Args[0] {
		return mk("be2", "", SBytes, nil, hi.Args[0])
	}
	if hi.Op == "conv" && hi.Str == "u8" {
		hi = hi.Args[0]
	}
	if lo.Op == "conv" && lo.Str == "u8" {
		x := lo.Args[0]
		if hi == idiv(x, I(256)) {
			return mk("be2", "", SBytes, nil, x)
		}
	}
	return nil
}

// two bytes read from a file, as one big-endian number
func normBE(t *Term) *Term {
	nf := intOf(t)
	for _, m := range nf.m {
		if m.c.Cmp(big.NewInt(256)) == 0 && len(m.v) == 1 && m.v[0].e == 1 {
			h := m.v[0].a
			if h.Op == "rdint" && h.Str == "1" {
				l := mk("rdint", "1", SInt, nil, h.Args[0], add(h.Args[1], I(1)))
				for _, n := range nf.m {
					if n.c.Cmp(big1) == 0 && len(n.v) == 1 && n.v[0].a == l && n.v[0].e == 1 {
						return add(t, mulc(h, -256), neg(l), mk("rdint", "2", SInt, nil, h.Args[0], h.Args[1]))
					}
				}
			}
		}
	}
	return t
}

func blen(t *Term) *Term {
	switch t.Op {
	case "cat":
		r := I(0)
		for _, a := range t.Args {
			r = add(r, blen(a))
		}
		return r
	case "b8":
		return I(1)
	case "be2":
		return I(2)
	case "rdbytes":
		return t.Args[2]
	case "randbytes":
		return t.Args[0]
	case "sha256":
		return I(32)
	case "marsh":
		return I(map[string]int64{"1": 64, "2": 128, "1c": 32, "2c": 64}[t.Str])
	case "bslice":
		return t.Args[2]
	case "ite":
		return ite(t.Args[0], blen(t.Args[1]), blen(t.Args[2]))
	}
	if k, ok := hashLen[t.Op]; ok {
		return I(k)
	}
	return mk("len", "", SInt, nil, t)
}

func bslice(t, lo, n *Term) *Term {
	if isConst(n, 0) {
		return nilBytes
	}
	if isConst(lo, 0) && n == blen(t) {
		return t
	}
	if t.Op == "rdbytes" {
		return mk("rdbytes", "", SBytes, nil, t.Args[0], add(t.Args[1], lo), n)
	}
	if t.Op == "cat" {
		off := I(0)
		var in []*Term
		end := add(lo, n)
		started := false
		for _, p := range t.Args {
			if off == lo {
				started = true
			}
			if off == end && started {
				return cat(in...)
			}
			if started {
				in = append(in, p)
			}
			off = add(off, blen(p))
		}
		if off == end && started {
			return cat(in...)
		}
	}
	return mk("bslice", "", SBytes, nil, t, lo, n)
}

func byteAt(t, i *Term) *Term {
	switch t.Op {
	case "rdbytes":
		return mk("rdint", "1", SInt, nil, t.Args[0], add(t.Args[1], i))
	case "b8":
		if isConst(i, 0) {
			return t.Args[0]
		}
	case "be2":
		if isConst(i, 0) {
			return mk("bey", "2.0", SInt, nil, t.Args[0])
		}
		if isConst(i, 1) {
			return mk("bey", "2.1", SInt, nil, t.Args[0])
		}
	case "cat":
		off := int64(0)
		if k, ok := constI(i); ok {
			for _, p := range t.Args {
				n, ok := constI(blen(p))
				if !ok {
					break
				}
				if k < off+n {
					return byteAt(p, I(k-off))
				}
				off += n
			}
		}
	case "ite":
		return ite(t.Args[0], byteAt(t.Args[1], i), byteAt(t.Args[2], i))
	}
	return mk("byteat", "", SInt, nil, t, i)
}

// ---------- write lists

// w(kind, args...): one write
func wItem(kind string, args ...*Term) *Term { return mk("w", kind, SOther, nil, args...) }

// raw bytes written: one item per piece
func wbytes(b *Term) *Term {
	if b.Op == "cat" {
		var r []*Term
		for _, p := range b.Args {
			r = append(r, wbytes(p))
		}
		return wl(r...)
	}
	if b.Op == "ite" {
		return mkWite(b.Args[0], wbytes(b.Args[1]), wbytes(b.Args[2]))
	}
	if b.Op == "wlbytes" {
		return b.Args[0]
	}
	return mk("wb", "", SOther, nil, b)
}

func wl(ts ...*Term) *Term {
	var out []*Term
	push := func(t *Term) {
		// bytes of one 16-bit number written one by one
		if n := len(out); n > 0 && t.Op == "wb" && out[n-1].Op == "wb" {
			j := cat(out[n-1].Args[0], t.Args[0])
			if j.Op != "cat" {
				out[n-1] = wbytes(j)
				return
			}
		}
		// a slice written as its length and its elements
		if n := len(out); n > 0 && t.Op == "wloop" {
			if it := sliceItem(out[n-1], t); it != nil {
				out[n-1] = it
				return
			}
		}
		if sized != nil && t.Op == "w" && len(t.Args) == 1 {
			if j := len(out) - 1; j >= 0 && isPointItem(t) {
				for j >= 0 && out[j].Op == "w" && out[j].Str == t.Str && len(out[j].Args) == 1 {
					j--
				}
				if j >= 0 && out[j].Op == "w" && out[j].Str == "be4" && isConst(out[j].Args[0], int64(len(out)-j)) {
					var as []*Term
					for _, x := range append(out[j+1:], t) {
						as = append(as, x.Args[0])
					}
					out = append(out[:j], mk("w", t.Str[:2]+"s"+t.Str[2:]+"-list", SOther, nil, as...))
					return
				}
			}
		}
		// writes under one condition
		if n := len(out); n > 0 && t.Op == "wite" && out[n-1].Op == "wite" && t.Args[0] == out[n-1].Args[0] {
			u := out[n-1]
			m := wlIte(t.Args[0], wl(u.Args[1], t.Args[1]), wl(u.Args[2], t.Args[2]))
			out = append(out[:n-1], m.Args...)
			return
		}
		out = append(out, t)
	}
	for _, t := range ts {
		if t.Op == "wl" {
			for _, x := range t.Args {
				push(x)
			}
		} else {
			push(t)
		}
	}
	return mk("wl", "", SOther, nil, out...)
}

// sliceItem joins a 32-bit length and that many points (the encoding of a slice of points).
func sliceItem(l, loop *Term) *Term {
	if l.Op != "w" || l.Str != "be4" {
		return nil
	}
	n := l.Args[0]
	if n != loop.Args[0] && !(strings.HasPrefix(n.Op, "conv") && len(n.Args) == 1 && n.Args[0] == loop.Args[0]) {
		return nil
	}
	it := items(loop.Args[1].Args[0])
	if len(it) != 1 || it[0].Op != "w" || len(it[0].Args) != 1 {
		return nil
	}
	if k := it[0].Str; isPointItem(it[0]) {
		v := bv(lamLevel(loop.Args[1]))
		return mk("w", k[:2]+"s"+k[2:], SOther, nil, loop.Args[0], bindMark(sym("§i", SInt), subst1(it[0].Args[0], v, sym("§i", SInt))))
	}
	return nil
}

func isPointItem(t *Term) bool {
	switch t.Str {
	case "G1c", "G1r", "G2c", "G2r":
		return true
	}
	return false
}

func items(t *Term) []*Term {
	if t.Op == "wl" {
		return t.Args
	}
	return []*Term{t}
}

func mkWite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	return wlIte(c, wl(a), wl(b))
}

func wlIte(c, a, b *Term) *Term {
	x, y := a.Args, b.Args
	var pre, post []*Term
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		pre = append(pre, x[0])
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
		post = append([]*Term{x[len(x)-1]}, post...)
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 && len(y) == 0 {
		return wl(append(pre, post...)...)
	}
	if c.Op == "not" {
		c = c.Args[0]
		x, y = y, x
	}
	// write by write when both sides have the same shape
	if len(x) == len(y) {
		same := true
		var mid []*Term
		for i := range x {
			if x[i].Op == "w" && y[i].Op == "w" && x[i].Str == y[i].Str && len(x[i].Args) == len(y[i].Args) {
				var as []*Term
				for j := range x[i].Args {
					if x[i].Args[j].Sort != y[i].Args[j].Sort || x[i].Args[j].Op == "lam" {
						same = false
						break
					}
					as = append(as, ite(c, x[i].Args[j], y[i].Args[j]))
				}
				if !same {
					break
				}
				mid = append(mid, wItem(x[i].Str, as...))
			} else if x[i].Op == "wb" && y[i].Op == "wb" && x[i].Args[0].Op == "b8" && y[i].Args[0].Op == "b8" {
				mid = append(mid, wbytes(byteOf(ite(c, x[i].Args[0].Args[0], y[i].Args[0].Args[0]))))
			} else {
				same = false
				break
			}
		}
		if same {
			return wl(append(append(pre, mid...), post...)...)
		}
	}
	m := mk("wite", "", SOther, nil, c, wl(x...), wl(y...))
	return wl(append(append(pre, m), post...)...)
}

// the writes of body for v = 0..T-1
func mkWloop(T, v, body *Term) *Term {
	return mkWloopRaw(T, bindMark(v, wl(body)))
}
func mkWloopRaw(T, lam *Term) *Term {
	b := lam.Args[0]
	if b.Op == "wl" && len(b.Args) == 0 || isConst(T, 0) {
		return wl()
	}
	if c, ok := constI(T); ok && c >= 1 && (c <= 4 || sized != nil && c <= 64) {
		var r []*Term
		for i := int64(0); i < c; i++ {
			r = append(r, applyLam(lam, I(i)))
		}
		return wl(r...)
	}
	return mk("wloop", "", SOther, nil, T, lam)
}

// ---------- sums

// sum over v in [0,T) of body, collapsing terms that are nonzero for one v only
func sumOver(T, v, body *Term) *Term {
	if body.Sort == SGrp {
		r := G0
		for _, e := range grpOf(body) {
			r = gAdd(r, sumOne(T, v, e.b, e.c))
		}
		return r
	}
	return mkSum(T, v, body)
}

func sumOne(T, v, b, c *Term) *Term {
	whole := gScale(b, c)
	if b.Op == "ite" && (b.Args[2] == G0 || b.Args[1] == G0) {
		cond, val := b.Args[0], b.Args[1]
		if val == G0 {
			cond, val = not(cond), b.Args[2]
		}
		for _, l := range conj(cond) {
			if d, ok := eqOf(l); ok {
				if w, t := solveEq(d, v); w != nil && !contains(t, v) {
					inr := and(le(I(0), t), lt(t, T))
					return ite(and(inr, subst1(cond, v, t)), gScale(subst1(val, v, t), subst1(c, v, t)), G0)
				}
			}
		}
		// a condition not depending on v
		var in, out []*Term
		for _, l := range conj(cond) {
			if contains(l, v) {
				in = append(in, l)
			} else {
				out = append(out, l)
			}
		}
		if len(out) > 0 {
			return ite(and(out...), sumOver(T, v, gScale(ite(and(in...), val, G0), c)), G0)
		}
	}
	return mkSum(T, v, whole)
}

// is the point assumed different from infinity by assumption? (see loop.go)
func assumeNonzero(p *Term) { assumedNonzero[p] = true }

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
