package main

// A second look at fixed sizes. Where the inductive summaries leave an
// obligation undecided, the same check is evaluated again with the sizes an
// operation depends on (power of a phase 1 file, counts in a header, wires of
// a circuit) set to given values, so that loops the analyser can't summarise
// are unrolled. This can only refute: a violation at one size is a violation;
// holding at these sizes doesn't discharge anything.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type sizes map[string]int64

var sized sizes

func sizeOf(op, str string, args []*Term) (int64, bool) {
	name := ""
	switch op {
	case "rdint":
		if len(args) != 2 {
			return 0, false
		}
		pos, ok := constI(args[1])
		if !ok {
			return 0, false
		}
		switch {
		case str == "1" && pos == 0:
			name = "power"
		case str == "2" && pos == 1:
			name = "contributions"
		case str == "1" && pos == 1:
			if v, ok := sized["contributions"]; ok {
				return v >> 8, true
			}
		case str == "1" && pos == 2:
			if v, ok := sized["contributions"]; ok {
				return v & 255, true
			}
		}
		if v, ok := sized[name+"@"+args[0].Str]; ok {
			return v, true
		}
	case "f", "sys":
		name = str
	case "nbcons":
		name = "nbcons"
	case "sym":
		name = "sym:" + str
	case "ncpu":
		name = "ncpu"
	case "np2":
		n, ok := constI(args[0])
		if !ok || n < 0 || n > 1<<40 {
			return 0, false
		}
		r := int64(2)
		for r < n {
			r *= 2
		}
		return r, true
	default:
		return shapeInt(op, args)
	}
	if name == "" {
		return 0, false
	}
	v, ok := sized[name]
	return v, ok
}

// ---------- the shape of a circuit: which wires its constraints use, with
// which coefficients, and what it commits to

type shape struct {
	lens      [3]int64 // terms on the left, right and output side
	wires     int64
	cmt       bool
	cmtIndex  int64
	committed []int64
}

var shapes = []shape{
	{[3]int64{3, 3, 3}, 7, true, 4, []int64{2, 5}},
	{[3]int64{1, 2, 2}, 4, false, 0, nil},
	{[3]int64{1, 1, 2}, 6, true, 2, nil},
	{[3]int64{1, 1, 0}, 5, true, 3, []int64{1, 2}},
}
var shapeSizes = []sizes{
	{"shape": 0, "nbcons": 6, "NbPublicVariables": 2, "NbSecretVariables": 2, "NbInternalVariables": 3, "sym:nbCons": 6, "CommitmentIndex": 4, "NbPrivateCommitted": 2},
	{"shape": 1, "nbcons": 2, "NbPublicVariables": 1, "NbSecretVariables": 1, "NbInternalVariables": 2, "sym:nbCons": 2, "CommitmentIndex": 0, "NbPrivateCommitted": 0},
	{"shape": 2, "nbcons": 2, "NbPublicVariables": 2, "NbSecretVariables": 0, "NbInternalVariables": 4, "sym:nbCons": 2, "CommitmentIndex": 2, "NbPrivateCommitted": 0},
	{"shape": 1, "nbcons": 8, "NbPublicVariables": 1, "NbSecretVariables": 1, "NbInternalVariables": 2, "sym:nbCons": 8, "CommitmentIndex": 0, "NbPrivateCommitted": 0},
	{"shape": 3, "nbcons": 1, "NbPublicVariables": 1, "NbSecretVariables": 1, "NbInternalVariables": 3, "sym:nbCons": 1, "CommitmentIndex": 3, "NbPrivateCommitted": 2},
}

func theShape() *shape {
	if k, ok := sized["shape"]; ok {
		return &shapes[k]
	}
	return nil
}

var sideNr = map[string]int64{"L": 0, "R": 1, "O": 2}

// side and number of a constraint's list of terms
func sideOf(t *Term) (side, j int64, ok bool) {
	if t.Op != "f" || t.Args[0].Op != "constr" {
		return
	}
	side, ok = sideNr[t.Str]
	if !ok {
		return
	}
	j, ok = constI(t.Args[0].Args[1])
	return
}

func shapeInt(op string, args []*Term) (int64, bool) {
	s := theShape()
	if s == nil {
		return 0, false
	}
	switch op {
	case "len":
		if args[0].Op == "privCommitted" {
			return int64(len(s.committed)), true
		}
		if k, _, ok := sideOf(args[0]); ok {
			return s.lens[k], true
		}
	case "sel":
		if args[0].Op == "privCommitted" {
			if i, ok := constI(args[1]); ok && i >= 0 && i < int64(len(s.committed)) {
				return s.committed[i], true
			}
		}
	case "wid", "cid":
		if args[0].Op != "sel" {
			return 0, false
		}
		side, j, ok := sideOf(args[0].Args[0])
		t, ok2 := constI(args[0].Args[1])
		if !ok || !ok2 {
			return 0, false
		}
		if op == "wid" {
			return (3*side + 2*j + 5*t + j*t) % s.wires, true
		}
		return (2*side + 3*j + t + 1) % 7, true
	}
	return 0, false
}

func init() {
	boolHook = func(op string, args []*Term) (*Term, bool) {
		v, ok := shapeBool(op, args)
		return B(v), ok
	}
}

func shapeBool(op string, args []*Term) (bool, bool) {
	switch op {
	case "cmtIs":
		if s := theShape(); s != nil {
			return s.cmt, true
		}
	case "member":
		if s := theShape(); s != nil && args[0].Op == "privCommitted" {
			if u, ok := constI(args[2]); ok {
				for _, c := range s.committed {
					if c == u {
						return true, true
					}
				}
				return false, true
			}
		}
	case "geq0": // which points of a list are infinity
		if _, ok := sized["infinities"]; ok {
			if a := args[0]; (a.Op == "rdG1" || a.Op == "rdG2") && a.Args[0] == str("evals") {
				if p, ok := constI(a.Args[1]); ok {
					return p/4%3 == 1, true
				}
			}
		}
	}
	return false, false
}

// the coefficient table of a circuit
func shapeCoeff(arr, i *Term) *Term {
	if theShape() != nil && arr.Op == "f" && arr.Str == "Coefficients" {
		if k, ok := constI(i); ok && k >= 0 && k < int64(len(coeffTab)) {
			return F(coeffTab[k])
		}
	}
	return nil
}

// a list whose length is known, element by element
func listed(t *Term) *Term {
	if sized == nil || t.Op != "w" || len(t.Args) != 2 || t.Args[1].Op != "lam" {
		return t
	}
	n, ok := constI(t.Args[0])
	if !ok || n > 64 {
		return t
	}
	var as []*Term
	for i := int64(0); i < n; i++ {
		as = append(as, applyLam(t.Args[1], I(i)))
	}
	return mk("w", t.Str+"-list", SOther, nil, as...)
}

// the sections of witness polynomials for a circuit of a given shape
func (c *Ctx) sectionsSized(r *Run) {
	s := theShape()
	x := circ{circuitOf(r.Args[1]), r.Args[0]}
	var secs [3][]*Term
	for u := int64(0); u < s.wires; u++ {
		for i, w := range x.wants(I(u)) {
			if w == TTrue {
				secs[i] = append(secs[i], I(u))
			}
		}
	}
	sz := x.sizes()
	for i := range sz {
		if sz[i] != I(int64(len(secs[i]))) {
			c.oblige(r.Name+": sections of the given shape", false, true, "it is inconsistent")
			return
		}
	}
	el := func(us []*Term) []*Term {
		var out []*Term
		for _, u := range us {
			out = append(out, x.K(u))
		}
		return out
	}
	got, ev := explode(r.content(r.Args[2])), explode(r.content(str("evals")))
	hdr := func(i int, what string, w *Term) {
		if g := got[0].Args[0].Args[i]; g != w {
			c.oblige(r.Name+": the header announces the right "+what, false, unknown(g), "it announces "+show(g)+" instead of "+show(w))
		}
	}
	if len(got) == 0 || got[0].Op != "w" || got[0].Str != "gob" || got[0].Args[0].Op != "struct" || len(got[0].Args[0].Args) != 7 {
		return
	}
	hdr(0, "Wires", x.wires())
	hdr(1, "Witness", sz[0])
	hdr(2, "Public", sz[1])
	hdr(3, "PrivateCommitted", sz[2])
	p := ph1{f: x.phase1}
	n := x.n()
	w := func(what string, t *Term) want { return want{c.id, what, t} }
	spec := []want{w("header", got[0]), w("[δ]₁ is the generator", wG1(gen1)), w("[δ]₂ is the generator", wG2(gen2)),
		w("Z in bit-reversed order", loopW(sub(n, I(1)), func(i *Term) *Term {
			j := mkRev(n, i)
			return wG1(gAdd(p.tauG1(add(n, j)), gNeg(p.tauG1(j))))
		}))}
	for i, k := range el(secs[0]) {
		spec = append(spec, w("wire "+show(secs[0][i])+" in the private section", wG1(k)))
	}
	c.compare(r, r.Args[2], got, spec)
	side := func(s, g string, l int) *Term {
		return wItem2("G"+g+"sc", x.wires(), func(i *Term) *Term { return x.poly(s, i, g, x.lagr(l)) })
	}
	c.compare(r, str("evals"), ev, []want{
		w("[α]₁ of phase 1", wG1(p.alpha(I(0)))), w("[β]₁ of phase 1", wG1(p.beta(I(0)))), w("[β]₂ of phase 1", wG2(p.betaG2())),
		w("A from the left terms", side("L", "1", 0)), w("B from the right terms", side("R", "1", 0)), w("B in G2 from the right terms", side("R", "2", 3)),
		w("the public section", mk("w", "G1sc-list", SOther, nil, el(secs[1])...)), w("the commitment section", mk("w", "G1sc-list", SOther, nil, el(secs[2])...)),
		w("the circuit's description of the commitment", wItem("gob", x.info())),
	})
}

var ph1Sizes = []sizes{
	{"power": 1, "contributions": 1},
	{"power": 2, "contributions": 2},
	{"power": 21, "contributions": 1},
	{"power": 27, "contributions": 1},
}
var ph2Sizes = []sizes{
	{"Domain": 2, "Witness": 1, "Contributions": 1},
	{"Domain": 4, "Witness": 3, "Contributions": 2},
	{"Domain": 1 << 21, "Witness": 1<<20 + 1, "Contributions": 1},
	{"Domain": 1 << 27, "Witness": 7, "Contributions": 3},
}
var keySizes = []sizes{
	{"Wires": 2, "Witness": 1, "Domain": 2, "Public": 1, "PrivateCommitted": 0, "infinities": 1},
	{"Wires": 5, "Witness": 3, "Domain": 4, "Public": 2, "PrivateCommitted": 1, "infinities": 1},
	{"Wires": 1 << 27, "Witness": 1<<27 - 7, "Domain": 1 << 27, "Public": 5, "PrivateCommitted": 2},
}

var sizesOf = map[string][]sizes{
	"C01": ph1Sizes, "C02": ph1Sizes, "C03": ph1Sizes, "C04": ph1Sizes, "C05": ph1Sizes[:2], "C12": append(append([]sizes{}, ph1Sizes...), ph2Sizes...),
	"C06": {{"sym:power": 1}, {"sym:power": 2}, {"sym:power": 17}, {"sym:power": 21}, {"sym:power": 26}},
	"C07": {{"power": 3, "sym:p": 3, "sym:q": 1}, {"power": 4, "sym:p": 4, "sym:q": 4}, {"power": 22, "sym:p": 22, "sym:q": 21}, {"power": 28, "sym:p": 28, "sym:q": 26}},
	"C08": ph2Sizes, "C09": ph2Sizes, "C10": ph2Sizes,
	"C11": append(append([]sizes{}, ph1Sizes...), ph2Sizes...),
	"C13": shapeSizes, "C14": shapeSizes, "C15": shapeSizes,
	"C17": {{"nbcons": 1, "sym:nbCons": 1}, {"nbcons": 2, "sym:nbCons": 2}, {"nbcons": 3, "sym:nbCons": 3}, {"nbcons": 4, "sym:nbCons": 4}, {"nbcons": 5, "sym:nbCons": 5}},
	"C18": keySizes, "C19": keySizes,
}

func (s sizes) String() string {
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = strings.TrimPrefix(k, "sym:") + "=" + strconv.FormatInt(s[k], 10)
	}
	return strings.Join(ks, ", ")
}

type sizedResult struct {
	Size      string
	Viol      []string
	Undecided []string
	Note      string
}

// child process: one check at one size
func sizedMain(repo, id string, k int) int {
	p, err := loadProgram(repo)
	if err != nil {
		return 2
	}
	sized = sizesOf[id][k]
	c := runCheck(p, id)
	b, _ := json.Marshal(sizedResult{sized.String(), dedupe(c.viol), dedupe(c.undecided), ""})
	os.Stdout.Write(append(b, '\n'))
	return 0
}

func runSized(repo, id string) []sizedResult {
	vs := sizesOf[id]
	out := make([]sizedResult, len(vs))
	sem := make(chan bool, 4)
	var wg sync.WaitGroup
	for k := range vs {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			out[k].Size = vs[k].String()
			cmd := exec.Command(os.Args[0], "sized", id, strconv.Itoa(k))
			cmd.Env = append(os.Environ(), "ZK_REPO="+repo)
			t := time.AfterFunc(200*time.Second, func() { cmd.Process.Kill() })
			b, err := cmd.Output()
			t.Stop()
			if err != nil {
				out[k].Note = fmt.Sprint("no result: ", err)
				return
			}
			if i := strings.LastIndex(strings.TrimSpace(string(b)), "\n"); i >= 0 {
				b = b[i+1:]
			}
			if json.Unmarshal(b, &out[k]) != nil {
				out[k].Note = "no result"
			}
		}(k)
	}
	wg.Wait()
	return out
}

// element k of the points lam(0..n-1) converted to the Lagrange basis
func mkLagr(g string, n, domain, lam, k *Term) *Term {
	if c, ok := constI(n); ok && sized != nil && c <= 64 && lam.Op == "lam" {
		var as []*Term
		for i := int64(0); i < c; i++ {
			as = append(as, applyLam(lam, I(i)))
		}
		lam = mk("list", "", SOther, nil, as...)
	}
	return mk("lagr", g, SGrp, nil, n, domain, lam, k)
}
