package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
)

func init() {
	setBounds(xs, []*Term{I(0)}, nil)
	setBounds(xs2, []*Term{I(0)}, nil)
}

func main() {
	repo := "/repo"
	if d := os.Getenv("ZK_REPO"); d != "" {
		repo = d
	}
	if f := os.Getenv("ZK_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(400)
	if len(os.Args) > 2 && os.Args[1] == "check" {
		verif := "."
		if d := os.Getenv("ZK_VERIF"); d != "" {
			verif = d
		}
		os.Exit(checkMain(repo, os.Args[2], verif))
	}
	if len(os.Args) > 2 && os.Args[1] == "nsized" {
		fmt.Println(len(sizesOf[os.Args[2]]))
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "sized" {
		k, _ := strconv.Atoi(os.Args[3])
		os.Exit(sizedMain(repo, os.Args[2], k))
	}
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Println(err)
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		debugLoops = true
		i := strings.LastIndex(os.Args[2], ".")
		if z := os.Getenv("ZK_SIZED"); z != "" { // "C04 0": dump at that size
			k, _ := strconv.Atoi(z[4:])
			sized = sizesOf[z[:3]][k]
		}
		dumpRoot(p, os.Args[2][:i], os.Args[2][i+1:])
	}
}

func dumpRoot(p *Program, pkg, name string) {
	fn := p.fn(pkg, name)
	if fn == nil {
		fmt.Println("no function")
		return
	}
	ev := newEv(p)
	st := newState()
	var args []Value
	for _, q := range fn.Params {
		so := SOther
		if s, ok := atomSort(q.Type()); ok {
			so = s
		}
		args = append(args, symVal(q.Type(), sym(q.Name(), so)))
	}
	v, s := ev.callFn(fn, args, nil, st, "")
	tv, ok := v.(TupleV)
	if !ok {
		tv = TupleV{v}
	}
	for _, x := range tv {
		if e, ok := x.(*ErrV); ok && e.ok.Op == "box" {
			fmt.Println("success needs")
			for _, l := range conj(e.ok.Args[0]) {
				fmt.Println("    []", l)
			}
		} else {
			fmt.Println("result", showVal(x))
		}
	}
	if s == nil {
		return
	}
	for _, o := range s.objs() {
		if strings.HasPrefix(o.key, "content:") {
			fmt.Println("CONTENT", o.key)
			for _, it := range items(s.heap[o].(*Term)) {
				fmt.Println("   ", it)
			}
		}
	}
	fmt.Println("GUARD")
	for _, g := range lits(s.guard) {
		fmt.Println("   ", g)
	}
	fmt.Println("ASSUME")
	for _, g := range lits(s.assume) {
		if g.Op == "box" {
			for _, x := range conj(g.Args[0]) {
				fmt.Println("    []", x)
			}
		} else {
			fmt.Println("   ", g)
		}
	}
	fmt.Println("POISON", s.poison)
	var ns []string
	for n := range ev.notes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		fmt.Println("NOTE", n)
	}
	for _, e := range ev.events {
		fmt.Println("EVENT", e.kind, e.args, e.fn)
	}
	fmt.Println("steps", ev.steps, "terms", termN)
}
