package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

var checks = map[string]func(*Ctx){
	"C01": checkC01, "C02": checkC02, "C03": checkC03, "C04": checkC04, "C05": checkC05, "C06": checkC06, "C07": checkC07,
	"C08": checkC08, "C09": checkC09, "C10": checkC10, "C11": checkC11, "C12": checkC12,
	"C13": checkC13, "C14": checkC14, "C15": checkC15, "C16": checkC16, "C17": checkC17, "C18": checkC18, "C19": checkC19, "C20": checkC20, "C21": checkC21, "C22": checkC22, "C23": checkC23, "C24": checkC24, "C25": checkC25, "C26": checkC26, "C27": checkC27,
}

// checks of what an operation produces: one that crashes produces nothing
var producing = map[string]bool{"C04": true, "C05": true, "C06": true, "C07": true, "C10": true, "C13": true, "C14": true, "C18": true, "C19": true}

func runCheck(p *Program, id string) *Ctx {
	c := &Ctx{p: p, runs: map[string]*Run{}, id: id, funcs: map[string]bool{}}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("ZK_PANIC") != "" {
					panic(r)
				}
				c.undecided = append(c.undecided, fmt.Sprint("the analysis stopped: ", r))
			}
		}()
		checks[id](c)
		if producing[id] {
			for _, r := range c.runs {
				if r.ev != nil && len(r.ev.crashes) > 0 {
					c.viol = append(c.viol, r.Name+": it crashes on well-formed input: "+r.ev.crashes[0])
				}
			}
		}
	}()
	select {
	case <-done:
		return c
	case <-time.After(600 * time.Second):
		// the goroutine is abandoned; what it found so far isn't used
		return &Ctx{p: p, runs: map[string]*Run{}, id: id, funcs: map[string]bool{}, undecided: []string{"the analysis took too long"}}
	}
}

// one line per known finding: "open: property=<id> <text of the finding>"
func knownFindings(dir, id string) []string {
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "open: property="+id+" "); ok {
			out = append(out, s)
		}
	}
	return out
}

func dedupe(s []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func checkMain(repo, id, verif string) int {
	t0 := time.Now()
	f := checks[id]
	if f == nil {
		fmt.Println("no such check:", id)
		return 2
	}
	p, err := loadProgram(repo)
	if err != nil {
		fmt.Println("can't analyse the program:", err)
		return 2
	}
	c := runCheck(p, id)
	cases := runCases(p, id, c)
	var sr []sizedResult
	if len(c.undecided) > 0 && len(c.viol) == 0 || os.Getenv("VERIF_TIER") == "thorough" {
		sr = runSized(repo, id)
		for _, x := range sr {
			for _, v := range x.Viol {
				c.viol = append(c.viol, "with "+x.Size+": "+v)
			}
		}
	}
	var viol []string
	known := knownFindings(verif, id)
	for _, v := range dedupe(c.viol) {
		listed := false
		for _, k := range known {
			if k == v {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v)
				listed = true
			}
		}
		if !listed {
			viol = append(viol, v)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range c.funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var runs []string
	for k := range c.runs {
		runs = append(runs, k)
	}
	sort.Strings(runs)
	samples := c.samples
	if len(samples) > 60 {
		samples = samples[:60]
	}
	cov := map[string]any{
		"explanation":        ruleOf[id],
		"obligations":        c.obligations,
		"discharged":         c.discharged,
		"samples":            samples,
		"undecided":          dedupe(c.undecided),
		"at_fixed_sizes":     sizesRun(sr),
		"cases":              cases,
		"operations":         runs,
		"functions_analysed": fns,
		"call_sites":         c.sites,
		"transfer_steps":     c.steps,
		"exhaustive":         false,
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d undecided, %d violated (%d functions, %.1fs)\n", id, c.obligations, c.discharged, len(dedupe(c.undecided)), len(viol), len(fns), time.Since(t0).Seconds())
	for _, u := range dedupe(c.undecided) {
		fmt.Println("  undecided:", u)
	}
	if len(viol) == 0 {
		return 0
	}
	rep := filepath.Join(dir, id+".violation.txt")
	os.WriteFile(rep, []byte(strings.Join(viol, "\n\n")+"\n"), 0o644)
	for _, v := range viol {
		fmt.Println("  violated:", v)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rep)
	return 1
}

// runCases repeats an undecided check for each outcome of the conditions that
// choose between two objects (the file that could be opened, say): what is
// violated in one of the cases is violated
func runCases(p *Program, id string, c *Ctx) []string {
	ran := []string{}
	if len(c.undecided) == 0 || len(c.viol) > 0 || id == "C20" || id == "C16" || id == "C23" {
		return ran
	}
	var conds []*Term
	for k := range iteConds {
		l := k
		for l.Op == "not" || l.Op == "box" {
			l = l.Args[0]
		}
		switch l.Op {
		case "ok", "and", "errIs", "exists", "le0", "beq", "eq0", "samefile":
			if len(findTerms(l, func(t *Term) bool { return t.Op == "lam" || t.Op == "bound" })) == 0 && !unknown(l) {
				conds = append(conds, l)
			}
		}
	}
	conds = dedupeTerms(conds)
	sortTerms(conds)
	if len(conds) > 3 {
		conds = conds[:3]
	}
	t0 := time.Now()
	for _, l := range conds {
		if time.Since(t0) > 150*time.Second {
			break
		}
		for _, v := range []*Term{l, not(l)} {
			if v.Op == "or" || v.Op == "not" && v.Args[0].Op == "and" {
				continue
			}
			assumed = []*Term{v}
			k := runCheck(p, id)
			assumed = nil
			ran = append(ran, show(v))
			for _, x := range k.viol {
				// what isn't assumed where it is decided says nothing of the
				// conditions for success: only of what is written
				if strings.Contains(x, "but it writes") && caseOf(l, x) {
					c.viol = append(c.viol, "when "+opKey(show(v))+": "+x)
				}
			}
		}
	}
	return ran
}

// caseOf tells whether the violation is one of an operation the condition is
// evaluated in
func caseOf(l *Term, viol string) bool {
	i := strings.Index(viol, " writes ")
	if i < 0 {
		return false
	}
	f := strings.Fields(viol[:i])
	if len(f) == 0 {
		return false
	}
	if len(findTerms(l, func(t *Term) bool { return t.Op == "ok" })) == 0 {
		return true
	}
	return strings.Contains(show(l), f[len(f)-1]+"@")
}

func dedupeTerms(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

// what the second look covered
func sizesRun(sr []sizedResult) []string {
	out := []string{}
	for _, x := range sr {
		n := x.Note
		if n == "" {
			n = fmt.Sprintf("%d violated, %d undecided", len(x.Viol), len(x.Undecided))
		}
		out = append(out, x.Size+": "+n)
	}
	return out
}

var assumptions = []string{
	"gnark, gnark-crypto, urfave/cli and the standard library behave as documented; their functions are summarised by hand",
	"equal value numbers imply equal values: group, field and integer arithmetic is compared in normal form",
	"integers don't overflow (sizes of files and circuits are far below 2^63)",
}

var ruleOf = map[string]string{
	"C01": "phase1.Verify is evaluated; the equations its success implies must include, for every contribution of the file, the three proofs of knowledge, the five update ratios and the recorded hash.",
	"C02": "phase1.Verify's success must imply, per section, a random linear combination whose coefficients are fresh and whose index range covers every consecutive pair, plus the section starts.",
	"C03": "phase1.Verify's success must anchor the first contribution at the generators, or at the file given, read at the offsets its power implies.",
	"C04": "the content phase1.Contribute writes after the header is compared, element by element for a symbolic power, with the input's content multiplied by the specified powers of the three secrets.",
	"C05": "the header and records phase1.Contribute writes are compared with the old ones plus one specified record.",
	"C06": "the content phase1.Initialize writes is compared with the specified one for a symbolic power.",
	"C07": "the content phase1.Transform writes is compared with the specified one for symbolic powers.",
	"C08": "phase2.Verify's success must imply, for every contribution, the proof of knowledge of δ, the update ratio and the recorded hash.",
	"C09": "phase2.Verify's success must imply equal ratios of δ in both groups, random linear combinations over every point of Z and of the private section with fresh coefficients, and equal dimensions.",
	"C10": "the content phase2.Contribute writes is compared with the specified one.",
	"C11": "the bytes hashed by the hash functions and the arguments of challenges are compared with the specified ones, for contributing and verifying; what is printed must be the recorded hash.",
	"C12": "success of verification must imply that no public key point is the point at infinity and that there is a contribution.",
	"C13": "the files phase 2 initialization writes are compared with sums over constraints and terms built from the circuit.",
	"C14": "the files of both initializations are compared under the correspondence of circuit parts; success must imply the constraint count given is the circuit's.",
	"C15": "the selection conditions and order of the three sections and the announced counts are compared with the roles of wires.",
	"C16": "both conversions are evaluated on symbolic points with their loops, goroutines and recursion unrolled, for domains of 1 to 256 elements and several numbers of CPUs; every element of the result must be the specified linear combination, coefficients in powers of the inverse root of unity.",
	"C17": "success of initialization must imply the capacity bound; the domain is compared with the smallest power of two; ranges accepted by the actions are read off the conditions of their success.",
	"C18": "the content of the proving key files is compared with the prover's layout over the phase 2 and evaluation files.",
	"C19": "the content of the verifying key files is compared with the verifier's layout over the phase 2 and evaluation files.",
	"C20": "for every operation, every failure of a call that can fail must contradict success, and no buffer holds unwritten data when success is reported.",
	"C21": "every secret and coefficient must originate in its own draw from the cryptographic source whose success is required.",
	"C22": "no term derived from a secret may reach a file, the output or an error other than as a scalar of a group element.",
	"C23": "the parallel helper is evaluated for 0 to 20 items and 1 to 9 CPUs: its shares must partition the items; operations that start goroutines are evaluated with every access and synchronisation recorded, and conflicting accesses the happens-before order leaves unordered, or work that isn't awaited, are violations. For every number of items, the accesses of each parallel call's work are compared across shares in the summaries.",
	"C24": "modes and paths of every file opened or created, with the conditions under which creation happens.",
	"C25": "main and every action of the command table are evaluated on an arbitrary command line: the numbers of arguments under which the operation is reached, the provenance of each of its arguments, the conversions its reaching implies, and that success of the action implies success of the operation.",
	"C26": "decoders and readers used on untrusted files, along every path of every operation.",
	"C27": "the file the export writes and the failures its success excludes.",
}
