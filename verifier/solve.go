package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

type solverStat struct {
	n    int
	secs float64
}

var (
	statMu      sync.Mutex
	solverStats = map[string]*solverStat{}
	workDir     string
	dumpDir     = os.Getenv("VV_DUMP")
	sem         = make(chan struct{}, 8)
	proveCache  = map[[32]byte]bool{}
)

func addStat(s string, d float64) {
	statMu.Lock()
	defer statMu.Unlock()
	st := solverStats[s]
	if st == nil {
		st = &solverStat{}
		solverStats[s] = st
	}
	st.n++
	st.secs += d
}

// timeScale stretches every solver limit (second attempt).
var timeScale = 1.0

// runSolver returns unsat / sat / unknown / timeout and the raw output.
func runSolver(ctx context.Context, name, file string, secs float64) (string, string) {
	var cmd *exec.Cmd
	secs *= timeScale
	c, cancel := context.WithTimeout(ctx, time.Duration((secs+2)*float64(time.Second)))
	defer cancel()
	switch name {
	case "z3-new", "z3":
		cmd = exec.CommandContext(c, name, fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000", file)
	case "z3-new-nombqi":
		cmd = exec.CommandContext(c, "z3-new", fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000", "smt.mbqi=false", "smt.random_seed=7", file)
	case "z3-new-arith2":
		cmd = exec.CommandContext(c, "z3-new", fmt.Sprintf("-T:%d", int(secs+0.999)), "-memory:3000", "smt.arith.solver=2", "smt.mbqi=false", file)
	case "cvc5":
		cmd = exec.CommandContext(c, "cvc5", fmt.Sprintf("--tlimit=%d", int(secs*1000)), "--strings-exp", "--enum-inst", file)
	}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	addStat(strings.SplitN(name, "-nombqi", 2)[0], time.Since(t0).Seconds())
	o := out.String()
	first := ""
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			first = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			return "error", o
		}
	}
	if first == "" {
		first = "timeout"
	}
	return first, o
}

var fileSeq int
var fileMu sync.Mutex

func writeScript(s string) string {
	fileMu.Lock()
	fileSeq++
	n := fileSeq
	fileMu.Unlock()
	f := filepath.Join(workDir, fmt.Sprintf("q%06d.smt2", n))
	_ = os.WriteFile(f, []byte(s), 0o644)
	return f
}

// proveAll: quick checks used for invariant inference.
func (x *Exec) proveAll(facts []*Term, hyp *Term, goals []*Term, brief bool) []bool {
	b0, b1 := 2.0, 5.0
	if brief {
		b0, b1 = 1, 4
	}
	res := make([]bool, len(goals))
	start := time.Now()
	var wg sync.WaitGroup
	for i := range res {
		res[i] = true
	}
	type piece struct {
		i int
		t *Term
	}
	var pieces []piece
	for i, g := range goals {
		for _, q := range splitGoal(g) {
			if t := mkImp(hyp, q); t != tTrue {
				pieces = append(pieces, piece{i, t})
			}
		}
	}
	for _, pc := range pieces {
		i, t := pc.i, pc.t
		scr := emitVC(facts, t, "")
		scr0 := pruned(facts, t)
		h := sha256.Sum256([]byte(scr))
		statMu.Lock()
		v, ok := proveCache[h]
		if ok {
			res[i] = res[i] && v
		}
		statMu.Unlock()
		if ok {
			continue
		}
		wg.Add(1)
		go func(i int, scr string, scr0 []string, h [32]byte) {
			defer wg.Done()
			sem <- struct{}{}
			statMu.Lock()
			dead := !res[i]
			statMu.Unlock()
			if dead {
				<-sem
				return
			}
			es := easier(scr, scr0)
			for k, a := range es {
				f := writeScript(a)
				var r string
				if k < len(es)-1 || brief {
					r, _ = runSolver(context.Background(), "z3-new-arith2", f, b0)
				} else {
					r, _ = runSolver(context.Background(), "z3-new-arith2", f, 2*b0)
					if r != "unsat" {
						r, _ = runSolver(context.Background(), "z3", f, b0)
					}
				}
				os.Remove(f)
				if r == "unsat" {
					<-sem
					statMu.Lock()
					proveCache[h] = true
					statMu.Unlock()
					return
				}
			}
			f := writeScript(scr)
			r, o := runSolver(context.Background(), "z3-new", f, b1)
			if r == "error" && os.Getenv("VV_ERR") != "" {
				fmt.Println("SOLVER ERROR", f, o)
			}
			if (r == "unknown" || r == "timeout") && !brief {
				r, _ = runSolver(context.Background(), "z3-new-arith2", f, 3)
			}
			if os.Getenv("VV_KEEP") == "" {
				os.Remove(f)
			}
			<-sem
			if k := os.Getenv("VV_FAILDIR"); k != "" && r != "unsat" && i < len(proveNames) {
				n := regexp.MustCompile(`[^\w=,]`).ReplaceAllString(proveNames[i], "_")
				_ = os.WriteFile(filepath.Join(k, fmt.Sprintf("%s_%d.smt2", n, time.Now().UnixNano()%1e9)), []byte("; "+r+"\n"+scr), 0o644)
				for j, a := range easier(scr, scr0) {
					_ = os.WriteFile(filepath.Join(k, fmt.Sprintf("%s_v%d.smt2", n, j)), []byte(a), 0o644)
				}
			}
			statMu.Lock()
			res[i] = res[i] && r == "unsat"
			proveCache[h] = r == "unsat"
			statMu.Unlock()
		}(i, scr, scr0, h)
	}
	wg.Wait()
	if os.Getenv("VV_INV") != "" {
		nt := 0
		for _, r := range res {
			if r {
				nt++
			}
		}
		fmt.Printf("  [prove] %d/%d in %.1fs\n", nt, len(res), time.Since(start).Seconds())
	}
	return res
}

var instMu sync.Mutex

// solveObl decides one obligation with a portfolio.
func solveScript(scr string, scr0 []string, inst func() string, budget float64) (status, solver string, secs float64, out string) {
	t0 := time.Now()
	sem <- struct{}{}
	for _, a := range easier(scr, scr0) {
		f := writeScript(a)
		r, _ := runSolver(context.Background(), "z3-new", f, 3)
		os.Remove(f)
		if r == "unsat" {
			<-sem
			return r, "z3-new", time.Since(t0).Seconds(), ""
		}
	}
	f := writeScript(scr)
	quick := 4.0
	r, o := runSolver(context.Background(), "z3-new", f, quick)
	if q := ""; r != "unsat" && r != "sat" && r != "error" {
		instMu.Lock()
		q = inst()
		instMu.Unlock()
		if q != "" {
			fi := writeScript(q)
			ri, _ := runSolver(context.Background(), "z3-new-arith2", fi, 5)
			os.Remove(fi)
			if ri == "unsat" {
				r = ri
			}
		}
	}
	<-sem
	defer func() {
		if dumpDir == "" {
			os.Remove(f)
		}
	}()
	if r == "unsat" || r == "sat" {
		return r, "z3-new", time.Since(t0).Seconds(), o
	}
	if r == "error" {
		return "error", "z3-new", time.Since(t0).Seconds(), o
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct{ r, s, o string }
	ch := make(chan ans, 5)
	ss := []string{"z3-new-nombqi", "cvc5", "z3-new", "z3-new-arith2"}
	if !strings.Contains(scr, "(define-sort Str () String)") {
		ss = append(ss, "z3")
	}
	for _, s := range ss {
		go func(s string) {
			sem <- struct{}{}
			defer func() { <-sem }()
			if ctx.Err() != nil {
				ch <- ans{"timeout", s, ""}
				return
			}
			r, o := runSolver(ctx, s, f, budget)
			ch <- ans{r, s, o}
		}(s)
	}
	st, so, oo := r, "z3-new", o
	for range ss {
		a := <-ch
		if a.r == "unsat" {
			cancel()
			return "unsat", a.s, time.Since(t0).Seconds(), a.o
		}
		if a.r == "sat" && st != "sat" && a.s != "z3" {
			st, so, oo = "sat", a.s, a.o
		}
	}
	return st, so, time.Since(t0).Seconds(), oo
}

// proveNames names the goals of the next proveAll call (debugging only).
var proveNames []string

var numeralRe = regexp.MustCompile(`\b(\d+)(?:\.0)?\b`)

// modelOf re-runs z3-new asking for a model and returns its text.
func modelOf(scr string) string {
	f := writeScript(scr + "(get-model)\n")
	defer os.Remove(f)
	_, o := runSolver(context.Background(), "z3-new", f, 5)
	if len(o) > 20000 {
		o = o[:20000]
	}
	return o
}

var sumMemo = map[*Term]bool{}

func hasSum(t *Term) bool {
	if v, ok := sumMemo[t]; ok {
		return v
	}
	r := t.op == "app" && (strings.HasPrefix(t.name, "sum!") || strings.HasPrefix(t.name, "msum!"))
	for _, a := range t.args {
		if r {
			break
		}
		r = hasSum(a)
	}
	sumMemo[t] = r
	return r
}

var quantMemo = map[*Term]int{}

// quantDepth: nesting depth of quantifiers (an existential counts twice).
func quantDepth(t *Term) int {
	if v, ok := quantMemo[t]; ok {
		return v
	}
	d := 0
	for _, a := range t.args {
		if k := quantDepth(a); k > d {
			d = k
		}
	}
	switch t.op {
	case "forall":
		d++
	case "exists":
		d += 2
	}
	quantMemo[t] = d
	return d
}

// pruned: the same question with fewer hypotheses (unsat still means proved):
// without those about sums, if the goal is not about sums, and without those
// with nested quantifiers, if the goal has none.  Cheapest question first.
func pruned(facts []*Term, goal *Term) []string {
	filter := func(keep func(f *Term) bool) string {
		var fs []*Term
		for _, f := range facts {
			if keep(f) {
				fs = append(fs, f)
			}
		}
		if len(fs) == len(facts) {
			return ""
		}
		return emitVC(fs, goal, "")
	}
	var out []string
	add := func(q string) {
		if q == "" || len(out) > 0 && out[len(out)-1] == q {
			return
		}
		out = append(out, q)
	}
	ns, nq := !hasSum(goal), quantDepth(goal) < 2
	if ns && nq {
		add(filter(func(f *Term) bool { return !hasSum(f) && quantDepth(f) < 2 }))
	}
	if ns {
		add(filter(func(f *Term) bool { return !hasSum(f) }))
	} else {
		gs := map[string]bool{}
		sumNames(goal, gs, map[*Term]bool{})
		var fs []*Term
		for _, f := range facts {
			m := map[string]bool{}
			sumNames(f, m, map[*Term]bool{})
			ok := !nq || quantDepth(f) < 2
			for k := range m {
				ok = ok && gs[k]
			}
			if ok {
				fs = append(fs, f)
			}
		}
		add(emitVC(fs, goal, "lite"))
		if nq {
			add(filter(func(f *Term) bool { return quantDepth(f) < 2 }))
		}
	}
	return out
}

func sumNames(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "app" && (strings.HasPrefix(t.name, "sum!") || strings.HasPrefix(t.name, "msum!")) {
		out[t.name] = true
	}
	for _, a := range t.args {
		sumNames(a, out, seen)
	}
}

// skolemize replaces the universally quantified variables of a goal by constants.
func skolemize(t *Term, ks *[]*Term) *Term {
	switch t.op {
	case "=>":
		return mkImp(t.args[0], skolemize(t.args[1], ks))
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range t.bvs {
			k := freshSym("sk", b.sort)
			m[b] = k
			*ks = append(*ks, k)
		}
		return skolemize(subst(t.args[0], m), ks)
	}
	return t
}

// instances of the universally quantified hypotheses at the goal's constants.
func instances(f *Term, ks []*Term, d int, out *[]*Term, h *Term) {
	if len(*out) > 400 || quantDepth(f) == 0 {
		return
	}
	switch f.op {
	case "=>":
		instances(f.args[1], ks, d, out, mkAnd(h, f.args[0]))
	case "and":
		for _, a := range f.args {
			instances(a, ks, d, out, h)
		}
	case "forall":
		if len(f.bvs) > 2 || d > 2 {
			return
		}
		for _, b := range f.bvs {
			if b.sort != SInt {
				return
			}
		}
		for _, k := range ks {
			for _, k2 := range ks {
				m := map[*Term]*Term{f.bvs[0]: k}
				if len(f.bvs) == 2 {
					m[f.bvs[1]] = k2
				} else if k2 != ks[0] {
					continue
				}
				i := subst(f.args[0], m)
				if quantDepth(i) == 0 {
					*out = append(*out, mkImp(h, i))
				} else {
					instances(i, ks, d+1, out, h)
				}
			}
		}
	}
}

// instantiated: the question with the goal's variables made constants and the
// quantified hypotheses instantiated at them.
func instantiated(facts []*Term, goal *Term) string {
	if quantDepth(goal) == 0 {
		return ""
	}
	var ks, iks, ins, fs []*Term
	g := skolemize(goal, &ks)
	for _, k := range ks {
		if k.sort == SInt {
			iks = append(iks, k)
		}
	}
	if len(iks) == 0 || len(iks) > 3 {
		return ""
	}
	for _, f := range facts {
		instances(f, iks, 0, &ins, tTrue)
		if quantDepth(f) < 2 {
			fs = append(fs, f)
		}
	}
	// the hypothesis part of the goal as well
	for h := g; h.op == "=>"; h = h.args[1] {
		instances(h.args[0], iks, 0, &ins, tTrue)
	}
	return emitVC(append(fs, ins...), g, "lite")
}

// easier lists the questions to try before the full one.
func easier(scr string, scr0 []string) []string {
	var out []string
	for _, q := range append(append([]string{}, scr0...), scr) {
		if a := absNL(q); a != "" {
			out = append(out, a)
		} else if q != scr {
			out = append(out, q)
		}
	}
	return out
}
