package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var ctxBg = context.Background()
var debugInv = os.Getenv("VV_INV") != ""
var verbose = os.Getenv("VV_VERBOSE") != ""

func writeDump(o *Obl, scr string) {
	f := filepath.Join(dumpDir, sanitize(lastName(o.Func)+"_"+o.Name)+".smt2")
	_ = os.WriteFile(f, []byte(scr), 0o644)
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, modPath+"/...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			if e.Kind == packages.TypeError || e.Kind == packages.ParseError {
				return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
			}
		}
	}
	prog, _ := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	p := &Program{ssa: prog, fset: prog.Fset, pkgs: pkgs}
	p.index()
	if k := p.byPath["math/big"]; k != nil {
		bigIntT = k.Scope().Lookup("Int").Type()
		bigRatT = k.Scope().Lookup("Rat").Type()
		bigFloatT = k.Scope().Lookup("Float").Type()
	} else {
		return nil, fmt.Errorf("math/big not loaded")
	}
	return p, nil
}

type oblOut struct {
	Name    string  `json:"name"`
	Func    string  `json:"function"`
	Kind    string  `json:"kind"`
	Pos     string  `json:"pos,omitempty"`
	Status  string  `json:"status"`
	Backend string  `json:"backend,omitempty"`
	Secs    float64 `json:"solver_s,omitempty"`
}

type report struct {
	obls      []*Obl
	funcs     []string
	inlined   map[string]bool
	notes     map[string]bool
	ext       map[string]bool
	loops     []string
	invs      int
	dropped   []string
	missing   []string
	contracts int
	disabled  map[string]bool
}

func newReport() *report {
	return &report{inlined: map[string]bool{}, notes: map[string]bool{}, ext: map[string]bool{}}
}
func (r *report) merge(x *Exec) {
	for k := range x.inlined {
		r.inlined[k] = true
	}
	for k := range x.notes {
		r.notes[k] = true
	}
	for k := range x.usedExt {
		r.ext[k] = true
	}
	r.loops = append(r.loops, x.loopStats...)
	r.invs += x.invCount
}

func okStatus(o *Obl) bool {
	return o.Status == "proved" || o.Status == "covered" || o.Status == "covered?"
}

func verifySpec(p *Program, spec *Spec, budget float64, only string, fns, disabled map[string]bool) *report {
	rep := newReport()
	rep.disabled = disabled
	run := func(ct *Contract, fn *ssa.Function) (x *Exec) {
		defer func() {
			if r := recover(); r != nil {
				if debugPanic {
					panic(r)
				}
				x = newExec(p, spec)
				x.note("internal failure on %s: %v", ct.Pattern, r)
				x.obls = []*Obl{{Name: "verification conditions generated", Func: fn.String(), Kind: "spec", Status: "failed", Model: fmt.Sprint(r), hyp: tTrue, goal: tFalse}}
			}
		}()
		t0 := time.Now()
		x = verifyContract(p, spec, ct, fn, disabled)
		t1 := time.Now()
		solveAll(x.obls, budget)
		if verbose {
			fmt.Printf("-- %s: vcgen %.1fs, %d obligations solved in %.1fs\n", ct.Pattern, t1.Sub(t0).Seconds(), len(x.obls), time.Since(t1).Seconds())
		}
		return x
	}
	targets := func(ct *Contract) []*ssa.Function {
		var fs []*ssa.Function
		for n, f := range p.funcs {
			if ct.re.MatchString(n) {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		return fs
	}
	// helpers first: a helper contract that does not hold is dropped and the
	// helper is inlined instead.
	for fns == nil {
		again := false
		var good []*Exec
		for _, ct := range spec.Contracts {
			if !ct.Helper {
				continue
			}
			for _, fn := range targets(ct) {
				n := normName(fn.String())
				if disabled[n] {
					continue
				}
				if only != "" && !strings.Contains(ct.Pattern, only) {
					continue
				}
				x := run(ct, fn)
				bad := false
				for _, o := range x.obls {
					if !okStatus(o) {
						bad = true
						if verbose {
							fmt.Printf("   helper %s: %s %s %s\n", n, o.Kind, o.Name, o.Status)
						}
					}
				}
				if bad {
					disabled[n] = true
					rep.dropped = append(rep.dropped, n)
					again = true
				} else {
					good = append(good, x)
				}
			}
		}
		if !again {
			for _, x := range good {
				rep.obls = append(rep.obls, x.obls...)
				rep.funcs = append(rep.funcs, normName(x.topFn.String()))
				rep.contracts++
				rep.merge(x)
			}
			break
		}
	}
	for _, ct := range spec.Contracts {
		if ct.Helper || ct.Extern {
			continue
		}
		if only != "" && !strings.Contains(ct.Pattern, only) {
			continue
		}
		fs := targets(ct)
		if len(fs) == 0 {
			rep.missing = append(rep.missing, ct.Pattern)
			rep.obls = append(rep.obls, &Obl{Name: "function under contract exists", Func: ct.Pattern, Kind: "spec", Status: "failed", Model: "no function matches " + ct.Pattern})
			continue
		}
		for _, fn := range fs {
			if fns != nil && !fns[fn.String()] {
				continue
			}
			x := run(ct, fn)
			rep.obls = append(rep.obls, x.obls...)
			rep.funcs = append(rep.funcs, normName(fn.String()))
			rep.contracts++
			rep.merge(x)
		}
	}
	return rep
}

var verifDir = "/verif"

func keys(m map[string]bool) []string { return sortedKeys(m) }

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	only := flag.String("only", "", "restrict to contracts whose pattern contains this")
	dumpSSA := flag.String("ssa", "", "print SSA of functions containing this")
	list := flag.String("list", "", "list function names containing this")
	repo := flag.String("repo", "/repo", "repository")
	vdir := flag.String("verif", "/verif", "verif directory")
	noReplay := flag.Bool("noreplay", false, "skip replay")
	budget := flag.Float64("budget", 0, "solver budget seconds per obligation")
	flag.Parse()
	verifDir = *vdir
	t0 := time.Now()
	p, err := loadProgram(*repo)
	if err != nil {
		fmt.Println("cannot load program:", err)
		os.Exit(2)
	}
	if *list != "" {
		var ns []string
		for n := range p.funcs {
			if strings.Contains(n, *list) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
		return
	}
	if *dumpSSA != "" {
		for n, f := range p.funcs {
			if n == *dumpSSA {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	spec, err := loadSpec(filepath.Join(verifDir, "contracts", *prop+".spec"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	// applicability filter
	nativeStrings = spec.Native
	workDir, _ = os.MkdirTemp("", "vv")
	defer os.RemoveAll(workDir)
	b := 15.0
	if *tier == "thorough" {
		b = 60
	}
	if spec.Timeout > 0 {
		b = float64(spec.Timeout)
	}
	if *budget > 0 {
		b = *budget
	}
	rep := verifySpec(p, spec, b, *only, nil, map[string]bool{})
	code := finish(p, spec, rep, *tier, t0, !*noReplay && *only == "", b, 0)
	os.RemoveAll(workDir)
	os.Exit(code)
}

type knownFinding struct {
	Property   string `json:"property"`
	Obligation string `json:"obligation"` // function + "/" + obligation name
	What       string `json:"what"`
	Fixed      string `json:"fixed,omitempty"`
	Replay     string `json:"replay,omitempty"`
}

func loadKnown() []knownFinding {
	var out []knownFinding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var w struct {
		Findings []knownFinding `json:"findings"`
	}
	if json.Unmarshal(b, &w) == nil {
		out = w.Findings
	}
	return out
}

func oblID(o *Obl) string { return normName(o.Func) + "/" + o.Name }

func finish(p *Program, spec *Spec, rep *report, tier string, t0 time.Time, replay bool, budget float64, attempt int) int {
	id := spec.Property
	var bad []*Obl
	proved := 0
	byB := map[string]int{}
	total := 0
	covers := 0
	secs := 0.0
	var outs []oblOut
	known := map[string]knownFinding{}
	for _, k := range loadKnown() {
		if k.Property == id && k.Fixed == "" && k.Obligation != "" {
			known[k.Obligation] = k
		}
	}
	knownHit := map[string]bool{}
	for _, o := range rep.obls {
		isCover := strings.HasPrefix(o.Kind, "cover")
		if isCover {
			covers++
		} else {
			total++
		}
		secs += o.Secs
		if okStatus(o) {
			if !isCover {
				proved++
				byB[o.Solver]++
			}
		} else {
			kid := oblID(o)
			if _, ok := known[kid]; ok {
				knownHit[kid] = true
			} else {
				bad = append(bad, o)
			}
		}
		outs = append(outs, oblOut{o.Name, normName(o.Func), o.Kind, o.Pos, o.Status, o.Solver, o.Secs})
	}
	found, replayOut := false, ""
	if len(bad) > 0 && replay {
		found, replayOut = runReplay(p, spec, bad, tier)
	}
	if attempt == 0 && !found && time.Since(t0) < 330*time.Second {
		// a solver that only ran out of time gets a second, longer attempt
		again := map[string]bool{}
		for _, o := range bad {
			if o.Status == "unknown" {
				again[o.Func] = true
			}
		}
		if len(again) > 0 {
			timeScale = 3
			for k, v := range proveCache {
				if !v {
					delete(proveCache, k)
				}
			}
			r2 := verifySpec(p, spec, budget, "", again, rep.disabled)
			var keep []*Obl
			for _, o := range rep.obls {
				if !again[o.Func] {
					keep = append(keep, o)
				}
			}
			rep.obls = append(keep, r2.obls...)
			return finish(p, spec, rep, tier, t0, replay, budget, 1)
		}
	}
	if total == 0 {
		bad = append(bad, &Obl{Name: "obligations generated", Func: "(none)", Kind: "vacuity", Status: "failed", Model: "zero obligations"})
	}
	if verbose || len(bad) > 0 {
		for _, o := range rep.obls {
			if verbose || !okStatus(o) {
				fmt.Printf("  %-8s %-9s %-60s %-40s %s %.2fs %s\n", o.Status, o.Kind, lastName(normName(o.Func)), o.Name, o.Solver, o.Secs, o.Pos)
			}
		}
	}
	if verbose {
		for _, n := range keys(rep.notes) {
			fmt.Println("  note:", n)
		}
		fmt.Println("  inlined:", strings.Join(keys(rep.inlined), " "))
		fmt.Println("  external (havoc):", strings.Join(keys(rep.ext), " "))
		fmt.Println("  loops:", strings.Join(rep.loops, " | "))
	}
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (obligation %s)\n", id, known[k].What, k)
	}
	nViol := 0
	var viol []map[string]interface{}
	code := 0
	replayInfo := ""
	if len(bad) > 0 {
		sort.SliceStable(bad, func(i, j int) bool { return bad[i].Status < bad[j].Status })
		var names []string
		for _, o := range bad {
			names = append(names, oblID(o)+" ["+o.Status+"]")
		}
		rdir := filepath.Join(verifDir, "evidence", "replay")
		_ = os.MkdirAll(rdir, 0o755)
		rp := filepath.Join(rdir, id+".txt")
		var rb strings.Builder
		fmt.Fprintf(&rb, "property %s: failed obligations\n", id)
		for _, o := range bad {
			fmt.Fprintf(&rb, "\nobligation %s\n kind %s status %s solver %s at %s\n%s\n", oblID(o), o.Kind, o.Status, o.Solver, o.Pos, o.Model)
		}
		if replay {
			fmt.Fprintf(&rb, "\n---- replay against the real code ----\n%s\n", replayOut)
			if found {
				replayInfo = firstFail(replayOut)
				fmt.Println("  failing input:", replayInfo)
			}
		}
		_ = os.WriteFile(rp, []byte(rb.String()), 0o644)
		suffix := ""
		if !found {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("failed obligations: %s\n", strings.Join(names, "; "))
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", id, rp, suffix)
		code = 1
		nViol = len(bad)
		for _, o := range bad {
			viol = append(viol, map[string]interface{}{"obligation": oblID(o), "status": o.Status, "replay": rp, "failing_input": replayInfo})
		}
	}
	_ = nViol
	if replay {
		for i := range spec.Bounded {
			b := &spec.Bounded[i]
			o := runTest(p, spec, nil, tier, b.Pkg, b.Test)
			switch {
			case strings.Contains(o, "VERIF-FAIL"):
				b.Result = "failed: " + firstFail(o)
				if code == 0 {
					rdir := filepath.Join(verifDir, "evidence", "replay")
					_ = os.MkdirAll(rdir, 0o755)
					rp := filepath.Join(rdir, id+".txt")
					_ = os.WriteFile(rp, []byte("property "+id+": bounded check "+b.Test+" ("+b.What+")\n\n"+o), 0o644)
					fmt.Println("  failing input:", firstFail(o))
					fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
					code = 1
					viol = append(viol, map[string]interface{}{"obligation": "bounded check " + b.Test, "status": "failed", "replay": rp, "failing_input": firstFail(o)})
				}
			case strings.HasPrefix(strings.TrimSpace(lastLine(o)), "ok"):
				b.Result = "no violation within the bound"
			default:
				b.Result = "did not run"
				fmt.Println("  bounded check", b.Test, "did not run:", lastLine(o))
			}
		}
	}
	writeEvidence(p, spec, rep, tier, t0, total, proved, covers, byB, secs, outs, viol, sortedKeys(knownHit))
	fmt.Printf("%s: %d/%d obligations discharged, %d reachability checks, %d functions under contract, %d inlined, %.1fs\n", id, proved, total, covers, rep.contracts, len(rep.inlined), time.Since(t0).Seconds())
	return code
}

func lastLine(o string) string {
	ls := strings.Split(strings.TrimSpace(o), "\n")
	return ls[len(ls)-1]
}

func firstFail(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "VERIF-FAIL"); i >= 0 {
			return strings.TrimSpace(l[i:])
		}
	}
	return ""
}

// hints: numerals and string literals that a replay should try.
func hints(p *Program, rep []*Obl, spec *Spec) (nums, strs []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] && len(s) < 40 && len(nums) < 400 {
			seen[s] = true
			nums = append(nums, s)
		}
	}
	for _, o := range rep {
		for _, m := range numeralRe.FindAllStringSubmatch(o.Model, -1) {
			add(m[1])
		}
	}
	sseen := map[string]bool{}
	fns := map[*ssa.Function]bool{}
	for _, ct := range spec.Contracts {
		if ct.Extern {
			continue
		}
		for n, f := range p.funcs {
			if ct.re.MatchString(n) {
				collectFns(f, fns, 0)
			}
		}
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					s := c.Value.ExactString()
					if bt, ok := c.Type().Underlying().(*types.Basic); ok {
						switch {
						case bt.Info()&types.IsInteger != 0:
							add(s)
						case bt.Info()&types.IsFloat != 0:
							add(c.Value.String())
						case bt.Info()&types.IsString != 0:
							if !sseen[s] && len(s) < 60 && len(strs) < 200 {
								sseen[s] = true
								strs = append(strs, s)
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(strs)
	return
}

func collectFns(f *ssa.Function, m map[*ssa.Function]bool, d int) {
	if m[f] || d > 4 || len(m) > 120 {
		return
	}
	m[f] = true
	for _, a := range f.AnonFuncs {
		collectFns(a, m, d)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
					collectFns(g, m, d+1)
				}
			}
		}
	}
}

// runReplay runs the property's replay tests (overlay) on the real code.
func runReplay(p *Program, spec *Spec, bad []*Obl, tier string) (bool, string) {
	if len(spec.Replay) < 2 {
		return false, "no replay harness for this property"
	}
	var all strings.Builder
	found := false
	for i := 0; i+1 < len(spec.Replay); i += 2 {
		o := runTest(p, spec, bad, tier, spec.Replay[i], spec.Replay[i+1])
		all.WriteString(o)
		if strings.Contains(o, "VERIF-FAIL") {
			found = true
		}
	}
	return found, all.String()
}

func runTest(p *Program, spec *Spec, bad []*Obl, tier, pkg, test string) string {
	nums, strs := hints(p, bad, spec)
	src := filepath.Join(verifDir, "replay", strings.TrimPrefix(pkg, "./"))
	if pkg == "." {
		src = filepath.Join(verifDir, "replay", "root")
	}
	ov := map[string]map[string]string{"Replace": {}}
	ms, _ := filepath.Glob(filepath.Join(src, "*_test.go"))
	for _, m := range ms {
		bn := filepath.Base(m)
		if strings.HasPrefix(bn, "zz_") || strings.HasPrefix(bn, strings.ToLower(spec.Property)+"_") {
			ov["Replace"][filepath.Join("/repo", pkg, bn)] = m
		}
	}
	ovf := filepath.Join(workDir, "overlay.json")
	jb, _ := json.Marshal(ov)
	_ = os.WriteFile(ovf, jb, 0o644)
	ctx, cancel := context.WithTimeout(ctxBg, 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "200s", "-run", "^"+test+"$", pkg)
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "VERIF_HINTS="+strings.Join(nums, ","), "VERIF_STRS="+strings.Join(strs, "\x01"), "VERIF_TIER="+tier)
	out, _ := cmd.CombinedOutput()
	o := string(out)
	if len(o) > 12000 {
		o = o[:6000] + "\n...\n" + o[len(o)-6000:]
	}
	return o
}

var _ = regexp.MustCompile

func writeEvidence(p *Program, spec *Spec, rep *report, tier string, t0 time.Time, total, proved, covers int, byB map[string]int, secs float64, outs []oblOut, viol []map[string]interface{}, known []string) {
	var trusted []string
	for _, c := range spec.Contracts {
		if c.Extern && c.used {
			trusted = append(trusted, "assumed contract on external/trusted function "+c.Pattern+" ("+c.File+")")
		}
	}
	var assume []string
	assume = append(assume, baseAssumptions...)
	assume = append(assume, spec.Assume...)
	for _, n := range keys(rep.notes) {
		assume = append(assume, "note: "+n)
	}
	if len(rep.ext) > 0 {
		assume = append(assume, "calls to external functions treated as returning arbitrary results: "+strings.Join(keys(rep.ext), ", "))
	}
	for _, o := range spec.OpaqueSrc {
		assume = append(assume, "treated as opaque (arbitrary result, no effect on modelled state): "+o)
	}
	seedv := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seedv)
	}
	if viol == nil {
		viol = []map[string]interface{}{}
	}
	sort.Strings(rep.funcs)
	sstat := map[string]interface{}{}
	for k, v := range solverStats {
		sstat[k] = map[string]interface{}{"queries": v.n, "seconds": v.secs}
	}
	ev := map[string]interface{}{
		"property": spec.Property, "tier": tier, "seed": seedv, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations":              total,
			"discharged":               proved,
			"checker_cmd":              "/verif/check " + spec.Property + " " + tier,
			"trusted_base":             append([]string{"golang.org/x/tools/go/ssa (frontend)", "the VC generator in /verif/verifier", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"}, trusted...),
			"functions_under_contract": rep.funcs,
			"contracts_verified":       rep.contracts,
			"functions_inlined":        keys(rep.inlined),
			"helper_contracts_dropped": rep.dropped,
			"loop_invariants_proved":   rep.invs,
			"loops":                    rep.loops,
			"reachability_checks":      covers,
			"backend_discharged":       byB,
			"solver_seconds":           secs,
			"solver_queries":           sstat,
			"known_findings_hit":       known,
			"bounded":                  boundedOut(spec),
			"obligation_list":          outs,
		},
		"wall_s":      time.Since(t0).Seconds(),
		"assumptions": assume,
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	_ = os.WriteFile(filepath.Join(verifDir, "evidence", spec.Property+".json"), b, 0o644)
}

func boundedOut(spec *Spec) []map[string]string {
	out := []map[string]string{}
	for _, b := range spec.Bounded {
		out = append(out, map[string]string{"check": b.Pkg + " " + b.Test, "functions_and_bound": b.What, "result": b.Result, "label": "bounded, not counted as proved"})
	}
	return out
}

var baseAssumptions = []string{
	"Go integers are treated as mathematical integers (no overflow); big.Int, big.Rat and decimal.Decimal as exact mathematical numbers (decimal division rounded to 16 places); float64 as an exact real",
	"a path that panics does not return; panics are not themselves reported unless the contract says nopanic",
	"goroutines started by a function are not executed; the function is analysed as sequential code",
	"append always yields a fresh backing array (no aliasing through spare capacity)",
	"functions outside the repository have no bodies here: they are modelled by the listed contracts/intrinsics or return arbitrary values",
	"interface method calls without a contract return arbitrary values and do not modify repository objects passed to them",
}
