package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	ssa      *ssa.Program
	fset     *token.FileSet
	packages map[string][]*types.Package
	byPath   map[string]*types.Package
	funcs    map[string]*ssa.Function
	pkgs     []*packages.Package
}

func (p *Program) findFunc(n string) *ssa.Function { return p.funcs[n] }

func (p *Program) index() {
	p.packages = map[string][]*types.Package{}
	p.byPath = map[string]*types.Package{}
	p.funcs = map[string]*ssa.Function{}
	seen := map[*types.Package]bool{}
	var add func(t *types.Package, depth int)
	add = func(t *types.Package, depth int) {
		if seen[t] {
			return
		}
		seen[t] = true
		p.byPath[t.Path()] = t
		if strings.HasPrefix(t.Path(), modPath) {
			p.packages[t.Name()] = append([]*types.Package{t}, p.packages[t.Name()]...)
		} else {
			p.packages[t.Name()] = append(p.packages[t.Name()], t)
		}
		for _, i := range t.Imports() {
			add(i, depth+1)
		}
	}
	for _, sp := range p.ssa.AllPackages() {
		if strings.HasPrefix(sp.Pkg.Path(), modPath) {
			add(sp.Pkg, 0)
		}
	}
	for n := range p.packages {
		sort.SliceStable(p.packages[n], func(i, j int) bool {
			a, b := p.packages[n][i], p.packages[n][j]
			am, bm := strings.HasPrefix(a.Path(), modPath), strings.HasPrefix(b.Path(), modPath)
			if am != bm {
				return am
			}
			return a.Path() < b.Path()
		})
	}
	for f := range ssautil.AllFunctions(p.ssa) {
		if f.Blocks == nil {
			continue
		}
		if f.Synthetic != "" && f.Origin() == nil && f.Name() != "init" {
			continue
		}
		p.funcs[normName(f.String())] = f
	}
}

func (p *Program) typeByName(s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		t := p.typeByName(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(s, "[]") {
		t := p.typeByName(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if strings.HasPrefix(s, "map[") {
		j := strings.IndexByte(s, ']')
		k, v := p.typeByName(s[4:j]), p.typeByName(s[j+1:])
		if k == nil || v == nil {
			return nil
		}
		return types.NewMap(k, v)
	}
	if s == "error" {
		return errorT
	}
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		for _, k := range p.packages[s[:i]] {
			if o := k.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		if k := p.byPath[s[:i]]; k != nil {
			if o := k.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	return nil
}

// applicable: contracts usable at call sites.
func (c *Contract) applicable() bool { return c.Extern || c.Helper || c.HasMod }

// ---- modifies sets ----
type modLoc struct {
	key  string
	sort Sort
	ref  *Term // nil: the whole key
	idx  *Term // nil: whole row
}

func (e *SpecEnv) modSet(exprs []ast.Expr) ([]modLoc, error) {
	var out []modLoc
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				if ee, ok := r.(evalErr); ok {
					err = ee
					return
				}
				panic(r)
			}
		}()
		for _, ex := range exprs {
			out = append(out, e.mod1(ex)...)
		}
	}()
	return out, err
}

func (e *SpecEnv) locMods(l *Loc) []modLoc {
	var out []modLoc
	for _, lf := range leavesOf(l.T) {
		k, s := e.x.locKey(l, lf)
		switch l.kind {
		case 'o':
			out = append(out, modLoc{k, s, l.ref, nil})
		case 'e':
			out = append(out, modLoc{k, s, l.ref, l.idx})
		case 'g':
			out = append(out, modLoc{k, s, nil, nil})
		}
	}
	return out
}

func (e *SpecEnv) mod1(ex ast.Expr) []modLoc {
	x := e.x
	if c, ok := ex.(*ast.CallExpr); ok {
		switch e.callNames(c) {
		case "num":
			return e.locMods(e.ptr(c.Args[0]))
		case "bigs":
			var out []modLoc
			for _, l := range e.bigFields(e.eval(c.Args[0])) {
				out = append(out, e.locMods(l)...)
			}
			return out
		case "elems":
			s := e.eval(c.Args[0]).(*SliceV)
			var out []modLoc
			for _, lf := range leavesOf(s.elem) {
				k, so := x.locKey(&Loc{kind: 'e', base: typeKey(s.elem), T: s.elem}, lf)
				out = append(out, modLoc{k, so, s.arr, nil})
			}
			return out
		case "allof": // every object of a type
			t := x.prog.typeByName(e.strArg(c.Args[0]))
			if t == nil {
				evalFail("allof: unknown type")
			}
			var out []modLoc
			for _, lf := range leavesOf(t) {
				k, so := x.locKey(&Loc{kind: 'o', base: typeKey(t), T: t}, lf)
				out = append(out, modLoc{k, so, nil, nil})
			}
			return out
		case "fieldof": // one field of every object of a type
			t := x.prog.typeByName(e.strArg(c.Args[0]))
			if t == nil {
				evalFail("fieldof: unknown type")
			}
			su, ok := t.Underlying().(*types.Struct)
			if !ok {
				evalFail("fieldof: not a struct")
			}
			var out []modLoc
			for i := 0; i < su.NumFields(); i++ {
				nm, ft := fieldName(t, i)
				if su.Field(i).Name() != e.strArg(c.Args[1]) {
					continue
				}
				l := &Loc{kind: 'o', base: typeKey(t), T: ft, path: nm}
				for _, lf := range leavesOf(ft) {
					k, so := x.locKey(l, lf)
					out = append(out, modLoc{k, so, nil, nil})
				}
			}
			return out
		case "mapof":
			m := e.eval(c.Args[0]).(*MapV)
			dk, ds := x.mapDomKey(m.T)
			lk, ls := x.mapLenKey(m.T)
			out := []modLoc{{dk, ds, m.ref, nil}, {lk, ls, m.ref, nil}}
			for _, lf := range leavesOf(m.T.Elem()) {
				k, so := x.mapValKey(m.T, lf)
				out = append(out, modLoc{k, so, m.ref, nil})
			}
			return out
		}
	}
	return e.locMods(e.loc(ex))
}

// havoc a modifies set.
func (x *Exec) havocMods(st *State, ms []modLoc) {
	for _, m := range ms {
		h := x.hget(st, m.key, m.sort)
		switch {
		case m.ref == nil:
			nh := freshSym("hv", m.sort)
			x.rootFacts(nh, m.key, x.nextOf(st))
			x.hset(st, m.key, nh)
			x.logWrite(m.key, nil, nil)
		case m.idx == nil:
			v := freshSym("hv", arrElem(m.sort))
			x.leafFacts(st, m.key, v)
			x.hset(st, m.key, mkStore(h, m.ref, v))
			x.logWrite(m.key, m.ref, nil)
		default:
			v := freshSym("hv", arrElem(arrElem(m.sort)))
			x.leafFacts(st, m.key, v)
			x.hset(st, m.key, mkStore(h, m.ref, mkStore(mkSelect(h, m.ref), m.idx, v)))
			x.logWrite(m.key, m.ref, m.idx)
		}
	}
}

func (x *Exec) leafFacts(st *State, key string, v *Term) {
	k, ok := x.keyKind[key]
	if !ok {
		return
	}
	if strings.HasPrefix(string(v.sort), "(Array") {
		x.rootFacts(v, key, x.nextOf(st)) // a row: one-dimensional array
		return
	}
	if k.ref {
		symAxioms[v] = append(symAxioms[v], mkLe(mkInt(0), v), mkLt(v, x.nextOf(st)))
	} else if k.kind == 's' || k.kind == 't' || k.kind == 'L' {
		symAxioms[v] = append(symAxioms[v], mkLe(mkInt(0), v))
	}
}

func (x *Exec) funcPkg(name string) *types.Package {
	if f := x.prog.findFunc(name); f != nil && f.Pkg != nil {
		return f.Pkg.Pkg
	}
	return nil
}

func (x *Exec) baseEnv(ct *Contract, args []Val, st *State) *SpecEnv {
	e := &SpecEnv{x: x, vars: map[string]Val{}, lets: ct.Lets, st: st}
	for i, p := range ct.Params {
		if i < len(args) && p != "_" {
			e.vars[p] = args[i]
		}
	}
	return e
}

// applyContract uses a contract at a call site.
func (x *Exec) applyContract(st *State, ct *Contract, name string, sig *types.Signature, args []Val, pos token.Pos) (Val, *State, bool) {
	ct.used = true
	env := x.baseEnv(ct, args, st)
	env.pkg = x.funcPkg(name)
	env.old = nil
	if x.preState != nil { // calls() etc. relative to the top function's entry
		env.old = x.preState
	}
	for _, c := range ct.Requires {
		g, err := env.evalBool(c.E)
		if err != nil {
			x.specErr(ct, c, err, st, pos)
			continue
		}
		x.oblige(st, "requires", fmt.Sprintf("%s.requires.%s", name, c.Name), pos, g)
		x.fact(st, g)
	}
	if ct.NoReturn {
		return nil, nil, false
	}
	old := st.clone()
	oldNext := x.nextOf(st)
	env.st = old
	ms, err := env.modSet(ct.Modifies)
	if err != nil {
		x.note("modifies of %s: %v", name, err)
	}
	x.newBase(st, "call")
	x.havocMods(st, ms)
	if ct.Extern && !ct.HasMod && !inModuleName(name) && !pureExternal(name) && !sqlReadsArgs(name) {
		x.usedExt[name] = true
		for _, a := range args {
			x.havocArg(st, a, 0, name)
		}
	}
	res := x.freshVal(st, resType(sig), "r_"+lastName(name))
	post := x.baseEnv(ct, args, st)
	post.pkg = env.pkg
	post.old = old
	post.oldNext = oldNext
	rv := resVals(res, sig)
	for i, r := range ct.Results {
		if i < len(rv) && r != "_" {
			post.vars[r] = rv[i]
		}
	}
	for _, g := range ct.Havoc {
		so, ok := x.spec.Ghosts[g]
		if !ok {
			panic("undeclared ghost " + g)
		}
		k := "ghost|v|" + g
		x.keySort[k] = so
		x.hset(st, k, freshSym("gh", so))
		x.logWrite(k, nil, nil)
	}
	for _, s := range ct.Sets {
		so, ok := x.spec.Ghosts[s.Ghost]
		if !ok {
			panic("undeclared ghost " + s.Ghost)
		}
		k := "ghost|v|" + s.Ghost
		x.keySort[k] = so
		v, err := post.evalVal(s.E)
		if err != nil {
			x.note("ghost %s at %s: %v", s.Ghost, name, err)
			v = freshSym("ghost", so)
		}
		t := asTermG(v)
		if s.Cond != nil {
			c, err := post.evalBool(s.Cond)
			if err != nil {
				x.note("ghost cond %s: %v", s.Ghost, err)
				c = freshSym("gc", SBool)
			}
			t = mkIte(c, t, x.hget(st, k, so))
		}
		x.hset(st, k, t)
		x.logWrite(k, nil, nil)
	}
	for _, c := range ct.Ensures {
		if !ct.Extern && ct.eventful(c.E, 0) {
			continue // speaks about the calls the body itself makes: not a fact about the caller's events
		}
		g, err := post.evalBool(c.E)
		if err != nil {
			x.note("ensures %s of %s not usable: %v", c.Name, name, err)
			continue
		}
		x.fact(st, g)
	}
	return res, st, true
}

// eventful: the clause mentions the function's own recorded calls.
func (ct *Contract) eventful(e ast.Expr, depth int) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "calls", "arg", "res", "when":
					r = true
				}
			}
		case *ast.Ident:
			if l, ok := ct.Lets[n.Name]; ok && depth < 8 && ct.eventful(l, depth+1) {
				r = true
			}
		}
		return !r
	})
	return r
}

func asTermG(v Val) *Term {
	switch v := v.(type) {
	case *IfaceV:
		return v.pay
	case *SliceV:
		return v.arr
	case nilV:
		return mkInt(0)
	}
	return asTerm(v)
}

func lastName(n string) string {
	if i := strings.LastIndex(n, "."); i >= 0 {
		return n[i+1:]
	}
	return n
}

// specErr: a clause that cannot be evaluated on this code is a failed obligation.
func (x *Exec) specErr(ct *Contract, c Clause, err error, st *State, pos token.Pos) {
	x.note("clause %s (%s:%d) cannot be evaluated: %v", c.Name, c.File, c.Line, err)
	o := x.oblige(st, "spec", fmt.Sprintf("%s.%s", ct.Pattern, c.Name), pos, tFalse)
	if o != nil {
		o.Model = "clause cannot be evaluated on the current code: " + err.Error()
	}
}

// verifyContract generates the obligations of one contract on the real body.
func verifyContract(p *Program, spec *Spec, ct *Contract, fn *ssa.Function, disabled map[string]bool) *Exec {
	x := newExec(p, spec)
	for k := range disabled {
		x.disabled[k] = true
	}
	x.top = ct
	x.topFn = fn
	st := &State{heap: map[string]*Term{}, pc: tTrue, base: x.base0}
	var args []Val
	for i, pr := range fn.Params {
		n := pr.Name()
		if i < len(ct.Params) {
			n = ct.Params[i]
		}
		args = append(args, x.freshVal(st, pr.Type(), "p_"+n))
	}
	var binds []Val
	for _, fv := range fn.FreeVars {
		v := x.freshVal(st, fv.Type(), "fv_"+fv.Name())
		if l, ok := v.(*Loc); ok {
			x.fact(st, mkNot(mkEq(l.term(), mkInt(0))))
		}
		binds = append(binds, v)
	}
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if l, ok := args[0].(*Loc); ok {
			x.fact(st, mkNot(mkEq(l.ref, mkInt(0))))
		}
	}
	env := x.baseEnv(ct, args, st)
	if fn.Pkg != nil {
		env.pkg = fn.Pkg.Pkg
	}
	oldNext := x.nextOf(st)
	for i, fv := range fn.FreeVars {
		env.vars[fv.Name()] = binds[i]
	}
	for _, c := range ct.Requires {
		g, err := env.evalBool(c.E)
		if err != nil {
			x.specErr(ct, c, err, st, fn.Pos())
			continue
		}
		x.fact(st, g)
	}
	for _, c := range spec.Axioms {
		ne := *env
		g, err := ne.evalBool(c.E)
		if err == nil {
			x.fact(st, g)
		}
	}
	pre := st.clone()
	x.preState = pre
	env.st = pre
	x.env0 = env
	run := st.clone()
	nEntry := len(x.facts)
	_ = nEntry
	res, fin, ok := x.runFunc(fn, args, binds, run)
	if !ok {
		o := x.oblige(pre, "cover", "some return is reachable", fn.Pos(), tFalse)
		o.Kind = "cover-missing"
		return x
	}
	post := x.baseEnv(ct, args, fin)
	post.pkg = env.pkg
	post.old = pre
	post.oldNext = oldNext
	for k, v := range env.vars {
		post.vars[k] = v
	}
	for i, r := range ct.Results {
		if i < len(res) && r != "_" {
			post.vars[r] = res[i]
		}
	}
	for _, c := range ct.Ensures {
		g, err := post.evalBool(c.E)
		if err != nil {
			x.specErr(ct, c, err, fin, fn.Pos())
			continue
		}
		var cs []*Term
		conjuncts(g, &cs)
		if len(cs) <= 1 || len(cs) > 40 {
			x.oblige(fin, "ensures", c.Name, fn.Pos(), g)
		} else {
			for i, t := range cs {
				x.oblige(fin, "ensures", fmt.Sprintf("%s.%d", c.Name, i+1), fn.Pos(), t)
			}
		}
	}
	if ct.HasMod {
		x.frameObls(ct, env, pre, fin, oldNext, fn)
	}
	// vacuity: the exit must be reachable
	o := x.oblige(fin, "cover", "exit reachable", fn.Pos(), tFalse)
	if o != nil {
		o.Kind = "cover"
	}
	for _, c := range ct.Cover {
		g, err := post.evalBool(c.E)
		if err != nil {
			x.note("cover %s: %v", c.Name, err)
			continue
		}
		s2 := fin.clone()
		s2.pc = mkAnd(fin.pc, g)
		x.oblige(s2, "cover", "cover."+c.Name, fn.Pos(), tFalse)
	}
	return x
}

func (x *Exec) frameObls(ct *Contract, env *SpecEnv, pre, fin *State, oldNext *Term, fn *ssa.Function) {
	ms, err := env.modSet(ct.Modifies)
	if err != nil {
		x.note("modifies of %s: %v", ct.Pattern, err)
		x.oblige(fin, "spec", "modifies", fn.Pos(), tFalse)
		return
	}
	// ghost state: callers see only the declared ghost effects
	hav := map[string]bool{}
	for _, g := range ct.Havoc {
		hav[g] = true
	}
	for _, k := range sortedKeys(fin.heap) {
		g := strings.TrimPrefix(k, "ghost|v|")
		if g == k || hav[g] {
			continue
		}
		so := x.spec.Ghosts[g]
		want := x.hget(pre, k, so)
		if fin.heap[k] == want {
			continue // a ghost only this contract's own set clauses define
		}
		for _, s := range ct.Sets {
			if s.Ghost != g {
				continue
			}
			v, err := env.evalVal(s.E)
			if err != nil {
				continue
			}
			t := asTermG(v)
			if s.Cond != nil {
				if c, err := env.evalBool(s.Cond); err == nil {
					t = mkIte(c, t, want)
				}
			}
			want = t
		}
		x.oblige(fin, "frame", "frame.ghost."+g, fn.Pos(), mkEq(want, fin.heap[k]))
	}
	keys := map[string]bool{}
	for k, v := range fin.heap {
		if strings.HasPrefix(k, "ghost|") || strings.HasPrefix(k, "it|") {
			continue
		}
		s := x.keySort[k]
		if s == "" {
			s = v.sort
		}
		if x.hget(pre, k, s) != v {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		a, b := x.hget(pre, k, fin.heap[k].sort), fin.heap[k]
		var refs []modLoc
		whole := false
		for _, m := range ms {
			if m.key == k {
				if m.ref == nil {
					whole = true
				}
				refs = append(refs, m)
			}
		}
		if whole {
			continue
		}
		if strings.HasPrefix(k, "g|") || !strings.HasPrefix(string(a.sort), "(Array") {
			x.oblige(fin, "frame", "frame."+k, fn.Pos(), mkEq(a, b))
			continue
		}
		r := freshSym("fr", SInt)
		conds := []*Term{mkLe(mkInt(1), r), mkLt(r, oldNext)}
		var rowIdx []modLoc
		for _, m := range refs {
			if m.idx == nil {
				conds = append(conds, mkNot(mkEq(r, m.ref)))
			} else {
				rowIdx = append(rowIdx, m)
			}
		}
		if len(rowIdx) > 0 {
			i := freshSym("fi", arrIdx(arrElem(a.sort)))
			for _, m := range rowIdx {
				conds = append(conds, mkNot(mkAnd(mkEq(r, m.ref), mkEq(i, m.idx))))
			}
			x.oblige(fin, "frame", "frame."+k, fn.Pos(), mkImp(mkAnd(conds...), mkEq(mkSelect(mkSelect(a, r), i), mkSelect(mkSelect(b, r), i))))
			continue
		}
		if el := arrElem(a.sort); strings.HasPrefix(string(el), "(Array") {
			i := freshSym("fi", arrIdx(el))
			x.oblige(fin, "frame", "frame."+k, fn.Pos(), mkImp(mkAnd(conds...), mkEq(mkSelect(mkSelect(a, r), i), mkSelect(mkSelect(b, r), i))))
			continue
		}
		x.oblige(fin, "frame", "frame."+k, fn.Pos(), mkImp(mkAnd(conds...), mkEq(mkSelect(a, r), mkSelect(b, r))))
	}
}

// userCandidates instantiates the invariant templates of the top contract.
func (x *Exec) userCandidates(fr *Frame, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, phis []*ssa.Phi, entry *State, lc *loopCtx) []invCand {
	var out []invCand
	if x.top == nil {
		return nil
	}
	isPhi := map[ssa.Value]bool{}
	for _, p := range phis {
		isPhi[p] = true
	}
	type cv struct {
		name string
		get  func(h headerEnv) Val
	}
	// pool of values usable in holes
	pool := map[string][]cv{}
	addV := func(name string, t types.Type, get func(headerEnv) Val) {
		k := shortType(t)
		pool[k] = append(pool[k], cv{name, get})
	}
	seenT := map[*Term]bool{}
	add := func(fr2 *Frame, v ssa.Value, top bool) {
		val, ok := fr2.vals[v]
		if !ok && !isPhi[v] {
			return
		}
		if isPhi[v] && top {
			p := v.(*ssa.Phi)
			addV(phiName(p), p.Type(), func(h headerEnv) Val { return h.phis[p] })
			return
		}
		switch c := val.(type) {
		case TupleV, *IterV:
			return
		case *Loc:
			if r := c.term(); r != nil && len(c.path) == 0 && c.idx == nil {
				if seenT[r] {
					return
				}
				seenT[r] = true
			}
		case *Term:
			if c.isConst() {
				return
			}
			if seenT[c] {
				return
			}
			seenT[c] = true
		}
		addV(v.Name(), v.Type(), func(headerEnv) Val { return val })
		if l, ok := val.(*Loc); ok {
			if _, isAlloc := v.(*ssa.Alloc); isAlloc || isFreeVar(v) {
				addV("*"+v.Name(), v.Type().Underlying().(*types.Pointer).Elem(), func(h headerEnv) Val { return x.load(h.st, l) })
			}
		}
	}
	for _, p := range phis {
		add(fr, p, true)
	}
	for _, p := range fr.fn.Params {
		add(fr, p, true)
	}
	for _, p := range fr.fn.FreeVars {
		add(fr, p, true)
	}
	for _, b := range fr.rpo {
		if L[b] || !b.Dominates(h) {
			continue
		}
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(fr, v, true)
			}
		}
	}
	// enclosing frames: parameters and phis of enclosing loops
	for _, f2 := range x.frames {
		if f2 == fr {
			continue
		}
		for _, p := range f2.fn.Params {
			add(f2, p, false)
		}
	}
	for _, c := range x.top.Invs {
		c := c
		// enumerate hole assignments
		var rec func(i int, acc map[string]cv)
		n := 0
		rec = func(i int, acc map[string]cv) {
			if n > 300 {
				return
			}
			if i == len(c.Holes) {
				n++
				bind := map[string]cv{}
				var nm []string
				for k, v := range acc {
					bind[k] = v
					nm = append(nm, k+"="+v.name)
				}
				sort.Strings(nm)
				out = append(out, invCand{name: c.Name + "{" + strings.Join(nm, ",") + "}", eval: func(he headerEnv) (*Term, bool) {
					env := *x.env0
					env.vars = map[string]Val{}
					for k, v := range x.env0.vars {
						env.vars[k] = v
					}
					for k, v := range bind {
						env.vars[k] = v.get(he)
					}
					env.st = he.st
					env.old = x.preState
					env.oldNext = mkAdd(x.base0, mkInt(1))
					env.entry = entry
					env.iter = he.iter
					env.depth = 5
					t, err := env.evalBool(c.E)
					if err != nil {
						if debugInv {
							fmt.Printf("  [inv] %s: %v\n", c.Name, err)
						}
						return nil, false
					}
					return t, true
				}})
				return
			}
			for _, v := range pool[c.Holes[i].Type] {
				dup := false
				for _, u := range acc {
					if u.name == v.name {
						dup = true
					}
				}
				if dup {
					continue
				}
				acc[c.Holes[i].Name] = v
				rec(i+1, acc)
				delete(acc, c.Holes[i].Name)
			}
		}
		rec(0, map[string]cv{})
	}
	return out
}

func isFreeVar(v ssa.Value) bool { _, ok := v.(*ssa.FreeVar); return ok }

func shortType(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Name() })
}

// ---- solving all obligations of an execution ----
func solveAll(obls []*Obl, budget float64) {
	type job struct {
		o    *Obl
		g    *Term
		scr  string
		scr0 []string
		inst func() string
	}
	var jobs []job
	for _, o := range obls {
		if o.Kind == "spec" || o.Kind == "cover-missing" {
			o.Status = "failed"
			continue
		}
		g := mkImp(o.hyp, o.goal)
		if o.Kind == "cover" {
			g = mkNot(o.hyp)
		}
		if g == tTrue {
			if o.Kind == "cover" {
				o.Status = "vacuous"
			} else {
				o.Status = "proved"
				o.Solver = "simplifier"
			}
			continue
		}
		if o.Kind != "cover" {
			jobs = append(jobs, job{o, g, emitVC(o.factsL, g, ""), pruned(o.factsL, g), func() string { return instantiated(o.factsL, g) }})
			continue
		}
		jobs = append(jobs, job{o, g, emitVC(o.factsL, g, ""), nil, nil})
	}
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			if j.o.Kind == "cover" {
				sem <- struct{}{}
				f := writeScript(j.scr)
				r, _ := runSolver(ctxBg, "z3-new", f, 3)
				<-sem
				if r == "unsat" {
					j.o.Status = "vacuous"
				} else {
					j.o.Status = "covered"
					if r != "sat" {
						j.o.Status = "covered?"
					}
				}
				return
			}
			st, so, secs, out := solveScript(j.scr, j.scr0, j.inst, budget)
			var ps []*Term
			if st == "unknown" || st == "timeout" {
				instMu.Lock()
				ps = splitGoal(j.g)
				instMu.Unlock()
			}
			if len(ps) > 1 && len(ps) <= 12 {
				// conjunct by conjunct
				all := true
				for _, q := range ps {
					instMu.Lock()
					scr, scr0 := emitVC(j.o.factsL, q, ""), pruned(j.o.factsL, q)
					instMu.Unlock()
					s1, so1, secs1, out1 := solveScript(scr, scr0, func() string { return instantiated(j.o.factsL, q) }, budget)
					secs += secs1
					if s1 != "unsat" {
						all, st, so, out = false, s1, so1, out1
						if s1 == "sat" {
							out = modelOf(scr)
						}
						break
					}
				}
				if all {
					st = "unsat"
				}
			}
			j.o.Solver, j.o.Secs = so, secs
			switch st {
			case "unsat":
				j.o.Status = "proved"
			case "sat":
				j.o.Status = "failed"
				j.o.Model = out
				if !strings.Contains(out, "define-fun") {
					j.o.Model = modelOf(j.scr)
				}
			case "error":
				j.o.Status = "error"
				j.o.Model = out
			default:
				j.o.Status = "unknown"
				j.o.Model = out
			}
			if j.o.Status != "proved" && dumpDir != "" {
				writeDump(j.o, j.scr)
			}
		}(j)
	}
	wg.Wait()
}
