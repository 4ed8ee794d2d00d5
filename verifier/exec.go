package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	Func   string
	Kind   string // ensures, requires, inv-init, inv-keep, frame, cover, lemma
	Pos    string
	facts  int // number of facts visible
	hyp    *Term
	goal   *Term
	factsL []*Term
	Known  string // known finding tag
	// results
	Status string
	Solver string
	Secs   float64
	Model  string
}

type Exec struct {
	prog      *Program
	spec      *Spec
	top       *Contract
	topFn     *ssa.Function
	initHeap  map[string]*Term
	keyKind   map[string]Leaf
	keySort   map[string]Sort
	base0     *Term
	allocN    int64
	facts     []*Term
	obls      []*Obl
	writeLogs []*[]writeRec
	stack     []*ssa.Function
	frames    []*Frame
	notes     map[string]bool
	inlined   map[string]bool
	usedExt   map[string]bool
	globals   map[string]Val
	loops     []*loopCtx
	dry       int
	iterSeq   int
	siteSeq   int
	env0      *SpecEnv // top-level spec environment (params bound, old state)
	preState  *State
	loopStats []string
	invCount  int
	houdini   bool
	callDepth int
	ctxPos    token.Pos
	noObl     int
	callOcc   map[string]int
	disabled  map[string]bool // contracts not to be used at call sites
	preds     map[string]bool
	noFail    bool
}

type loopCtx struct {
	iter  *Term
	entry *State
	fr    *Frame
	head  *ssa.BasicBlock
}

type Frame struct {
	fn      *ssa.Function
	vals    map[ssa.Value]Val
	binds   []Val
	defers  []deferRec
	returns []edge
	loops   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	rpo     []*ssa.BasicBlock
	rpoIdx  map[*ssa.BasicBlock]int
	callPos token.Pos
}

type deferRec struct {
	cond *Term
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

func newExec(p *Program, spec *Spec) *Exec {
	x := &Exec{prog: p, spec: spec, initHeap: map[string]*Term{}, keyKind: map[string]Leaf{}, keySort: map[string]Sort{},
		notes: map[string]bool{}, inlined: map[string]bool{}, usedExt: map[string]bool{}, globals: map[string]Val{}, callOcc: map[string]int{}, disabled: map[string]bool{}}
	x.base0 = mkSym("A0", SInt)
	allocBase[x.base0] = 0
	baseA0 = x.base0
	symAxioms[x.base0] = []*Term{mkLe(mkInt(1000000), x.base0)}
	return x
}

func (x *Exec) note(format string, a ...interface{}) { x.notes[fmt.Sprintf(format, a...)] = true }

func (x *Exec) fact(st *State, t *Term) {
	f := mkImp(st.pc, t)
	if f != tTrue {
		x.facts = append(x.facts, f)
	}
}

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.prog.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line)
}

func (x *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term) *Obl {
	if x.noObl > 0 || x.dry > 0 {
		return nil
	}
	fn := ""
	if x.topFn != nil {
		fn = x.topFn.String()
	}
	o := &Obl{Name: name, Func: fn, Kind: kind, Pos: x.posStr(pos), hyp: st.pc, goal: goal, facts: len(x.facts)}
	o.factsL = append([]*Term{}, x.facts...)
	x.obls = append(x.obls, o)
	return o
}

// ---------- CFG helpers ----------
func (x *Exec) newFrame(fn *ssa.Function) *Frame {
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	fr.rpoIdx = map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		fr.rpoIdx[post[i]] = len(fr.rpo)
		fr.rpo = append(fr.rpo, post[i])
	}
	fr.loops = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				L := fr.loops[s]
				if L == nil {
					L = map[*ssa.BasicBlock]bool{s: true}
					fr.loops[s] = L
				}
				var work []*ssa.BasicBlock
				if !L[b] {
					L[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range c.Preds {
						if !L[p] && seen[p] {
							L[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	// RPO with loops contiguous: reorder so that loop bodies precede exits
	fr.rpo = x.loopOrder(fr, fn.Blocks[0], nil)
	for i, b := range fr.rpo {
		fr.rpoIdx[b] = i
	}
	return fr
}

// loopOrder produces a topological order (ignoring back edges) in which the
// blocks of each loop are contiguous.
func (x *Exec) loopOrder(fr *Frame, entry *ssa.BasicBlock, within map[*ssa.BasicBlock]bool) []*ssa.BasicBlock {
	return fr.rpo // processing below is loop-aware; RPO suffices
}

// ---------- function execution ----------

// runFunc executes fn with arguments in state st and returns merged results.
// ok=false if no return is reachable.
func (x *Exec) runFunc(fn *ssa.Function, args []Val, binds []Val, st *State) ([]Val, *State, bool) {
	fr := x.newFrame(fn)
	fr.binds = binds
	for i, p := range fn.Params {
		if i < len(args) {
			fr.vals[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			fr.vals[fv] = binds[i]
		}
	}
	x.stack = append(x.stack, fn)
	x.frames = append(x.frames, fr)
	defer func() {
		x.stack = x.stack[:len(x.stack)-1]
		x.frames = x.frames[:len(x.frames)-1]
	}()
	in := map[*ssa.BasicBlock][]edge{}
	in[fn.Blocks[0]] = []edge{mkEdge(nil, st, nil)}
	blocks := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.rpo {
		blocks[b] = true
	}
	x.runRegion(fr, blocks, nil, in, nil)
	if len(fr.returns) == 0 {
		return nil, nil, false
	}
	rst, conds := x.mergeEdges(fr.returns)
	n := len(fr.returns[0].vals)
	res := make([]Val, n)
	for i := 0; i < n; i++ {
		vs := make([]Val, len(fr.returns))
		for j, e := range fr.returns {
			vs[j] = e.vals[i]
		}
		res[i] = mergeMany(conds, vs)
	}
	return res, rst, true
}

// runRegion executes the blocks of a region (a function body or loop body).
// If header != nil, edges back to header are appended to *back.
// Edges leaving the region are stored in outer.
func (x *Exec) runRegion(fr *Frame, blocks map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, sink *regionSink) {
	for _, b := range fr.rpo {
		if !blocks[b] {
			continue
		}
		es := in[b]
		if len(es) == 0 {
			continue
		}
		delete(in, b)
		if L := fr.loops[b]; L != nil && b != header {
			x.runLoop(fr, b, L, es, in, blocks, header, sink)
			continue
		}
		st, ok := x.enterBlock(fr, b, es)
		if !ok {
			continue
		}
		x.runBlock(fr, b, st, func(succ *ssa.BasicBlock, e edge) { x.deliver(succ, e, blocks, header, in, sink) })
	}
}

type regionSink struct {
	back []edge
	out  map[*ssa.BasicBlock][]edge
}

func (x *Exec) deliver(succ *ssa.BasicBlock, e edge, blocks map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, sink *regionSink) {
	if e.st.pc == tFalse {
		return
	}
	if succ == header {
		sink.back = append(sink.back, e)
		return
	}
	if blocks[succ] {
		in[succ] = append(in[succ], e)
		return
	}
	sink.out[succ] = append(sink.out[succ], e)
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == p {
			return i
		}
	}
	return -1
}

// enterBlock merges incoming edges and evaluates phis.
func (x *Exec) enterBlock(fr *Frame, b *ssa.BasicBlock, es []edge) (*State, bool) {
	st, conds := x.mergeEdges(es)
	if st.pc == tFalse {
		return nil, false
	}
	x.evalPhis(fr, b, es, conds)
	return st, true
}

func (x *Exec) evalPhis(fr *Frame, b *ssa.BasicBlock, es []edge, conds []*Term) {
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var pvs []pv
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		pvs = append(pvs, pv{phi, x.phiVal(fr, b, phi, es, conds)})
	}
	for _, p := range pvs {
		fr.vals[p.p] = p.v
	}
}

func (x *Exec) phiVal(fr *Frame, b *ssa.BasicBlock, phi *ssa.Phi, es []edge, conds []*Term) Val {
	vs := make([]Val, len(es))
	for i, e := range es {
		if e.vals != nil { // precomputed phi inputs (loop exits keep snapshot)
		}
		vs[i] = x.phiIn(fr, phi, b, e)
	}
	return mergeMany(conds, vs)
}

func (x *Exec) phiIn(fr *Frame, phi *ssa.Phi, b *ssa.BasicBlock, e edge) Val {
	if v, ok := e.frozen[phi]; ok {
		return v
	}
	if e.pred == nil {
		return x.freshVal(e.st, phi.Type(), "phi")
	}
	return x.val(fr, phi.Edges[predIndex(b, e.pred)], e.st)
}

func (x *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, out func(*ssa.BasicBlock, edge)) {
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			x.ctxPos = ins.Pos()
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, i.Cond, st).(*Term)
			if b.Succs[0] == b.Succs[1] {
				out(b.Succs[0], mkEdge(b, st, nil))
				return
			}
			t := st.clone()
			t.pc = mkAnd(st.pc, c)
			f := st.clone()
			f.pc = mkAnd(st.pc, mkNot(c))
			if t.pc != tFalse {
				out(b.Succs[0], mkEdge(b, t, nil))
			}
			if f.pc != tFalse {
				out(b.Succs[1], mkEdge(b, f, nil))
			}
			return
		case *ssa.Jump:
			out(b.Succs[0], mkEdge(b, st, nil))
			return
		case *ssa.Return:
			var vs []Val
			for _, r := range i.Results {
				vs = append(vs, x.val(fr, r, st))
			}
			fr.returns = append(fr.returns, mkEdge(b, st, vs))
			return
		case *ssa.Panic:
			if x.top != nil && x.top.NoPanic {
				x.oblige(st, "nopanic", "explicit panic unreachable", i.Pos(), tFalse)
			}
			return
		case *ssa.RunDefers:
			st = x.runDefers(fr, st)
			if st == nil {
				return
			}
		default:
			ns := x.instr(fr, ins, st)
			if ns == nil {
				return
			}
			st = ns
			if st.pc == tFalse {
				return
			}
		}
	}
}

func (x *Exec) runDefers(fr *Frame, st *State) *State {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var cs []*Term
		var ps []*Term
		conjuncts(d.cond, &cs)
		conjuncts(st.pc, &ps)
		have := map[*Term]bool{}
		for _, p := range ps {
			have[p] = true
		}
		var need []*Term
		dead := false
		for _, c := range cs {
			if have[mkNot(c)] {
				dead = true
			}
			if !have[c] {
				need = append(need, c)
			}
		}
		if dead {
			continue
		}
		g := mkAnd(need...)
		if g == tTrue {
			_, ns, ok := x.callValue(st, d.call, d.fn, d.args, d.pos, fr)
			if !ok {
				return nil
			}
			st = ns
			continue
		}
		a := st.clone()
		a.pc = mkAnd(st.pc, g)
		nb := st.clone()
		nb.pc = mkAnd(st.pc, mkNot(g))
		_, ns, ok := x.callValue(a, d.call, d.fn, d.args, d.pos, fr)
		var es []edge
		if ok && ns.pc != tFalse {
			es = append(es, mkEdge(nil, ns, nil))
		}
		if nb.pc != tFalse {
			es = append(es, mkEdge(nil, nb, nil))
		}
		if len(es) == 0 {
			return nil
		}
		st, _ = x.mergeEdges(es)
	}
	return st
}

// ---------- operand values ----------
func (x *Exec) val(fr *Frame, v ssa.Value, st *State) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Global:
		return &Loc{kind: 'g', base: c.Pkg.Pkg.Path() + "." + c.Name(), T: c.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return &FuncV{}
	}
	if r, ok := fr.vals[v]; ok {
		return r
	}
	x.note("undefined value %s in %s", v.Name(), fr.fn)
	r := x.freshVal(st, v.Type(), "undef")
	fr.vals[v] = r
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return mkStr(constant.StringVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			r, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return mkBig(r)
		case u.Info()&types.IsFloat != 0:
			f := constant.ToFloat(c.Value)
			r, ok := new(big.Rat).SetString(f.ExactString())
			if !ok {
				r = new(big.Rat)
			}
			return mkRat(r)
		}
	}
	// named types over basics handled above via Underlying; others opaque
	return zeroVal(t)
}

func asTerm(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Loc:
		return v.term()
	case *MapV:
		return v.ref
	case *FuncV:
		return v.term()
	}
	panic(fmt.Sprintf("asTerm %T", v))
}

// derefCheck: continuing past a dereference implies non-nil.
func (x *Exec) nonNil(st *State, l *Loc) {
	if l.kind == 'o' && l.path == "" {
		c := mkNot(mkEq(l.ref, mkInt(0)))
		if c == tTrue {
			return
		}
		if x.top != nil && x.top.NoPanic {
			x.oblige(st, "nopanic", "nil dereference", x.ctxPos, c)
		}
		x.fact(st, c)
	}
}

func fieldName(t types.Type, i int) (string, types.Type) {
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (x *Exec) instr(fr *Frame, ins ssa.Instruction, st *State) *State {
	set := func(v ssa.Value, r Val) { fr.vals[v] = r }
	switch i := ins.(type) {
	case *ssa.Alloc:
		set(i, x.allocObj(st, i.Type().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		set(i, x.binop(st, i.Op, x.val(fr, i.X, st), x.val(fr, i.Y, st), i.X.Type(), i.Type()))
	case *ssa.UnOp:
		v := x.val(fr, i.X, st)
		switch i.Op {
		case token.MUL:
			l, ok := v.(*Loc)
			if !ok {
				x.note("load through %T", v)
				set(i, x.freshVal(st, i.Type(), "load"))
				break
			}
			x.nonNil(st, l)
			set(i, x.load(st, l))
		case token.NOT:
			set(i, mkNot(v.(*Term)))
		case token.SUB:
			set(i, mkNeg(v.(*Term)))
		case token.ARROW:
			set(i, x.freshVal(st, i.Type(), "recv"))
			x.newBase(st, "recv")
		default:
			set(i, x.freshVal(st, i.Type(), "unop"))
		}
	case *ssa.Call:
		res, ns, ok := x.callCommon(fr, st, &i.Call, i.Pos())
		if !ok {
			return nil
		}
		set(i, res)
		return ns
	case *ssa.Defer:
		fnv, args := x.callOperands(fr, st, &i.Call)
		for _, b := range fr.loops {
			if b[i.Block()] {
				x.note("defer inside a loop in %s", fr.fn)
			}
		}
		fr.defers = append(fr.defers, deferRec{st.pc, &i.Call, fnv, args, i.Pos()})
	case *ssa.Go:
		if x.spec.RunGo {
			x.note("goroutine started in %s is analysed as if it ran to completion where it is started", fr.fn)
			if _, ns, ok := x.callCommon(fr, st, &i.Call, i.Pos()); ok {
				return ns
			}
			return nil
		}
		x.note("goroutine started in %s is not analysed", fr.fn)
		x.event(st, "go", nil)
	case *ssa.ChangeInterface:
		set(i, x.val(fr, i.X, st))
	case *ssa.ChangeType:
		set(i, x.retype(x.val(fr, i.X, st), i.Type()))
	case *ssa.Convert:
		set(i, x.convert(st, x.val(fr, i.X, st), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, x.freshVal(st, i.Type(), "conv"))
	case *ssa.Extract:
		t, ok := x.val(fr, i.Tuple, st).(TupleV)
		if !ok || i.Index >= len(t) {
			set(i, x.freshVal(st, i.Type(), "extract"))
		} else {
			set(i, t[i.Index])
		}
	case *ssa.Field:
		sv, ok := x.val(fr, i.X, st).(*StructV)
		if !ok {
			set(i, x.freshVal(st, i.Type(), "field"))
		} else {
			set(i, sv.F[i.Field])
		}
	case *ssa.FieldAddr:
		l := x.val(fr, i.X, st).(*Loc)
		x.nonNil(st, l)
		n, ft := fieldName(l.T, i.Field)
		set(i, &Loc{kind: l.kind, base: l.base, T: ft, ref: l.ref, idx: l.idx, path: joinPath(l.path, n)})
	case *ssa.Index:
		switch a := x.val(fr, i.X, st).(type) {
		case *ArrayV:
			idx := x.val(fr, i.Index, st).(*Term)
			var ts []*Term
			for _, l := range a.leaves {
				ts = append(ts, mkSelect(l, idx))
			}
			set(i, fromLeaves(a.elem, ts))
		case *Term:
			if a.sort == SStr {
				set(i, mkApp("str_byte", SInt, a, x.val(fr, i.Index, st).(*Term)))
			} else {
				set(i, x.freshVal(st, i.Type(), "index"))
			}
		default:
			set(i, x.freshVal(st, i.Type(), "index"))
		}
	case *ssa.IndexAddr:
		idx := x.val(fr, i.Index, st).(*Term)
		switch a := x.val(fr, i.X, st).(type) {
		case *SliceV:
			x.fact(st, mkAnd(mkLe(mkInt(0), idx), mkLt(idx, a.ln)))
			set(i, &Loc{kind: 'e', base: typeKey(a.elem), T: a.elem, ref: a.arr, idx: mkAdd(a.off, idx)})
		case *Loc:
			if !a.simple() {
				x.note("array inside struct indexed in %s", fr.fn)
			}
			el := a.T.Underlying().(*types.Array).Elem()
			set(i, &Loc{kind: 'e', base: typeKey(el), T: el, ref: a.ref, idx: idx})
		}
	case *ssa.Lookup:
		xv := x.val(fr, i.X, st)
		if m, ok := xv.(*MapV); ok {
			k := keyTerm(x.val(fr, i.Index, st))
			has := x.mapHas(st, m, k)
			v := x.mapGet(st, m, k)
			v = mergeVal(has, v, zeroVal(m.T.Elem()))
			if i.CommaOk {
				set(i, TupleV{v, has})
			} else {
				set(i, v)
			}
		} else {
			set(i, mkApp("str_byte", SInt, xv.(*Term), x.val(fr, i.Index, st).(*Term)))
		}
	case *ssa.MakeInterface:
		set(i, x.mkIface(st, x.val(fr, i.X, st), i.X.Type()))
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.binds = append(f.binds, x.val(fr, b, st))
		}
		set(i, f)
	case *ssa.MakeMap:
		mt := i.Type().Underlying().(*types.Map)
		set(i, x.newMap(st, mt))
	case *ssa.MakeChan:
		set(i, x.alloc(st))
	case *ssa.MakeSlice:
		el := i.Type().Underlying().(*types.Slice).Elem()
		ln := x.val(fr, i.Len, st).(*Term)
		set(i, x.newSlice(st, el, ln))
		x.fact(st, mkLe(mkInt(0), ln))
	case *ssa.MapUpdate:
		m, ok := x.val(fr, i.Map, st).(*MapV)
		if !ok {
			x.note("map update on unsupported value")
			break
		}
		x.fact(st, mkNot(mkEq(m.ref, mkInt(0))))
		x.mapSet(st, m, keyTerm(x.val(fr, i.Key, st)), x.val(fr, i.Value, st))
	case *ssa.Range:
		switch m := x.val(fr, i.X, st).(type) {
		case *MapV:
			it := &IterV{m: m, id: fmt.Sprintf("it|%s|%s|%d", normName(fr.fn.String()), i.Name(), len(x.stack)), domAt: x.mapDom(st, m)}
			key := it.id
			s := arrOf(keySortOf(m.T.Key()), SBool)
			x.keySort[key] = s
			x.hset(st, key, mkConstArr(s, tFalse))
			x.keySort[key+"|n"] = SInt
			x.hset(st, key+"|n", mkInt(0))
			x.logWrite(key, nil, nil)
			x.logWrite(key+"|n", nil, nil)
			set(i, it)
		case *Term:
			set(i, &IterV{str: m})
		}
	case *ssa.Next:
		it, _ := x.val(fr, i.Iter, st).(*IterV)
		if it == nil || it.m == nil {
			set(i, x.freshVal(st, i.Type(), "next"))
			break
		}
		set(i, x.mapNext(st, it, i))
	case *ssa.Slice:
		set(i, x.slice(fr, st, i))
	case *ssa.Store:
		l, ok := x.val(fr, i.Addr, st).(*Loc)
		if !ok {
			x.note("store through unsupported pointer")
			break
		}
		x.nonNil(st, l)
		x.store(st, l, x.val(fr, i.Val, st))
	case *ssa.TypeAssert:
		set(i, x.typeAssert(st, x.val(fr, i.X, st), i.AssertedType, i.CommaOk))
	case *ssa.Select:
		set(i, x.freshVal(st, i.Type(), "select"))
		x.newBase(st, "select")
	case *ssa.Send:
		x.event(st, "chansend", nil)
	case *ssa.SliceToArrayPointer:
		set(i, x.freshVal(st, i.Type(), "s2a"))
	default:
		x.note("unsupported instruction %T in %s", ins, fr.fn)
		if v, ok := ins.(ssa.Value); ok {
			set(v, x.freshVal(st, v.Type(), "unsup"))
		}
	}
	return st
}

func (x *Exec) newMap(st *State, mt *types.Map) *MapV {
	m := &MapV{x.alloc(st), mt}
	dk, ds := x.mapDomKey(mt)
	x.hset(st, dk, mkStore(x.hget(st, dk, ds), m.ref, mkConstArr(arrElem(ds), tFalse)))
	x.logWrite(dk, m.ref, nil)
	lk, ls := x.mapLenKey(mt)
	x.hset(st, lk, mkStore(x.hget(st, lk, ls), m.ref, mkInt(0)))
	x.logWrite(lk, m.ref, nil)
	return m
}

func (x *Exec) newSlice(st *State, el types.Type, ln *Term) *SliceV {
	s := &SliceV{x.alloc(st), mkInt(0), ln, el}
	for _, lf := range leavesOf(el) {
		k, srt := x.locKey(&Loc{kind: 'e', base: typeKey(el), T: el}, lf)
		x.hset(st, k, mkStore(x.hget(st, k, srt), s.arr, mkConstArr(arrElem(srt), zeroLeaf(lf.sort))))
		x.logWrite(k, s.arr, nil)
	}
	return s
}

// mapNext: (ok, key, value)
func (x *Exec) mapNext(st *State, it *IterV, i *ssa.Next) Val {
	m := it.m
	visS := x.keySort[it.id]
	vis := x.hget(st, it.id, visS)
	dom := x.mapDom(st, m)
	ks := keySortOf(m.T.Key())
	ok := freshSym("mapok", SBool)
	kv := x.freshVal(st, m.T.Key(), "mapkey")
	k := keyTerm(kv)
	cnt := x.hget(st, it.id+"|n", SInt)
	x.fact(st, mkImp(ok, mkAnd(mkSelect(dom, k), mkNot(mkSelect(vis, k)), mkNot(mkEq(m.ref, mkInt(0))))))
	b := mkBound("k", ks)
	// not ok: every key visited (keys present when iteration started and not removed)
	selv := rawOp("select", SBool, vis, b)
	seld := rawOp("select", SBool, dom, b)
	x.fact(st, mkImp(mkNot(ok), mkForall([]*Term{b}, mkImp(mkSelect(dom, b), mkSelect(vis, b)), []*Term{selv}, []*Term{seld})))
	x.fact(st, mkImp(mkNot(ok), mkImp(mkNot(mkEq(m.ref, mkInt(0))), mkEq(cnt, x.mapLen(st, m)))))
	x.fact(st, mkImp(mkEq(m.ref, mkInt(0)), mkNot(ok)))
	x.fact(st, mkImp(ok, mkLt(cnt, x.mapLen(st, m))))
	// ghost updates guarded by ok
	x.hset(st, it.id, mkIte(ok, mkStore(vis, k, tTrue), vis))
	x.hset(st, it.id+"|n", mkIte(ok, mkAdd(cnt, mkInt(1)), cnt))
	x.logWrite(it.id, nil, nil)
	x.logWrite(it.id+"|n", nil, nil)
	v := x.mapGet(st, m, k)
	tt := i.Type().(*types.Tuple)
	var vv Val = v
	if b, isb := tt.At(2).Type().Underlying().(*types.Basic); isb && b.Kind() == types.Invalid {
		vv = mkInt(0)
	}
	var kk Val = kv
	return TupleV{ok, kk, vv}
}

func (x *Exec) mkIface(st *State, v Val, t types.Type) Val {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	tag := tagOf(t)
	var pay *Term
	ls := toLeaves(v)
	if len(ls) == 1 {
		switch ls[0].sort {
		case SInt:
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				pay = ls[0]
			} else {
				pay = mkBox(ls[0])
			}
		default:
			pay = mkBox(ls[0])
		}
	} else {
		pay = mkApp("box_"+sanitize(typeKey(t)), SInt, ls...)
	}
	r := &IfaceV{tag: tag, pay: pay, dynT: t, dyn: v}
	toLeaves(r)
	return r
}

func mkBox(t *Term) *Term {
	if t.op == "app" && strings.HasPrefix(t.name, "unbox_") {
		// not simplified: box(unbox(p)) = p only if p is a box
	}
	n := "box_" + sanitize(string(t.sort))
	if _, ok := fnAxioms[n]; !ok {
		b := mkBound("v", t.sort)
		un := "unbox_" + sanitize(string(t.sort))
		bx := rawOp("app", SInt, b)
		bx = mkApp(n, SInt, b)
		fnAxioms[n] = []*Term{mkForall([]*Term{b}, mkEq(mkApp(un, t.sort, bx), b), []*Term{bx})}
	}
	return mkApp(n, SInt, t)
}
func mkUnbox(p *Term, s Sort) *Term {
	if p.op == "app" && p.name == "box_"+sanitize(string(s)) {
		return p.args[0]
	}
	if p.op == "ite" {
		return mkIte(p.args[0], mkUnbox(p.args[1], s), mkUnbox(p.args[2], s))
	}
	return mkApp("unbox_"+sanitize(string(s)), s, p)
}

func (x *Exec) unboxVal(st *State, iv *IfaceV, t types.Type) Val {
	if iv.dynT != nil && types.Identical(iv.dynT, t) && iv.dyn != nil {
		return iv.dyn
	}
	ls := leavesOf(t)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return fromLeaves(t, []*Term{iv.pay})
	}
	if len(ls) == 1 {
		u := mkUnbox(iv.pay, ls[0].sort)
		return fromLeaves(t, []*Term{u})
	}
	n := "box_" + sanitize(typeKey(t))
	if iv.pay.op == "app" && iv.pay.name == n {
		return fromLeaves(t, iv.pay.args)
	}
	var ts []*Term
	memo := map[*Term]*Term{}
	for i, l := range ls {
		for k := range memo {
			delete(memo, k)
		}
		ts = append(ts, unboxLeaf(iv.pay, n, fmt.Sprintf("unbox_%s_%d", sanitize(typeKey(t)), i), i, l.sort, memo))
	}
	v := fromLeaves(t, ts)
	if sv, ok := v.(*SliceV); ok {
		x.fact(st, mkLe(mkInt(0), sv.ln))
	}
	return v
}

// unboxLeaf reads one leaf of a boxed value, through the choices a merge left.
func unboxLeaf(p *Term, box, un string, i int, so Sort, memo map[*Term]*Term) *Term {
	if r, ok := memo[p]; ok {
		return r
	}
	var r *Term
	switch {
	case p.op == "ite":
		r = mkIte(p.args[0], unboxLeaf(p.args[1], box, un, i, so, memo), unboxLeaf(p.args[2], box, un, i, so, memo))
	case p.op == "app" && p.name == box:
		r = p.args[i]
	default:
		r = mkApp(un, so, p)
	}
	memo[p] = r
	return r
}

func (x *Exec) typeAssert(st *State, v Val, t types.Type, commaOk bool) Val {
	iv, ok := v.(*IfaceV)
	if !ok {
		return x.freshVal(st, t, "assert")
	}
	if _, isI := t.Underlying().(*types.Interface); isI {
		var c *Term
		if iv.dynT != nil {
			c = mkBool(types.Implements(iv.dynT, t.Underlying().(*types.Interface)))
		} else {
			c = mkAnd(mkNot(mkEq(iv.tag, mkInt(0))), mkApp("implements_"+sanitize(typeKey(t)), SBool, iv.tag))
		}
		z := zeroVal(t)
		if commaOk {
			return TupleV{mergeVal(c, iv, z), c}
		}
		x.fact(st, c)
		return iv
	}
	c := mkEq(iv.tag, tagOf(t))
	if iv.dynT != nil {
		c = mkBool(types.Identical(iv.dynT, t))
	}
	if c == tFalse {
		if commaOk {
			return TupleV{zeroVal(t), tFalse}
		}
		x.fact(st, tFalse)
		return zeroVal(t)
	}
	r := x.unboxVal(st, iv, t)
	if commaOk {
		return TupleV{mergeVal(c, r, zeroVal(t)), c}
	}
	x.fact(st, c)
	return r
}

func (x *Exec) retype(v Val, t types.Type) Val {
	switch vv := v.(type) {
	case *StructV:
		r := &StructV{T: t, F: vv.F}
		return r
	case *Loc:
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return &Loc{kind: vv.kind, base: vv.base, T: p.Elem(), ref: vv.ref, idx: vv.idx, path: vv.path}
		}
	}
	return v
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		t, isT := v.(*Term)
		if !isT {
			return x.freshVal(st, to, "conv")
		}
		fi, ti := fb.Info(), tb.Info()
		switch {
		case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
			return t // mathematical integers
		case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
			return toReal(t)
		case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
			return mkTrunc(t)
		case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
			return t
		case fi&types.IsString != 0 && ti&types.IsString != 0:
			return t
		case fi&types.IsInteger != 0 && ti&types.IsString != 0:
			return mkApp("rune2str", SStr, t)
		}
		return x.freshVal(st, to, "conv")
	}
	// string <-> []byte
	if ok2 && tb.Info()&types.IsString != 0 {
		if sv, ok := v.(*SliceV); ok {
			return x.bytesToStr(st, sv)
		}
	}
	if ok1 && fb.Info()&types.IsString != 0 {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			return x.strToBytes(st, v.(*Term), sl.Elem())
		}
	}
	return x.freshVal(st, to, "conv")
}

// byte slices obtained from strings: contents abstracted by a per-array string.
func (x *Exec) strToBytes(st *State, s *Term, el types.Type) Val {
	arr := x.alloc(st)
	ln := mkApp("str_len", SInt, s)
	strLenAxiom()
	key := "bytes|str"
	x.keySort[key] = arrOf(SInt, SStr)
	x.hset(st, key, mkStore(x.hget(st, key, x.keySort[key]), arr, s))
	x.logWrite(key, arr, nil)
	return &SliceV{arr, mkInt(0), ln, el}
}
func strLenAxiom() {
	if _, ok := fnAxioms["str_len"]; !ok {
		b := mkBound("s", SStr)
		l := mkApp("str_len", SInt, b)
		fnAxioms["str_len"] = []*Term{}
		if !nativeStrings {
			fnAxioms["str_len"] = []*Term{mkForall([]*Term{b}, mkLe(mkInt(0), l), []*Term{l}),
				mkForall([]*Term{b}, mkEq(mkEq(l, mkInt(0)), mkEq(b, mkStr(""))), []*Term{l})}
		}
	}
}
func (x *Exec) bytesToStr(st *State, s *SliceV) *Term {
	key := "bytes|str"
	x.keySort[key] = arrOf(SInt, SStr)
	row := mkSelect(x.hget(st, key, x.keySort[key]), s.arr)
	strLenAxiom()
	full := mkAnd(mkEq(s.off, mkInt(0)), mkEq(s.ln, mkApp("str_len", SInt, row)))
	if row.op != "select" && s.off == mkInt(0) && s.ln == mkApp("str_len", SInt, row) {
		return row
	}
	return mkIte(full, row, mkApp("str_sub", SStr, row, s.off, s.ln))
}

func (x *Exec) slice(fr *Frame, st *State, i *ssa.Slice) Val {
	v := x.val(fr, i.X, st)
	var lo *Term = mkInt(0)
	if i.Low != nil {
		lo = x.val(fr, i.Low, st).(*Term)
	}
	switch s := v.(type) {
	case *SliceV:
		hi := s.ln
		if i.High != nil {
			hi = x.val(fr, i.High, st).(*Term)
		}
		x.fact(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi)))
		return &SliceV{s.arr, mkAdd(s.off, lo), mkSub(hi, lo), s.elem}
	case *Loc: // pointer to array
		at := s.T.Underlying().(*types.Array)
		hi := mkInt(at.Len())
		if i.High != nil {
			hi = x.val(fr, i.High, st).(*Term)
		}
		return &SliceV{s.ref, lo, mkSub(hi, lo), at.Elem()}
	case *Term:
		strLenAxiom()
		var hi *Term = mkApp("str_len", SInt, s)
		if i.High != nil {
			hi = x.val(fr, i.High, st).(*Term)
		}
		if s.op == "str" && lo.op == "int" && hi.op == "int" {
			l, h := int(lo.num.Num().Int64()), int(hi.num.Num().Int64())
			if l >= 0 && l <= h && h <= len(s.name) {
				return mkStr(s.name[l:h])
			}
		}
		x.fact(st, mkAnd(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, mkApp("str_len", SInt, s))))
		return mkApp("str_sub", SStr, s, lo, mkSub(hi, lo))
	}
	x.note("slice of %T", v)
	return x.freshVal(st, i.Type(), "slice")
}

func (x *Exec) valEq(st *State, a, b Val) *Term {
	la, lb := toLeaves(a), toLeaves(b)
	if len(la) != len(lb) {
		return freshSym("eq", SBool)
	}
	switch av := a.(type) {
	case *SliceV: // comparison with nil
		bv := b.(*SliceV)
		return mkEq(av.arr, bv.arr)
	case *Loc:
		bv := b.(*Loc)
		// interior pointers are never nil
		if !av.simple() && bv.simple() && bv.ref == mkInt(0) || !bv.simple() && av.simple() && av.ref == mkInt(0) {
			return tFalse
		}
	}
	var cs []*Term
	for i := range la {
		cs = append(cs, mkEq(la[i], lb[i]))
	}
	return mkAnd(cs...)
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, at, rt types.Type) Val {
	switch op {
	case token.EQL:
		return x.valEqT(st, a, b)
	case token.NEQ:
		return mkNot(x.valEqT(st, a, b))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		return x.freshVal(st, rt, "binop")
	}
	bt, _ := at.Underlying().(*types.Basic)
	isF := bt != nil && bt.Info()&types.IsFloat != 0
	isS := bt != nil && bt.Info()&types.IsString != 0
	switch op {
	case token.ADD:
		if isS {
			return strCat(ta, tb)
		}
		if isF {
			return floatOp("fadd", ta, tb)
		}
		return mkAdd(ta, tb)
	case token.SUB:
		if isF {
			return floatOp("fsub", ta, tb)
		}
		return mkSub(ta, tb)
	case token.MUL:
		if isF {
			return floatOp("fmul", ta, tb)
		}
		return mkMul(ta, tb)
	case token.QUO:
		if isF {
			return floatOp("fdiv", ta, tb)
		}
		x.fact(st, mkNot(mkEq(tb, mkInt(0))))
		return mkTDiv(ta, tb)
	case token.REM:
		x.fact(st, mkNot(mkEq(tb, mkInt(0))))
		return mkTMod(ta, tb)
	case token.LSS:
		if isS {
			return strLt(ta, tb)
		}
		return mkLt(ta, tb)
	case token.LEQ:
		if isS {
			return mkNot(strLt(tb, ta))
		}
		return mkLe(ta, tb)
	case token.GTR:
		if isS {
			return strLt(tb, ta)
		}
		return mkGt(ta, tb)
	case token.GEQ:
		if isS {
			return mkNot(strLt(ta, tb))
		}
		return mkGe(ta, tb)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if ta.op == "int" && tb.op == "int" {
			r := new(big.Int)
			p, q := ta.num.Num(), tb.num.Num()
			switch op {
			case token.AND:
				r.And(p, q)
			case token.OR:
				r.Or(p, q)
			case token.XOR:
				r.Xor(p, q)
			case token.SHL:
				r.Lsh(p, uint(q.Uint64()))
			case token.SHR:
				r.Rsh(p, uint(q.Uint64()))
			default:
				r.AndNot(p, q)
			}
			return mkBig(r)
		}
		if ta.sort == SBool {
			if op == token.AND {
				return mkAnd(ta, tb)
			}
			if op == token.OR {
				return mkOr(ta, tb)
			}
		}
		return mkApp("bitop_"+sanitize(op.String())+fmt.Sprint(int(op)), SInt, ta, tb)
	}
	return x.freshVal(st, rt, "binop")
}

// interface payload comparison against boxed strings etc. is by leaf equality
func (x *Exec) valEqT(st *State, a, b Val) *Term {
	// mixed interface / concrete comparison
	ia, okA := a.(*IfaceV)
	ib, okB := b.(*IfaceV)
	if okA && okB {
		if ib.tag == mkInt(0) {
			return mkEq(ia.tag, mkInt(0))
		}
		if ia.tag == mkInt(0) {
			return mkEq(ib.tag, mkInt(0))
		}
	}
	return x.valEq(st, a, b)
}

func floatOp(n string, a, b *Term) *Term {
	if a.isNum() && b.isNum() {
		af, _ := a.num.Float64()
		bf, _ := b.num.Float64()
		var r float64
		switch n {
		case "fadd":
			r = af + bf
		case "fsub":
			r = af - bf
		case "fmul":
			r = af * bf
		case "fdiv":
			r = af / bf
		}
		if q := new(big.Rat); q.SetFloat64(r) != nil {
			return mkRat(q)
		}
	}
	return mkApp(n, SReal, a, b)
}

func strCat(a, b *Term) *Term {
	if a.op == "str" && a.name == "" {
		return b
	}
	if b.op == "str" && b.name == "" {
		return a
	}
	if a.op == "str" && b.op == "str" {
		return mkStr(a.name + b.name)
	}
	// right-assoc normal form
	if a.op == "app" && a.name == "str_cat" {
		return strCat(a.args[0], strCat(a.args[1], b))
	}
	if a.op == "str" && b.op == "app" && b.name == "str_cat" && b.args[0].op == "str" {
		return strCat(mkStr(a.name+b.args[0].name), b.args[1])
	}
	if a.op == "ite" && a.args[1].op == "str" && a.args[2].op == "str" {
		return mkIte(a.args[0], strCat(a.args[1], b), strCat(a.args[2], b))
	}
	return mkApp("str_cat", SStr, a, b)
}
func strLt(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return mkBool(a.name < b.name)
	}
	if a == b {
		return tFalse
	}
	if !nativeStrings {
		if _, ok := fnAxioms["str_lt"]; !ok {
			p, q, r := mkBound("p", SStr), mkBound("q", SStr), mkBound("r", SStr)
			lt := func(u, v *Term) *Term { return mkApp("str_lt", SBool, u, v) }
			fnAxioms["str_lt"] = []*Term{
				mkForall([]*Term{p, q}, mkImp(lt(p, q), mkNot(lt(q, p))), []*Term{lt(p, q)}),
				mkForall([]*Term{p, q}, mkOr(lt(p, q), lt(q, p), mkEq(p, q)), []*Term{lt(p, q)}),
				mkForall([]*Term{p, q, r}, mkImp(mkAnd(lt(p, q), lt(q, r)), lt(p, r)), []*Term{lt(p, q), lt(q, r)}),
			}
		}
	}
	return mkApp("str_lt", SBool, a, b)
}
