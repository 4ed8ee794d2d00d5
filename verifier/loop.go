package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type snapshot struct {
	facts, obls int
	returns     int
	defers      int
}

func (x *Exec) snap(fr *Frame) snapshot {
	return snapshot{len(x.facts), len(x.obls), len(fr.returns), len(fr.defers)}
}
func (x *Exec) restore(fr *Frame, s snapshot) {
	x.facts = x.facts[:s.facts:s.facts]
	x.obls = x.obls[:s.obls:s.obls]
	fr.returns = fr.returns[:s.returns:s.returns]
	fr.defers = fr.defers[:s.defers:s.defers]
}

type headerEnv struct {
	phis map[*ssa.Phi]Val
	st   *State
	iter *Term
}

type invCand struct {
	name string
	eval func(h headerEnv) (*Term, bool)
	auto bool
	must bool
}

func (x *Exec) runLoop(fr *Frame, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, es []edge, in map[*ssa.BasicBlock][]edge, blocks map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, sink *regionSink) {
	entry, conds := x.mergeEdges(es)
	if entry.pc == tFalse {
		return
	}
	var phis []*ssa.Phi
	init := map[*ssa.Phi]Val{}
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		init[p] = x.phiVal(fr, h, p, es, conds)
	}
	emit := func(out map[*ssa.BasicBlock][]edge) {
		var ks []*ssa.BasicBlock
		for b := range out {
			ks = append(ks, b)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].Index < ks[j].Index })
		for _, b := range ks {
			for _, e := range out[b] {
				x.deliver(b, e, blocks, header, in, sink)
			}
		}
	}
	runBody := func(st *State, pv map[*ssa.Phi]Val) *regionSink {
		for p, v := range pv {
			fr.vals[p] = v
		}
		s := &regionSink{out: map[*ssa.BasicBlock][]edge{}}
		lin := map[*ssa.BasicBlock][]edge{h: {mkEdge(nil, st, nil)}}
		x.runRegionH(fr, L, h, lin, s)
		return s
	}
	backVals := func(e edge) map[*ssa.Phi]Val {
		r := map[*ssa.Phi]Val{}
		for _, p := range phis {
			r[p] = x.val(fr, p.Edges[predIndex(h, e.pred)], e.st)
		}
		return r
	}
	// exit edges must carry phi inputs evaluated now, since values defined in
	// the loop are overwritten by later passes: wrap edges with snapshots.
	if outs, ok := x.tryUnroll(fr, h, L, entry, phis, init, runBody, backVals); ok {
		emit(outs)
		return
	}

	// ---- discovery of the modified set ----
	mod := map[string]bool{}
	var wl []writeRec
	var mark int
	var hdrCond [][2]*Term
	itn := freshSym("iter", SInt)
	symAxioms[itn] = []*Term{mkLe(mkInt(0), itn)}
	linc := map[*ssa.Phi]*big.Int{}
	for _, p := range phis {
		if c := linearStep(p, h, L); c != nil {
			linc[p] = c
		}
	}
	mkHeader := func() (*State, map[*ssa.Phi]Val) {
		st := entry.clone()
		x.newBase(st, "loop")
		for _, k := range sortedKeys(mod) {
			s := x.keySort[k]
			if s == "" {
				panic("no sort for " + k)
			}
			nh := freshSym("L|"+sanitizeKey(k), s)
			x.rootFacts(nh, k, st.base)
			st.heap[k] = nh
		}
		pv := map[*ssa.Phi]Val{}
		for _, p := range phis {
			if c := linc[p]; c != nil {
				pv[p] = mkAdd(init[p].(*Term), mkMul(mkBig(c), itn))
			} else if iv, ok := init[p].(*IterV); ok {
				pv[p] = iv
			} else {
				pv[p] = x.freshVal(st, p.Type(), "phi_"+phiName(p))
			}
		}
		return st, pv
	}
	lc := &loopCtx{iter: itn, entry: entry, fr: fr, head: h}
	x.loops = append(x.loops, lc)
	defer func() { x.loops = x.loops[:len(x.loops)-1] }()
	for round := 0; ; round++ {
		sn := x.snap(fr)
		mark = termSeq
		st, pv := mkHeader()
		wl = nil
		x.writeLogs = append(x.writeLogs, &wl)
		x.dry++
		runBody(st, pv)
		x.dry--
		x.writeLogs = x.writeLogs[:len(x.writeLogs)-1]
		hdrCond = x.headerCompares(fr, h, L)
		x.restore(fr, sn)
		n := len(mod)
		for _, w := range wl {
			mod[w.key] = true
		}
		if len(mod) == n || round > 8 {
			break
		}
	}
	// the pass's writes belong to this loop only; parents' logs already got them
	frames := x.classifyWrites(wl, mark, itn, entry)

	// ---- candidate invariants ----
	var cands []invCand
	if x.dry == 0 {
		cands = x.candidates(fr, h, L, phis, init, linc, entry, hdrCond, lc)
		// initial validity
		env := headerEnv{init, entry, mkInt(0)}
		var keep []invCand
		var goals []*Term
		var cs []invCand
		for _, c := range cands {
			lc.iter = mkInt(0)
			g, ok := c.eval(env)
			if !ok {
				continue
			}
			cs = append(cs, c)
			goals = append(goals, g)
		}
		lc.iter = itn
		res := x.proveAll(x.facts, entry.pc, goals, true)
		for i, c := range cs {
			if res[i] {
				keep = append(keep, c)
			} else if debugInv {
				fmt.Printf("  [inv] drop at entry: %s in %s\n", c.name, fr.fn)
			}
		}
		cands = keep
	}
	assume := func(st *State, pv map[*ssa.Phi]Val, cs []invCand) {
		next := x.nextOf(entry)
		for _, k := range sortedKeys(mod) {
			f := frames[k]
			if f == nil {
				continue
			}
			for _, t := range f(st.heap[k], x.hget(entry, k, x.keySort[k]), next, itn) {
				x.fact(st, t)
			}
		}
		for _, c := range cs {
			if g, ok := c.eval(headerEnv{pv, st, itn}); ok {
				x.fact(st, g)
			}
		}
	}
	if x.dry == 0 && len(cands) > 0 {
		for round := 0; round < 12; round++ {
			sn := x.snap(fr)
			st, pv := mkHeader()
			assume(st, pv, cands)
			x.noObl++
			s := runBody(st, pv)
			x.noObl--
			keepM := make([]bool, len(cands))
			for i := range keepM {
				keepM[i] = true
			}
			for _, e := range s.back {
				bv := backVals(e)
				lc.iter = mkAdd(itn, mkInt(1))
				var goals []*Term
				var idx []int
				for i, c := range cands {
					if !keepM[i] {
						continue
					}
					g, ok := c.eval(headerEnv{bv, e.st, lc.iter})
					if !ok {
						keepM[i] = false
						continue
					}
					goals = append(goals, g)
					idx = append(idx, i)
				}
				lc.iter = itn
				proveNames = proveNames[:0]
				for _, i := range idx {
					proveNames = append(proveNames, cands[i].name)
				}
				res := x.proveAll(x.facts, e.st.pc, goals, false)
				proveNames = nil
				for j, ok := range res {
					if !ok {
						keepM[idx[j]] = false
					}
				}
			}
			var nc []invCand
			for i, c := range cands {
				if keepM[i] {
					nc = append(nc, c)
				} else if debugInv {
					fmt.Printf("  [inv] not preserved: %s in %s\n", c.name, fr.fn)
				}
			}
			done := len(nc) == len(cands)
			cands = nc
			x.restore(fr, sn)
			if done {
				break
			}
		}
	}
	st, pv := mkHeader()
	assume(st, pv, cands)
	s := runBody(st, pv)
	if x.dry == 0 && x.noObl == 0 {
		for _, c := range cands {
			x.invCount += 1 + len(s.back)
			if debugInv {
				fmt.Printf("  [inv] kept: %s in %s\n", c.name, fr.fn)
			}
		}
		x.loopStats = append(x.loopStats, fmt.Sprintf("%s: %d invariants", x.posStr(firstPos(h)), len(cands)))
	}
	emit(s.out)
}

func firstPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	return token.NoPos
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runRegionH runs a loop body whose header phis are already bound.
func (x *Exec) runRegionH(fr *Frame, L map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, in map[*ssa.BasicBlock][]edge, s *regionSink) {
	e := in[h][0]
	delete(in, h)
	x.runBlock(fr, h, e.st, func(succ *ssa.BasicBlock, ed edge) { x.deliver(succ, ed, L, h, in, s) })
	x.runRegion(fr, L, h, in, s)
}

func linearStep(p *ssa.Phi, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool) *big.Int {
	bt, ok := p.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return nil
	}
	var step *big.Int
	for j, pr := range h.Preds {
		if !L[pr] {
			continue
		}
		v := p.Edges[j]
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return nil
		}
		var c *ssa.Const
		if b.X == ssa.Value(p) {
			c, _ = b.Y.(*ssa.Const)
		} else if b.Y == ssa.Value(p) && b.Op == token.ADD {
			c, _ = b.X.(*ssa.Const)
		}
		if c == nil || c.Value == nil {
			return nil
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			return nil
		}
		switch b.Op {
		case token.ADD:
		case token.SUB:
			n.Neg(n)
		default:
			return nil
		}
		if step != nil && step.Cmp(n) != 0 {
			return nil
		}
		step = n
	}
	return step
}

// headerCompares returns (lhs, rhs) pairs of < / <= comparisons deciding the loop.
func (x *Exec) headerCompares(fr *Frame, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool) [][2]*Term {
	var out [][2]*Term
	for _, b := range fr.rpo {
		if !L[b] {
			continue
		}
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || L[b.Succs[0]] && L[b.Succs[1]] {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		l, ok1 := fr.vals[bo.X].(*Term)
		r, ok2 := fr.vals[bo.Y].(*Term)
		if c, ok := bo.X.(*ssa.Const); ok {
			if t, ok := x.constVal(c).(*Term); ok {
				l, ok1 = t, true
			}
		}
		if c, ok := bo.Y.(*ssa.Const); ok {
			if t, ok := x.constVal(c).(*Term); ok {
				r, ok2 = t, true
			}
		}
		if ok1 && ok2 && l.sort == SInt && r.sort == SInt {
			out = append(out, [2]*Term{l, r})
		}
	}
	return out
}

// tryUnroll executes loops whose iteration count is decided by constants.
func (x *Exec) tryUnroll(fr *Frame, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, entry *State, phis []*ssa.Phi, init map[*ssa.Phi]Val,
	runBody func(*State, map[*ssa.Phi]Val) *regionSink, backVals func(edge) map[*ssa.Phi]Val) (map[*ssa.BasicBlock][]edge, bool) {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	exitIdx := -1
	for i, s := range h.Succs {
		if !L[s] {
			exitIdx = i
		}
	}
	if exitIdx < 0 {
		return nil, false
	}
	// evaluate the header condition cheaply: dry-run of the header block
	hdr := func(st *State, pv map[*ssa.Phi]Val) *Term {
		sn := x.snap(fr)
		for p, v := range pv {
			fr.vals[p] = v
		}
		x.dry++
		var c *Term
		cl := st.clone()
		var wl []writeRec
		x.writeLogs = append(x.writeLogs, &wl)
		x.runBlock(fr, h, cl, func(*ssa.BasicBlock, edge) {})
		x.writeLogs = x.writeLogs[:len(x.writeLogs)-1]
		x.dry--
		c, _ = x.val(fr, iff.Cond, cl).(*Term)
		x.restore(fr, sn)
		return c
	}
	c := hdr(entry, init)
	if c != tTrue && c != tFalse {
		return nil, false
	}
	run := func(dry bool) (map[*ssa.BasicBlock][]edge, bool) {
		outs := map[*ssa.BasicBlock][]edge{}
		st, pv := entry.clone(), init
		for k := 0; k < 40; k++ {
			c := hdr(st, pv)
			if c != tTrue && c != tFalse {
				return nil, false
			}
			s := runBody(st, pv)
			for b, es := range s.out {
				outs[b] = append(outs[b], x.freezeExits(fr, b, es)...)
			}
			if len(s.back) == 0 {
				return outs, true
			}
			ns, conds := x.mergeEdges(s.back)
			npv := map[*ssa.Phi]Val{}
			bvs := make([]map[*ssa.Phi]Val, len(s.back))
			for i, e := range s.back {
				bvs[i] = backVals(e)
			}
			for _, p := range phis {
				vs := make([]Val, len(s.back))
				for i := range s.back {
					vs[i] = bvs[i][p]
				}
				npv[p] = mergeMany(conds, vs)
			}
			st, pv = ns, npv
		}
		return nil, false
	}
	sn := x.snap(fr)
	x.dry++
	outs, ok := run(true)
	x.dry--
	x.restore(fr, sn)
	if !ok {
		return nil, false
	}
	n := 0
	for _, es := range outs {
		n += len(es)
	}
	if n > 1 && liveOut(fr, L) {
		return nil, false
	}
	// values defined in the loop and used outside (not through phis) are only
	// correct for single-exit unrollings; detect and refuse otherwise.
	return run(false)
}

// freezeExits evaluates phi inputs of the exit block now.  Values used outside
// the loop directly keep the values of the last executed iteration.
func (x *Exec) freezeExits(fr *Frame, b *ssa.BasicBlock, es []edge) []edge {
	var out []edge
	for _, e := range es {
		fz := map[*ssa.Phi]Val{}
		for _, ins := range b.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			fz[p] = x.val(fr, p.Edges[predIndex(b, e.pred)], e.st)
		}
		e.frozen = fz
		out = append(out, e)
	}
	return out
}

type frameFn func(nh, oh, next, iter *Term) []*Term

// classifyWrites derives sound frame facts for havocked heap arrays.
func (x *Exec) classifyWrites(wl []writeRec, mark int, itn *Term, entry *State) map[string]frameFn {
	type info struct {
		inv    map[*Term]bool // invariant references
		iterf  []*Term        // references that are functions of iter only
		bad    bool
		idx    map[*Term][]*Term // per invariant ref, idx terms (nil => whole row)
		allRow map[*Term]bool
	}
	infos := map[string]*info{}
	newSym := func(t *Term) (map[*Term]bool, bool) {
		out := map[*Term]bool{}
		for s := range t.symbols() {
			if s.id > mark && s != itn {
				out[s] = true
			}
		}
		return out, t.symbols()[itn]
	}
	for _, w := range wl {
		f := infos[w.key]
		if f == nil {
			f = &info{inv: map[*Term]bool{}, idx: map[*Term][]*Term{}, allRow: map[*Term]bool{}}
			infos[w.key] = f
		}
		if w.ref == nil {
			f.bad = true
			continue
		}
		ns, hasIter := newSym(w.ref)
		switch {
		case len(ns) == 0 && !hasIter:
			f.inv[w.ref] = true
			if w.idx == nil {
				f.allRow[w.ref] = true
			} else {
				f.idx[w.ref] = append(f.idx[w.ref], w.idx)
			}
		case isFreshRef(w.ref, mark):
		case len(ns) == 0 && hasIter:
			f.iterf = append(f.iterf, w.ref)
		default:
			f.bad = true
		}
	}
	out := map[string]frameFn{}
	for k, f := range infos {
		f := f
		if f.bad {
			continue
		}
		s := x.keySort[k]
		if !strings.HasPrefix(string(s), "(Array Int") {
			continue
		}
		out[k] = func(nh, oh, next, iter *Term) []*Term {
			var facts []*Term
			r := mkBound("r", SInt)
			conds := []*Term{mkLe(mkInt(0), r), mkLt(r, next)}
			var invs []*Term
			for t := range f.inv {
				invs = append(invs, t)
			}
			sort.Slice(invs, func(i, j int) bool { return invs[i].id < invs[j].id })
			for _, t := range invs {
				conds = append(conds, mkNot(mkEq(r, t)))
			}
			for _, t := range f.iterf {
				j := mkBound("j", SInt)
				conds = append(conds, mkForall([]*Term{j}, mkImp(mkAnd(mkLe(mkInt(0), j), mkLt(j, iter)), mkNot(mkEq(r, subst(t, map[*Term]*Term{itn: j}))))))
			}
			sel := rawOp("select", arrElem(nh.sort), nh, r)
			facts = append(facts, mkForall([]*Term{r}, mkImp(mkAnd(conds...), mkEq(sel, rawOp("select", arrElem(oh.sort), oh, r))), []*Term{sel}))
			// rows
			for _, t := range invs {
				if f.allRow[t] {
					continue
				}
				el := arrElem(nh.sort)
				if !strings.HasPrefix(string(el), "(Array") {
					continue
				}
				i := mkBound("i", arrIdx(el))
				ok := true
				var cs []*Term
				for _, ix := range f.idx[t] {
					ns := 0
					hasIter := false
					for s := range ix.symbols() {
						if s == itn {
							hasIter = true
						} else if s.id > mark {
							ns++
						}
					}
					if ns > 0 {
						ok = false
						break
					}
					if !hasIter {
						cs = append(cs, mkNot(mkEq(i, ix)))
					} else {
						j := mkBound("j", SInt)
						cs = append(cs, mkForall([]*Term{j}, mkImp(mkAnd(mkLe(mkInt(0), j), mkLt(j, iter)), mkNot(mkEq(i, subst(ix, map[*Term]*Term{itn: j}))))))
					}
				}
				if !ok {
					continue
				}
				nr, or := mkSelect(nh, t), mkSelect(oh, t)
				seli := rawOp("select", arrElem(el), nr, i)
				facts = append(facts, mkForall([]*Term{i}, mkImp(mkAnd(cs...), mkEq(seli, mkSelect(or, i))), []*Term{seli}))
			}
			return facts
		}
	}
	return out
}

// isFreshRef: base + k with base created after mark and k >= 0
func isFreshRef(t *Term, mark int) bool {
	l := toLin(t)
	if len(l.m) != 1 || l.c.Sign() < 0 {
		if t.op == "ite" {
			return isFreshRef(t.args[1], mark) && isFreshRef(t.args[2], mark)
		}
		return false
	}
	for s, k := range l.m {
		if _, ok := allocBase[s]; ok && s.id > mark && k.Cmp(big.NewRat(1, 1)) == 0 {
			return true
		}
	}
	return false
}

// candidates instantiates automatic and user-supplied invariant templates.
func (x *Exec) candidates(fr *Frame, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, phis []*ssa.Phi, init map[*ssa.Phi]Val, linc map[*ssa.Phi]*big.Int, entry *State, hdr [][2]*Term, lc *loopCtx) []invCand {
	var out []invCand
	itn := lc.iter
	// bounds from header comparisons: lhs - rhs relation with loop-invariant side
	seen := map[*Term]bool{}
	for _, p := range hdr {
		for _, sw := range [][2]*Term{{p[0], p[1]}, {p[1], p[0]}} {
			l, r := sw[0], sw[1]
			if !l.symbols()[itn] || r.symbols()[itn] {
				continue
			}
			for _, cmp := range []struct {
				n string
				f func(a, b *Term) *Term
			}{{"<=", mkLe}, {">=", mkGe}, {"<=+1", func(a, b *Term) *Term { return mkLe(a, mkAdd(b, mkInt(1))) }}, {">=-1", func(a, b *Term) *Term { return mkGe(a, mkSub(b, mkInt(1))) }}} {
				t := cmp.f(l, r)
				if seen[t] || len(diffSyms(t, entry, x)) > 0 {
					continue
				}
				seen[t] = true
				tt := t
				out = append(out, invCand{name: "auto " + cmp.n, auto: true, eval: func(e headerEnv) (*Term, bool) {
					return subst(tt, map[*Term]*Term{itn: e.iter}), true
				}})
			}
		}
	}
	out = append(out, x.mapCopyCandidates(fr, h, L, entry)...)
	// nil-preservation and monotone facts for phis are left to templates
	if x.top == nil {
		return out
	}
	out = append(out, x.userCandidates(fr, h, L, phis, entry, lc)...)
	return out
}

func diffSyms(t *Term, entry *State, x *Exec) []*Term {
	// symbols that are loop-havocked (named L| or phi_) make a candidate unusable
	var out []*Term
	for s := range t.symbols() {
		if strings.HasPrefix(s.name, "phi_") || strings.HasPrefix(s.name, "L_") || strings.HasPrefix(s.name, "L|") {
			out = append(out, s)
		}
	}
	return out
}

// liveOut: some value defined in L is used outside L other than by exit phis.
func liveOut(fr *Frame, L map[*ssa.BasicBlock]bool) bool {
	for b := range L {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); dbg {
					continue
				}
				if _, phi := r.(*ssa.Phi); phi {
					continue
				}
				if !L[r.Block()] {
					return true
				}
			}
		}
	}
	return false
}

// mapCopyCandidates: invariants of loops that iterate over one map and fill
// another one with keys of the same type.
func (x *Exec) mapCopyCandidates(fr *Frame, h *ssa.BasicBlock, L map[*ssa.BasicBlock]bool, entry *State) []invCand {
	var out []invCand
	var it *IterV
	for _, ins := range h.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			if v, ok := fr.vals[n.Iter].(*IterV); ok && v.m != nil {
				it = v
			}
		}
	}
	if it == nil {
		return nil
	}
	seen := map[*Term]bool{}
	// every map updated in the loop
	for b := range L {
		for _, ins := range b.Instrs {
			mu, ok := ins.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			m2, ok := fr.vals[mu.Map].(*MapV)
			if !ok || !types.Identical(m2.T.Key(), it.m.T.Key()) || seen[m2.ref] {
				continue
			}
			seen[m2.ref] = true
			vis := func(e headerEnv) *Term { return x.hget(e.st, it.id, x.keySort[it.id]) }
			k := mkBound("mk", keySortOf(it.m.T.Key()))
			all := func(name string, f func(e headerEnv) *Term) {
				out = append(out, invCand{name: "auto map " + name, auto: true, eval: func(e headerEnv) (*Term, bool) {
					return mkForall([]*Term{k}, f(e)), true
				}})
			}
			sameVal := func(s1 *State, m1 *MapV, s2 *State, mm *MapV) *Term {
				var cs []*Term
				l1, l2 := toLeaves(x.mapGet(s1, m1, k)), toLeaves(x.mapGet(s2, mm, k))
				for i := range l1 {
					cs = append(cs, mkEq(l1[i], l2[i]))
				}
				return mkAnd(cs...)
			}
			all("dom", func(e headerEnv) *Term {
				return mkEq(mkSelect(x.mapDom(e.st, m2), k), mkOr(mkSelect(vis(e), k), mkSelect(x.mapDom(entry, m2), k)))
			})
			all("domsub", func(e headerEnv) *Term {
				return mkImp(mkSelect(x.mapDom(e.st, m2), k), mkOr(mkSelect(vis(e), k), mkSelect(x.mapDom(entry, m2), k)))
			})
			all("rest", func(e headerEnv) *Term {
				return mkImp(mkNot(mkSelect(vis(e), k)), mkAnd(mkEq(mkSelect(x.mapDom(e.st, m2), k), mkSelect(x.mapDom(entry, m2), k)), sameVal(e.st, m2, entry, m2)))
			})
			if types.Identical(m2.T.Elem(), it.m.T.Elem()) {
				all("copied", func(e headerEnv) *Term {
					return mkImp(mkSelect(vis(e), k), mkAnd(mkSelect(x.mapDom(e.st, m2), k), sameVal(e.st, m2, e.st, it.m)))
				})
			}
			out = append(out, invCand{name: "auto map visited", auto: true, eval: func(e headerEnv) (*Term, bool) {
				return mkForall([]*Term{k}, mkImp(mkSelect(vis(e), k), mkSelect(x.mapDom(e.st, it.m), k))), true
			}})
		}
	}
	return out
}
