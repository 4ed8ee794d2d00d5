package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// normName strips the module prefix: github.com/blnkfinance/blnk/model.F -> model.F,
// github.com/blnkfinance/blnk.F -> blnk.F
func normName(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "blnk.")
	return s
}

func (x *Exec) callOperands(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	var fnv Val
	if c.IsInvoke() {
		fnv = x.val(fr, c.Value, st)
	} else {
		fnv = x.val(fr, c.Value, st)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a, st))
	}
	return fnv, args
}

func (x *Exec) callCommon(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos) (Val, *State, bool) {
	fnv, args := x.callOperands(fr, st, c)
	return x.callValue(st, c, fnv, args, pos, fr)
}

func packRes(t types.Type, vs []Val) Val {
	if tup, ok := t.(*types.Tuple); ok {
		if tup.Len() == 1 && len(vs) == 1 {
			return TupleV{vs[0]}
		}
		return TupleV(vs)
	}
	if len(vs) == 1 {
		return vs[0]
	}
	return TupleV(vs)
}

func resType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 1 {
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func resVals(v Val, sig *types.Signature) []Val {
	n := sig.Results().Len()
	switch n {
	case 0:
		return nil
	case 1:
		return []Val{v}
	}
	return []Val(v.(TupleV))
}

func (x *Exec) callValue(st *State, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, fr *Frame) (Val, *State, bool) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, b.Name(), c, args), st, true
	}
	sig := c.Signature()
	if c.IsInvoke() {
		iv, _ := fnv.(*IfaceV)
		name := c.Method.FullName()
		// devirtualise known dynamic types with in-module bodies
		if iv != nil && iv.dynT != nil {
			if m := x.prog.ssa.LookupMethod(iv.dynT, c.Method.Pkg(), c.Method.Name()); m != nil && iv.dyn != nil {
				return x.callFunc(st, m, append([]Val{iv.dyn}, args...), nil, pos, c)
			}
		}
		if iv != nil {
			x.fact(st, mkNot(mkEq(iv.tag, mkInt(0))))
		}
		return x.callNamed(st, name, sig, append([]Val{fnv}, args...), pos, c)
	}
	f, _ := fnv.(*FuncV)
	if f != nil && f.fn != nil {
		return x.callFunc(st, f.fn, args, f.binds, pos, c)
	}
	// guarded choice between known functions
	if f != nil && f.id != nil && f.id.op == "ite" {
		return x.callIte(st, c, f.id, args, pos, fr)
	}
	hint := "func"
	if fr != nil {
		switch v := c.Value.(type) {
		case *ssa.Parameter:
			hint = v.Name()
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				n, _ := fieldName(fa.X.Type().Underlying().(*types.Pointer).Elem(), fa.Field)
				hint = n
			}
		}
	}
	return x.callNamed(st, "dyn."+hint, sig, args, pos, c)
}

func (x *Exec) callIte(st *State, c *ssa.CallCommon, id *Term, args []Val, pos token.Pos, fr *Frame) (Val, *State, bool) {
	a, b := st.clone(), st.clone()
	a.pc = mkAnd(st.pc, id.args[0])
	b.pc = mkAnd(st.pc, mkNot(id.args[0]))
	ra, sa, oka := x.callValue(a, c, funcFromTerm(id.args[1]), args, pos, fr)
	rb, sb, okb := x.callValue(b, c, funcFromTerm(id.args[2]), args, pos, fr)
	if !oka && !okb {
		return nil, nil, false
	}
	if !oka {
		return rb, sb, true
	}
	if !okb {
		return ra, sa, true
	}
	ns, conds := x.mergeEdges([]edge{mkEdge(nil, sa, nil), mkEdge(nil, sb, nil)})
	return mergeVal(conds[0], ra, rb), ns, true
}

func (x *Exec) callFunc(st *State, fn *ssa.Function, args, binds []Val, pos token.Pos, c *ssa.CallCommon) (Val, *State, bool) {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	sig := fn.Signature
	full := sig
	if fn.Parent() == nil && fn.Blocks == nil || x.hasNamedModel(name) {
		return x.callNamed(st, name, full, args, pos, c)
	}
	if fn.Blocks == nil {
		return x.callNamed(st, name, full, args, pos, c)
	}
	return x.inline(st, fn, args, binds, pos)
}

func (x *Exec) inline(st *State, fn *ssa.Function, args, binds []Val, pos token.Pos) (Val, *State, bool) {
	for _, s := range x.stack {
		if s == fn {
			x.note("recursive call of %s abstracted", normName(fn.String()))
			return x.unknownCall(st, fn.String(), fn.Signature, args)
		}
	}
	if len(x.stack) > 24 {
		x.note("inlining depth exceeded at %s", normName(fn.String()))
		return x.unknownCall(st, fn.String(), fn.Signature, args)
	}
	x.inlined[normName(fn.String())] = true
	res, ns, ok := x.runFunc(fn, args, binds, st.clone())
	if !ok {
		return nil, nil, false
	}
	return packRes(resType(fn.Signature), res), ns, true
}

func (x *Exec) hasNamedModel(name string) bool {
	n := normName(name)
	if _, ok := intrinsics[n]; ok {
		return true
	}
	if c := x.spec.contractFor(n); c != nil && c.applicable() && !x.disabled[n] {
		return true
	}
	return x.spec.opaqueMatch(n)
}

// callNamed: contract, intrinsic, library default or unknown.
func (x *Exec) callNamed(st *State, name string, sig *types.Signature, args []Val, pos token.Pos, c *ssa.CallCommon) (Val, *State, bool) {
	n := normName(name)
	st = st.clone()
	x.track(st, n, args)
	var res Val
	ns, ok := st, true
	if ct := x.spec.contractFor(n); ct != nil && ct.applicable() && !x.disabled[n] {
		res, ns, ok = x.applyContract(st, ct, n, sig, args, pos)
	} else if h, found := intrinsics[n]; found {
		res = h(x, st, args, sig)
	} else if h := intrinsicPrefix(n); h != nil {
		res = h(x, st, args, sig)
	} else {
		res, ns, ok = x.unknownCall(st, name, sig, args)
	}
	if ok {
		x.trackRes(ns, n, res, sig)
	}
	return res, ns, ok
}

// unknownCall: fresh results; pointees of pointer arguments of external
// functions are havocked unless the callee is known not to write.
func (x *Exec) unknownCall(st *State, name string, sig *types.Signature, args []Val) (Val, *State, bool) {
	n := normName(name)
	x.newBase(st, "call")
	if !pureExternal(n) {
		x.usedExt[n] = true
		if !sqlReadsArgs(n) {
			for _, a := range args {
				x.havocArg(st, a, 0, n)
			}
		}
	}
	short := n
	if i := strings.LastIndex(short, "."); i >= 0 {
		short = short[i+1:]
	}
	return x.freshVal(st, resType(sig), "r_"+short), st, true
}

// havocArg havocs what an unknown callee can write directly through a.
func (x *Exec) havocArg(st *State, a Val, depth int, callee string) {
	switch v := a.(type) {
	case *Loc:
		if v.kind == 'o' && v.simple() && isNamedInModule(v.T) {
			// in-module objects passed to unmodelled callees: assumption, listed
			x.note("assumed: %s does not modify its %s argument", callee, normName(v.base))
			return
		}
		if isHandle(v.T) {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				x.note("havoc of %s skipped", v.base)
			}
		}()
		x.store(st, v, x.freshVal(st, v.T, "hv"))
	case *IfaceV:
		if v.dyn != nil {
			x.havocArg(st, v.dyn, depth, callee)
		}
	case *SliceV:
		if depth > 0 {
			return
		}
		// variadic interface slices with constant length: look inside
		if v.ln.op == "int" && v.off.op == "int" {
			if _, ok := v.elem.Underlying().(*types.Interface); ok {
				n := v.ln.num.Num().Int64()
				for i := int64(0); i < n && i < 64; i++ {
					e := x.load(st, &Loc{kind: 'e', base: typeKey(v.elem), T: v.elem, ref: v.arr, idx: mkInt(i + v.off.num.Num().Int64())})
					x.havocArg(st, e, depth+1, callee)
				}
			}
		}
	}
}

// sqlReadsArgs: database/sql statements read their bound arguments (documented), they never write them.
func sqlReadsArgs(n string) bool {
	return strings.HasPrefix(n, "(*database/sql.") && (strings.HasSuffix(n, ".ExecContext") || strings.HasSuffix(n, ".QueryContext") || strings.HasSuffix(n, ".QueryRowContext") || strings.HasSuffix(n, ".Exec") || strings.HasSuffix(n, ".Query") || strings.HasSuffix(n, ".QueryRow"))
}

// inModuleName: the (normalised) function name belongs to the module under verification.
func inModuleName(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range []string{"database/sql.", "github.com/", "go.", "golang.org/", "gorm", "google."} {
		if strings.HasPrefix(n, p) {
			return false
		}
	}
	return true
}

func isNamedInModule(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}
func isHandle(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, sp := specialScalar[typeKey(n)]; sp {
		return false
	}
	_, isS := n.Underlying().(*types.Struct)
	p := n.Obj().Pkg().Path()
	if !isS || strings.HasPrefix(p, modPath) {
		return false
	}
	return isOpaqueStruct(t)
}

var purePrefixes = []string{"strings.", "strconv.", "fmt.", "errors.", "time.", "math.", "unicode", "context.", "go.opentelemetry.io", "(go.opentelemetry.io", "(*go.opentelemetry.io",
	"github.com/sirupsen/logrus.", "(*github.com/sirupsen/logrus", "(github.com/sirupsen", "log.", "(*log.", "(context.", "(time.", "(*time.", "crypto/", "encoding/hex", "encoding/base64", "(*encoding/base64", "path", "os.Getenv", "reflect.", "sync.", "(*sync.", "(error).",
	"github.com/google/uuid", "(github.com/google/uuid", "bytes.", "hash", "(hash", "sort.Search", "net/http.StatusText", "(*errors", "encoding/json.Marshal", "runtime", "regexp", "(*regexp", "(*math/big", "math/big", "(github.com/shopspring", "github.com/shopspring", "(*strings.", "net.", "net/url."}

func pureExternal(n string) bool {
	for _, p := range purePrefixes {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// ---- events (ghost call counters and last arguments) ----
func (x *Exec) event(st *State, n string, args []Val) { x.track(st, n, args) }

func (x *Exec) track(st *State, n string, args []Val) {
	for _, tr := range x.spec.trackers(n) {
		k := "ghost|calls|" + tr.Name
		x.keySort[k] = SInt
		old := x.hget(st, k, SInt)
		x.hset(st, k, mkAdd(old, mkInt(1)))
		x.logWrite(k, nil, nil)
		// global event clock
		ck := "ghost|clock"
		x.keySort[ck] = SInt
		now := mkAdd(x.hget(st, ck, SInt), mkInt(1))
		x.hset(st, ck, now)
		x.logWrite(ck, nil, nil)
		tk := "ghost|when|" + tr.Name
		x.keySort[tk] = SInt
		x.hset(st, tk, now)
		x.logWrite(tk, nil, nil)
		for i, a := range args {
			x.saveGhost(st, fmt.Sprintf("ghost|arg|%s|%d", tr.Name, i), a)
		}
	}
}

type ghostShape struct {
	T types.Type
	v Val
}

func (x *Exec) saveGhost(st *State, key string, v Val) {
	if v == nil {
		return
	}
	if _, ok := v.(*IterV); ok {
		return
	}
	for i, t := range toLeaves(v) {
		k := fmt.Sprintf("%s|%d", key, i)
		if _, ok := x.keySort[k]; !ok {
			x.keySort[k] = t.sort
		}
		if x.keySort[k] != t.sort {
			return
		}
		x.hset(st, k, t)
		x.logWrite(k, nil, nil)
	}
	x.ghostShapes()[key] = v
}

var ghostShapeTab = map[*Exec]map[string]Val{}

func (x *Exec) ghostShapes() map[string]Val {
	m := ghostShapeTab[x]
	if m == nil {
		m = map[string]Val{}
		ghostShapeTab[x] = m
	}
	return m
}

// loadGhost reads back a saved ghost value in state st, given the type.
func (x *Exec) loadGhost(st *State, key string, like Val) Val {
	ls := toLeaves(like)
	var ts []*Term
	for i, l := range ls {
		k := fmt.Sprintf("%s|%d", key, i)
		if _, ok := x.keySort[k]; !ok {
			x.keySort[k] = l.sort
		}
		ts = append(ts, x.hget(st, k, l.sort))
	}
	return relike(like, &ts)
}

// relike rebuilds a value of the same shape from leaves.
func relike(v Val, ts *[]*Term) Val {
	take := func() *Term { t := (*ts)[0]; *ts = (*ts)[1:]; return t }
	switch v := v.(type) {
	case *Term:
		return take()
	case *Loc:
		return ptrFromTerm(take(), v.T)
	case *MapV:
		return &MapV{take(), v.T}
	case *FuncV:
		return funcFromTerm(take())
	case *SliceV:
		a, o, l := take(), take(), take()
		return &SliceV{a, o, l, v.elem}
	case *IfaceV:
		t, p := take(), take()
		iv := &IfaceV{tag: t, pay: p}
		if d, ok := dynTab[dynKey{t, p}]; ok {
			iv.dynT, iv.dyn = d.T, d.v
		}
		return iv
	case *StructV:
		r := &StructV{T: v.T}
		for _, f := range v.F {
			r.F = append(r.F, relike(f, ts))
		}
		return r
	case *ArrayV:
		r := &ArrayV{elem: v.elem}
		for range v.leaves {
			r.leaves = append(r.leaves, take())
		}
		return r
	}
	panic(fmt.Sprintf("relike %T", v))
}

func (x *Exec) trackRes(st *State, n string, res Val, sig *types.Signature) {
	if res == nil {
		return
	}
	for _, tr := range x.spec.trackers(n) {
		for i, r := range resVals(res, sig) {
			x.saveGhost(st, fmt.Sprintf("ghost|res|%s|%d", tr.Name, i), r)
		}
	}
}

// ---- builtins ----
func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return v.ln
		case *MapV:
			l := x.mapLen(st, v)
			x.fact(st, mkLe(mkInt(0), l))
			return mkIte(mkEq(v.ref, mkInt(0)), mkInt(0), l)
		case *Term:
			if v.sort == SStr {
				return strLen(v)
			}
		case *ArrayV:
			if at, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
				return mkInt(at.Len())
			}
		case *Loc:
			if at, ok := v.T.Underlying().(*types.Array); ok {
				return mkInt(at.Len())
			}
		}
		r := freshSym("len", SInt)
		symAxioms[r] = []*Term{mkLe(mkInt(0), r)}
		return r
	case "cap":
		r := freshSym("cap", SInt)
		symAxioms[r] = []*Term{mkLe(mkInt(0), r)}
		return r
	case "append":
		return x.appendSlice(st, args[0], args[1])
	case "copy":
		x.note("copy() abstracted")
		if d, ok := args[0].(*SliceV); ok {
			for _, lf := range leavesOf(d.elem) {
				k, s := x.locKey(&Loc{kind: 'e', base: typeKey(d.elem), T: d.elem}, lf)
				if sv, ok := args[1].(*SliceV); ok {
					// precise when copying whole slice from offset 0
					h := x.hget(st, k, s)
					srow, drow := mkSelect(h, sv.arr), mkSelect(h, d.arr)
					nr := freshSym("copyrow", arrElem(s))
					i := mkBound("i", SInt)
					n := mkIte(mkLe(d.ln, sv.ln), d.ln, sv.ln)
					sel := rawOp("select", lf.sort, nr, i)
					in := mkAnd(mkLe(d.off, i), mkLt(i, mkAdd(d.off, n)))
					x.fact(st, mkForall([]*Term{i}, mkImp(in, mkEq(sel, mkSelect(srow, mkAdd(mkSub(i, d.off), sv.off)))), []*Term{sel}))
					x.fact(st, mkForall([]*Term{i}, mkImp(mkNot(in), mkEq(sel, mkSelect(drow, i))), []*Term{sel}))
					x.hset(st, k, mkStore(h, d.arr, nr))
					x.logWrite(k, d.arr, nil)
				} else {
					h := x.hget(st, k, s)
					x.hset(st, k, mkStore(h, d.arr, freshSym("copyrow", arrElem(s))))
					x.logWrite(k, d.arr, nil)
				}
			}
			if sv, ok := args[1].(*SliceV); ok {
				return mkIte(mkLe(d.ln, sv.ln), d.ln, sv.ln)
			}
		}
		return freshSym("copied", SInt)
	case "delete":
		if m, ok := args[0].(*MapV); ok {
			x.mapDelete(st, m, keyTerm(args[1]))
		}
		return TupleV{}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if name == "min" {
				r = mkIte(mkLe(r, t), r, t)
			} else {
				r = mkIte(mkGe(r, t), r, t)
			}
		}
		return r
	case "print", "println", "close":
		return TupleV{}
	case "recover":
		return &IfaceV{tag: mkInt(0), pay: mkInt(0)}
	case "ssa:wrapnilchk":
		return args[0]
	}
	x.note("builtin %s abstracted", name)
	return x.freshVal(st, resType(c.Signature()), name)
}

func strLen(s *Term) *Term {
	if s.op == "str" {
		return mkInt(int64(len(s.name)))
	}
	strLenAxiom()
	return mkApp("str_len", SInt, s)
}

// append: always a fresh backing array (spare-capacity aliasing not modelled).
func (x *Exec) appendSlice(st *State, a, b Val) Val {
	s, ok := a.(*SliceV)
	if !ok {
		return a
	}
	bt, isStr := b.(*Term)
	if isStr { // append([]byte, string...)
		_ = bt
		r := x.freshVal(st, types.NewSlice(s.elem), "app").(*SliceV)
		return r
	}
	t := b.(*SliceV)
	if t.arr == mkInt(0) && t.ln == mkInt(0) {
		return s
	}
	r := &SliceV{arr: x.alloc(st), off: s.off, ln: mkAdd(s.ln, t.ln), elem: s.elem}
	for _, lf := range leavesOf(s.elem) {
		k, srt := x.locKey(&Loc{kind: 'e', base: typeKey(s.elem), T: s.elem}, lf)
		h := x.hget(st, k, srt)
		row := mkSelect(h, s.arr)
		if t.ln.op == "int" && t.ln.num.Num().Int64() <= 16 {
			n := t.ln.num.Num().Int64()
			trow := mkSelect(h, t.arr)
			for i := int64(0); i < n; i++ {
				row = mkStore(row, mkAdd(mkAdd(s.off, s.ln), mkInt(i)), mkSelect(trow, mkAdd(t.off, mkInt(i))))
			}
		} else {
			trow := mkSelect(h, t.arr)
			nr := freshSym("approw", arrElem(srt))
			i := mkBound("i", SInt)
			sel := rawOp("select", lf.sort, nr, i)
			lo := mkAdd(s.off, s.ln)
			x.fact(st, mkForall([]*Term{i}, mkEq(sel, mkIte(mkLt(i, lo), mkSelect(row, i), mkSelect(trow, mkAdd(mkSub(i, lo), t.off)))), []*Term{sel}))
			row = nr
		}
		x.hset(st, k, mkStore(h, r.arr, row))
		x.logWrite(k, r.arr, nil)
	}
	return r
}
