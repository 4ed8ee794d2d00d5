package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type SliceV struct {
	arr, off, ln *Term
	elem         types.Type
}
type IfaceV struct {
	tag, pay *Term
	dynT     types.Type
	dyn      Val
}
type Loc struct {
	kind byte // 'o' object, 'e' element, 'g' global
	base string
	T    types.Type // pointee type
	ref  *Term
	idx  *Term
	path string
}
type FuncV struct {
	fn    *ssa.Function
	binds []Val
	id    *Term
}
type TupleV []Val
type ArrayV struct {
	elem   types.Type
	leaves []*Term
}
type MapV struct {
	ref *Term
	T   *types.Map
}
type IterV struct {
	m       *MapV
	str     *Term
	id      string
	domAt   *Term
	ordered bool
}

const modPath = "github.com/blnkfinance/blnk"

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

var specialScalar = map[string]Sort{
	"github.com/shopspring/decimal.Decimal": SReal,
	"time.Time":                             SInt,
	"math/big.Int":                          SInt,
	"math/big.Rat":                          SReal,
	"math/big.Float":                        SReal,
}

type Leaf struct {
	path string
	sort Sort
	ref  bool // reference-like (bounded by allocation counter)
	kind byte // 0 normal; 's' slice length/offset (>=0); 't' tag
}

var leafCache = map[string][]Leaf{}

func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return st.NumFields() > 12
}

func leavesOf(t types.Type) []Leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	leafCache[k] = nil
	l := leaves1(t)
	leafCache[k] = l
	return l
}

func leaves1(t types.Type) []Leaf {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if s, ok := specialScalar[typeKey(n)]; ok {
			return []Leaf{{"", s, false, 0}}
		}
		if isOpaqueStruct(t) {
			return []Leaf{{"", SInt, false, 0}}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, false, 0}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{"", SInt, false, 0}}
		case u.Info()&types.IsFloat != 0:
			return []Leaf{{"", SReal, false, 0}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"", SStr, false, 0}}
		}
		return []Leaf{{"", SInt, true, 0}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []Leaf{{"", SInt, true, 0}}
	case *types.Slice:
		return []Leaf{{"#a", SInt, true, 0}, {"#o", SInt, false, 's'}, {"#l", SInt, false, 's'}}
	case *types.Interface:
		return []Leaf{{"#t", SInt, false, 't'}, {"#p", SInt, false, 0}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				out = append(out, Leaf{joinPath(f.Name(), l.path), l.sort, l.ref, l.kind})
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, Leaf{"[]" + l.path, arrOf(SInt, l.sort), false, 0})
		}
		return out
	case *types.Tuple:
		return nil
	case *types.TypeParam:
		return []Leaf{{"", SInt, false, 0}}
	}
	return []Leaf{{"", SInt, false, 0}}
}

func joinPath(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	if b[0] == '#' || b[0] == '[' {
		return a + b
	}
	return a + "." + b
}

// fromLeaves builds a value of type t consuming leaf terms.
func fromLeaves(t types.Type, ts []*Term) Val {
	v, rest := fromLeavesR(t, ts)
	if len(rest) != 0 {
		panic(fmt.Sprintf("leaf mismatch for %s", t))
	}
	return v
}

func fromLeavesR(t types.Type, ts []*Term) (Val, []*Term) {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := specialScalar[typeKey(n)]; ok || isOpaqueStruct(t) {
			return ts[0], ts[1:]
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return ptrFromTerm(ts[0], u.Elem()), ts[1:]
	case *types.Map:
		return &MapV{ts[0], u}, ts[1:]
	case *types.Signature:
		return funcFromTerm(ts[0]), ts[1:]
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], u.Elem()}, ts[3:]
	case *types.Interface:
		iv := &IfaceV{tag: ts[0], pay: ts[1]}
		if d, ok := dynTab[dynKey{ts[0], ts[1]}]; ok {
			iv.dynT, iv.dyn = d.T, d.v
		}
		return iv, ts[2:]
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var v Val
			v, ts = fromLeavesR(u.Field(i).Type(), ts)
			s.F = append(s.F, v)
		}
		return s, ts
	case *types.Array:
		n := len(leavesOf(u.Elem()))
		return &ArrayV{u.Elem(), ts[:n]}, ts[n:]
	}
	return ts[0], ts[1:]
}

type dynKey struct{ tag, pay *Term }
type dynVal struct {
	T types.Type
	v Val
}

var dynTab = map[dynKey]dynVal{}
var funcTab = map[*Term]*FuncV{}
var ptrTab = map[*Term]*Loc{}
var funcSeq int64

func funcFromTerm(t *Term) Val {
	if f, ok := funcTab[t]; ok {
		return f
	}
	return &FuncV{id: t}
}
func ptrFromTerm(t *Term, elem types.Type) Val {
	if l, ok := ptrTab[t]; ok {
		return l
	}
	return &Loc{kind: 'o', base: typeKey(elem), T: elem, ref: t}
}

func (f *FuncV) term() *Term {
	if f.id == nil {
		funcSeq++
		f.id = mkApp(fmt.Sprintf("fn!%d", funcSeq), SInt)
		funcTab[f.id] = f
	}
	return f.id
}

func (l *Loc) term() *Term {
	if l.kind == 'o' && l.path == "" {
		return l.ref
	}
	var t *Term
	name := "iptr_" + sanitize(string(l.kind)+"_"+l.base+"_"+l.path)
	switch l.kind {
	case 'o':
		t = mkApp(name, SInt, l.ref)
	case 'e':
		t = mkApp(name, SInt, l.ref, l.idx)
	default:
		t = mkApp(name, SInt)
	}
	ptrTab[t] = l
	return t
}
func (l *Loc) simple() bool { return l.kind == 'o' && l.path == "" }

// toLeaves flattens a value.
func toLeaves(v Val) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *Loc:
		return []*Term{v.term()}
	case *MapV:
		return []*Term{v.ref}
	case *FuncV:
		return []*Term{v.term()}
	case *SliceV:
		return []*Term{v.arr, v.off, v.ln}
	case *IfaceV:
		if v.dynT != nil {
			dynTab[dynKey{v.tag, v.pay}] = dynVal{v.dynT, v.dyn}
		}
		return []*Term{v.tag, v.pay}
	case *StructV:
		var out []*Term
		for _, f := range v.F {
			out = append(out, toLeaves(f)...)
		}
		return out
	case *ArrayV:
		return v.leaves
	case nil:
		panic("toLeaves nil")
	}
	panic(fmt.Sprintf("toLeaves %T", v))
}

func zeroLeaf(s Sort) *Term {
	switch s {
	case SBool:
		return tFalse
	case SInt:
		return mkInt(0)
	case SReal:
		return mkRat(ratOf("0"))
	case SStr:
		return mkStr("")
	}
	return mkConstArr(s, zeroLeaf(arrElem(s)))
}
func zeroVal(t types.Type) Val {
	if tup, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tup.Len(); i++ {
			out = append(out, zeroVal(tup.At(i).Type()))
		}
		return out
	}
	var ts []*Term
	for _, l := range leavesOf(t) {
		ts = append(ts, zeroLeaf(l.sort))
	}
	return fromLeaves(t, ts)
}

// ---- type tags for interfaces ----
var tagTab = map[string]int64{}

func tagOf(t types.Type) *Term {
	k := typeKey(t)
	n, ok := tagTab[k]
	if !ok {
		n = int64(len(tagTab) + 1)
		tagTab[k] = n
	}
	return mkInt(n)
}

// ---- states ----
type State struct {
	heap map[string]*Term
	pc   *Term
	base *Term
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{h, s.pc, s.base}
}

func (x *Exec) hget(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t, ok := x.initHeap[key]
	if !ok {
		t = mkSym("H0|"+sanitizeKey(key), s)
		x.initHeap[key] = t
		rootHeap[t] = true
		x.rootFacts(t, key, x.base0)
	}
	return t
}
func sanitizeKey(k string) string {
	k = strings.ReplaceAll(k, modPath, "blnk")
	return sanitize(k)
}

// rootFacts: values of reference-like leaves stored in heap array t are
// allocated before bound; slice lengths are non-negative.
func (x *Exec) rootFacts(t *Term, key string, bound *Term) {
	kind, ok := x.keyKind[key]
	if !ok {
		return
	}
	var body func(v *Term) *Term
	switch {
	case kind.ref:
		body = func(v *Term) *Term { return mkAnd(mkLe(mkInt(0), v), mkLt(v, bound)) }
	case kind.kind == 's':
		body = func(v *Term) *Term { return mkLe(mkInt(0), v) }
	case kind.kind == 't':
		body = func(v *Term) *Term { return mkLe(mkInt(0), v) }
	case kind.kind == 'L': // map length / domain handled elsewhere
		body = func(v *Term) *Term { return mkLe(mkInt(0), v) }
	default:
		return
	}
	switch {
	case !strings.HasPrefix(string(t.sort), "(Array"):
		symAxioms[t] = append(symAxioms[t], body(t))
	default:
		r := mkBound("r", SInt)
		if el := arrElem(t.sort); strings.HasPrefix(string(el), "(Array") {
			i := mkBound("i", arrIdx(el))
			sel := rawOp("select", arrElem(el), rawOp("select", el, t, r), i)
			symAxioms[t] = append(symAxioms[t], mkForall([]*Term{r, i}, body(sel), []*Term{sel}))
		} else {
			sel := rawOp("select", el, t, r)
			symAxioms[t] = append(symAxioms[t], mkForall([]*Term{r}, body(sel), []*Term{sel}))
		}
	}
}

func (x *Exec) hset(st *State, key string, v *Term) { st.heap[key] = v }

// heapKeys of a location for leaf l
func (x *Exec) locKey(l *Loc, lf Leaf) (string, Sort) {
	p := joinPath(l.path, lf.path)
	var key string
	var s Sort
	switch l.kind {
	case 'o':
		key, s = "f|"+l.base+"|"+p, arrOf(SInt, lf.sort)
	case 'e':
		key, s = "e|"+l.base+"|"+p, arrOf(SInt, arrOf(SInt, lf.sort))
	case 'g':
		key, s = "g|"+l.base+"|"+p, lf.sort
	}
	if _, ok := x.keyKind[key]; !ok {
		x.keyKind[key] = lf
		x.keySort[key] = s
	}
	return key, s
}

func (x *Exec) load(st *State, l *Loc) Val {
	if a, ok := l.T.Underlying().(*types.Array); ok && l.simple() {
		el := &Loc{kind: 'e', base: typeKey(a.Elem()), T: a.Elem(), ref: l.ref}
		var ts []*Term
		for _, lf := range leavesOf(a.Elem()) {
			k, s := x.locKey(el, lf)
			ts = append(ts, mkSelect(x.hget(st, k, s), l.ref))
		}
		return &ArrayV{a.Elem(), ts}
	}
	var ts []*Term
	for _, lf := range leavesOf(l.T) {
		k, s := x.locKey(l, lf)
		h := x.hget(st, k, s)
		switch l.kind {
		case 'o':
			ts = append(ts, mkSelect(h, l.ref))
		case 'e':
			ts = append(ts, mkSelect(mkSelect(h, l.ref), l.idx))
		case 'g':
			ts = append(ts, h)
		}
	}
	return fromLeaves(l.T, ts)
}

type writeRec struct {
	key string
	ref *Term
	idx *Term
}

func (x *Exec) logWrite(key string, ref, idx *Term) {
	for _, w := range x.writeLogs {
		*w = append(*w, writeRec{key, ref, idx})
	}
}

func (x *Exec) store(st *State, l *Loc, v Val) {
	if a, ok := l.T.Underlying().(*types.Array); ok && l.simple() {
		av := v.(*ArrayV)
		el := &Loc{kind: 'e', base: typeKey(a.Elem()), T: a.Elem(), ref: l.ref}
		for i, lf := range leavesOf(a.Elem()) {
			k, s := x.locKey(el, lf)
			x.hset(st, k, mkStore(x.hget(st, k, s), l.ref, av.leaves[i]))
			x.logWrite(k, l.ref, nil)
		}
		return
	}
	ts := toLeaves(v)
	lfs := leavesOf(l.T)
	if len(ts) != len(lfs) {
		panic(fmt.Sprintf("store leaves %s: %d vs %d (%T)", l.T, len(ts), len(lfs), v))
	}
	for i, lf := range lfs {
		k, s := x.locKey(l, lf)
		h := x.hget(st, k, s)
		switch l.kind {
		case 'o':
			x.hset(st, k, mkStore(h, l.ref, ts[i]))
			x.logWrite(k, l.ref, nil)
		case 'e':
			row := mkSelect(h, l.ref)
			x.hset(st, k, mkStore(h, l.ref, mkStore(row, l.idx, ts[i])))
			x.logWrite(k, l.ref, l.idx)
		case 'g':
			x.hset(st, k, ts[i])
			x.logWrite(k, nil, nil)
		}
	}
}

// ---- maps ----
func mapKeys(T *types.Map) string { return typeKey(T.Key()) + "|" + typeKey(T.Elem()) }

func keySortOf(T types.Type) Sort {
	ls := leavesOf(T)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return SInt
}
func keyTerm(v Val) *Term {
	ts := toLeaves(v)
	if len(ts) == 1 {
		return ts[0]
	}
	return mkApp(fmt.Sprintf("tuplekey%d", len(ts)), SInt, ts...)
}

func (x *Exec) mapDomKey(T *types.Map) (string, Sort) {
	k := "md|" + mapKeys(T)
	s := arrOf(SInt, arrOf(keySortOf(T.Key()), SBool))
	x.keySort[k] = s
	return k, s
}
func (x *Exec) mapLenKey(T *types.Map) (string, Sort) {
	k := "ml|" + mapKeys(T)
	s := arrOf(SInt, SInt)
	x.keySort[k] = s
	x.keyKind[k] = Leaf{kind: 'L'}
	return k, s
}
func (x *Exec) mapValKey(T *types.Map, lf Leaf) (string, Sort) {
	k := "mv|" + mapKeys(T) + "|" + lf.path
	s := arrOf(SInt, arrOf(keySortOf(T.Key()), lf.sort))
	x.keySort[k] = s
	x.keyKind[k] = lf
	return k, s
}
func (x *Exec) mapDom(st *State, m *MapV) *Term {
	k, s := x.mapDomKey(m.T)
	return mkSelect(x.hget(st, k, s), m.ref)
}
func (x *Exec) mapLen(st *State, m *MapV) *Term {
	k, s := x.mapLenKey(m.T)
	return mkSelect(x.hget(st, k, s), m.ref)
}
func (x *Exec) mapHas(st *State, m *MapV, k *Term) *Term {
	return mkAnd(mkNot(mkEq(m.ref, mkInt(0))), mkSelect(x.mapDom(st, m), k))
}
func (x *Exec) mapGet(st *State, m *MapV, k *Term) Val { // value irrespective of presence
	var ts []*Term
	for _, lf := range leavesOf(m.T.Elem()) {
		kk, s := x.mapValKey(m.T, lf)
		ts = append(ts, mkSelect(mkSelect(x.hget(st, kk, s), m.ref), k))
	}
	return fromLeaves(m.T.Elem(), ts)
}
func (x *Exec) mapSet(st *State, m *MapV, k *Term, v Val) {
	dk, ds := x.mapDomKey(m.T)
	d := x.hget(st, dk, ds)
	row := mkSelect(d, m.ref)
	had := mkSelect(row, k)
	x.hset(st, dk, mkStore(d, m.ref, mkStore(row, k, tTrue)))
	x.logWrite(dk, m.ref, k)
	lk, lsrt := x.mapLenKey(m.T)
	l := x.hget(st, lk, lsrt)
	x.hset(st, lk, mkStore(l, m.ref, mkIte(had, mkSelect(l, m.ref), mkAdd(mkSelect(l, m.ref), mkInt(1)))))
	x.logWrite(lk, m.ref, nil)
	ts := toLeaves(v)
	for i, lf := range leavesOf(m.T.Elem()) {
		kk, s := x.mapValKey(m.T, lf)
		h := x.hget(st, kk, s)
		x.hset(st, kk, mkStore(h, m.ref, mkStore(mkSelect(h, m.ref), k, ts[i])))
		x.logWrite(kk, m.ref, k)
	}
}
func (x *Exec) mapDelete(st *State, m *MapV, k *Term) {
	dk, ds := x.mapDomKey(m.T)
	d := x.hget(st, dk, ds)
	row := mkSelect(d, m.ref)
	had := mkSelect(row, k)
	x.hset(st, dk, mkStore(d, m.ref, mkStore(row, k, tFalse)))
	x.logWrite(dk, m.ref, k)
	lk, lsrt := x.mapLenKey(m.T)
	l := x.hget(st, lk, lsrt)
	x.hset(st, lk, mkStore(l, m.ref, mkIte(had, mkSub(mkSelect(l, m.ref), mkInt(1)), mkSelect(l, m.ref))))
	x.logWrite(lk, m.ref, nil)
}

// ---- allocation ----
func (x *Exec) alloc(st *State) *Term {
	x.allocN++
	return mkAdd(st.base, mkInt(x.allocN))
}
func (x *Exec) nextOf(st *State) *Term { return mkAdd(st.base, mkInt(x.allocN+1)) }

func (x *Exec) newBase(st *State, why string) {
	old := x.nextOf(st)
	b := freshSym("B", SInt)
	allocBase[b] = len(allocBase) + 1
	symAxioms[b] = append(symAxioms[b], mkLe(old, b))
	st.base = b
}

// allocObj allocates a zeroed object of type t.
func (x *Exec) allocObj(st *State, t types.Type) *Loc {
	l := &Loc{kind: 'o', base: typeKey(t), T: t, ref: x.alloc(st)}
	x.store(st, l, zeroVal(t))
	return l
}

// freshVal makes an unconstrained value of type t, well-formed in st.
func (x *Exec) freshVal(st *State, t types.Type, name string) Val {
	if tup, ok := t.(*types.Tuple); ok {
		var out TupleV
		for i := 0; i < tup.Len(); i++ {
			out = append(out, x.freshVal(st, tup.At(i).Type(), fmt.Sprintf("%s_%d", name, i)))
		}
		return out
	}
	var ts []*Term
	for _, lf := range leavesOf(t) {
		s := freshSym(name+lf.path, lf.sort)
		ts = append(ts, s)
		switch {
		case lf.ref:
			symAxioms[s] = append(symAxioms[s], mkLe(mkInt(0), s), mkLt(s, x.nextOf(st)))
		case lf.kind == 's' || lf.kind == 't':
			symAxioms[s] = append(symAxioms[s], mkLe(mkInt(0), s))
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		// nil interface has nil payload
		symAxioms[ts[0]] = append(symAxioms[ts[0]], mkImp(mkEq(ts[0], mkInt(0)), mkEq(ts[1], mkInt(0))))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		symAxioms[ts[0]] = append(symAxioms[ts[0]], mkLe(mkInt(0), ts[0]))
	}
	return fromLeaves(t, ts)
}

// ---- merging ----
func mergeVal(c *Term, a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch av := a.(type) {
	case *Term:
		return mkIte(c, av, b.(*Term))
	case *Loc:
		bv := b.(*Loc)
		if av.simple() && bv.simple() {
			base, T := av.base, av.T
			return &Loc{kind: 'o', base: base, T: T, ref: mkIte(c, av.ref, bv.ref)}
		}
		if av.kind == bv.kind && av.base == bv.base && av.path == bv.path {
			r := &Loc{kind: av.kind, base: av.base, T: av.T, path: av.path}
			if av.ref != nil {
				r.ref = mkIte(c, av.ref, bv.ref)
			}
			if av.idx != nil {
				r.idx = mkIte(c, av.idx, bv.idx)
			}
			return r
		}
		return ptrFromTerm(mkIte(c, av.term(), bv.term()), av.T)
	case *MapV:
		return &MapV{mkIte(c, av.ref, b.(*MapV).ref), av.T}
	case *SliceV:
		bv := b.(*SliceV)
		return &SliceV{mkIte(c, av.arr, bv.arr), mkIte(c, av.off, bv.off), mkIte(c, av.ln, bv.ln), av.elem}
	case *IfaceV:
		bv := b.(*IfaceV)
		toLeaves(av)
		toLeaves(bv)
		r := &IfaceV{tag: mkIte(c, av.tag, bv.tag), pay: mkIte(c, av.pay, bv.pay)}
		if av.dynT != nil && bv.dynT != nil && types.Identical(av.dynT, bv.dynT) && av.dyn != nil && bv.dyn != nil {
			r.dynT = av.dynT
			r.dyn = mergeVal(c, av.dyn, bv.dyn)
		}
		return r
	case *FuncV:
		bv := b.(*FuncV)
		if av == bv || av.fn != nil && av.fn == bv.fn && len(av.binds) == len(bv.binds) {
			if len(av.binds) == 0 {
				return av
			}
			nb := make([]Val, len(av.binds))
			for i := range nb {
				nb[i] = mergeVal(c, av.binds[i], bv.binds[i])
			}
			return &FuncV{fn: av.fn, binds: nb}
		}
		return &FuncV{id: mkIte(c, av.term(), bv.term())}
	case *StructV:
		bv := b.(*StructV)
		r := &StructV{T: av.T}
		for i := range av.F {
			r.F = append(r.F, mergeVal(c, av.F[i], bv.F[i]))
		}
		return r
	case TupleV:
		bv := b.(TupleV)
		r := make(TupleV, len(av))
		for i := range av {
			r[i] = mergeVal(c, av[i], bv[i])
		}
		return r
	case *ArrayV:
		bv := b.(*ArrayV)
		r := &ArrayV{elem: av.elem}
		for i := range av.leaves {
			r.leaves = append(r.leaves, mkIte(c, av.leaves[i], bv.leaves[i]))
		}
		return r
	case *IterV:
		return av
	}
	panic(fmt.Sprintf("mergeVal %T", a))
}

type edge struct {
	pred   *ssa.BasicBlock
	st     *State
	vals   []Val // for return edges: results
	frozen map[*ssa.Phi]Val
}

func mkEdge(p *ssa.BasicBlock, s *State, v []Val) edge { return edge{pred: p, st: s, vals: v} }

// relConds returns guards relative to the common prefix of the path conditions.
func relConds(es []edge) []*Term {
	cnt := map[*Term]int{}
	sets := make([][]*Term, len(es))
	for i, e := range es {
		conjuncts(e.st.pc, &sets[i])
		for _, c := range sets[i] {
			cnt[c]++
		}
	}
	out := make([]*Term, len(es))
	for i := range es {
		var r []*Term
		for _, c := range sets[i] {
			if cnt[c] != len(es) {
				r = append(r, c)
			}
		}
		out[i] = mkAnd(r...)
	}
	return out
}

// mergeEdges merges states; conds[i] guards edge i (last is default).
func (x *Exec) mergeEdges(es []edge) (*State, []*Term) {
	if len(es) == 1 {
		return es[0].st.clone(), []*Term{tTrue}
	}
	conds := relConds(es)
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.heap {
			keys[k] = true
		}
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	res := &State{heap: map[string]*Term{}}
	n := len(es)
	for _, k := range ks {
		t := x.hget(es[n-1].st, k, x.keySort[k])
		for i := n - 2; i >= 0; i-- {
			t = mkIte(conds[i], x.hget(es[i].st, k, x.keySort[k]), t)
		}
		res.heap[k] = t
	}
	pcs := make([]*Term, n)
	same := true
	for i, e := range es {
		pcs[i] = e.st.pc
		if e.st.base != es[0].st.base {
			same = false
		}
	}
	res.pc = mkOr(pcs...)
	if same {
		res.base = es[0].st.base
	} else {
		b := freshSym("B", SInt)
		allocBase[b] = len(allocBase) + 1
		seen := map[*Term]bool{}
		for _, e := range es {
			if !seen[e.st.base] {
				seen[e.st.base] = true
				symAxioms[b] = append(symAxioms[b], mkLe(mkAdd(e.st.base, mkInt(x.allocN+1)), b))
			}
		}
		res.base = b
	}
	return res, conds
}

func mergeMany(conds []*Term, vs []Val) Val {
	r := vs[len(vs)-1]
	for i := len(vs) - 2; i >= 0; i-- {
		r = mergeVal(conds[i], vs[i], r)
	}
	return r
}
