package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type evalErr struct{ msg string }

func (e evalErr) Error() string { return e.msg }

func evalFail(f string, a ...interface{}) { panic(evalErr{fmt.Sprintf(f, a...)}) }

type SpecEnv struct {
	x       *Exec
	vars    map[string]Val
	lets    map[string]ast.Expr
	st, old *State
	oldNext *Term
	entry   *State
	iter    *Term
	pkg     *types.Package
	depth   int
}

func (e *SpecEnv) with(vars map[string]Val) *SpecEnv {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

// evalBool evaluates a clause; evaluation problems are returned as errors.
func (e *SpecEnv) evalBool(ex ast.Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = ee
				return
			}
			if debugPanic {
				panic(r)
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	v := e.eval(ex)
	t, ok := v.(*Term)
	if !ok || t.sort != SBool {
		return nil, fmt.Errorf("not a boolean: %T", v)
	}
	return t, nil
}

func (e *SpecEnv) evalVal(ex ast.Expr) (v Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(evalErr); ok {
				err = ee
				return
			}
			if debugPanic {
				panic(r)
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	return e.eval(ex), nil
}

var debugPanic = os.Getenv("VV_PANIC") != ""

type nilV struct{}

func (e *SpecEnv) b(ex ast.Expr) *Term {
	t, ok := e.eval(ex).(*Term)
	if !ok || t.sort != SBool {
		evalFail("boolean expected: %s", exprStr(ex))
	}
	return t
}
func (e *SpecEnv) t(ex ast.Expr) *Term {
	v := e.eval(ex)
	t, ok := v.(*Term)
	if !ok {
		evalFail("scalar expected: %s is %T", exprStr(ex), v)
	}
	return t
}

func exprStr(ex ast.Expr) string { return types.ExprString(ex) }

func (e *SpecEnv) eval(ex ast.Expr) Val {
	x := e.x
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			i, ok := new(big.Int).SetString(n.Value, 0)
			if !ok {
				evalFail("bad int %s", n.Value)
			}
			return mkBig(i)
		case token.FLOAT:
			r, ok := new(big.Rat).SetString(n.Value)
			if !ok {
				evalFail("bad float %s", n.Value)
			}
			return mkRat(r)
		case token.STRING:
			s, err := strconv.Unquote(n.Value)
			if err != nil {
				evalFail("bad string %s", n.Value)
			}
			return mkStr(s)
		}
	case *ast.Ident:
		return e.ident(n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := e.vars[id.Name]; !bound && e.lets[id.Name] == nil {
				if v, ok := x.pkgMember(id.Name, n.Sel.Name, e); ok {
					return v
				}
			}
		}
		return e.field(e.eval(n.X), n.Sel.Name)
	case *ast.StarExpr:
		l, ok := e.eval(n.X).(*Loc)
		if !ok {
			evalFail("cannot dereference %s", exprStr(n.X))
		}
		return x.load(e.st, l)
	case *ast.IndexExpr:
		v := e.eval(n.X)
		switch v := v.(type) {
		case *SliceV:
			return x.load(e.st, &Loc{kind: 'e', base: typeKey(v.elem), T: v.elem, ref: v.arr, idx: mkAdd(v.off, e.t(n.Index))})
		case *MapV:
			return x.mapGet(e.st, v, keyTerm(e.eval(n.Index)))
		case *ArrayV:
			var ts []*Term
			for _, l := range v.leaves {
				ts = append(ts, mkSelect(l, e.t(n.Index)))
			}
			return fromLeaves(v.elem, ts)
		}
		evalFail("cannot index %s", exprStr(n.X))
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return mkNot(e.b(n.X))
		case token.SUB:
			return mkNeg(e.t(n.X))
		}
	case *ast.BinaryExpr:
		switch n.Op {
		case token.LAND:
			a := e.b(n.X)
			if a == tFalse {
				return tFalse
			}
			return mkAnd(a, e.b(n.Y))
		case token.LOR:
			a := e.b(n.X)
			if a == tTrue {
				return tTrue
			}
			return mkOr(a, e.b(n.Y))
		}
		l, r := e.eval(n.X), e.eval(n.Y)
		switch n.Op {
		case token.EQL:
			return e.eq(l, r)
		case token.NEQ:
			return mkNot(e.eq(l, r))
		}
		a, ok1 := l.(*Term)
		c, ok2 := r.(*Term)
		if !ok1 || !ok2 {
			evalFail("scalar operands expected in %s (%T, %T)", exprStr(ex), l, r)
		}
		if a.sort == SStr {
			switch n.Op {
			case token.ADD:
				return strCat(a, c)
			case token.LSS:
				return strLt(a, c)
			case token.GTR:
				return strLt(c, a)
			case token.LEQ:
				return mkNot(strLt(c, a))
			case token.GEQ:
				return mkNot(strLt(a, c))
			}
		}
		a, c = coerce2(a, c)
		switch n.Op {
		case token.ADD:
			return mkAdd(a, c)
		case token.SUB:
			return mkSub(a, c)
		case token.MUL:
			return mkMul(a, c)
		case token.QUO:
			return mkRDiv(toReal(a), toReal(c))
		case token.REM:
			return mkEMod(a, c)
		case token.LSS:
			return mkLt(a, c)
		case token.LEQ:
			return mkLe(a, c)
		case token.GTR:
			return mkGt(a, c)
		case token.GEQ:
			return mkGe(a, c)
		}
	case *ast.CallExpr:
		return e.call(n)
	}
	evalFail("unsupported expression %s", exprStr(ex))
	return nil
}

func (e *SpecEnv) eq(l, r Val) *Term {
	if _, ok := l.(nilV); ok {
		l, r = r, l
	}
	if _, ok := r.(nilV); ok {
		switch v := l.(type) {
		case *Loc:
			return mkEq(v.term(), mkInt(0))
		case *SliceV:
			return mkEq(v.arr, mkInt(0))
		case *MapV:
			return mkEq(v.ref, mkInt(0))
		case *IfaceV:
			return mkEq(v.tag, mkInt(0))
		case *FuncV:
			return mkEq(v.term(), mkInt(0))
		case nilV:
			return tTrue
		}
		evalFail("cannot compare %T with nil", l)
	}
	if a, ok := l.(*Term); ok {
		if c, ok := r.(*Term); ok {
			if a.sort != c.sort {
				if a.sort == SInt && c.sort == SReal || a.sort == SReal && c.sort == SInt {
					a, c = coerce2(a, c)
				} else {
					evalFail("comparing %s with %s", a.sort, c.sort)
				}
			}
			return mkEq(a, c)
		}
	}
	la, lb := toLeaves(l), toLeaves(r)
	if len(la) != len(lb) {
		evalFail("comparing %T with %T", l, r)
	}
	var cs []*Term
	for i := range la {
		cs = append(cs, mkEq(la[i], lb[i]))
	}
	return mkAnd(cs...)
}

func (e *SpecEnv) ident(name string) Val {
	if v, ok := e.vars[name]; ok {
		return v
	}
	switch name {
	case "true":
		return tTrue
	case "false":
		return tFalse
	case "nil":
		return nilV{}
	case "iter":
		if e.iter == nil {
			evalFail("iter outside a loop")
		}
		return e.iter
	}
	if l, ok := e.lets[name]; ok {
		return e.eval(l)
	}
	if s, ok := e.x.spec.Ghosts[name]; ok {
		k := "ghost|v|" + name
		e.x.keySort[k] = s
		return e.x.hget(e.st, k, s)
	}
	if e.pkg != nil {
		if v, ok := e.x.objVal(e.pkg.Scope().Lookup(name), e); ok {
			return v
		}
	}
	evalFail("unknown identifier %s", name)
	return nil
}

func (x *Exec) objVal(o types.Object, e *SpecEnv) (Val, bool) {
	switch o := o.(type) {
	case *types.Const:
		return constToVal(o.Val()), true
	case *types.Var:
		return x.load(e.st, &Loc{kind: 'g', base: o.Pkg().Path() + "." + o.Name(), T: o.Type()}), true
	}
	return nil, false
}

func constToVal(v constant.Value) Val {
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkStr(constant.StringVal(v))
	case constant.Int:
		r, _ := new(big.Int).SetString(v.ExactString(), 10)
		return mkBig(r)
	case constant.Float:
		r, _ := new(big.Rat).SetString(v.ExactString())
		return mkRat(r)
	}
	return nil
}

func (x *Exec) pkgMember(pkg, name string, e *SpecEnv) (Val, bool) {
	for _, p := range x.prog.packages[pkg] {
		if o := p.Scope().Lookup(name); o != nil {
			return x.objVal(o, e)
		}
	}
	return nil, false
}

func (e *SpecEnv) field(v Val, name string) Val {
	x := e.x
	var T types.Type
	switch v := v.(type) {
	case *Loc:
		T = v.T
	case *StructV:
		T = v.T
	case *IfaceV:
		if v.dyn != nil {
			return e.field(v.dyn, name)
		}
		evalFail("field %s of an interface", name)
	default:
		evalFail("field %s of %T", name, v)
	}
	var pk *types.Package
	if nt, ok := types.Unalias(T).(*types.Named); ok {
		pk = nt.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(T, true, pk, name)
	if _, ok := o.(*types.Var); !ok {
		evalFail("no field %s in %s", name, T)
	}
	cur := v
	for _, i := range idx {
		switch c := cur.(type) {
		case *Loc:
			n, ft := fieldName(c.T, i)
			cur = x.load(e.st, &Loc{kind: c.kind, base: c.base, T: ft, ref: c.ref, idx: c.idx, path: joinPath(c.path, n)})
		case *StructV:
			cur = c.F[i]
		default:
			evalFail("field %s", name)
		}
	}
	return cur
}

// loc evaluates an lvalue expression to a location.
func (e *SpecEnv) loc(ex ast.Expr) *Loc {
	switch n := ex.(type) {
	case *ast.ParenExpr:
		return e.loc(n.X)
	case *ast.StarExpr:
		if l, ok := e.eval(n.X).(*Loc); ok {
			return l
		}
	case *ast.SelectorExpr:
		var base *Loc
		if v, ok := e.eval(n.X).(*Loc); ok {
			base = v
		} else {
			base = e.loc(n.X)
		}
		var pk *types.Package
		if nt, ok := types.Unalias(base.T).(*types.Named); ok {
			pk = nt.Obj().Pkg()
		}
		o, idx, _ := types.LookupFieldOrMethod(base.T, true, pk, n.Sel.Name)
		if _, ok := o.(*types.Var); ok && len(idx) == 1 {
			nm, ft := fieldName(base.T, idx[0])
			return &Loc{kind: base.kind, base: base.base, T: ft, ref: base.ref, idx: base.idx, path: joinPath(base.path, nm)}
		}
	case *ast.IndexExpr:
		if v, ok := e.eval(n.X).(*SliceV); ok {
			return &Loc{kind: 'e', base: typeKey(v.elem), T: v.elem, ref: v.arr, idx: mkAdd(v.off, e.t(n.Index))}
		}
	}
	evalFail("not a location: %s", exprStr(ex))
	return nil
}

func (e *SpecEnv) strArg(ex ast.Expr) string {
	t, ok := e.eval(ex).(*Term)
	if !ok || t.op != "str" {
		if id, isId := ex.(*ast.Ident); isId {
			return id.Name
		}
		evalFail("constant string expected: %s", exprStr(ex))
	}
	return t.name
}

func nameArg(ex ast.Expr) string {
	switch n := ex.(type) {
	case *ast.Ident:
		return n.Name
	case *ast.BasicLit:
		s, _ := strconv.Unquote(n.Value)
		return s
	}
	evalFail("name expected")
	return ""
}

func (e *SpecEnv) num(v Val) *Term {
	switch v := v.(type) {
	case *Loc:
		t, ok := e.x.load(e.st, v).(*Term)
		if !ok {
			evalFail("num of %s", v.T)
		}
		return mkIte(mkEq(v.term(), mkInt(0)), zeroLeaf(t.sort), t)
	case *Term:
		return v
	}
	evalFail("num of %T", v)
	return nil
}

func (e *SpecEnv) callNames(n *ast.CallExpr) string {
	switch f := n.Fun.(type) {
	case *ast.Ident:
		return f.Name
	case *ast.SelectorExpr:
		return exprStr(f)
	}
	return ""
}

// bigFields lists the *big.Int valued fields of a struct pointer.
func (e *SpecEnv) bigFields(v Val) []*Loc {
	var out []*Loc
	switch l := v.(type) {
	case *Loc:
		if l.T == nil {
			break
		}
		if typeKey(l.T) == "math/big.Int" {
			return []*Loc{l}
		}
		s, ok := l.T.Underlying().(*types.Struct)
		if !ok {
			break
		}
		for i := 0; i < s.NumFields(); i++ {
			if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && typeKey(p.Elem()) == "math/big.Int" {
				if f, ok := e.field(v, s.Field(i).Name()).(*Loc); ok {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (e *SpecEnv) call(n *ast.CallExpr) Val {
	x := e.x
	f := e.callNames(n)
	a := n.Args
	need := func(k int) {
		if len(a) < k {
			evalFail("%s needs %d arguments", f, k)
		}
	}
	if p, ok := x.spec.Preds[f]; ok {
		if len(a) != len(p.Params) {
			evalFail("%s: wrong number of arguments", f)
		}
		if e.depth > 40 {
			evalFail("%s: recursion", f)
		}
		vs := map[string]Val{}
		for i, q := range p.Params {
			vs[q] = e.eval(a[i])
		}
		ne := e.with(vs)
		ne.depth++
		return ne.eval(p.E)
	}
	switch f {
	case "old":
		need(1)
		if e.old == nil {
			evalFail("old() has no meaning here")
		}
		ne := *e
		ne.st = e.old
		return ne.eval(a[0])
	case "entry":
		if e.entry == nil {
			evalFail("entry() outside a loop")
		}
		ne := *e
		ne.st = e.entry
		return ne.eval(a[0])
	case "num":
		return e.num(e.eval(a[0]))
	case "fresh":
		l := asTerm(e.refOf(e.eval(a[0])))
		if e.oldNext == nil {
			evalFail("fresh() has no meaning here")
		}
		return mkLe(e.oldNext, l)
	case "implies":
		l := e.b(a[0])
		if l == tFalse {
			return tTrue
		}
		return mkImp(l, e.b(a[1]))
	case "iff":
		return mkEq(e.b(a[0]), e.b(a[1]))
	case "ite":
		c := e.b(a[0])
		if c == tTrue {
			return e.eval(a[1])
		}
		if c == tFalse {
			return e.eval(a[2])
		}
		l, r := e.eval(a[1]), e.eval(a[2])
		if lt, ok := l.(*Term); ok {
			if rt, ok := r.(*Term); ok && lt.sort != rt.sort {
				l, r = coerceV(lt, rt)
			}
		}
		return mergeVal(c, l, r)
	case "len":
		switch v := e.eval(a[0]).(type) {
		case *SliceV:
			return v.ln
		case *MapV:
			return mkIte(mkEq(v.ref, mkInt(0)), mkInt(0), x.mapLen(e.st, v))
		case *Term:
			return strLen(v)
		}
		evalFail("len")
	case "has":
		m, ok := e.eval(a[0]).(*MapV)
		if !ok {
			evalFail("has: not a map")
		}
		return x.mapHas(e.st, m, keyTerm(e.eval(a[1])))
	case "forall", "exists":
		need(4)
		b := mkBound(fmt.Sprintf("%s!%d", nameArg(a[0]), e.depth), SInt)
		ne := e.with(map[string]Val{nameArg(a[0]): b})
		ne.depth++
		lo, hi := e.t(a[1]), e.t(a[2])
		in := mkAnd(mkLe(lo, b), mkLt(b, hi))
		body := ne.b(a[3])
		if f == "forall" {
			return mkForall([]*Term{b}, mkImp(in, body))
		}
		return mkExists([]*Term{b}, mkAnd(in, body))
	case "all", "some": // all(k, "string", body)
		need(3)
		so := map[string]Sort{"string": SStr, "int": SInt, "real": SReal, "bool": SBool}[e.strArg(a[1])]
		b := mkBound(fmt.Sprintf("%s!%d", nameArg(a[0]), e.depth), so)
		ne := e.with(map[string]Val{nameArg(a[0]): b})
		ne.depth++
		if f == "all" {
			return mkForall([]*Term{b}, ne.b(a[2]))
		}
		return mkExists([]*Term{b}, ne.b(a[2]))
	case "sum":
		need(4)
		b := mkBound(fmt.Sprintf("sum!%d", e.depth), SInt)
		ne := e.with(map[string]Val{nameArg(a[0]): b})
		ne.depth++
		return mkSum(b, e.t(a[1]), e.t(a[2]), ne.t(a[3]))
	case "msum": // msum(m, k, v-expression): sum over the keys of a map
		need(3)
		m, ok := e.eval(a[0]).(*MapV)
		if !ok {
			evalFail("msum: not a map")
		}
		b := mkBound(fmt.Sprintf("msk!%d", e.depth), keySortOf(m.T.Key()))
		ne := e.with(map[string]Val{nameArg(a[1]): b})
		ne.depth++
		return mkMSum(x.mapDom(e.st, m), b, ne.t(a[2]))
	case "visited": // visited(k): keys already seen by the enclosing map iteration
		evalFail("visited: unsupported")
	case "store":
		need(3)
		return mkStore(e.t(a[0]), toLeaves(e.eval(a[1]))[0], e.t(a[2]))
	case "at":
		need(2)
		return mkSelect(e.t(a[0]), toLeaves(e.eval(a[1]))[0])
	case "emptyset":
		need(1)
		return mkConstArr(arrOf(map[string]Sort{"string": SStr, "int": SInt}[e.strArg(a[0])], SBool), tFalse)
	case "real":
		return toReal(e.t(a[0]))
	case "floor":
		return mkFloor(toReal(e.t(a[0])))
	case "trunc":
		return mkTrunc(toReal(e.t(a[0])))
	case "roundhalf":
		return roundHalfAway(toReal(e.t(a[0])))
	case "abs":
		t := e.t(a[0])
		return mkIte(mkGe(t, zeroLeaf(t.sort)), t, mkNeg(t))
	case "min", "max":
		l, r := coerce2(e.t(a[0]), e.t(a[1]))
		if f == "min" {
			return mkIte(mkLe(l, r), l, r)
		}
		return mkIte(mkGe(l, r), l, r)
	case "div":
		return mkEDiv(e.t(a[0]), e.t(a[1]))
	case "mod":
		return mkEMod(e.t(a[0]), e.t(a[1]))
	case "cat":
		r := mkStr("")
		for _, y := range a {
			r = strCat(r, e.t(y))
		}
		return r
	case "itoa":
		return intToStr(e.num(e.eval(a[0])))
	case "sqlcol", "sqlwhere", "sqlsel", "sqlexpr", "sqlcond", "sqltable", "sqlverb", "sqlhas", "sqlconjuncts", "sqlexists":
		var as []string
		for _, y := range a[1:] {
			as = append(as, e.strArg(y))
		}
		return sqlBuiltin(e.callNames(n), e.t(a[0]), as)
	case "hasPrefix":
		return strPrefix(e.t(a[1]), e.t(a[0]))
	case "hasSuffix":
		return intrinsics["strings.HasSuffix"](x, e.st, []Val{e.t(a[0]), e.t(a[1])}, nil)
	case "contains":
		return intrinsics["strings.Contains"](x, e.st, []Val{e.t(a[0]), e.t(a[1])}, nil)
	case "isnil":
		return e.eq(e.eval(a[0]), nilV{})
	case "uf":
		need(2)
		so := Sort(e.strArg(a[1]))
		if s, ok := map[string]Sort{"int": SInt, "bool": SBool, "real": SReal, "string": SStr}[string(so)]; ok {
			so = s
		}
		var ts []*Term
		for _, y := range a[2:] {
			ts = append(ts, toLeaves(e.eval(y))...)
		}
		return mkApp(e.strArg(a[0]), so, ts...)
	case "row":
		s, ok := e.eval(a[0]).(*SliceV)
		if !ok {
			evalFail("row")
		}
		return x.elemRow(e.st, s)
	case "off":
		return e.eval(a[0]).(*SliceV).off
	case "arr":
		return e.eval(a[0]).(*SliceV).arr
	case "unchanged":
		var cs []*Term
		for _, y := range a {
			ne := *e
			ne.st = e.old
			cs = append(cs, e.eq(e.eval(y), ne.eval(y)))
		}
		return mkAnd(cs...)
	case "samestruct": // *p field by field equal to its old value (pointer fields compared by identity)
		var cs []*Term
		for _, y := range a {
			ne := *e
			ne.st = e.old
			l := e.ptr(y)
			l0 := ne.ptr(y)
			cs = append(cs, e.eq(x.load(e.st, l), x.load(e.old, l0)))
		}
		return mkAnd(cs...)
	case "deepsame": // samestruct and every *big.Int field's number unchanged
		var cs []*Term
		for _, y := range a {
			ne := *e
			ne.st = e.old
			l := e.ptr(y)
			l0 := ne.ptr(y)
			cs = append(cs, e.eq(x.load(e.st, l), x.load(e.old, l0)))
			for _, bf := range ne.bigFields(l0) {
				cs = append(cs, mkEq(e.num(bf), ne.num(bf)))
			}
		}
		return mkAnd(cs...)
	case "copyof": // copyof(p, q): *p equals old *q, big.Int fields by value and nilness
		return e.copyOf(a, false)
	case "sameexcept": // sameexcept(p, "F1", "F2", ...): *p equals its old value except the fields named; big.Int fields by identity
		l := e.ptr(a[0])
		ex := map[string]bool{}
		for _, y := range a[1:] {
			ex[e.strArg(y)] = true
		}
		s := l.T.Underlying().(*types.Struct)
		var cs []*Term
		for i := 0; i < s.NumFields(); i++ {
			if ex[s.Field(i).Name()] {
				continue
			}
			nm, ft := fieldName(l.T, i)
			fl := &Loc{kind: l.kind, base: l.base, T: ft, ref: l.ref, idx: l.idx, path: joinPath(l.path, nm)}
			cs = append(cs, e.eq(x.load(e.st, fl), x.load(e.old, fl)))
		}
		return mkAnd(cs...)
	case "sep": // pairwise distinct or nil
		var ts []*Term
		for _, y := range a {
			ts = append(ts, asTerm(e.refOf(e.eval(y))))
		}
		return sepTerms(ts)
	case "sepbig": // all big.Int fields of the given struct pointers pairwise distinct or nil
		var ts []*Term
		for _, y := range a {
			for _, l := range e.bigFields(e.eval(y)) {
				ts = append(ts, l.term())
			}
		}
		return sepTerms(ts)
	case "calls":
		k := "ghost|calls|" + nameArg(a[0])
		x.keySort[k] = SInt
		now := x.hget(e.st, k, SInt)
		if e.old == nil {
			return now
		}
		return mkSub(now, x.hget(e.old, k, SInt))
	case "when":
		k := "ghost|when|" + nameArg(a[0])
		x.keySort[k] = SInt
		return x.hget(e.st, k, SInt)
	case "clock":
		x.keySort["ghost|clock"] = SInt
		return x.hget(e.st, "ghost|clock", SInt)
	case "arg", "res":
		need(2)
		k := fmt.Sprintf("ghost|%s|%s|%s", f, nameArg(a[0]), exprStr(a[1]))
		like, ok := x.ghostShapes()[k]
		if !ok {
			evalFail("noshape %s", k)
		}
		return x.loadGhost(e.st, k, like)
	case "typeis":
		iv, ok := e.eval(a[0]).(*IfaceV)
		if !ok {
			evalFail("typeis: not an interface")
		}
		t := x.prog.typeByName(e.strArg(a[1]))
		if t == nil {
			evalFail("unknown type %s", e.strArg(a[1]))
		}
		return mkEq(iv.tag, tagOf(t))
	case "as": // as(iface, "*pkg.T")
		iv, ok := e.eval(a[0]).(*IfaceV)
		t := x.prog.typeByName(e.strArg(a[1]))
		if !ok || t == nil {
			evalFail("as")
		}
		return x.unboxVal(e.st, iv, t)
	case "is":
		// is(err, target)
		l, r := e.eval(a[0]).(*IfaceV), e.eval(a[1]).(*IfaceV)
		return intrinsics["errors.Is"](x, e.st, []Val{l, r}, nil)
	case "code": // code("fn", args...): the value the real function returns in this state
		name := e.strArg(a[0])
		fn := x.prog.findFunc(name)
		if fn == nil {
			evalFail("unknown function %s", name)
		}
		var as []Val
		for _, y := range a[1:] {
			as = append(as, e.eval(y))
		}
		return x.evalCode(e.st, fn, as)
	}
	evalFail("unknown function %s", f)
	return nil
}

func coerceV(a, b *Term) (Val, Val) { x, y := coerce2(a, b); return x, y }

func sepTerms(ts []*Term) *Term {
	var cs []*Term
	z := mkInt(0)
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			cs = append(cs, mkOr(mkNot(mkEq(ts[i], ts[j])), mkEq(ts[i], z)))
		}
	}
	return mkAnd(cs...)
}

func (e *SpecEnv) ptr(ex ast.Expr) *Loc {
	v := e.eval(ex)
	if l, ok := v.(*Loc); ok {
		return l
	}
	if iv, ok := v.(*IfaceV); ok && iv.dyn != nil {
		if l, ok := iv.dyn.(*Loc); ok {
			return l
		}
	}
	evalFail("pointer expected: %s is %T", exprStr(ex), v)
	return nil
}

func (e *SpecEnv) refOf(v Val) Val {
	switch v := v.(type) {
	case *Loc, *MapV:
		return v
	case *SliceV:
		return v.arr
	case *IfaceV:
		return v.pay
	case *Term:
		return v
	}
	evalFail("reference expected, got %T", v)
	return nil
}

// copyof(p, q [, "except"...]): field-wise equal, big numbers by value.
func (e *SpecEnv) copyOf(a []ast.Expr, _ bool) *Term {
	x := e.x
	p, q := e.ptr(a[0]), e.ptr(a[1])
	ex := map[string]bool{}
	for _, y := range a[2:] {
		ex[e.strArg(y)] = true
	}
	s, ok := p.T.Underlying().(*types.Struct)
	if !ok {
		evalFail("copyof: not a struct")
	}
	o := *e
	if e.old != nil {
		o.st = e.old
	}
	var cs []*Term
	for i := 0; i < s.NumFields(); i++ {
		nm, ft := fieldName(p.T, i)
		if ex[nm] {
			continue
		}
		pl := x.load(e.st, &Loc{kind: p.kind, base: p.base, T: ft, ref: p.ref, idx: p.idx, path: joinPath(p.path, nm)})
		ql := x.load(o.st, &Loc{kind: q.kind, base: q.base, T: ft, ref: q.ref, idx: q.idx, path: joinPath(q.path, nm)})
		if pp, isP := ft.Underlying().(*types.Pointer); isP && typeKey(pp.Elem()) == "math/big.Int" {
			l, r := pl.(*Loc), ql.(*Loc)
			cs = append(cs, mkEq(mkEq(l.term(), mkInt(0)), mkEq(r.term(), mkInt(0))), mkEq(e.num(l), o.num(r)))
			continue
		}
		cs = append(cs, e.eq(pl, ql))
	}
	return mkAnd(cs...)
}

// evalCode evaluates a pure in-module function symbolically.
func (x *Exec) evalCode(st *State, fn *ssa.Function, args []Val) Val {
	x.noObl++
	x.dry++
	defer func() { x.noObl--; x.dry-- }()
	s := st.clone()
	s.pc = tTrue
	nf := len(x.facts)
	res, _, ok := x.inline(s, fn, args, nil, token.NoPos)
	x.facts = x.facts[:nf:nf]
	if !ok {
		evalFail("code: no result")
	}
	return res
}

// ---------- sums ----------
type sumDef struct {
	b      *Term // bound variable
	body   *Term // over b and formal params
	formal []*Term
	msum   bool
}

var sumDefs = map[string]*sumDef{}
var sumSkel = map[*Term]string{}

// lambdaLift replaces maximal b-free non-literal subterms of body by formals.
func lambdaLift(body, b *Term) (skel *Term, formals, actuals []*Term) {
	m := map[*Term]*Term{}
	var has func(t *Term) bool
	memo := map[*Term]bool{}
	has = func(t *Term) bool {
		if t == b {
			return true
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		r := false
		for _, a := range t.args {
			if has(a) {
				r = true
			}
		}
		memo[t] = r
		return r
	}
	cm := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == b || t.isConst() {
			return t
		}
		if !has(t) {
			if f, ok := m[t]; ok {
				return f
			}
			f := mkSym(fmt.Sprintf("$p%d:%s", len(formals), t.sort), t.sort)
			m[t] = f
			formals = append(formals, f)
			actuals = append(actuals, t)
			return f
		}
		if c, ok := cm[t]; ok {
			return c
		}
		if len(t.args) == 0 {
			return t
		}
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
		}
		r := &Term{op: t.op, name: t.name, sort: t.sort, num: t.num, args: as, bvs: t.bvs, pats: t.pats}
		ri := intern(r)
		cm[t] = ri
		return ri
	}
	return rec(body), formals, actuals
}

func mkSum(b, lo, hi, body *Term) *Term {
	if lo.op == "int" && hi.op == "int" {
		l, h := lo.num.Num().Int64(), hi.num.Num().Int64()
		if h <= l {
			return zeroLeaf(body.sort)
		}
		if h-l <= 3 {
			r := zeroLeaf(body.sort)
			for i := l; i < h; i++ {
				r = mkAdd(r, subst(body, map[*Term]*Term{b: mkInt(i)}))
			}
			return r
		}
	}
	cb := mkSym("$i", SInt)
	body = subst(body, map[*Term]*Term{b: cb})
	skel, formals, actuals := lambdaLift(body, cb)
	name, ok := sumSkel[skel]
	if !ok {
		name = fmt.Sprintf("sum!%d", len(sumDefs))
		sumSkel[skel] = name
		sumDefs[name] = &sumDef{b: cb, body: skel, formal: formals}
	}
	return mkApp(name, body.sort, append([]*Term{lo, hi}, actuals...)...)
}

func (d *sumDef) at(t, i *Term) *Term {
	m := map[*Term]*Term{d.b: i}
	k := 2
	if d.msum {
		k = 1
	}
	for j, f := range d.formal {
		m[f] = t.args[k+j]
	}
	return subst(d.body, m)
}

// mkMSum: sum over {k | dom[k]} of body(k).
func mkMSum(dom, b, body *Term) *Term {
	cb := mkSym("$k:"+string(b.sort), b.sort)
	body = subst(body, map[*Term]*Term{b: cb})
	skel, formals, actuals := lambdaLift(body, cb)
	key := skel
	name, ok := sumSkel[key]
	if !ok || !sumDefs[name].msum {
		name = fmt.Sprintf("msum!%d", len(sumDefs))
		sumSkel[key] = name
		sumDefs[name] = &sumDef{b: cb, body: skel, formal: formals, msum: true}
	}
	return mkApp(name, body.sort, append([]*Term{dom}, actuals...)...)
}

// sumFacts: definitional unfoldings and extensionality for the sums in a VC.
// sumFacts: ground consequences of the recursive definition of every sum
// that occurs. lite keeps only unfolding and congruence of sums of one kind.
func sumFacts(all []*Term, lite bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var apps []*Term
	depth := map[*Term]int{}
	var scan func(t *Term, d int)
	scan = func(t *Term, d int) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && (strings.HasPrefix(t.name, "sum!") || strings.HasPrefix(t.name, "msum!")) && !t.hasB {
			apps = append(apps, t)
			depth[t] = d
		}
		for _, a := range t.args {
			scan(a, d)
		}
	}
	for _, t := range all {
		scan(t, 0)
	}
	for i := 0; i < len(apps) && i < 40; i++ {
		t := apps[i]
		d := sumDefs[t.name]
		z := zeroLeaf(t.sort)
		if d.msum {
			dom := t.args[0]
			// store into the domain: unfold one element
			if dom.op == "store" {
				k := dom.args[1]
				rest := mkApp(t.name, t.sort, append([]*Term{dom.args[0]}, t.args[1:]...)...)
				v := d.at(t, k)
				in := mkSelect(dom.args[0], k)
				if dom.args[2] == tTrue {
					out = append(out, mkEq(t, mkIte(in, rest, mkAdd(rest, v))))
				} else if dom.args[2] == tFalse {
					out = append(out, mkEq(t, mkIte(in, mkSub(rest, v), rest)))
				}
				if depth[t] < 3 {
					scan(rest, depth[t]+1)
				}
			}
			if dom.op == "constarr" && dom.args[0] == tFalse {
				out = append(out, mkEq(t, z))
			}
			w := freshSym("mw", d.b.sort)
			out = append(out, mkOr(mkAnd(mkSelect(dom, w), mkLt(d.at(t, w), z)), mkGe(t, z)))
			continue
		}
		lo, hi := t.args[0], t.args[1]
		out = append(out, mkImp(mkLe(hi, lo), mkEq(t, z)))
		if depth[t] < 1 {
			prev := mkApp(t.name, t.sort, append([]*Term{lo, mkSub(hi, mkInt(1))}, t.args[2:]...)...)
			f := mkImp(mkLt(lo, hi), mkEq(t, mkAdd(prev, d.at(t, mkSub(hi, mkInt(1))))))
			out = append(out, f)
			scan(f, depth[t]+1)
		}
		if lite {
			continue
		}
		// nonnegativity
		w := freshSym("sw", SInt)
		out = append(out, mkOr(mkAnd(mkLe(lo, w), mkLt(w, hi), mkLt(d.at(t, w), z)), mkGe(t, z)))
	}
	// extensionality between pairs
	n := len(apps)
	if n > 14 {
		n = 14
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			p, q := apps[i], apps[j]
			dp, dq := sumDefs[p.name], sumDefs[q.name]
			if p.sort != q.sort || dp.msum != dq.msum || lite && p.name != q.name {
				continue
			}
			if dp.msum {
				if dp.b.sort != dq.b.sort || p.args[0].sort != q.args[0].sort {
					continue
				}
				w := freshSym("me", dp.b.sort)
				same := mkAnd(mkEq(mkSelect(p.args[0], w), mkSelect(q.args[0], w)), mkImp(mkSelect(p.args[0], w), mkEq(dp.at(p, w), dq.at(q, w))))
				out = append(out, mkOr(mkNot(same), mkEq(p, q)))
				// differ at one key only
				if p.args[0] == q.args[0] {
					k2 := mkBound("k2", dp.b.sort)
					_ = k2
				}
				continue
			}
			// a longer sum of nonnegative terms is no smaller
			for _, pr := range [][2]*Term{{p, q}, {q, p}} {
				s, l := pr[0], pr[1]
				ds, dl := sumDefs[s.name], sumDefs[l.name]
				if lite || mkSub(s.args[1], l.args[1]).isNum() || depth[s] > 0 || depth[l] > 0 {
					continue
				}
				u, v := freshSym("su", SInt), freshSym("sv", SInt)
				d1 := mkAnd(mkLe(s.args[0], u), mkLt(u, s.args[1]), mkNot(mkEq(ds.at(s, u), dl.at(l, u))))
				d2 := mkAnd(mkLe(s.args[1], v), mkLt(v, l.args[1]), mkLt(dl.at(l, v), zeroLeaf(l.sort)))
				out = append(out, mkImp(mkAnd(mkEq(s.args[0], l.args[0]), mkLe(s.args[1], l.args[1])), mkOr(d1, d2, mkLe(s, l))))
			}
			if mkEq(p.args[1], q.args[1]) == tFalse || mkEq(p.args[0], q.args[0]) == tFalse {
				continue
			}
			if k := mkSub(p.args[1], q.args[1]); k.isNum() && k.num.Sign() != 0 {
				continue
			}
			w := freshSym("se", SInt)
			diff := mkAnd(mkLe(p.args[0], w), mkLt(w, p.args[1]), mkNot(mkEq(dp.at(p, w), dq.at(q, w))))
			out = append(out, mkImp(mkAnd(mkEq(p.args[0], q.args[0]), mkEq(p.args[1], q.args[1])), mkOr(diff, mkEq(p, q))))
		}
	}
	return out
}
