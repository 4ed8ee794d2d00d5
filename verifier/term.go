package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed SMT expressions with light simplification.

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SReal Sort = "Real"
	SStr  Sort = "Str"
)

func arrOf(idx, el Sort) Sort { return Sort("(Array " + string(idx) + " " + string(el) + ")") }

// arrElem returns the element sort of an array sort.
func arrElem(s Sort) Sort {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("arrElem of " + str)
	}
	body := str[7 : len(str)-1]
	// skip index sort
	d := 0
	for i, c := range body {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(body[i+1:])
			}
		}
	}
	panic("bad sort " + str)
}
func arrIdx(s Sort) Sort {
	str := string(s)
	body := str[7 : len(str)-1]
	d := 0
	for i, c := range body {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(body[:i])
			}
		}
	}
	panic("bad sort " + str)
}

type Term struct {
	op    string // "int","real","str","true","false","sym","bound","app", or smt op
	name  string // symbol / function / string const
	args  []*Term
	sort  Sort
	num   *big.Rat
	id    int
	depth int
	hasB  bool // contains bound variable
	bvs   []*Term
	pats  [][]*Term
	syms  map[*Term]bool // lazily computed symbol set
}

var (
	termTab = map[string]*Term{}
	termSeq = 0
)

func intern(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	b.WriteString(string(t.sort))
	if t.num != nil {
		b.WriteByte('#')
		b.WriteString(t.num.RatString())
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.bvs {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, p := range t.pats {
		b.WriteByte('!')
		for _, a := range p {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termSeq++
	t.id = termSeq
	for _, a := range t.args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		if a.hasB {
			t.hasB = true
		}
	}
	if t.op == "bound" {
		t.hasB = true
	}
	if t.op == "forall" || t.op == "exists" {
		// closed quantifier: has bound only if free bound vars remain
		free := map[*Term]bool{}
		collectFreeBound(t, map[*Term]bool{}, free, map[*Term]int{})
		t.hasB = len(free) > 0
	}
	termTab[k] = t
	return t
}

func collectFreeBound(t *Term, seen map[*Term]bool, free map[*Term]bool, bound map[*Term]int) {
	if t.op == "bound" {
		if bound[t] == 0 {
			free[t] = true
		}
		return
	}
	if !t.hasB && t.op != "forall" && t.op != "exists" {
		return
	}
	if t.op == "forall" || t.op == "exists" {
		for _, v := range t.bvs {
			bound[v]++
		}
		for _, a := range t.args {
			collectFreeBound(a, seen, free, bound)
		}
		for _, v := range t.bvs {
			bound[v]--
		}
		return
	}
	for _, a := range t.args {
		collectFreeBound(a, seen, free, bound)
	}
}

func mkSym(name string, s Sort) *Term { return intern(&Term{op: "sym", name: name, sort: s}) }

var freshSeq = map[string]int{}

func freshSym(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	freshSeq[prefix]++
	return mkSym(fmt.Sprintf("%s!%d", prefix, freshSeq[prefix]), s)
}
func mkBound(name string, s Sort) *Term { return intern(&Term{op: "bound", name: name, sort: s}) }

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '-' {
			b.WriteRune(c)
		} else if c == '*' {
			b.WriteByte('P')
		} else if c == '[' || c == ']' {
			b.WriteByte('$')
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

var (
	tTrue  = intern(&Term{op: "true", sort: SBool})
	tFalse = intern(&Term{op: "false", sort: SBool})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(n int64) *Term {
	return intern(&Term{op: "int", sort: SInt, num: new(big.Rat).SetInt64(n)})
}
func mkBig(n *big.Int) *Term {
	return intern(&Term{op: "int", sort: SInt, num: new(big.Rat).SetInt(n)})
}
func mkRat(r *big.Rat) *Term {
	return intern(&Term{op: "real", sort: SReal, num: new(big.Rat).Set(r)})
}
func mkNum(r *big.Rat, s Sort) *Term {
	if s == SInt {
		return mkBig(r.Num())
	}
	return mkRat(r)
}
func mkStr(s string) *Term { return intern(&Term{op: "str", name: s, sort: SStr}) }

func (t *Term) isNum() bool { return t.op == "int" || t.op == "real" }
func (t *Term) isConst() bool {
	return t.isNum() || t.op == "str" || t == tTrue || t == tFalse
}

func mkApp(name string, s Sort, args ...*Term) *Term {
	return intern(&Term{op: "app", name: name, sort: s, args: args})
}
func rawOp(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{op: op, sort: s, args: args})
}

func mkNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return rawOp("not", SBool, a)
}

func conjuncts(t *Term, out *[]*Term) {
	if t.op == "and" {
		for _, a := range t.args {
			conjuncts(a, out)
		}
		return
	}
	*out = append(*out, t)
}

// splitGoal: goals whose conjunction is equivalent to t.
func splitGoal(t *Term) []*Term {
	var out []*Term
	switch t.op {
	case "and":
		// each conjunct may use the (quantifier-free) ones before it
		var prev []*Term
		for _, a := range t.args {
			for _, g := range splitGoal(a) {
				out = append(out, mkImp(mkAnd(prev...), g))
			}
			if quantDepth(a) == 0 {
				prev = append(prev, a)
			}
		}
		return out
	case "=>":
		for _, g := range splitGoal(t.args[1]) {
			out = append(out, mkImp(t.args[0], g))
		}
		return out
	case "forall":
		if ps := splitGoal(t.args[0]); len(ps) > 1 {
			for _, g := range ps {
				out = append(out, mkForall(t.bvs, g))
			}
			return out
		}
	}
	return []*Term{t}
}

func mkAnd(ts ...*Term) *Term {
	var fl []*Term
	for _, t := range ts {
		conjuncts(t, &fl)
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range fl {
		if t == tTrue || seen[t] {
			continue
		}
		if t == tFalse || seen[mkNot(t)] {
			return tFalse
		}
		seen[t] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return rawOp("and", SBool, out...)
}

func mkOr(ts ...*Term) *Term {
	var fl []*Term
	for _, t := range ts {
		if t.op == "or" {
			fl = append(fl, t.args...)
		} else {
			fl = append(fl, t)
		}
	}
	// pairwise resolution on conjunct sets
	for changed := true; changed; {
		changed = false
	outer:
		for i := 0; i < len(fl); i++ {
			for j := i + 1; j < len(fl); j++ {
				if r := mergeDisj(fl[i], fl[j]); r != nil {
					fl[i] = r
					fl = append(fl[:j], fl[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, t := range fl {
		if t == tFalse || seen[t] {
			continue
		}
		if t == tTrue || seen[mkNot(t)] {
			return tTrue
		}
		seen[t] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	// factor common conjuncts
	common := map[*Term]int{}
	sets := make([][]*Term, len(out))
	for i, t := range out {
		conjuncts(t, &sets[i])
		for _, c := range sets[i] {
			common[c]++
		}
	}
	var com []*Term
	for _, c := range sets[0] {
		if common[c] == len(out) {
			com = append(com, c)
		}
	}
	if len(com) > 0 {
		rest := make([]*Term, len(out))
		for i := range out {
			var r []*Term
			for _, c := range sets[i] {
				if common[c] != len(out) {
					r = append(r, c)
				}
			}
			rest[i] = mkAnd(r...)
		}
		return mkAnd(append(com, mkOr(rest...))...)
	}
	return rawOp("or", SBool, out...)
}

// mergeDisj: (p and c) or (p and not c) -> p ; p or (p and q) -> p
func mergeDisj(a, b *Term) *Term {
	if a == b {
		return a
	}
	var ca, cb []*Term
	conjuncts(a, &ca)
	conjuncts(b, &cb)
	sa, sb := map[*Term]bool{}, map[*Term]bool{}
	for _, x := range ca {
		sa[x] = true
	}
	for _, x := range cb {
		sb[x] = true
	}
	var da, db []*Term
	for _, x := range ca {
		if !sb[x] {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !sa[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 {
		return a
	}
	if len(db) == 0 {
		return b
	}
	if len(da) == 1 && len(db) == 1 && mkNot(da[0]) == db[0] {
		var p []*Term
		for _, x := range ca {
			if sb[x] {
				p = append(p, x)
			}
		}
		return mkAnd(p...)
	}
	// (p & c) or (p & not c & q)  -> p & (c or q): only when it shrinks
	return nil
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return rawOp("=>", SBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort != b.sort {
		if a.sort == SReal && b.sort == SInt {
			b = toReal(b)
		} else if a.sort == SInt && b.sort == SReal {
			a = toReal(a)
		} else {
			panic(fmt.Sprintf("ite sorts %s %s", a.sort, b.sort))
		}
	}
	if c.op == "not" {
		return mkIte(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, store(x,i,v), store(x,i,w)) kept; ite(c, store(x,i,v), x) -> store(x,i,ite(c,v,x[i]))
	if a.op == "store" && a.args[0] == b {
		return mkStore(b, a.args[1], mkIte(c, a.args[2], mkSelect(b, a.args[1])))
	}
	if b.op == "store" && b.args[0] == a {
		return mkStore(a, b.args[1], mkIte(c, mkSelect(a, b.args[1]), b.args[2]))
	}
	if a.op == "store" && b.op == "store" && a.args[1] == b.args[1] {
		return mkStore(mkIte(c, a.args[0], b.args[0]), a.args[1], mkIte(c, a.args[2], b.args[2]))
	}
	return rawOp("ite", a.sort, c, a, b)
}

// ---- linear normal form ----
type lin struct {
	c *big.Rat
	m map[*Term]*big.Rat
}

func toLin(t *Term) lin {
	l := lin{new(big.Rat), map[*Term]*big.Rat{}}
	addLin(&l, t, big.NewRat(1, 1))
	return l
}
func addLin(l *lin, t *Term, k *big.Rat) {
	switch {
	case t.isNum():
		l.c.Add(l.c, new(big.Rat).Mul(k, t.num))
	case t.op == "+":
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case t.op == "*" && t.args[0].isNum():
		addLin(l, t.args[1], new(big.Rat).Mul(k, t.args[0].num))
	case t.op == "to_real" && (t.args[0].op == "+" || t.args[0].op == "*" && t.args[0].args[0].isNum()):
		il := toLin(t.args[0])
		l.c.Add(l.c, new(big.Rat).Mul(k, il.c))
		for x, kk := range il.m {
			addLin(l, toReal(x), new(big.Rat).Mul(k, kk))
		}
	default:
		if o, ok := l.m[t]; ok {
			s := new(big.Rat).Add(o, k)
			if s.Sign() == 0 {
				delete(l.m, t)
			} else {
				l.m[t] = s
			}
		} else if k.Sign() != 0 {
			l.m[t] = k
		}
	}
}
func fromLin(l lin, s Sort) *Term {
	ks := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	one := big.NewRat(1, 1)
	for _, t := range ks {
		if l.m[t].Cmp(one) == 0 {
			parts = append(parts, t)
		} else {
			parts = append(parts, rawOp("*", s, mkNum(l.m[t], s), t))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, mkNum(l.c, s))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return rawOp("+", s, parts...)
}
func toReal(t *Term) *Term {
	if t.sort == SReal {
		return t
	}
	if t.op == "int" {
		return mkRat(t.num)
	}
	if t.op == "ite" {
		return mkIte(t.args[0], toReal(t.args[1]), toReal(t.args[2]))
	}
	return rawOp("to_real", SReal, t)
}
func coerce2(a, b *Term) (*Term, *Term) {
	if a.sort == SReal && b.sort == SInt {
		b = toReal(b)
	} else if a.sort == SInt && b.sort == SReal {
		a = toReal(a)
	}
	return a, b
}
func mkAdd(a, b *Term) *Term {
	a, b = coerce2(a, b)
	l := toLin(a)
	addLin(&l, b, big.NewRat(1, 1))
	return fromLin(l, a.sort)
}
func mkSub(a, b *Term) *Term {
	a, b = coerce2(a, b)
	l := toLin(a)
	addLin(&l, b, big.NewRat(-1, 1))
	return fromLin(l, a.sort)
}
func mkNeg(a *Term) *Term { return mkSub(mkNum(new(big.Rat), a.sort), a) }
func mkMul(a, b *Term) *Term {
	a, b = coerce2(a, b)
	if b.isNum() {
		a, b = b, a
	}
	if a.isNum() {
		l := lin{new(big.Rat), map[*Term]*big.Rat{}}
		addLin(&l, b, a.num)
		return fromLin(l, a.sort)
	}
	if b.id < a.id {
		a, b = b, a
	}
	return rawOp("*", a.sort, a, b)
}
func mkRDiv(a, b *Term) *Term {
	a, b = toReal(a), toReal(b)
	if b.isNum() && b.num.Sign() != 0 {
		return mkMul(mkRat(new(big.Rat).Inv(b.num)), a)
	}
	return rawOp("/", SReal, a, b)
}

// Euclidean division (SMT-LIB div / mod)
func mkEDiv(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		q := new(big.Int)
		q.DivMod(a.num.Num(), b.num.Num(), new(big.Int))
		return mkBig(q)
	}
	return rawOp("div", SInt, a, b)
}
func mkEMod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		m := new(big.Int)
		new(big.Int).DivMod(a.num.Num(), b.num.Num(), m)
		return mkBig(m)
	}
	return rawOp("mod", SInt, a, b)
}

// truncated division
func mkTDiv(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.num.Sign() != 0 {
		return mkBig(new(big.Int).Quo(a.num.Num(), b.num.Num()))
	}
	z := mkInt(0)
	return mkIte(mkGe(a, z), mkEDiv(a, b), mkNeg(mkEDiv(mkNeg(a), b)))
}
func mkTMod(a, b *Term) *Term { return mkSub(a, mkMul(b, mkTDiv(a, b))) }
func mkFloor(r *Term) *Term {
	if r.op == "real" {
		q := new(big.Int)
		q.DivMod(r.num.Num(), r.num.Denom(), new(big.Int))
		return mkBig(q)
	}
	if r.sort == SInt {
		return r
	}
	if i := intValued(r); i != nil {
		return i
	}
	return rawOp("to_int", SInt, r)
}

// intValued returns the integer term equal to the real term r, or nil.
func intValued(r *Term) *Term {
	switch r.op {
	case "to_real":
		return r.args[0]
	case "real":
		if r.num.IsInt() {
			return mkBig(r.num.Num())
		}
	case "ite":
		a := intValued(r.args[1])
		if a == nil {
			return nil
		}
		b := intValued(r.args[2])
		if b == nil {
			return nil
		}
		return mkIte(r.args[0], a, b)
	case "+", "*":
		l := toLin(r)
		if len(l.m) == 1 && l.m[r] != nil || !l.c.IsInt() {
			return nil
		}
		out := mkBig(l.c.Num())
		for _, t := range linKeys(l) {
			k := l.m[t]
			if !k.IsInt() {
				return nil
			}
			i := intValued(t)
			if i == nil {
				return nil
			}
			out = mkAdd(out, mkMul(mkBig(k.Num()), i))
		}
		return out
	}
	return nil
}

func linKeys(l lin) []*Term {
	var ks []*Term
	for t := range l.m {
		ks = append(ks, t)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// truncation toward zero of a real
func mkTrunc(r *Term) *Term {
	if r.sort == SInt {
		return r
	}
	return mkIte(mkGe(r, mkRat(new(big.Rat))), mkFloor(r), mkNeg(mkFloor(mkNeg(r))))
}

func mkCmp(op string, a, b *Term) *Term { // op in <, <=
	a, b = coerce2(a, b)
	l := toLin(a)
	addLin(&l, b, big.NewRat(-1, 1))
	if len(l.m) == 0 {
		s := l.c.Sign()
		if op == "<" {
			return mkBool(s < 0)
		}
		return mkBool(s <= 0)
	}
	if a.sort == SInt && op == "<" {
		// a < b  <=> a <= b-1 : normalise negation  not(a<=b) = b < a
		return mkNot(mkCmp("<=", b, a))
	}
	if a.sort == SReal && op == "<" {
		return mkNot(mkCmp("<=", b, a))
	}
	// keep a <= b but normalised: put terms with positive coeff left
	pos := lin{new(big.Rat), map[*Term]*big.Rat{}}
	neg := lin{new(big.Rat), map[*Term]*big.Rat{}}
	for t, k := range l.m {
		if k.Sign() > 0 {
			pos.m[t] = k
		} else {
			neg.m[t] = new(big.Rat).Neg(k)
		}
	}
	neg.c = new(big.Rat).Neg(l.c)
	return rawOp("<=", SBool, fromLin(pos, a.sort), fromLin(neg, a.sort))
}
func mkLt(a, b *Term) *Term { return mkCmp("<", a, b) }
func mkLe(a, b *Term) *Term { return mkCmp("<=", a, b) }
func mkGt(a, b *Term) *Term { return mkCmp("<", b, a) }
func mkGe(a, b *Term) *Term { return mkCmp("<=", b, a) }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		a, b = coerce2(a, b)
		if a.sort != b.sort {
			panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.sort, b.sort, a.short(), b.short()))
		}
		if a == b {
			return tTrue
		}
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
		if mkNot(a) == b {
			return tFalse
		}
	}
	if a.sort == SStr && a.op == "str" && b.op == "str" {
		return mkBool(a.name == b.name)
	}
	if a.sort == SInt || a.sort == SReal {
		l := toLin(a)
		addLin(&l, b, big.NewRat(-1, 1))
		if len(l.m) == 0 {
			return mkBool(l.c.Sign() == 0)
		}
		if knownNonzero(l) {
			return tFalse
		}
	}
	// ite with constant branches
	if b.op == "ite" && a.isConst() {
		a, b = b, a
	}
	if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawOp("=", SBool, a, b)
}

// allocation reasoning: refKind records symbols that are allocation bases
// (every pre-existing reference is strictly below its base).
var allocBase = map[*Term]int{} // base symbol -> order

// oldRef reports terms known to be < A0 (function parameters and such).
var oldRef = map[*Term]bool{}
var rootHeap = map[*Term]bool{} // initial heap arrays

func isOldRef(t *Term) bool {
	if oldRef[t] {
		return true
	}
	if t.sort != SInt || t.op != "select" {
		return false
	}
	a := t.args[0]
	if a.op == "select" {
		a = a.args[0]
	}
	return rootHeap[a]
}

var baseA0 *Term

// knownNonzero recognises base+k (k>0) compared with an old reference or with
// a constant, and differences of the same base.
func knownNonzero(l lin) bool {
	if len(l.m) == 1 {
		for t, k := range l.m {
			if _, ok := allocBase[t]; ok {
				// base + c = 0 : bases are > 0
				if k.Sign() > 0 && l.c.Sign() >= 0 || k.Sign() < 0 && l.c.Sign() <= 0 {
					return true
				}
			}
		}
	}
	if len(l.m) == 2 && baseA0 != nil {
		var base, old *Term
		var kb, ko *big.Rat
		for t, k := range l.m {
			if _, ok := allocBase[t]; ok && base == nil {
				base, kb = t, k
			} else if isOldRef(t) {
				old, ko = t, k
			}
		}
		if base != nil && old != nil {
			one := big.NewRat(1, 1)
			if kb.Cmp(one) == 0 && ko.Cmp(new(big.Rat).Neg(one)) == 0 && l.c.Sign() >= 0 {
				return true
			}
			if ko.Cmp(one) == 0 && kb.Cmp(new(big.Rat).Neg(one)) == 0 && l.c.Sign() <= 0 {
				return true
			}
		}
	}
	return false
}

func defEq(a, b *Term) int { // 1 equal, -1 different, 0 unknown
	if a == b {
		return 1
	}
	if e := mkEq(a, b); e == tTrue {
		return 1
	} else if e == tFalse {
		return -1
	}
	return 0
}

func mkSelect(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			switch defEq(a.args[1], i) {
			case 1:
				return a.args[2]
			case -1:
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			if a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr" || a.args[2].op == "constarr" {
				x, y := mkSelect(a.args[1], i), mkSelect(a.args[2], i)
				if x == y {
					return x
				}
				if !(x.op == "select" && x.args[0].op == "store") && !(y.op == "select" && y.args[0].op == "store") {
					return mkIte(a.args[0], x, y)
				}
			}
		}
		break
	}
	return rawOp("select", arrElem(a.sort), a, i)
}
func mkStore(a, i, v *Term) *Term {
	if e := arrElem(a.sort); e != v.sort {
		if e == SReal && v.sort == SInt {
			v = toReal(v)
		} else {
			panic(fmt.Sprintf("store sort: %s <- %s", a.sort, v.sort))
		}
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return rawOp("store", a.sort, a, i, v)
}
func mkConstArr(s Sort, v *Term) *Term { return rawOp("constarr", s, v) }

func mkForall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return intern(&Term{op: "forall", sort: SBool, args: []*Term{body}, bvs: bvs, pats: pats})
}
func mkExists(bvs []*Term, body *Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	return intern(&Term{op: "exists", sort: SBool, args: []*Term{body}, bvs: bvs})
}

// substitute replaces terms (symbols or bounds) by others.
func subst(t *Term, m map[*Term]*Term) *Term { return substC(t, m, map[*Term]*Term{}) }
func substC(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substC(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.op {
		case "forall", "exists":
			pats := make([][]*Term, len(t.pats))
			for i, p := range t.pats {
				for _, x := range p {
					pats[i] = append(pats[i], substC(x, m, memo))
				}
			}
			if args[0] == tTrue || args[0] == tFalse {
				r = args[0]
			} else {
				r = intern(&Term{op: t.op, sort: SBool, args: args, bvs: t.bvs, pats: pats})
			}
		default:
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "and":
		return mkAnd(a...)
	case "or":
		return mkOr(a...)
	case "not":
		return mkNot(a[0])
	case "=>":
		return mkImp(a[0], a[1])
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "=":
		return mkEq(a[0], a[1])
	case "<=":
		return mkLe(a[0], a[1])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = mkAdd(r, x)
		}
		return r
	case "*":
		return mkMul(a[0], a[1])
	case "select":
		return mkSelect(a[0], a[1])
	case "store":
		return mkStore(a[0], a[1], a[2])
	case "to_real":
		return toReal(a[0])
	case "to_int":
		return mkFloor(a[0])
	case "div":
		return mkEDiv(a[0], a[1])
	case "mod":
		return mkEMod(a[0], a[1])
	case "/":
		return mkRDiv(a[0], a[1])
	}
	return intern(&Term{op: t.op, name: t.name, sort: t.sort, args: a, bvs: t.bvs, pats: t.pats})
}

// symbols returns the set of free symbols (and function names as pseudo syms).
func (t *Term) symbols() map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == "sym" {
			out[x] = true
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
	return out
}

func (t *Term) short() string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (t *Term) String() string {
	switch t.op {
	case "int":
		return smtInt(t.num.Num())
	case "real":
		return smtReal(t.num)
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "true", "false":
		return t.op
	case "sym", "bound":
		return t.name
	}
	var b strings.Builder
	b.WriteByte('(')
	if t.op == "app" {
		b.WriteString(t.name)
	} else {
		b.WriteString(t.op)
	}
	for _, v := range t.bvs {
		b.WriteString(" [" + v.name + "]")
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		if b.Len() > 2000 {
			b.WriteString("...")
			break
		}
		b.WriteString(a.String())
	}
	b.WriteByte(')')
	return b.String()
}
func smtInt(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func smtReal(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}
