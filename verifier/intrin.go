package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

type intrinsic func(x *Exec, st *State, a []Val, sig *types.Signature) Val

var intrinsics = map[string]intrinsic{}

var bigIntT types.Type // *types.Named math/big.Int (set at load)
var bigRatT, bigFloatT types.Type

func (x *Exec) bigVal(st *State, v Val) *Term {
	l := v.(*Loc)
	x.nonNil(st, l)
	return x.load(st, l).(*Term)
}
func (x *Exec) setBig(st *State, v Val, t *Term) Val {
	l := v.(*Loc)
	x.nonNil(st, l)
	x.store(st, l, t)
	return v
}
func (x *Exec) newBig(st *State, t *Term) Val {
	l := &Loc{kind: 'o', base: "math/big.Int", T: bigIntT, ref: x.alloc(st)}
	x.store(st, l, t)
	return l
}
func sgn(t *Term) *Term {
	z := zeroLeaf(t.sort)
	return mkIte(mkLt(t, z), mkInt(-1), mkIte(mkEq(t, z), mkInt(0), mkInt(1)))
}
func cmp3(a, b *Term) *Term {
	return mkIte(mkLt(a, b), mkInt(-1), mkIte(mkEq(a, b), mkInt(0), mkInt(1)))
}
func roundHalfAway(r *Term) *Term { // to Int
	half := mkRat(ratOf("1/2"))
	return mkIte(mkGe(r, zeroLeaf(SReal)), mkFloor(mkAdd(r, half)), mkNeg(mkFloor(mkAdd(mkNeg(r), half))))
}

// decimal rounding to p places, exact on reals
func pow10(n int64) *big.Rat {
	r := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(abs64(n)), nil))
	if n < 0 {
		r.Inv(r)
	}
	return r
}
func abs64(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func decRound(d, places *Term) *Term {
	if places.op == "int" {
		p := places.num.Num().Int64()
		if p == 0 {
			return toReal(roundHalfAway(d))
		}
		return mkMul(mkRat(pow10(-p)), toReal(roundHalfAway(mkMul(mkRat(pow10(p)), d))))
	}
	return mkApp("dec_round", SReal, d, places)
}

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

func errVal(x *Exec, st *State, name string) *IfaceV {
	t := tagOf(types.NewPointer(errStringT))
	p := x.alloc(st)
	return &IfaceV{tag: t, pay: p}
}

var errStringT types.Type = types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil)

func init() {
	I := func(n string, f intrinsic) { intrinsics[n] = f }
	B := func(n string, f intrinsic) { intrinsics["(*math/big.Int)."+n] = f }
	bin := func(op func(a, b *Term) *Term) intrinsic {
		return func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
			return x.setBig(st, a[0], op(x.bigVal(st, a[1]), x.bigVal(st, a[2])))
		}
	}
	B("Add", bin(mkAdd))
	B("Sub", bin(mkSub))
	B("Mul", bin(mkMul))
	divfact := func(op func(a, b *Term) *Term) intrinsic {
		return func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
			d := x.bigVal(st, a[2])
			x.fact(st, mkNot(mkEq(d, mkInt(0))))
			return x.setBig(st, a[0], op(x.bigVal(st, a[1]), d))
		}
	}
	B("Div", divfact(mkEDiv))
	B("Mod", divfact(mkEMod))
	B("Quo", divfact(mkTDiv))
	B("Rem", divfact(mkTMod))
	B("DivMod", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		n, d := x.bigVal(st, a[1]), x.bigVal(st, a[2])
		x.fact(st, mkNot(mkEq(d, mkInt(0))))
		x.setBig(st, a[0], mkEDiv(n, d))
		x.setBig(st, a[3], mkEMod(n, d))
		return TupleV{a[0], a[3]}
	})
	B("QuoRem", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		n, d := x.bigVal(st, a[1]), x.bigVal(st, a[2])
		x.fact(st, mkNot(mkEq(d, mkInt(0))))
		x.setBig(st, a[0], mkTDiv(n, d))
		x.setBig(st, a[3], mkTMod(n, d))
		return TupleV{a[0], a[3]}
	})
	B("Neg", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return x.setBig(st, a[0], mkNeg(x.bigVal(st, a[1])))
	})
	B("Abs", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		v := x.bigVal(st, a[1])
		return x.setBig(st, a[0], mkIte(mkGe(v, mkInt(0)), v, mkNeg(v)))
	})
	B("Set", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return x.setBig(st, a[0], x.bigVal(st, a[1]))
	})
	B("SetInt64", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return x.setBig(st, a[0], a[1].(*Term))
	})
	B("SetUint64", intrinsics["(*math/big.Int).SetInt64"])
	B("Cmp", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return cmp3(x.bigVal(st, a[0]), x.bigVal(st, a[1]))
	})
	B("CmpAbs", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		ab := func(v *Term) *Term { return mkIte(mkGe(v, mkInt(0)), v, mkNeg(v)) }
		return cmp3(ab(x.bigVal(st, a[0])), ab(x.bigVal(st, a[1])))
	})
	B("Sign", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return sgn(x.bigVal(st, a[0])) })
	B("IsInt64", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		v := x.bigVal(st, a[0])
		return mkAnd(mkLe(mkBig(new(big.Int).Neg(two63)), v), mkLt(v, mkBig(two63)))
	})
	B("Int64", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		v := x.bigVal(st, a[0])
		in := mkAnd(mkLe(mkBig(new(big.Int).Neg(two63)), v), mkLt(v, mkBig(two63)))
		return mkIte(in, v, mkApp("wrap64", SInt, v))
	})
	B("Uint64", intrinsics["(*math/big.Int).Int64"])
	B("String", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		l := a[0].(*Loc)
		v := x.load(st, l).(*Term)
		return bigToStr(v)
	})
	B("Text", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("int_text", SStr, x.bigVal(st, a[0]), a[1].(*Term))
	})
	B("SetString", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s := a[1].(*Term)
		ok := mkApp("str_isint", SBool, s, a[2].(*Term))
		v := mkApp("str_toint", SInt, s, a[2].(*Term))
		l := a[0].(*Loc)
		if s.op == "app" && s.name == "int_str" {
			v, ok = s.args[0], tTrue
		}
		if s.op == "app" && s.name == "dec_str" {
			v = mkFloor(s.args[0])
			ok = mkEq(toReal(v), s.args[0])
		}
		if s.op == "str" {
			if n, k := new(big.Int).SetString(s.name, 10); k {
				v, ok = mkBig(n), tTrue
			}
		}
		x.store(st, l, mkIte(ok, v, mkApp("bad_int", SInt, s)))
		return TupleV{&Loc{kind: 'o', base: l.base, T: l.T, ref: mkIte(ok, l.ref, mkInt(0))}, ok}
	})
	I("math/big.NewInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return x.newBig(st, a[0].(*Term)) })

	// big.Rat / big.Float (exact for Rat; Float approximated as exact real where stated)
	R := func(n string, f intrinsic) { intrinsics["(*math/big.Rat)."+n] = f }
	rv := func(x *Exec, st *State, v Val) *Term { x.nonNil(st, v.(*Loc)); return x.load(st, v.(*Loc)).(*Term) }
	rs := func(x *Exec, st *State, v Val, t *Term) Val {
		x.nonNil(st, v.(*Loc))
		x.store(st, v.(*Loc), t)
		return v
	}
	R("SetInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return rs(x, st, a[0], toReal(x.bigVal(st, a[1])))
	})
	R("SetFloat64", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return rs(x, st, a[0], mkApp("f2binary", SReal, a[1].(*Term)))
	})
	R("SetFrac", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return rs(x, st, a[0], mkRDiv(toReal(x.bigVal(st, a[1])), toReal(x.bigVal(st, a[2]))))
	})
	R("Mul", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return rs(x, st, a[0], mkMul(rv(x, st, a[1]), rv(x, st, a[2])))
	})
	R("Quo", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return rs(x, st, a[0], mkRDiv(rv(x, st, a[1]), rv(x, st, a[2])))
	})
	R("Cmp", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return cmp3(rv(x, st, a[0]), rv(x, st, a[1]))
	})

	// ---- decimal ----
	D := func(n string, f intrinsic) { intrinsics["(github.com/shopspring/decimal.Decimal)."+n] = f }
	P := func(n string, f intrinsic) { intrinsics["github.com/shopspring/decimal."+n] = f }
	T := func(v Val) *Term { return v.(*Term) }
	dbin := func(op func(a, b *Term) *Term) intrinsic {
		return func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return op(T(a[0]), T(a[1])) }
	}
	D("Add", dbin(mkAdd))
	D("Sub", dbin(mkSub))
	D("Mul", dbin(mkMul))
	D("Neg", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkNeg(T(a[0])) })
	D("Abs", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkIte(mkGe(T(a[0]), zeroLeaf(SReal)), T(a[0]), mkNeg(T(a[0])))
	})
	D("Div", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		x.fact(st, mkNot(mkEq(T(a[1]), zeroLeaf(SReal))))
		d := T(a[1])
		if d.isNum() && isPow10(d.num) {
			// exact division by a power of ten up to 16 places: rounded to 16 digits
			q := mkRDiv(T(a[0]), d)
			return mkApp("dec_div16", SReal, q)
		}
		return mkApp("dec_div16", SReal, mkRDiv(T(a[0]), d))
	})
	q := mkBound("q", SReal)
	dv := mkApp("dec_div16", SReal, q)
	eps := mkRat(new(big.Rat).Mul(ratOf("1/2"), pow10(-16)))
	fq := mkApp("d2f", SReal, q)
	aq := mkIte(mkLe(mkRat(new(big.Rat)), q), q, mkNeg(q))
	rel := mkMul(mkRat(ratOf("1/8000000000000000")), aq)
	fnAxioms["d2f"] = []*Term{mkForall([]*Term{q}, mkAnd(mkLe(mkSub(fq, q), rel), mkLe(mkSub(q, fq), rel)), []*Term{fq})}
	fnAxioms["dec_div16"] = []*Term{mkForall([]*Term{q}, mkAnd(mkLe(mkSub(dv, q), eps), mkLe(mkSub(q, dv), eps)), []*Term{dv})}
	D("Cmp", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return cmp3(T(a[0]), T(a[1])) })
	for n, f := range map[string]func(a, b *Term) *Term{"Equal": mkEq, "GreaterThan": mkGt, "GreaterThanOrEqual": mkGe, "LessThan": mkLt, "LessThanOrEqual": mkLe} {
		D(n, dbin(f))
	}
	D("Sign", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return sgn(T(a[0])) })
	D("IsZero", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkEq(T(a[0]), zeroLeaf(SReal)) })
	D("IsPositive", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkGt(T(a[0]), zeroLeaf(SReal)) })
	D("IsNegative", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkLt(T(a[0]), zeroLeaf(SReal)) })
	D("Round", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return decRound(T(a[0]), T(a[1])) })
	D("Floor", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return toReal(mkFloor(T(a[0]))) })
	D("Ceil", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return toReal(mkNeg(mkFloor(mkNeg(T(a[0])))))
	})
	D("Truncate", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		p := T(a[1])
		if p.op == "int" {
			n := p.num.Num().Int64()
			if n == 0 {
				return toReal(mkTrunc(T(a[0])))
			}
			return mkMul(mkRat(pow10(-n)), toReal(mkTrunc(mkMul(mkRat(pow10(n)), T(a[0])))))
		}
		return mkApp("dec_trunc", SReal, T(a[0]), p)
	})
	D("RoundBank", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("dec_bank", SReal, T(a[0]), T(a[1]))
	})
	D("RoundFloor", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		if p := T(a[1]); p.op == "int" {
			n := p.num.Num().Int64()
			return mkMul(mkRat(pow10(-n)), toReal(mkFloor(mkMul(mkRat(pow10(n)), T(a[0])))))
		}
		return mkApp("dec_floor", SReal, T(a[0]), T(a[1]))
	})
	D("RoundCeil", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("dec_ceil", SReal, T(a[0]), T(a[1]))
	})
	D("IntPart", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		t := mkTrunc(T(a[0]))
		in := mkAnd(mkLe(mkBig(new(big.Int).Neg(two63)), t), mkLt(t, mkBig(two63)))
		return mkIte(in, t, mkApp("wrap64", SInt, t))
	})
	D("BigInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return x.newBig(st, mkTrunc(T(a[0]))) })
	D("String", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("dec_str", SStr, T(a[0])) })
	D("InexactFloat64", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("d2f", SReal, T(a[0])) })
	D("Float64", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return TupleV{mkApp("d2f", SReal, T(a[0])), freshSym("exact", SBool)}
	})
	P("NewFromFloat", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return T(a[0]) })
	P("NewFromInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return toReal(T(a[0])) })
	P("NewFromInt32", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return toReal(T(a[0])) })
	P("NewFromBigInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		v := toReal(x.bigVal(st, a[0]))
		e := T(a[1])
		if e.op == "int" {
			return mkMul(mkRat(pow10(e.num.Num().Int64())), v)
		}
		return mkApp("dec_exp", SReal, v, e)
	})
	P("New", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		e := T(a[1])
		if e.op == "int" {
			return mkMul(mkRat(pow10(e.num.Num().Int64())), toReal(T(a[0])))
		}
		return mkApp("dec_exp", SReal, toReal(T(a[0])), e)
	})
	P("NewFromString", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s := T(a[0])
		if s.op == "app" && s.name == "int_str" {
			return TupleV{toReal(s.args[0]), &IfaceV{tag: mkInt(0), pay: mkInt(0)}}
		}
		if s.op == "app" && s.name == "dec_str" {
			return TupleV{s.args[0], &IfaceV{tag: mkInt(0), pay: mkInt(0)}}
		}
		if s.op == "app" && s.name == "float_str" && s.args[1] == mkInt('f') && s.args[2].op == "int" {
			nilE := &IfaceV{tag: mkInt(0), pay: mkInt(0)}
			switch p := s.args[2].num.Num().Int64(); {
			case p == -1:
				return TupleV{s.args[0], nilE}
			default: // rounded to p places (half to even on the binary value): only the distance is known
				r := mkApp("float_round", SReal, s.args[0], s.args[2])
				h := mkRat(new(big.Rat).Mul(ratOf("1/2"), pow10(-p)))
				x.fact(st, mkAnd(mkLe(mkSub(r, s.args[0]), h), mkLe(mkSub(s.args[0], r), h)))
				if p == 0 {
					x.fact(st, mkEq(toReal(mkFloor(r)), r))
				}
				return TupleV{r, nilE}
			}
		}
		ok := mkApp("str_isdec", SBool, s)
		e := errVal(x, st, "dec")
		return TupleV{mkIte(ok, mkApp("str_todec", SReal, s), zeroLeaf(SReal)), mergeVal(ok, &IfaceV{tag: mkInt(0), pay: mkInt(0)}, e)}
	})
	P("RequireFromString", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("str_todec", SReal, T(a[0])) })
	P("Min", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("dec_min", SReal, T(a[0])) })

	// ---- errors / fmt ----
	nonNilErr := func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return errVal(x, st, "err") }
	I("errors.New", nonNilErr)
	I("fmt.Errorf", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		e := errVal(x, st, "errorf")
		// remember wrapped errors (%w) for errors.Is: all error arguments
		return e
	})
	I("errors.Is", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		e, t := a[0].(*IfaceV), a[1].(*IfaceV)
		eq := mkAnd(mkEq(e.tag, t.tag), mkEq(e.pay, t.pay))
		return mkOr(eq, mkAnd(mkNot(mkEq(e.tag, mkInt(0))), mkApp("errIs", SBool, e.tag, e.pay, t.tag, t.pay)))
	})
	I("errors.As", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		r := freshSym("errAs", SBool)
		e := a[0].(*IfaceV)
		x.fact(st, mkImp(mkEq(e.tag, mkInt(0)), mkNot(r)))
		if iv, ok := a[1].(*IfaceV); ok && iv.dyn != nil {
			if l, ok := iv.dyn.(*Loc); ok {
				// target type known: match on dynamic type
				x.fact(st, mkImp(mkEq(e.tag, tagOf(l.T)), r))
				nv := x.freshVal(st, l.T, "asval")
				if _, isPtr := l.T.Underlying().(*types.Pointer); isPtr {
					x.fact(st, mkImp(mkEq(e.tag, tagOf(l.T)), mkEq(asTerm(nv), e.pay)))
				}
				x.store(st, l, mergeVal(r, nv, x.load(st, l)))
			}
		}
		return r
	})
	I("errors.Join", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return x.freshVal(st, errorT, "joined") })
	I("fmt.Sprintf", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return x.sprintf(st, a) })
	I("fmt.Sprint", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return freshSym("sprint", SStr) })
	I("(error).Error", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		e := a[0].(*IfaceV)
		return mkApp("err_msg", SStr, e.tag, e.pay)
	})

	// ---- strings ----
	S := func(n string, f intrinsic) { intrinsics["strings."+n] = f }
	S("HasPrefix", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return strPrefix(T(a[1]), T(a[0])) })
	S("HasSuffix", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s, p := T(a[0]), T(a[1])
		if s.op == "str" && p.op == "str" {
			return mkBool(strings.HasSuffix(s.name, p.name))
		}
		return mkApp("str_suffixof", SBool, p, s)
	})
	S("Contains", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s, p := T(a[0]), T(a[1])
		if s.op == "str" && p.op == "str" {
			return mkBool(strings.Contains(s.name, p.name))
		}
		return mkApp("str_contains", SBool, s, p)
	})
	uf1 := func(name string, g func(string) string) intrinsic {
		return func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
			s := T(a[0])
			if s.op == "str" {
				return mkStr(g(s.name))
			}
			if s.op == "ite" && s.args[1].op == "str" && s.args[2].op == "str" {
				return mkIte(s.args[0], mkStr(g(s.args[1].name)), mkStr(g(s.args[2].name)))
			}
			return mkApp(name, SStr, s)
		}
	}
	S("ToLower", uf1("str_lower", strings.ToLower))
	S("ToUpper", uf1("str_upper", strings.ToUpper))
	S("TrimSpace", uf1("str_trim", strings.TrimSpace))
	S("EqualFold", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkEq(mkApp("str_fold", SStr, T(a[0])), mkApp("str_fold", SStr, T(a[1])))
	})
	uf := func(name string, s Sort, n int, cf func(a []string) (string, bool)) intrinsic {
		return func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
			var ts []*Term
			allc := true
			var cs []string
			for i := 0; i < n; i++ {
				t := T(a[i])
				ts = append(ts, t)
				if t.op != "str" {
					allc = false
				} else {
					cs = append(cs, t.name)
				}
			}
			if allc && cf != nil {
				if r, ok := cf(cs); ok {
					return mkStr(r)
				}
			}
			return mkApp(name, s, ts...)
		}
	}
	S("TrimPrefix", uf("str_trimprefix", SStr, 2, func(a []string) (string, bool) { return strings.TrimPrefix(a[0], a[1]), true }))
	S("TrimSuffix", uf("str_trimsuffix", SStr, 2, func(a []string) (string, bool) { return strings.TrimSuffix(a[0], a[1]), true }))
	S("Trim", uf("str_trimset", SStr, 2, func(a []string) (string, bool) { return strings.Trim(a[0], a[1]), true }))
	S("ReplaceAll", uf("str_replace_all", SStr, 3, func(a []string) (string, bool) { return strings.ReplaceAll(a[0], a[1], a[2]), true }))
	S("Index", uf("str_index", SInt, 2, nil))
	S("LastIndex", uf("str_lastindex", SInt, 2, nil))
	S("IndexByte", uf("str_indexb", SInt, 2, nil))
	S("Count", uf("str_count", SInt, 2, nil))
	S("Repeat", uf("str_repeat", SStr, 2, nil))
	S("Split", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		return x.strSplit(st, T(a[0]), T(a[1]), nil, sig)
	})
	S("SplitN", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		return x.strSplit(st, T(a[0]), T(a[1]), T(a[2]), sig)
	})
	S("Join", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		s := a[0].(*SliceV)
		sep := T(a[1])
		row := x.elemRow(st, s)
		if s.ln.op == "int" && s.ln.num.Num().Int64() <= 12 {
			n := s.ln.num.Num().Int64()
			r := mkStr("")
			for i := int64(0); i < n; i++ {
				if i > 0 {
					r = strCat(r, sep)
				}
				r = strCat(r, mkSelect(row, mkAdd(s.off, mkInt(i))))
			}
			return r
		}
		return mkApp("str_join", SStr, row, s.off, s.ln, sep)
	})
	S("Compare", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		l := strLt(T(a[0]), T(a[1]))
		return mkIte(l, mkInt(-1), mkIte(mkEq(T(a[0]), T(a[1])), mkInt(0), mkInt(1)))
	})
	I("strconv.Itoa", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return intToStr(T(a[0])) })
	I("strconv.FormatInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		if b := T(a[1]); b.op == "int" && b.num.Num().Int64() == 10 {
			return intToStr(T(a[0]))
		}
		return mkApp("int_text", SStr, T(a[0]), T(a[1]))
	})
	I("strconv.FormatFloat", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("float_str", SStr, T(a[0]), T(a[1]), T(a[2]), T(a[3]))
	})
	I("strconv.ParseFloat", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s := T(a[0])
		ok := mkApp("str_isfloat", SBool, s)
		return TupleV{mkApp("str_tofloat", SReal, s), mergeVal(ok, &IfaceV{tag: mkInt(0), pay: mkInt(0)}, errVal(x, st, "pf"))}
	})
	I("strconv.ParseInt", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s := T(a[0])
		ok := mkApp("str_isint64", SBool, s)
		return TupleV{mkApp("str_toint", SInt, s, T(a[1])), mergeVal(ok, &IfaceV{tag: mkInt(0), pay: mkInt(0)}, errVal(x, st, "pi"))}
	})
	I("strconv.Atoi", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		s := T(a[0])
		ok := mkApp("str_isint64", SBool, s)
		return TupleV{mkApp("str_toint", SInt, s, mkInt(10)), mergeVal(ok, &IfaceV{tag: mkInt(0), pay: mkInt(0)}, errVal(x, st, "pi"))}
	})

	// ---- time ----
	I("time.Now", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		t := freshSym("now", SInt)
		symAxioms[t] = []*Term{mkLt(mkInt(0), t)}
		return t
	})
	tm := func(n string, f intrinsic) { intrinsics["(time.Time)."+n] = f }
	tm("IsZero", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkEq(T(a[0]), mkInt(0)) })
	tm("Before", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkLt(T(a[0]), T(a[1])) })
	tm("After", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkGt(T(a[0]), T(a[1])) })
	tm("Equal", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkEq(T(a[0]), T(a[1])) })
	tm("Compare", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return cmp3(T(a[0]), T(a[1])) })
	tm("Sub", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkSub(T(a[0]), T(a[1])) })
	tm("Add", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkAdd(T(a[0]), T(a[1])) })
	ident := func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return a[0] }
	tm("UTC", ident)
	tm("Local", ident)
	tm("In", ident)
	tm("Round", ident)
	tm("Truncate", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("time_trunc", SInt, T(a[0]), T(a[1]))
	})
	tm("Unix", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("time_unix", SInt, T(a[0])) })
	tm("UnixNano", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("time_unixnano", SInt, T(a[0]))
	})
	tm("Format", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkApp("time_fmt", SStr, T(a[0]), T(a[1]))
	})
	I("time.Since", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkSub(freshSym("now", SInt), T(a[0]))
	})
	I("(time.Duration).Hours", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("dur_hours", SReal, T(a[0])) })
	I("(time.Duration).Minutes", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return mkApp("dur_min", SReal, T(a[0])) })
	I("(time.Duration).Seconds", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkMul(mkRat(pow10(-9)), toReal(T(a[0])))
	})
	I("math.Abs", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkIte(mkGe(T(a[0]), zeroLeaf(SReal)), T(a[0]), mkNeg(T(a[0])))
	})
	I("math.Floor", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return toReal(mkFloor(T(a[0]))) })
	I("math.Round", func(x *Exec, st *State, a []Val, _ *types.Signature) Val { return toReal(roundHalfAway(T(a[0]))) })
	I("math.Ceil", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return toReal(mkNeg(mkFloor(mkNeg(T(a[0])))))
	})
	I("math.Max", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkIte(mkGe(T(a[0]), T(a[1])), T(a[0]), T(a[1]))
	})
	I("math.Min", func(x *Exec, st *State, a []Val, _ *types.Signature) Val {
		return mkIte(mkLe(T(a[0]), T(a[1])), T(a[0]), T(a[1]))
	})

	// ---- context ----
	ctxSame := func(x *Exec, st *State, a []Val, sig *types.Signature) Val { return a[0] }
	I("context.WithValue", ctxSame)
	ctx2 := func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		return TupleV{a[0], x.freshVal(st, sig.Results().At(1).Type(), "cancel")}
	}
	I("context.WithTimeout", ctx2)
	I("context.WithCancel", ctx2)
	I("(context.Context).Err", func(x *Exec, st *State, a []Val, sig *types.Signature) Val { return x.freshVal(st, errorT, "ctxerr") })
	I("dyn.cancel", func(x *Exec, st *State, a []Val, sig *types.Signature) Val { return TupleV{} })

	I("sort.Strings", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		x.sortStrings(st, a[0].(*SliceV))
		return TupleV{}
	})
	I("slices.Sort", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		s := a[0].(*SliceV)
		if b, ok := s.elem.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x.sortStrings(st, s)
		} else {
			x.sortAbstract(st, s, nil)
		}
		return TupleV{}
	})
	I("sort.Slice", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		iv := a[0].(*IfaceV)
		if s, ok := iv.dyn.(*SliceV); ok {
			var f *FuncV
			if g, ok := a[1].(*FuncV); ok && g.fn != nil {
				f = g
			}
			x.sortAbstract(st, s, f)
		} else {
			x.note("sort.Slice on unknown slice")
		}
		return TupleV{}
	})
	I("sort.SliceStable", intrinsics["sort.Slice"])
	I("slices.Reverse", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		s := a[0].(*SliceV)
		for _, lf := range leavesOf(s.elem) {
			k, srt := x.locKey(&Loc{kind: 'e', base: typeKey(s.elem), T: s.elem}, lf)
			h := x.hget(st, k, srt)
			old := mkSelect(h, s.arr)
			nr := freshSym("revrow", arrElem(srt))
			i := mkBound("i", SInt)
			sel := rawOp("select", lf.sort, nr, i)
			in := mkAnd(mkLe(s.off, i), mkLt(i, mkAdd(s.off, s.ln)))
			x.fact(st, mkForall([]*Term{i}, mkEq(sel, mkIte(in, mkSelect(old, mkSub(mkAdd(mkAdd(s.off, s.off), mkSub(s.ln, mkInt(1))), i)), mkSelect(old, i))), []*Term{sel}))
			x.hset(st, k, mkStore(h, s.arr, nr))
			x.logWrite(k, s.arr, nil)
		}
		return TupleV{}
	})
	I("slices.Contains", func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
		s := a[0].(*SliceV)
		i := mkBound("i", SInt)
		e := x.load(st, &Loc{kind: 'e', base: typeKey(s.elem), T: s.elem, ref: s.arr, idx: mkAdd(s.off, i)})
		return mkExists([]*Term{i}, mkAnd(mkLe(mkInt(0), i), mkLt(i, s.ln), x.valEq(st, e, a[1])))
	})
}

var errorT types.Type = types.Universe.Lookup("error").Type()

func isPow10(r *big.Rat) bool {
	if !r.IsInt() {
		return false
	}
	s := r.Num().String()
	return strings.TrimRight(s, "0") == "1"
}

func bigToStr(v *Term) *Term { return intToStr(v) }
func intToStr(v *Term) *Term {
	if v.op == "int" {
		return mkStr(v.num.Num().String())
	}
	if _, ok := fnAxioms["int_str"]; !ok {
		b := mkBound("n", SInt)
		s := mkApp("int_str", SStr, b)
		fnAxioms["int_str"] = []*Term{mkForall([]*Term{b}, mkEq(mkApp("str_toint10", SInt, s), b), []*Term{s})}
	}
	return mkApp("int_str", SStr, v)
}

func strPrefix(p, s *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return mkBool(strings.HasPrefix(s.name, p.name))
	}
	if p.op == "str" && p.name == "" {
		return tTrue
	}
	if p.op == "str" && s.op == "app" && s.name == "str_cat" && s.args[0].op == "str" {
		h := s.args[0].name
		if strings.HasPrefix(h, p.name) {
			return tTrue
		}
		if len(h) >= len(p.name) || !strings.HasPrefix(p.name, h) {
			return tFalse
		}
	}
	return mkApp("str_prefixof", SBool, p, s)
}

func (x *Exec) elemRow(st *State, s *SliceV) *Term {
	lf := leavesOf(s.elem)[0]
	k, srt := x.locKey(&Loc{kind: 'e', base: typeKey(s.elem), T: s.elem}, lf)
	return mkSelect(x.hget(st, k, srt), s.arr)
}

// strings.Split as uninterpreted functions: count and i-th piece.
func (x *Exec) strSplit(st *State, s, sep, n *Term, sig *types.Signature) Val {
	el := types.Typ[types.String]
	if s.op == "str" && sep.op == "str" && (n == nil || n.op == "int") {
		var parts []string
		if n == nil {
			parts = strings.Split(s.name, sep.name)
		} else {
			parts = strings.SplitN(s.name, sep.name, int(n.num.Num().Int64()))
		}
		sl := x.newSlice(st, el, mkInt(int64(len(parts))))
		for i, p := range parts {
			x.store(st, &Loc{kind: 'e', base: "string", T: el, ref: sl.arr, idx: mkInt(int64(i))}, mkStr(p))
		}
		return sl
	}
	if n == nil {
		n = mkInt(-1)
	}
	cnt := mkApp("split_count", SInt, s, sep, n)
	arr := x.alloc(st)
	k, srt := x.locKey(&Loc{kind: 'e', base: "string", T: el}, Leaf{"", SStr, false, 0})
	row := mkApp("split_row", arrElem(srt), s, sep, n)
	x.hset(st, k, mkStore(x.hget(st, k, srt), arr, row))
	x.logWrite(k, arr, nil)
	x.fact(st, mkLe(mkInt(0), cnt))
	x.fact(st, mkImp(mkNot(mkEq(sep, mkStr(""))), mkLe(mkInt(1), cnt)))
	if n.op == "int" && n.num.Sign() > 0 {
		x.fact(st, mkLe(cnt, n))
	}
	return &SliceV{arr, mkInt(0), cnt, el}
}

// sortStrings: the row becomes a sorted permutation (multiset facts: each new
// element occurs in the old slice and vice versa, via index maps).
func (x *Exec) sortStrings(st *State, s *SliceV) {
	x.permute(st, s, func(at func(i *Term) Val, i, j *Term) *Term {
		return mkNot(strLt(at(j).(*Term), at(i).(*Term)))
	})
}
func (x *Exec) sortAbstract(st *State, s *SliceV, less *FuncV) {
	if less == nil {
		x.permute(st, s, nil)
		return
	}
	// the comparator is given indices into the slice being sorted; after
	// sorting, less(j,i) is false for i<j.
	x.permute(st, s, nil)
	i, j := mkBound("si", SInt), mkBound("sj", SInt)
	x.noObl++
	x.dry++
	sn := len(x.facts)
	res, _, ok := x.inline(st.clone(), less.fn, []Val{j, i}, less.binds, x.ctxPos)
	x.facts = x.facts[:sn:sn]
	x.dry--
	x.noObl--
	if ok {
		if t, isT := res.(*Term); isT {
			x.fact(st, mkForall([]*Term{i, j}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, j), mkLt(j, s.ln)), mkNot(t))))
		}
	}
}

func (x *Exec) permute(st *State, s *SliceV, ord func(at func(i *Term) Val, i, j *Term) *Term) {
	perm := fmt.Sprintf("perm!%d", len(freshSeq)+termSeq)
	inv := "inv_" + perm
	pf := func(i *Term) *Term { return mkApp(perm, SInt, i) }
	iv := func(i *Term) *Term { return mkApp(inv, SInt, i) }
	i, j := mkBound("i", SInt), mkBound("j", SInt)
	in := func(i *Term) *Term { return mkAnd(mkLe(mkInt(0), i), mkLt(i, s.ln)) }
	x.fact(st, mkForall([]*Term{i}, mkImp(in(i), mkAnd(in(pf(i)), mkEq(iv(pf(i)), i))), []*Term{pf(i)}))
	x.fact(st, mkForall([]*Term{i}, mkImp(in(i), mkAnd(in(iv(i)), mkEq(pf(iv(i)), i))), []*Term{iv(i)}))
	for _, lf := range leavesOf(s.elem) {
		k, srt := x.locKey(&Loc{kind: 'e', base: typeKey(s.elem), T: s.elem}, lf)
		h := x.hget(st, k, srt)
		old := mkSelect(h, s.arr)
		nr := freshSym("sortrow", arrElem(srt))
		sel := rawOp("select", lf.sort, nr, i)
		oi := mkSub(i, s.off)
		x.fact(st, mkForall([]*Term{i}, mkEq(sel, mkIte(in(oi), mkSelect(old, mkAdd(s.off, pf(oi))), mkSelect(old, i))), []*Term{sel}))
		selo := rawOp("select", lf.sort, old, i)
		x.fact(st, mkForall([]*Term{i}, mkImp(in(oi), mkEq(selo, mkSelect(nr, mkAdd(s.off, iv(oi))))), []*Term{selo}))
		x.hset(st, k, mkStore(h, s.arr, nr))
		x.logWrite(k, s.arr, nil)
	}
	if ord != nil {
		at := func(i *Term) Val {
			return x.load(st, &Loc{kind: 'e', base: typeKey(s.elem), T: s.elem, ref: s.arr, idx: mkAdd(s.off, i)})
		}
		x.fact(st, mkForall([]*Term{i, j}, mkImp(mkAnd(mkLe(mkInt(0), i), mkLt(i, j), mkLt(j, s.ln)), ord(at, i, j))))
	}
}

// fmt.Sprintf with a constant format and %s/%d/%v verbs becomes concatenation.
func (x *Exec) sprintf(st *State, a []Val) Val {
	f, ok := a[0].(*Term)
	s, ok2 := a[1].(*SliceV)
	if !ok || !ok2 {
		return freshSym("sprintf", SStr)
	}
	if f.op != "str" || s.ln.op != "int" {
		return freshSym("sprintf", SStr)
	}
	n := int(s.ln.num.Num().Int64())
	arg := func(i int) (Val, types.Type, *IfaceV) {
		iv, _ := x.load(st, &Loc{kind: 'e', base: typeKey(s.elem), T: s.elem, ref: s.arr, idx: mkAdd(s.off, mkInt(int64(i)))}).(*IfaceV)
		if iv == nil {
			return nil, nil, nil
		}
		return iv.dyn, iv.dynT, iv
	}
	res := mkStr("")
	k := 0
	fs := f.name
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			res = strCat(res, mkStr(fs[i:i+j]))
			i += j
			continue
		}
		if i+1 < len(fs) && fs[i+1] == '%' {
			res = strCat(res, mkStr("%"))
			i += 2
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("0123456789.+-# ", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) || k >= n {
			return freshSym("sprintf", SStr)
		}
		verb := fs[i : j+1]
		dv, dt, iv := arg(k)
		k++
		var piece *Term
		if iv != nil && dt != nil {
			if t, ok := dv.(*Term); ok {
				switch {
				case t.sort == SStr && (verb == "%s" || verb == "%v"):
					piece = t
				case t.sort == SInt && isIntType(dt) && (verb == "%d" || verb == "%v"):
					piece = intToStr(t)
				default:
					piece = mkApp("fmt_"+sanitize(verb)+"_"+sanitize(string(t.sort)), SStr, t)
				}
			} else if l, ok := dv.(*Loc); ok && typeKey(l.T) == "math/big.Int" && (verb == "%s" || verb == "%v" || verb == "%d") {
				piece = bigToStr(x.load(st, l).(*Term))
			}
		}
		if piece == nil {
			if iv != nil {
				piece = mkApp("fmt_iface_"+sanitize(verb), SStr, iv.tag, iv.pay)
			} else {
				piece = freshSym("fmtarg", SStr)
			}
		}
		res = strCat(res, piece)
		i = j + 1
	}
	return res
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// intrinsicPrefix: families of library functions with default behaviour.
func intrinsicPrefix(n string) intrinsic {
	switch {
	case strings.HasPrefix(n, "(go.opentelemetry.io/otel/trace.Tracer).Start"):
		return func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
			return TupleV{a[1], x.nonNilVal(st, sig.Results().At(1).Type(), "span")}
		}
	case strings.Contains(n, "go.opentelemetry.io"), strings.Contains(n, "sirupsen/logrus"), strings.HasPrefix(n, "log."), strings.HasPrefix(n, "(*log."):
		return func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
			if sig.Results().Len() == 1 {
				return x.nonNilVal(st, sig.Results().At(0).Type(), "tel")
			}
			return x.freshVal(st, resType(sig), "tel")
		}
	case strings.HasPrefix(n, "(*sync."), strings.HasPrefix(n, "sync."):
		return func(x *Exec, st *State, a []Val, sig *types.Signature) Val {
			return x.freshVal(st, resType(sig), "sync")
		}
	}
	return nil
}

func (x *Exec) nonNilVal(st *State, t types.Type, n string) Val {
	v := x.freshVal(st, t, n)
	switch u := v.(type) {
	case *IfaceV:
		x.fact(st, mkLt(mkInt(0), u.tag))
	case *Loc:
		x.fact(st, mkLt(mkInt(0), u.ref))
	}
	return v
}

var _ = strconv.Itoa
