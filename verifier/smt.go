package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

var nativeStrings = false

// axioms attached to function names: emitted when the function is used.
var fnAxioms = map[string][]*Term{}

// unfold produces instance facts for occurrences of special functions.
var fnUnfold = map[string]func(t *Term) []*Term{}

// symAxioms: facts emitted when a symbol occurs in the VC.
var symAxioms = map[*Term][]*Term{}

// fnAliases: reference implementations that are built in to native strings
var nativeFn = map[string]string{
	"str_cat": "str.++", "str_len": "str.len", "str_prefixof": "str.prefixof", "str_suffixof": "str.suffixof",
	"str_contains": "str.contains", "str_lt": "str.<", "str_le": "str.<=", "str_at": "str.at", "str_sub": "str.substr",
	"str_indexof": "str.indexof", "str_replace_all": "str.replace_all", "str_replace": "str.replace", "str_from_int": "str.from_int", "str_to_int": "str.to_int",
}

type emitter struct {
	b       strings.Builder
	decl    map[string]bool
	names   map[*Term]string
	refs    map[*Term]int
	strIDs  map[string]string
	strList []string
	n       int
}

func smtString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range []byte(s) {
		if c == '"' {
			b.WriteString("\"\"")
		} else if c >= 32 && c < 127 && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func qsym(s string) string {
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "_") + "|"
}

// emitVC writes an SMT-LIB script that is unsat iff facts imply goal.
func emitVC(facts []*Term, goal *Term, logicOpts string) string {
	e := &emitter{decl: map[string]bool{}, names: map[*Term]string{}, refs: map[*Term]int{}, strIDs: map[string]string{}}
	asserts := append([]*Term{}, facts...)
	asserts = append(asserts, mkNot(goal))
	// closure over axioms and unfolds
	seen := map[*Term]bool{}
	usedFn := map[string]bool{}
	var all []*Term
	var queue = asserts
	unfolded := map[*Term]bool{}
	sumsDone := false
	dup := map[*Term]bool{}
	for len(queue) > 0 || !sumsDone {
		if len(queue) == 0 {
			sumsDone = true
			queue = sumFacts(all, logicOpts == "lite")
			continue
		}
		t := queue[0]
		queue = queue[1:]
		if dup[t] {
			continue
		}
		dup[t] = true
		all = append(all, t)
		var extra []*Term
		var rec func(x *Term)
		rec = func(x *Term) {
			if seen[x] {
				return
			}
			seen[x] = true
			if x.op == "app" {
				if !usedFn[x.name] {
					usedFn[x.name] = true
					extra = append(extra, fnAxioms[x.name]...)
				}
				if u := fnUnfold[x.name]; u != nil && !x.hasB && !unfolded[x] {
					unfolded[x] = true
					extra = append(extra, u(x)...)
				}
			}
			if x.op == "div" && !x.hasB && !x.args[1].isNum() {
				extra = append(extra, divFacts(x)...)
			}
			if x.op == "sym" {
				extra = append(extra, symAxioms[x]...)
			}
			for _, a := range x.args {
				rec(a)
			}
		}
		rec(t)
		queue = append(queue, extra...)
	}
	if nativeStrings {
		e.b.WriteString("(define-sort Str () String)\n")
	} else {
		e.b.WriteString("(declare-sort Str 0)\n")
	}
	// reference counts
	cnt := map[*Term]int{}
	var walk func(x *Term)
	walk = func(x *Term) {
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		for _, p := range x.pats {
			for _, y := range p {
				walk(y)
			}
		}
	}
	for _, t := range all {
		walk(t)
	}
	e.refs = cnt
	// strings
	if !nativeStrings {
		var strs []string
		for t := range cnt {
			if t.op == "str" {
				strs = append(strs, t.name)
			}
		}
		sort.Strings(strs)
		for i, s := range strs {
			e.strIDs[s] = fmt.Sprintf("str!%d", i)
			fmt.Fprintf(&e.b, "(declare-const str!%d Str) ; %q\n", i, s)
		}
		if len(strs) > 1 {
			e.b.WriteString("(assert (distinct")
			for i := range strs {
				fmt.Fprintf(&e.b, " str!%d", i)
			}
			e.b.WriteString("))\n")
		}
		if usedFn["str_len"] {
			e.declFn("str_len", []Sort{SStr}, SInt)
			for i, s := range strs {
				fmt.Fprintf(&e.b, "(assert (= (str_len str!%d) %d))\n", i, len(s))
			}
		}
	}
	for _, t := range all {
		e.declAll(t, map[*Term]bool{})
	}
	for _, t := range all {
		s := e.str(t)
		fmt.Fprintf(&e.b, "(assert %s)\n", s)
	}
	e.b.WriteString("(check-sat)\n")
	body := e.b.String()
	if h := nlHeader(body); h != "" {
		k := strings.Index(body, "Str")
		k += strings.Index(body[k:], "\n") + 1
		body = body[:k] + h + body[k:]
	}
	return body
}

func (e *emitter) declFn(n string, args []Sort, res Sort) {
	if e.decl["f|"+n] {
		return
	}
	e.decl["f|"+n] = true
	var as []string
	for _, a := range args {
		as = append(as, string(a))
	}
	fmt.Fprintf(&e.b, "(declare-fun %s (%s) %s)\n", qsym(n), strings.Join(as, " "), res)
}

var declSeen map[*Term]bool

func (e *emitter) declAll(t *Term, seen map[*Term]bool) {
	if e.decl[fmt.Sprintf("t|%d", t.id)] {
		return
	}
	e.decl[fmt.Sprintf("t|%d", t.id)] = true
	switch t.op {
	case "sym":
		if !e.decl["s|"+t.name] {
			e.decl["s|"+t.name] = true
			fmt.Fprintf(&e.b, "(declare-const %s %s)\n", qsym(t.name), t.sort)
		}
	case "app":
		if nativeStrings && nativeFn[t.name] != "" {
			break
		}
		var as []Sort
		for _, a := range t.args {
			as = append(as, a.sort)
		}
		if t.name == "str_len" && !nativeStrings {
			e.declFn(t.name, as, t.sort)
			break
		}
		e.declFn(t.name, as, t.sort)
	}
	for _, a := range t.args {
		e.declAll(a, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			e.declAll(x, seen)
		}
	}
}

func (e *emitter) str(t *Term) string {
	if n, ok := e.names[t]; ok {
		return n
	}
	s := e.str1(t)
	if !t.hasB && e.refs[t] > 1 && len(s) > 24 && t.op != "sym" {
		e.n++
		n := fmt.Sprintf("d!%d", e.n)
		fmt.Fprintf(&e.b, "(define-fun %s () %s %s)\n", n, t.sort, s)
		e.names[t] = n
		return n
	}
	return s
}

func (e *emitter) str1(t *Term) string {
	switch t.op {
	case "int":
		return smtInt(t.num.Num())
	case "real":
		return smtReal(t.num)
	case "str":
		if nativeStrings {
			return smtString(t.name)
		}
		return e.strIDs[t.name]
	case "true", "false":
		return t.op
	case "sym":
		return qsym(t.name)
	case "bound":
		return qsym(t.name)
	case "constarr":
		return fmt.Sprintf("((as const %s) %s)", t.sort, e.str(t.args[0]))
	case "forall", "exists":
		var b strings.Builder
		fmt.Fprintf(&b, "(%s (", t.op)
		for _, v := range t.bvs {
			fmt.Fprintf(&b, "(%s %s)", qsym(v.name), v.sort)
		}
		b.WriteString(") ")
		body := e.str(t.args[0])
		if len(t.pats) > 0 {
			b.WriteString("(! ")
			b.WriteString(body)
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(e.str(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	case "app":
		n := qsym(t.name)
		if nativeStrings && nativeFn[t.name] != "" {
			n = nativeFn[t.name]
		}
		if len(t.args) == 0 {
			return n
		}
		var b strings.Builder
		b.WriteString("(" + n)
		for _, a := range t.args {
			b.WriteString(" " + e.str(a))
		}
		b.WriteString(")")
		return b.String()
	}
	var b strings.Builder
	b.WriteString("(" + nlOp(t))
	for _, a := range t.args {
		b.WriteString(" " + e.str(a))
	}
	b.WriteString(")")
	return b.String()
}

// nlOp names the operation of t; non-linear operations go through a macro
// that absNL turns into an uninterpreted function.
func nlOp(t *Term) string {
	switch t.op {
	case "*":
		if !t.args[0].isNum() && !t.args[1].isNum() {
			if t.sort == SInt {
				return "nl!mulI"
			}
			return "nl!mulR"
		}
	case "/":
		return "nl!divR"
	case "div", "mod":
		if !t.args[1].isNum() {
			return "nl!" + t.op
		}
	}
	return t.op
}

var nlMacros = []struct{ name, sort, op string }{{"nl!mulI", "Int", "*"}, {"nl!mulR", "Real", "*"}, {"nl!divR", "Real", "/"}, {"nl!div", "Int", "div"}, {"nl!mod", "Int", "mod"}}

func nlHeader(body string) string {
	h := ""
	for _, m := range nlMacros {
		if strings.Contains(body, "("+m.name+" ") {
			h += fmt.Sprintf("(define-fun %s ((a %s) (b %s)) %s (%s a b))\n", m.name, m.sort, m.sort, m.sort, m.op)
		}
	}
	return h
}

// absNL returns the script with non-linear operations uninterpreted (a weaker
// theory: unsat still means proved), or "" if there are none.
func absNL(scr string) string {
	out := scr
	for _, m := range nlMacros {
		out = strings.Replace(out, fmt.Sprintf("(define-fun %s ((a %s) (b %s)) %s (%s a b))\n", m.name, m.sort, m.sort, m.sort, m.op), fmt.Sprintf("(declare-fun %s (%s %s) %s)\n", m.name, m.sort, m.sort, m.sort), 1)
	}
	if out == scr {
		return ""
	}
	return out
}

func ratOf(s string) *big.Rat { r, _ := new(big.Rat).SetString(s); return r }

// divFacts: what Euclidean division of a product by a positive number says.
//
//	b>0, u,v>=0, d = (u*v) div b:  d>=0;  v<=b => d<=u;  u<=b => d<=v;
//	u<=b, v<=b => d>=u+v-b;  v=b => d=u
func divFacts(t *Term) []*Term {
	p, b := t.args[0], t.args[1]
	z := mkInt(0)
	out := []*Term{mkImp(mkLt(z, b), mkAnd(mkLe(mkMul(b, t), p), mkLt(p, mkAdd(mkMul(b, t), b))))}
	if p.op != "*" || len(p.args) != 2 {
		return out
	}
	u, v := p.args[0], p.args[1]
	pre := mkAnd(mkLt(z, b), mkLe(z, u), mkLe(z, v))
	return append(out, mkImp(pre, mkAnd(mkLe(z, t), mkImp(mkLe(v, b), mkLe(t, u)), mkImp(mkLe(u, b), mkLe(t, v)),
		mkImp(mkAnd(mkLe(u, b), mkLe(v, b)), mkGe(t, mkSub(mkAdd(u, v), b))), mkImp(mkEq(v, b), mkEq(t, u)), mkImp(mkEq(u, b), mkEq(t, v)))))
}
