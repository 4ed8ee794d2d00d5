package main

import (
	"regexp"
	"strconv"
	"strings"
)

// Facts about constant SQL texts, used by contracts over database/sql calls.

var wsRe = regexp.MustCompile(`\s+`)

func sqlNorm(q string) string {
	// strip comments, collapse white space, lower-case
	var b strings.Builder
	for _, l := range strings.Split(q, "\n") {
		if k := strings.Index(l, "--"); k >= 0 {
			l = l[:k]
		}
		b.WriteString(l + " ")
	}
	return strings.ToLower(strings.TrimSpace(wsRe.ReplaceAllString(b.String(), " ")))
}

// sqlInner peels "select exists (…)" down to the inner query.
func sqlInner(s string) string {
	if strings.HasPrefix(s, "select exists (") || strings.HasPrefix(s, "select exists(") {
		return strings.TrimSpace(parenAt(s, strings.IndexByte(s, '(')))
	}
	return s
}

// sqlConjuncts returns the number of conjuncts of the WHERE clause (-1 if it
// has a top-level disjunction).
func sqlConjuncts(q string) int64 {
	w := sqlWhereText(q)
	if w == "" {
		return 0
	}
	if topKeyword(w, "or", 0) >= 0 {
		return -1
	}
	n := int64(1)
	for {
		k := topKeyword(w, "and", 0)
		if k < 0 {
			return n
		}
		n++
		w = w[k+3:]
	}
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

func parenAt(s string, i int) string { // s[i]=='(' → inside
	d := 0
	for j := i; j < len(s); j++ {
		switch s[j] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return s[i+1 : j]
			}
		}
	}
	return s[i+1:]
}

func unqual(c string) string {
	c = strings.Trim(strings.TrimSpace(c), `"`)
	if k := strings.LastIndex(c, "."); k >= 0 {
		c = c[k+1:]
	}
	return strings.Trim(c, `"`)
}

// topKeyword finds keyword kw (surrounded by blanks/ends) at parenthesis depth 0.
func topKeyword(s, kw string, from int) int {
	d := 0
	for i := from; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		}
		if d == 0 && strings.HasPrefix(s[i:], kw) && (i == 0 || s[i-1] == ' ' || s[i-1] == ')') && (i+len(kw) == len(s) || s[i+len(kw)] == ' ' || s[i+len(kw)] == '(') {
			return i
		}
	}
	return -1
}

// sqlAssigned returns the expression assigned to a column by UPDATE … SET or INSERT.
func sqlAssigned(q, col string) string {
	s := sqlNorm(q)
	if strings.HasPrefix(s, "insert into") {
		o := strings.IndexByte(s, '(')
		if o < 0 {
			return ""
		}
		cols := splitTop(parenAt(s, o))
		v := topKeyword(s, "values", 0)
		var vals []string
		if v >= 0 {
			o2 := strings.IndexByte(s[v:], '(')
			if o2 < 0 {
				return ""
			}
			vals = splitTop(parenAt(s, v+o2))
		}
		for i, c := range cols {
			if unqual(c) == col && i < len(vals) {
				return vals[i]
			}
		}
		return ""
	}
	a := topKeyword(s, "set", 0)
	if !strings.HasPrefix(s, "update") || a < 0 {
		return ""
	}
	end := len(s)
	for _, k := range []string{"where", "from", "returning"} {
		if e := topKeyword(s, k, a+3); e >= 0 && e < end {
			end = e
		}
	}
	for _, as := range splitTop(s[a+3 : end]) {
		k := strings.IndexByte(as, '=')
		if k > 0 && unqual(as[:k]) == col {
			return strings.TrimSpace(as[k+1:])
		}
	}
	return ""
}

var paramRe = regexp.MustCompile(`^\$(\d+)(?:::\w+)?$`)

func paramIdx(e string) int64 {
	if m := paramRe.FindStringSubmatch(strings.TrimSpace(e)); m != nil {
		n, _ := strconv.ParseInt(m[1], 10, 64)
		return n
	}
	return 0
}

func sqlWhereText(q string) string {
	s := sqlInner(sqlNorm(q))
	w := topKeyword(s, "where", 0)
	if w < 0 {
		return ""
	}
	end := len(s)
	for _, k := range []string{"group by", "order by", "limit", "for update", "returning", "on conflict", "offset"} {
		if e := topKeyword(s, k, w+5); e >= 0 && e < end {
			end = e
		}
	}
	return strings.TrimSpace(s[w+5 : end])
}

// sqlConjunct returns the right-hand side of "col = rhs" in a purely
// conjunctive WHERE clause ("" if absent).
func sqlConjunct(q, col string) string {
	w := sqlWhereText(q)
	if w == "" || topKeyword(w, "or", 0) >= 0 {
		return ""
	}
	for {
		k := topKeyword(w, "and", 0)
		part := w
		if k >= 0 {
			part = w[:k]
		}
		part = strings.TrimSpace(part)
		for strings.HasPrefix(part, "(") && parenAt(part, 0) == part[1:len(part)-1] && strings.HasSuffix(part, ")") {
			part = strings.TrimSpace(part[1 : len(part)-1])
		}
		if e := strings.IndexByte(part, '='); e > 0 && !strings.ContainsRune("<>!", rune(part[e-1])) {
			l, r := strings.TrimSpace(part[:e]), strings.TrimSpace(part[e+1:])
			if unqual(l) == col {
				return r
			}
			if unqual(r) == col {
				return l
			}
		}
		if k < 0 {
			return ""
		}
		w = w[k+3:]
	}
}

// sqlSelected returns the 1-based position of a column (or its alias) in the select list.
func sqlSelected(q, col string) int64 {
	s := sqlInner(sqlNorm(q))
	a := topKeyword(s, "select", 0)
	f := topKeyword(s, "from", 0)
	if a < 0 {
		if r := topKeyword(s, "returning", 0); r >= 0 {
			a, f = r+3, len(s)
		} else {
			return 0
		}
	}
	if f < 0 {
		f = len(s)
	}
	for i, c := range splitTop(s[a+6 : f]) {
		name := c
		if k := topKeyword(c, "as", 0); k >= 0 {
			name = c[k+2:]
		} else if strings.HasPrefix(c, "coalesce(") {
			name = splitTop(parenAt(c, len("coalesce")))[0]
		}
		if unqual(name) == col {
			return int64(i + 1)
		}
	}
	return 0
}

func sqlTable(q string) string {
	s := sqlInner(sqlNorm(q))
	f := strings.Fields(s)
	for i, w := range f {
		if (w == "update" || w == "into" || w == "from") && i+1 < len(f) {
			t := f[i+1]
			if k := strings.IndexByte(t, '('); k > 0 {
				t = t[:k]
			}
			return unqual(t)
		}
	}
	return ""
}

func sqlVerb(q string) string {
	f := strings.Fields(sqlNorm(q))
	if len(f) == 0 {
		return ""
	}
	return f[0]
}

// onConst maps f over the constant strings a term can be.
func onConst(t *Term, f func(string) *Term, other func() *Term) *Term {
	switch t.op {
	case "str":
		return f(t.name)
	case "ite":
		return mkIte(t.args[0], onConst(t.args[1], f, other), onConst(t.args[2], f, other))
	}
	return other()
}

func sqlBuiltin(name string, q *Term, args []string) *Term {
	arg := ""
	if len(args) > 0 {
		arg = strings.ToLower(args[0])
	}
	isStr := name == "sqlexpr" || name == "sqlcond" || name == "sqltable" || name == "sqlverb" || name == "sqltext"
	return onConst(q, func(s string) *Term {
		switch name {
		case "sqlcol":
			return mkInt(paramIdx(sqlAssigned(s, arg)))
		case "sqlwhere":
			return mkInt(paramIdx(sqlConjunct(s, arg)))
		case "sqlsel":
			return mkInt(sqlSelected(s, arg))
		case "sqlexpr":
			return mkStr(sqlAssigned(s, arg))
		case "sqlcond":
			return mkStr(sqlConjunct(s, arg))
		case "sqltable":
			return mkStr(sqlTable(s))
		case "sqlverb":
			return mkStr(sqlVerb(s))
		case "sqlconjuncts":
			return mkInt(sqlConjuncts(s))
		case "sqlexists":
			return mkBool(sqlInner(sqlNorm(s)) != sqlNorm(s))
		case "sqlhas":
			return mkBool(strings.Contains(sqlNorm(s), sqlNorm(args[0])))
		}
		panic(name)
	}, func() *Term {
		so := SInt
		if isStr {
			so = SStr
		}
		if name == "sqlhas" || name == "sqlexists" {
			so = SBool
		}
		if len(args) > 0 {
			return mkApp(name, so, q, mkStr(args[0]))
		}
		return mkApp(name, so, q)
	})
}
