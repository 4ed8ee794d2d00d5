package database

import (
	"database/sql/driver"
	"fmt"
	"math/big"
	"regexp"
	"strings"
)

// A small evaluator of WHERE clauses over in-memory rows (columns as strings,
// "" with a missing key meaning NULL): =, <>, <, >, IN, ANY, IS NULL, AND, OR, NOT.
var vTok = regexp.MustCompile(`'(?:[^']|'')*'|\$\d+|[A-Za-z_][A-Za-z0-9_.]*|\d+(?:\.\d+)?|::\w+(?:\[\])?|<>|!=|<=|>=|->>|[=<>(),*]|\S`)

type vWhere struct {
	t    []string
	p    int
	args []driver.NamedValue
	row  map[string]string
}

func (w *vWhere) peek() string {
	if w.p < len(w.t) {
		return w.t[w.p]
	}
	return ""
}
func (w *vWhere) next() string { s := w.peek(); w.p++; return s }
func (w *vWhere) is(k string) bool {
	if strings.EqualFold(w.peek(), k) {
		w.p++
		return true
	}
	return false
}
func (w *vWhere) or() bool {
	r := w.and()
	for w.is("or") {
		b := w.and()
		r = r || b
	}
	return r
}
func (w *vWhere) and() bool {
	r := w.not()
	for w.is("and") {
		b := w.not()
		r = r && b
	}
	return r
}
func (w *vWhere) not() bool {
	if w.is("not") {
		return !w.not()
	}
	if w.peek() == "(" {
		save := w.p
		w.p++
		r := w.or()
		if w.is(")") {
			return r
		}
		w.p = save
	}
	return w.cmp()
}

type vOperand struct {
	s    string
	null bool
	list []string
}

func (w *vWhere) operand() vOperand {
	t := w.next()
	var o vOperand
	switch {
	case t == "(":
		o = w.operand()
		for w.is(",") {
			o.list = append(append([]string{}, o.list...), w.operand().s)
		}
		w.is(")")
	case strings.HasPrefix(t, "'"):
		o.s = strings.ReplaceAll(t[1:len(t)-1], "''", "'")
	case strings.HasPrefix(t, "$"):
		var n int
		fmt.Sscanf(t[1:], "%d", &n)
		if n < 1 || n > len(w.args) {
			panic("placeholder " + t + " without a value")
		}
		v := w.args[n-1].Value
		switch v := v.(type) {
		case nil:
			o.null = true
		case []byte:
			o.s = string(v)
		default:
			o.s = fmt.Sprint(v)
		}
		if strings.HasPrefix(o.s, "{") && strings.HasSuffix(o.s, "}") {
			for _, e := range strings.Split(o.s[1:len(o.s)-1], ",") {
				o.list = append(o.list, strings.Trim(e, `"`))
			}
		}
	case t[0] >= '0' && t[0] <= '9':
		o.s = t
	case strings.EqualFold(t, "any") || strings.EqualFold(t, "coalesce") || strings.EqualFold(t, "lower"):
		w.is("(")
		o = w.operand()
		for w.is(",") {
			b := w.operand()
			if o.null {
				o = b
			}
		}
		w.is(")")
	default:
		c := t
		if k := strings.LastIndex(c, "."); k >= 0 {
			c = c[k+1:]
		}
		v, ok := w.row[strings.ToLower(c)]
		o.s, o.null = v, !ok
		if w.is("->>") {
			k := w.operand()
			v, ok := w.row[strings.ToLower(c)+"->>"+k.s]
			o.s, o.null = v, !ok
		}
	}
	for strings.HasPrefix(w.peek(), "::") {
		w.p++
	}
	return o
}
func (w *vWhere) cmp() bool {
	a := w.operand()
	op := strings.ToLower(w.next())
	if op == "is" {
		n := w.is("not")
		w.is("null")
		return a.null != n
	}
	if op == "not" {
		op = "not " + strings.ToLower(w.next())
	}
	if op == "in" || op == "not in" {
		w.is("(")
		in := false
		for {
			b := w.operand()
			in = in || b.s == a.s && !b.null
			if !w.is(",") {
				break
			}
		}
		w.is(")")
		return !a.null && in == (op == "in")
	}
	b := w.operand()
	if a.null || b.null {
		return false
	}
	if op == "=" && b.list != nil {
		for _, e := range b.list {
			if e == a.s {
				return true
			}
		}
		return false
	}
	c := strings.Compare(a.s, b.s)
	x, k1 := new(big.Rat).SetString(a.s)
	y, k2 := new(big.Rat).SetString(b.s)
	if k1 && k2 {
		c = x.Cmp(y)
	}
	switch op {
	case "=":
		return c == 0
	case "<>", "!=":
		return c != 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	panic("operator " + op)
}

var vWhereRe = regexp.MustCompile(`(?is)\bwhere\b(.*?)(?:\bgroup by\b|\border by\b|\blimit\b|\bfor update\b|;|$)`)

// vSelectRows returns the rows matching q's WHERE clause.
func vSelectRows(q string, args []driver.NamedValue, rows []map[string]string) []map[string]string {
	in := q
	if i := strings.Index(strings.ToLower(q), "exists"); i >= 0 {
		in = q[i+6:]
		in = in[strings.Index(in, "(")+1 : strings.LastIndex(in, ")")]
	}
	m := vWhereRe.FindStringSubmatch(in)
	var out []map[string]string
	for _, r := range rows {
		if m == nil {
			out = append(out, r)
			continue
		}
		w := &vWhere{t: vTok.FindAllString(m[1], -1), args: args, row: r}
		if w.or() {
			if w.p < len(w.t) {
				panic("unparsed: " + strings.Join(w.t[w.p:], " "))
			}
			out = append(out, r)
		}
	}
	return out
}

// vExists answers "SELECT EXISTS(…)" over the rows.
func vExists(rows []map[string]string) func(q string, args []driver.NamedValue) ([]string, [][]driver.Value, error) {
	return func(q string, args []driver.NamedValue) ([]string, [][]driver.Value, error) {
		return []string{"exists"}, [][]driver.Value{{len(vSelectRows(q, args, rows)) > 0}}, nil
	}
}
func vRowT(id, parent, src, dst, status, amount string) map[string]string {
	return map[string]string{"transaction_id": id, "parent_transaction": parent, "source": src, "destination": dst, "status": status, "precise_amount": amount, "reference": "ref_" + id}
}
