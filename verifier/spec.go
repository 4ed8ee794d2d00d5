package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// Clause is one contract line.
type Clause struct {
	Name  string
	Src   string
	E     ast.Expr
	Holes []Hole // template invariants
	File  string
	Line  int
}

type Hole struct {
	Name, Type string
}

type SetClause struct {
	Ghost string
	Cond  ast.Expr
	E     ast.Expr
	Src   string
}

type Contract struct {
	Pattern  string
	re       *regexp.Regexp
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	Invs     []Clause
	Lets     map[string]ast.Expr
	LetOrder []string
	Modifies []ast.Expr
	ModSrc   []string
	HasMod   bool
	Sets     []SetClause
	Havoc    []string // ghosts the callee may change in a way only its ensures describe
	NoPanic  bool
	Extern   bool // trusted: never verified
	Helper   bool // verified; if its proof fails it is dropped and inlined instead
	Pure     bool
	NoReturn bool
	Cover    []Clause // must be reachable at exit
	File     string
	Line     int
	used     bool
}

type Tracker struct {
	Name string
	re   *regexp.Regexp
	pat  string
}

type Pred struct {
	Params []string
	E      ast.Expr
}

type GhostDecl struct {
	Name string
	Sort Sort
}

type Spec struct {
	Property  string
	Native    bool
	Contracts []*Contract
	Opaque    []*regexp.Regexp
	OpaqueSrc []string
	Track     []*Tracker
	Preds     map[string]*Pred
	Ghosts    map[string]Sort
	Axioms    []Clause
	Replay    []string
	Bounded   []boundedCheck
	Assume    []string
	Timeout   int
	RunGo     bool
	Lemmas    []*Contract
	trCache   map[string][]*Tracker
	ctCache   map[string]*Contract
	opCache   map[string]bool
	Files     []string
}

func compilePat(p string) *regexp.Regexp {
	q := regexp.QuoteMeta(p)
	q = strings.ReplaceAll(q, "%", ".*")
	return regexp.MustCompile("^(?:" + q + ")$")
}

func (s *Spec) contractFor(n string) *Contract {
	if c, ok := s.ctCache[n]; ok {
		return c
	}
	var r *Contract
	for _, c := range s.Contracts {
		if c.re.MatchString(n) {
			r = c
			break
		}
	}
	s.ctCache[n] = r
	return r
}

func (s *Spec) opaqueMatch(n string) bool {
	if v, ok := s.opCache[n]; ok {
		return v
	}
	r := false
	for _, o := range s.Opaque {
		if o.MatchString(n) {
			r = true
		}
	}
	s.opCache[n] = r
	return r
}

func (s *Spec) trackers(n string) []*Tracker {
	if t, ok := s.trCache[n]; ok {
		return t
	}
	var r []*Tracker
	for _, t := range s.Track {
		if t.re.MatchString(n) {
			r = append(r, t)
		}
	}
	s.trCache[n] = r
	return r
}

func loadSpec(path string) (*Spec, error) {
	s := &Spec{Preds: map[string]*Pred{}, Ghosts: map[string]Sort{}, trCache: map[string][]*Tracker{}, ctCache: map[string]*Contract{}, opCache: map[string]bool{}}
	if err := s.parseFile(path); err != nil {
		return nil, err
	}
	return s, nil
}

var holeRe = regexp.MustCompile(`\[\?(\w+) ([^\]]+?)\]`)

func parseClause(src, file string, line int) (Clause, error) {
	c := Clause{Src: src, File: file, Line: line}
	// [?x type] holes at the front
	for {
		src = strings.TrimSpace(src)
		if strings.HasPrefix(src, "[?") {
			// type may contain brackets ([]string): find matching close
			depth, j := 0, 0
			for j = 0; j < len(src); j++ {
				if src[j] == '[' {
					depth++
				} else if src[j] == ']' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			in := src[2:j]
			k := strings.IndexByte(in, ' ')
			c.Holes = append(c.Holes, Hole{in[:k], strings.TrimSpace(in[k+1:])})
			src = src[j+1:]
			continue
		}
		break
	}
	// optional name
	if m := regexp.MustCompile(`^([A-Za-z_][\w\-.]*):\s+`).FindStringSubmatch(src); m != nil {
		c.Name = m[1]
		src = src[len(m[0]):]
	}
	e, err := parser.ParseExpr(src)
	if err != nil {
		return c, fmt.Errorf("%s:%d: %v in %q", file, line, err, src)
	}
	c.E = e
	if c.Name == "" {
		c.Name = fmt.Sprintf("L%d", line)
	}
	return c, nil
}

func parseSig(s string) (string, []string, []string, error) {
	// "pattern" (a, b) (r, err):
	s = strings.TrimSpace(s)
	if s[0] != '"' {
		return "", nil, nil, fmt.Errorf("pattern must be quoted")
	}
	j := strings.IndexByte(s[1:], '"') + 1
	pat := s[1:j]
	rest := s[j+1:]
	re := regexp.MustCompile(`\(([^)]*)\)`)
	ms := re.FindAllStringSubmatch(rest, -1)
	split := func(x string) []string {
		var o []string
		for _, p := range strings.Split(x, ",") {
			if p = strings.TrimSpace(p); p != "" {
				o = append(o, p)
			}
		}
		return o
	}
	var ps, rs []string
	if len(ms) > 0 {
		ps = split(ms[0][1])
	}
	if len(ms) > 1 {
		rs = split(ms[1][1])
	}
	return pat, ps, rs, nil
}

func (s *Spec) parseFile(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	s.Files = append(s.Files, path)
	file := filepath.Base(path)
	// join continuation lines: a line is continued while parens are open or it ends with a backslash
	raw := strings.Split(string(b), "\n")
	type ln struct {
		s string
		n int
	}
	var lines []ln
	for i := 0; i < len(raw); i++ {
		l := raw[i]
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], "\"") {
			l = l[:k]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		start := i
		bal := func(t string) int {
			d, inS := 0, false
			for k := 0; k < len(t); k++ {
				switch {
				case t[k] == '"' && (k == 0 || t[k-1] != '\\'):
					inS = !inS
				case inS:
				case t[k] == '(':
					d++
				case t[k] == ')':
					d--
				}
			}
			return d
		}
		for bal(l) > 0 && i+1 < len(raw) {
			i++
			nl := raw[i]
			if k := strings.Index(nl, "//"); k >= 0 && !strings.Contains(nl[:k], "\"") {
				nl = nl[:k]
			}
			l += " " + strings.TrimSpace(nl)
		}
		lines = append(lines, ln{l, start + 1})
	}
	var cur *Contract
	for _, L := range lines {
		t := strings.TrimSpace(L.s)
		kw := t
		rest := ""
		if k := strings.IndexAny(t, " \t"); k >= 0 {
			kw, rest = t[:k], strings.TrimSpace(t[k+1:])
		}
		fail := func(err error) error { return fmt.Errorf("%s:%d: %v", file, L.n, err) }
		switch kw {
		case "property":
			s.Property = rest
			cur = nil
		case "strings":
			s.Native = rest == "native"
		case "timeout":
			fmt.Sscan(rest, &s.Timeout)
		case "include":
			if err := s.parseFile(filepath.Join(filepath.Dir(path), rest)); err != nil {
				return err
			}
			cur = nil
		case "ghost":
			f := strings.Fields(rest)
			so := map[string]Sort{"int": SInt, "bool": SBool, "real": SReal, "string": SStr, "ref": SInt, "intset": arrOf(SInt, SBool), "strset": arrOf(SStr, SBool)}[f[1]]
			if so == "" {
				so = Sort(strings.Join(f[1:], " "))
			}
			s.Ghosts[f[0]] = so
		case "pred":
			k := strings.Index(rest, "=")
			for k+1 < len(rest) && (rest[k+1] == '=' || k > 0 && strings.ContainsRune("<>!=", rune(rest[k-1]))) {
				k2 := strings.Index(rest[k+2:], "=")
				k = k + 2 + k2
			}
			h := rest[:k]
			e, err := parser.ParseExpr(rest[k+1:])
			if err != nil {
				return fail(err)
			}
			o := strings.IndexByte(h, '(')
			var ps []string
			for _, p := range strings.Split(strings.TrimSuffix(strings.TrimSpace(h[o+1:]), ")"), ",") {
				if p = strings.TrimSpace(p); p != "" {
					ps = append(ps, p)
				}
			}
			s.Preds[strings.TrimSpace(h[:o])] = &Pred{ps, e}
		case "opaque":
			p := strings.Trim(rest, "\"")
			s.Opaque = append(s.Opaque, compilePat(p))
			s.OpaqueSrc = append(s.OpaqueSrc, p)
		case "track":
			f := regexp.MustCompile(`^"([^"]+)"\s+as\s+(\w+)$`).FindStringSubmatch(rest)
			if f == nil {
				return fail(fmt.Errorf("bad track %q", rest))
			}
			s.Track = append(s.Track, &Tracker{Name: f[2], pat: f[1], re: compilePat(f[1])})
		case "goroutines":
			s.RunGo = strings.TrimSpace(rest) == "run"
		case "axiom":
			c, err := parseClause(rest, file, L.n)
			if err != nil {
				return err
			}
			s.Axioms = append(s.Axioms, c)
		case "replay":
			s.Replay = append(s.Replay, strings.Fields(rest)...)
		case "bounded":
			// bounded <pkg> <Test> <functions and bound>
			if fs := strings.SplitN(rest, " ", 3); len(fs) == 3 {
				s.Bounded = append(s.Bounded, boundedCheck{Pkg: fs[0], Test: fs[1], What: fs[2]})
			}
		case "assumption":
			s.Assume = append(s.Assume, rest)
		case "func", "extern", "helper", "lemma":
			pat, ps, rs, err := parseSig(rest)
			if err != nil {
				return fail(err)
			}
			cur = &Contract{Pattern: pat, re: compilePat(pat), Params: ps, Results: rs, Extern: kw == "extern", Helper: kw == "helper", File: file, Line: L.n, Lets: map[string]ast.Expr{}}
			if kw == "lemma" {
				s.Lemmas = append(s.Lemmas, cur)
			} else {
				s.Contracts = append(s.Contracts, cur)
			}
		case "requires", "ensures", "invariant", "cover":
			if cur == nil {
				return fail(fmt.Errorf("%s outside a contract", kw))
			}
			c, err := parseClause(rest, file, L.n)
			if err != nil {
				return err
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "cover":
				cur.Cover = append(cur.Cover, c)
			default:
				cur.Invs = append(cur.Invs, c)
			}
		case "let":
			k := strings.Index(rest, "=")
			e, err := parser.ParseExpr(rest[k+1:])
			if err != nil {
				return fail(err)
			}
			n := strings.TrimSpace(rest[:k])
			cur.Lets[n] = e
			cur.LetOrder = append(cur.LetOrder, n)
		case "modifies":
			cur.HasMod = true
			if rest == "nothing" {
				break
			}
			e, err := parser.ParseExpr("f(" + rest + ")")
			if err != nil {
				return fail(err)
			}
			cur.Modifies = append(cur.Modifies, e.(*ast.CallExpr).Args...)
			cur.ModSrc = append(cur.ModSrc, rest)
		case "set":
			// set g = e   |   set g = e if c
			k := strings.Index(rest, "=")
			sc := SetClause{Ghost: strings.TrimSpace(rest[:k]), Src: rest}
			body := rest[k+1:]
			if j := strings.LastIndex(body, " if "); j >= 0 {
				c, err := parser.ParseExpr(body[j+4:])
				if err != nil {
					return fail(err)
				}
				sc.Cond = c
				body = body[:j]
			}
			e, err := parser.ParseExpr(body)
			if err != nil {
				return fail(err)
			}
			sc.E = e
			cur.Sets = append(cur.Sets, sc)
		case "havoc":
			for _, g := range strings.Split(rest, ",") {
				cur.Havoc = append(cur.Havoc, strings.TrimSpace(g))
			}
		case "nopanic":
			cur.NoPanic = true
		case "pure":
			cur.Pure = true
		case "noreturn":
			cur.NoReturn = true
		default:
			return fail(fmt.Errorf("unknown keyword %q", kw))
		}
	}
	return nil
}

// boundedCheck: a labelled bounded stand-in for functions no contract reaches.
type boundedCheck struct {
	Pkg, Test, What string
	Result          string
}
