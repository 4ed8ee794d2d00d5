package database

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"github.com/blnkfinance/blnk/model"
	"io"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
)

// vDB is an in-memory stand-in for the database: it executes the statements the
// storage layer issues for balances, transactions and work items, keeps what an
// open database transaction wrote apart until it commits, and can fail any step.
type vRow map[string]string
type vState struct {
	bal    map[string]vRow
	tables map[string][]vRow
}

func (s *vState) clone() *vState {
	n := &vState{map[string]vRow{}, map[string][]vRow{}}
	for k, r := range s.bal {
		c := vRow{}
		for a, b := range r {
			c[a] = b
		}
		n.bal[k] = c
	}
	for k, rs := range s.tables {
		n.tables[k] = append([]vRow{}, rs...)
	}
	return n
}

type vDB struct {
	mu       sync.Mutex
	st       *vState
	ops      int
	failAt   int
	trace    []string
	query    func(q string, args []driver.NamedValue) (cols []string, rows [][]driver.Value, err error)
	exec     func(q string, args []driver.NamedValue) (int64, error)
	rollback int
	open     int
}

var errVInjected = errors.New("injected database failure")

func newVDB() (*vDB, *Datasource) {
	d := &vDB{st: &vState{map[string]vRow{}, map[string][]vRow{}}, failAt: -1}
	return d, &Datasource{Conn: sql.OpenDB(d)}
}
func (d *vDB) Connect(context.Context) (driver.Conn, error) { return &vConn{d: d}, nil }
func (d *vDB) Driver() driver.Driver                        { return nil }

// step counts an operation and tells whether it must fail.
func (d *vDB) step(what string) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.ops++
	d.trace = append(d.trace, what)
	if d.ops-1 == d.failAt {
		return errVInjected
	}
	return nil
}

type vConn struct {
	d  *vDB
	st *vState // staged writes of the open database transaction
}

func (c *vConn) state() *vState {
	if c.st != nil {
		return c.st
	}
	return c.d.st
}
func (c *vConn) Prepare(q string) (driver.Stmt, error) {
	if err := c.d.step("prepare " + vSQL(q)); err != nil {
		return nil, err
	}
	return &vStmt{c: c, q: q}, nil
}
func (c *vConn) PrepareContext(_ context.Context, q string) (driver.Stmt, error) { return c.Prepare(q) }
func (c *vConn) Close() error                                                    { return nil }
func (c *vConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *vConn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	if err := c.d.step("begin"); err != nil {
		return nil, err
	}
	c.st = c.d.st.clone()
	c.d.open++
	return &vTx{c}, nil
}

type vTx struct{ c *vConn }

func (t *vTx) Commit() error {
	defer func() { t.c.st = nil; t.c.d.open-- }()
	if err := t.c.d.step("commit"); err != nil {
		return err
	}
	t.c.d.st = t.c.st
	return nil
}
func (t *vTx) Rollback() error { t.c.st = nil; t.c.d.open--; t.c.d.rollback++; return nil }

type vResult struct {
	n   int64
	err error
}

func (r vResult) LastInsertId() (int64, error) { return 0, nil }
func (r vResult) RowsAffected() (int64, error) { return r.n, r.err }

func (c *vConn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err := c.d.step("exec " + vSQL(q)); err != nil {
		return nil, err
	}
	n := int64(0)
	if c.d.exec != nil {
		n, err := c.d.exec(q, args)
		return vResult{n: n}, err
	}
	rows, err := c.run(q, args)
	if err != nil {
		return nil, err
	}
	n = int64(len(rows))
	return vResult{n: n, err: c.d.step("rows affected")}, nil
}
func (c *vConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err := c.d.step("query " + vSQL(q)); err != nil {
		return nil, err
	}
	if c.d.query != nil {
		cols, rows, err := c.d.query(q, args)
		if err != nil {
			return nil, err
		}
		return &vRows{d: c.d, cols: cols, rows: rows}, nil
	}
	rs, err := c.run(q, args)
	if err != nil {
		return nil, err
	}
	cols := []string{}
	if k := strings.LastIndex(vSQL(q), "returning "); k >= 0 {
		for _, x := range strings.Split(vSQL(q)[k+len("returning "):], ",") {
			x = strings.TrimSpace(x)
			if j := strings.LastIndex(x, "."); j >= 0 {
				x = x[j+1:]
			}
			cols = append(cols, x)
		}
	}
	var out [][]driver.Value
	for _, r := range rs {
		var v []driver.Value
		for _, x := range cols {
			v = append(v, r[x])
		}
		out = append(out, v)
	}
	return &vRows{d: c.d, cols: cols, rows: out}, nil
}

type vRows struct {
	d    *vDB
	cols []string
	rows [][]driver.Value
	i    int
}

func (r *vRows) Columns() []string { return r.cols }
func (r *vRows) Close() error      { return nil }
func (r *vRows) Next(dst []driver.Value) error {
	if err := r.d.step("next row"); err != nil {
		return err
	}
	if r.i >= len(r.rows) {
		return io.EOF
	}
	copy(dst, r.rows[r.i])
	r.i++
	return nil
}

// vStmt is a prepared statement; COPY rows count only once flushed.
type vStmt struct {
	c    *vConn
	q    string
	rows []vRow
}

func (s *vStmt) NumInput() int { return -1 }
func (s *vStmt) Close() error  { return s.c.d.step("close statement") }
func (s *vStmt) Query(args []driver.Value) (driver.Rows, error) {
	return s.c.QueryContext(context.Background(), s.q, vNamed(args))
}
func (s *vStmt) Exec(args []driver.Value) (driver.Result, error) {
	q := vSQL(s.q)
	if !strings.HasPrefix(q, "copy") {
		return s.c.ExecContext(context.Background(), s.q, vNamed(args))
	}
	if err := s.c.d.step("copy row"); err != nil {
		return nil, err
	}
	m := regexp.MustCompile(`^copy ([^ ]+) \(([^)]*)\)`).FindStringSubmatch(strings.ReplaceAll(q, `"`, ""))
	if m == nil {
		return nil, fmt.Errorf("unreadable copy %q", q)
	}
	if len(args) == 0 {
		st := s.c.state()
		st.tables[m[1]] = append(st.tables[m[1]], s.rows...)
		n := int64(len(s.rows))
		s.rows = nil
		return vResult{n: n}, nil
	}
	r := vRow{}
	for i, c := range strings.Split(m[2], ",") {
		if i < len(args) {
			r[strings.TrimSpace(c)] = fmt.Sprint(args[i])
		}
	}
	s.rows = append(s.rows, r)
	return vResult{n: 1}, nil
}
func vNamed(a []driver.Value) []driver.NamedValue {
	var o []driver.NamedValue
	for i, v := range a {
		o = append(o, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return o
}

var vWS = regexp.MustCompile(`\s+`)

func vSQL(q string) string { return strings.ToLower(strings.TrimSpace(vWS.ReplaceAllString(q, " "))) }

func vArg(args []driver.NamedValue, i int) string {
	if i < 1 || i > len(args) {
		return ""
	}
	if b, ok := args[i-1].Value.([]byte); ok {
		return string(b)
	}
	return fmt.Sprint(args[i-1].Value)
}

var vParam = regexp.MustCompile(`^\$(\d+)$`)

// run executes the balance, transaction and work-item statements.
func (c *vConn) run(q string, args []driver.NamedValue) ([]vRow, error) {
	s := vSQL(q)
	st := c.state()
	switch {
	case strings.HasPrefix(s, "insert into"):
		m := regexp.MustCompile(`^insert into ([^ (]+) ?\(([^)]*)\)`).FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("unreadable insert %q", s)
		}
		cols := strings.Split(m[2], ",")
		var out []vRow
		for _, g := range regexp.MustCompile(`\(([^()]*)\)`).FindAllStringSubmatch(s[len(m[0]):], -1) {
			r := vRow{"id": strconv.Itoa(len(st.tables[m[1]]) + 1)}
			for i, v := range strings.Split(g[1], ",") {
				v = strings.TrimSpace(v)
				if p := vParam.FindStringSubmatch(v); p != nil {
					n, _ := strconv.Atoi(p[1])
					v = vArg(args, n)
				}
				if i < len(cols) {
					r[strings.TrimSpace(cols[i])] = v
				}
			}
			st.tables[m[1]] = append(st.tables[m[1]], r)
			out = append(out, r)
		}
		return out, nil
	case strings.HasPrefix(s, "update blnk.balances") && strings.Contains(s, "from (values"):
		m := regexp.MustCompile(`raw ?\(([^)]*)\)`).FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("unreadable batch update %q", s)
		}
		cols := strings.Split(m[1], ",")
		versioned := strings.Contains(s, "b.version = v.expected_version") || strings.Contains(s, "v.expected_version = b.version")
		bump := strings.Contains(s, "version = b.version + 1")
		var out []vRow
		for i := 0; i+len(cols) <= len(args); i += len(cols) {
			r := vRow{}
			for j, col := range cols {
				r[strings.TrimSpace(col)] = vArg(args, i+j+1)
			}
			b, ok := st.bal[r["balance_id"]]
			if !ok || versioned && b["version"] != r["expected_version"] {
				continue
			}
			for k, v := range r {
				if k != "expected_version" && strings.Contains(s, k+" = v."+k) {
					b[k] = v
				}
			}
			if bump {
				n, _ := strconv.Atoi(b["version"])
				b["version"] = strconv.Itoa(n + 1)
			}
			out = append(out, b)
		}
		return out, nil
	case strings.HasPrefix(s, "update blnk.balances set "):
		w := strings.Index(s, " where ")
		if w < 0 {
			return nil, fmt.Errorf("update without where %q", s)
		}
		var out []vRow
		for _, b := range st.bal {
			ok := true
			for _, cnd := range strings.Split(s[w+7:], " and ") {
				kv := strings.SplitN(cnd, "=", 2)
				if len(kv) != 2 {
					return nil, fmt.Errorf("unreadable condition %q", cnd)
				}
				v := strings.TrimSpace(kv[1])
				if p := vParam.FindStringSubmatch(v); p != nil {
					n, _ := strconv.Atoi(p[1])
					v = vArg(args, n)
				}
				ok = ok && b[strings.TrimSpace(kv[0])] == v
			}
			if !ok {
				continue
			}
			for _, a := range strings.Split(s[len("update blnk.balances set "):w], ",") {
				kv := strings.SplitN(a, "=", 2)
				k, v := strings.TrimSpace(kv[0]), strings.TrimSpace(kv[1])
				if p := vParam.FindStringSubmatch(v); p != nil {
					n, _ := strconv.Atoi(p[1])
					b[k] = vArg(args, n)
				} else if v == k+" + 1" {
					n, _ := strconv.Atoi(b[k])
					b[k] = strconv.Itoa(n + 1)
				} else {
					b[k] = v
				}
			}
			out = append(out, b)
		}
		return out, nil
	}
	return nil, fmt.Errorf("unexpected statement %q", s)
}

// has reports whether a committed row of the table carries the value.
func (d *vDB) has(table, col, val string) int {
	n := 0
	for _, r := range d.st.tables[table] {
		if r[col] == val {
			n++
		}
	}
	return n
}
func vTestBalance(id string, n int64, version int64) *model.Balance {
	return &model.Balance{BalanceID: id, Balance: big.NewInt(n), CreditBalance: big.NewInt(n + 7), DebitBalance: big.NewInt(7), InflightBalance: big.NewInt(-2), InflightCreditBalance: big.NewInt(1), InflightDebitBalance: big.NewInt(3), Currency: "USD", LedgerID: "l_" + id, Version: version}
}
func vTestTxn(i int) *model.Transaction {
	return &model.Transaction{TransactionID: fmt.Sprintf("txn_%d", i), ParentTransaction: fmt.Sprintf("p_%d", i), Source: "a", Destination: "b", Reference: fmt.Sprintf("ref_%d", i), PreciseAmount: big.NewInt(int64(100 + i)), Precision: 100, Currency: "USD", Status: "APPLIED", CreatedAt: time.Now()}
}
func vTestBox(i int) *model.LineageOutbox {
	return &model.LineageOutbox{TransactionID: fmt.Sprintf("txn_%d", i), SourceBalanceID: "a", DestinationBalanceID: "b", LineageType: "both", Payload: []byte(`{}`), MaxAttempts: 5}
}
