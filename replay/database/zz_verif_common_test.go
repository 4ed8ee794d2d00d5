package database

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/blnkfinance/blnk/model"
	"github.com/shopspring/decimal"
	"github.com/sirupsen/logrus"
)

func init() { logrus.SetLevel(logrus.PanicLevel) }

func vInts() []*big.Int {
	var out []*big.Int
	for _, s := range []string{"0", "1", "2", "3", "4", "5", "7", "9", "10", "28", "29", "50", "99", "100", "101", "115", "150", "200", "250", "500", "999", "1000", "1005", "9007199254740993", "9223372036854775807", "9223372036854775808", "100000000000000000000", "-1", "-5", "-100"} {
		n, _ := new(big.Int).SetString(s, 10)
		out = append(out, n)
	}
	for _, h := range strings.Split(os.Getenv("VERIF_HINTS"), ",") {
		h = strings.TrimSuffix(h, ".0")
		if n, ok := new(big.Int).SetString(h, 10); ok {
			for _, d := range []int64{-1, 0, 1} {
				out = append(out, new(big.Int).Add(n, big.NewInt(d)))
			}
		}
	}
	return out
}
func vFloats() []float64 {
	out := []float64{0, 0.01, 0.29, 0.5, 1, 1.005, 1.15, 1.5, 2, 2.5, 3, 10, 99.99, 100, 101, 1000, 1e6, 1e17, 3e19, -1, -0.5, 0.001, 0.1, 0.005, 0.004}
	for _, h := range strings.Split(os.Getenv("VERIF_HINTS"), ",") {
		if f, err := strconv.ParseFloat(h, 64); err == nil && f < 1e25 {
			out = append(out, f, f+1, f-1)
		}
	}
	return out
}
func vStrs(base ...string) []string {
	out := append([]string{}, base...)
	for _, h := range strings.Split(os.Getenv("VERIF_STRS"), "\x01") {
		if u, err := strconv.Unquote(h); err == nil {
			h = u
		}
		if h != "" {
			out = append(out, h)
		}
	}
	return out
}

type vGen struct {
	r  *rand.Rand
	is []*big.Int
	fs []float64
	ss []string
}

func newVGen(seed int64) *vGen {
	return &vGen{rand.New(rand.NewSource(seed)), vInts(), vFloats(), vStrs("", "a", "b")}
}
func (g *vGen) big() *big.Int {
	if g.r.Intn(3) == 0 {
		return big.NewInt(int64(g.r.Intn(400)))
	}
	return new(big.Int).Set(g.is[g.r.Intn(len(g.is))])
}
func (g *vGen) nnbig() *big.Int { b := g.big(); return b.Abs(b) }
func (g *vGen) f() float64 {
	if g.r.Intn(4) == 0 {
		return float64(g.r.Intn(40000)) / 100
	}
	return g.fs[g.r.Intn(len(g.fs))]
}
func (g *vGen) s() string  { return g.ss[g.r.Intn(len(g.ss))] }
func (g *vGen) flip() bool { return g.r.Intn(2) == 0 }
func (g *vGen) balance(id string) *model.Balance {
	b := &model.Balance{BalanceID: id, Currency: "USD", Version: int64(g.r.Intn(5))}
	if g.r.Intn(8) == 0 {
		if g.flip() {
			return b
		}
		// consistent but partially unset
		b.CreditBalance = g.nnbig()
		b.Balance = new(big.Int).Set(b.CreditBalance)
		return b
	}
	b.CreditBalance, b.DebitBalance = g.nnbig(), g.nnbig()
	b.InflightCreditBalance, b.InflightDebitBalance = g.nnbig(), g.nnbig()
	b.Balance = new(big.Int).Sub(b.CreditBalance, b.DebitBalance)
	b.InflightBalance = new(big.Int).Sub(b.InflightCreditBalance, b.InflightDebitBalance)
	if g.r.Intn(3) == 0 {
		b.QueuedDebitBalance, b.QueuedCreditBalance = g.nnbig(), g.nnbig()
	}
	return b
}
func (g *vGen) txn(src, dst *model.Balance) *model.Transaction {
	t := &model.Transaction{TransactionID: "txn_1", Reference: "ref_1", Currency: "USD", Source: src.BalanceID, Destination: dst.BalanceID, Inflight: g.flip(), AllowOverdraft: g.flip()}
	switch g.r.Intn(4) {
	case 0:
	case 1:
		t.Precision = 1
	case 2:
		t.Precision = []float64{100, 10, 1000, 1e6, 1e8, 2.5, 100}[g.r.Intn(7)]
	case 3:
		f := g.f()
		if f > 0 {
			t.Precision = f
		}
	}
	switch g.r.Intn(3) {
	case 0:
		t.PreciseAmount = g.big()
	case 1:
		t.Amount = g.f()
	case 2:
		t.PreciseAmount, t.Amount = g.nnbig(), g.f()
	}
	if g.r.Intn(3) == 0 {
		t.OverdraftLimit = g.f()
	}
	switch g.r.Intn(6) {
	case 0:
		t.Status = "QUEUED"
	case 1:
		t.Status = "APPLIED"
	case 2:
		t.Status = "INFLIGHT"
	case 3:
		t.Status = "COMMIT"
	case 4:
		t.Status = g.s()
	}
	if g.r.Intn(4) == 0 {
		t.MetaData = map[string]interface{}{g.s(): g.s()}
	}
	if g.r.Intn(6) == 0 {
		t.ParentTransaction = "txn_0"
	}
	if g.r.Intn(6) == 0 {
		t.Atomic = true
	}
	if g.r.Intn(6) == 0 {
		t.SkipQueue = true
	}
	// make exact-boundary amounts likely
	if g.r.Intn(3) == 0 && src.Balance != nil {
		av := vAvail(src)
		d := big.NewInt(int64(g.r.Intn(3) - 1))
		a := new(big.Int).Add(av, d)
		if t.OverdraftLimit > 0 && g.flip() {
			p := t.Precision
			if p == 0 {
				p = 1
			}
			a.Add(a, vRound(t.OverdraftLimit, p))
		}
		if a.Sign() > 0 {
			t.PreciseAmount = a
		}
	}
	return t
}
func vz(b *big.Int) *big.Int {
	if b == nil {
		return new(big.Int)
	}
	return b
}
func vAvail(b *model.Balance) *big.Int {
	a := new(big.Int).Sub(vz(b.Balance), vz(b.InflightDebitBalance))
	return a.Sub(a, vz(b.QueuedDebitBalance))
}
func vRound(a, p float64) *big.Int {
	return decimal.NewFromFloat(a).Mul(decimal.NewFromFloat(p)).Round(0).BigInt()
}
func vAmount(t *model.Transaction) *big.Int {
	if vz(t.PreciseAmount).Sign() > 0 {
		return new(big.Int).Set(t.PreciseAmount)
	}
	p := t.Precision
	if p == 0 {
		p = 1
	}
	return vRound(t.Amount, p)
}

type vSnap struct {
	c, d, b, ic, id, ib, qd, qc *big.Int
}

func vcp(b *big.Int) *big.Int {
	if b == nil {
		return nil
	}
	return new(big.Int).Set(b)
}
func vsnap(b *model.Balance) vSnap {
	return vSnap{vcp(b.CreditBalance), vcp(b.DebitBalance), vcp(b.Balance), vcp(b.InflightCreditBalance), vcp(b.InflightDebitBalance), vcp(b.InflightBalance), vcp(b.QueuedDebitBalance), vcp(b.QueuedCreditBalance)}
}
func vdiff(after, before *big.Int) *big.Int { return new(big.Int).Sub(vz(after), vz(before)) }
func vdesc(t *model.Transaction, b ...*model.Balance) string {
	s := fmt.Sprintf("txn{amount=%v precise=%v precision=%v inflight=%v overdraft=%v limit=%v status=%q meta=%v parent=%q atomic=%v}", t.Amount, t.PreciseAmount, t.Precision, t.Inflight, t.AllowOverdraft, t.OverdraftLimit, t.Status, t.MetaData, t.ParentTransaction, t.Atomic)
	for _, x := range b {
		s += fmt.Sprintf(" %s{credit=%v debit=%v balance=%v heldcredit=%v helddebit=%v inflight=%v queueddebit=%v queuedcredit=%v}", x.BalanceID, x.CreditBalance, x.DebitBalance, x.Balance, x.InflightCreditBalance, x.InflightDebitBalance, x.InflightBalance, x.QueuedDebitBalance, x.QueuedCreditBalance)
	}
	return s
}
func vFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Println("VERIF-FAIL " + fmt.Sprintf(f, a...))
	t.FailNow()
}

// vTry runs f, reporting a panic as an error text.
func vTry(f func() error) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
		}
	}()
	return f(), ""
}
