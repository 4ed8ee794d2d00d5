package model

import (
	"math/big"
	"testing"
)

func TestVerifC19(t *testing.T) {
	g := newVGen(8)
	fields := vStrs("debit_balance", "credit_balance", "balance", "inflight_debit_balance", "inflight_credit_balance", "inflight_balance", "", "x", "queued_debit_balance")
	ops := vStrs(">", "<", ">=", "<=", "==", "!=", "", "=", "~")
	for i := 0; i < 300000; i++ {
		b := g.balance("b")
		b.InitializeBalanceFields()
		m := &BalanceMonitor{BalanceID: "b", Condition: AlertCondition{Field: fields[g.r.Intn(len(fields))], Operator: ops[g.r.Intn(len(ops))], PreciseValue: g.big()}}
		v := map[string]*big.Int{"debit_balance": b.DebitBalance, "credit_balance": b.CreditBalance, "balance": b.Balance, "inflight_debit_balance": b.InflightDebitBalance, "inflight_credit_balance": b.InflightCreditBalance, "inflight_balance": b.InflightBalance}[m.Condition.Field]
		if v != nil && g.r.Intn(3) == 0 {
			m.Condition.PreciseValue.Set(v)
		}
		want := false
		if v != nil {
			c := v.Cmp(m.Condition.PreciseValue)
			switch m.Condition.Operator {
			case ">":
				want = c > 0
			case "<":
				want = c < 0
			case ">=":
				want = c >= 0
			case "<=":
				want = c <= 0
			case "==":
				want = c == 0
			case "!=":
				want = c != 0
			}
		}
		s0 := vsnap(b)
		got := m.CheckCondition(b)
		s1 := vsnap(b)
		if got != want {
			vFail(t, "monitor %s %s %s on %s: fires=%v", m.Condition.Field, m.Condition.Operator, m.Condition.PreciseValue, vdesc(&Transaction{}, b), got)
		}
		if vdiff(s0.c, s1.c).Sign() != 0 || vdiff(s0.d, s1.d).Sign() != 0 || vdiff(s0.b, s1.b).Sign() != 0 || vdiff(s0.ic, s1.ic).Sign() != 0 || vdiff(s0.id, s1.id).Sign() != 0 || vdiff(s0.ib, s1.ib).Sign() != 0 {
			vFail(t, "checking a condition changed the balance")
		}
	}
}
