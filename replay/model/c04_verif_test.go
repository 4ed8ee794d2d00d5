package model

import (
	"math/big"
	"testing"
)

func TestVerifC04(t *testing.T) {
	g := newVGen(5)
	for i := 0; i < 300000; i++ {
		b := g.balance("b")
		tx := g.txn(b, b)
		am := vAmount(tx)
		debit := g.flip()
		held := vz(b.InflightCreditBalance)
		if debit {
			held = vz(b.InflightDebitBalance)
		}
		if g.r.Intn(3) == 0 && held.Sign() > 0 {
			am = new(big.Int).Add(held, big.NewInt(int64(g.r.Intn(3)-1)))
			if am.Sign() > 0 {
				tx.PreciseAmount = am
			} else {
				am = vAmount(tx)
			}
		}
		held = new(big.Int).Set(held)
		am = new(big.Int).Set(am)
		commit := g.flip()
		s0 := vsnap(b)
		desc := vdesc(tx, b)
		err, pan := vTry(func() error {
			switch {
			case commit && debit:
				return b.CommitInflightDebit(tx)
			case commit:
				return b.CommitInflightCredit(tx)
			case debit:
				return b.RollbackInflightDebit(am)
			}
			return b.RollbackInflightCredit(am)
		})
		if pan != "" {
			vFail(t, "panic %s on %s", pan, desc)
		}
		s1 := vsnap(b)
		if (err == nil) != (am.Cmp(held) <= 0) {
			vFail(t, "commit=%v debit=%v amount %s of %s held: got %v on %s", commit, debit, am, held, err, desc)
		}
		mv, st := new(big.Int), new(big.Int)
		if err == nil {
			mv.Neg(am)
			if commit {
				st.Set(am)
			}
		}
		z := new(big.Int)
		exp := [][2]*big.Int{{vdiff(s1.id, s0.id), z}, {vdiff(s1.d, s0.d), z}, {vdiff(s1.ic, s0.ic), z}, {vdiff(s1.c, s0.c), z}, {vdiff(s1.qd, s0.qd), z}, {vdiff(s1.qc, s0.qc), z}}
		if debit {
			exp[0][1], exp[1][1] = mv, st
		} else {
			exp[2][1], exp[3][1] = mv, st
		}
		for _, e := range exp {
			if e[0].Cmp(e[1]) != 0 {
				vFail(t, "commit=%v debit=%v amount %s (err %v): before %s after %s", commit, debit, am, err, desc, vdesc(tx, b))
			}
		}
		if err != nil && (vdiff(s1.b, s0.b).Sign() != 0 || vdiff(s1.ib, s0.ib).Sign() != 0) {
			vFail(t, "refused but changed: before %s after %s", desc, vdesc(tx, b))
		}
	}
}
