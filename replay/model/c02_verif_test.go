package model

import (
	"math/big"
	"testing"
)

func vCons(b *Balance) (bool, bool) {
	return vz(b.Balance).Cmp(new(big.Int).Sub(vz(b.CreditBalance), vz(b.DebitBalance))) == 0,
		vz(b.InflightBalance).Cmp(new(big.Int).Sub(vz(b.InflightCreditBalance), vz(b.InflightDebitBalance))) == 0
}

func TestVerifC02(t *testing.T) {
	g := newVGen(3)
	for i := 0; i < 200000; i++ {
		src, dst := g.balance("src"), g.balance("dst")
		if g.flip() { // each identity is preserved on its own
			if g.flip() && src.Balance != nil {
				src.Balance = g.nnbig()
			} else if dst.InflightBalance != nil {
				dst.InflightBalance = g.nnbig()
			}
		}
		tx := g.txn(src, dst)
		desc := vdesc(tx, src, dst)
		a1, b1 := vCons(src)
		a2, b2 := vCons(dst)
		op := g.r.Intn(5)
		am := g.nnbig()
		err, pan := vTry(func() error {
			switch op {
			case 0:
				return src.CommitInflightDebit(tx)
			case 1:
				return dst.CommitInflightCredit(tx)
			case 2:
				return src.RollbackInflightDebit(am)
			case 3:
				return dst.RollbackInflightCredit(am)
			}
			return UpdateBalances(tx, src, dst)
		})
		if pan != "" {
			vFail(t, "operation %d panics (%s) on %s", op, pan, desc)
		}
		c1, e1 := vCons(src)
		c2, e2 := vCons(dst)
		if a1 && !c1 || b1 && !e1 || a2 && !c2 || b2 && !e2 {
			vFail(t, "operation %d (err %v) leaves a balance that is not credits minus debits: before %s after %s", op, err, desc, vdesc(tx, src, dst))
		}
	}
}
