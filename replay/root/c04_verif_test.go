package blnk

import (
	"context"
	"math/big"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC04(t *testing.T) {
	g := newVGen(6)
	l := &Blnk{}
	for i := 0; i < 100000; i++ {
		src, dst := g.balance("src"), g.balance("dst")
		tx := g.txn(src, dst)
		commit := g.flip()
		tx.Status = StatusVoid
		if commit {
			tx.Status = StatusCommit
		}
		hs, hd := vz(src.InflightDebitBalance), vz(dst.InflightCreditBalance)
		if g.flip() {
			m := hs
			if hd.Cmp(hs) < 0 {
				m = hd
			}
			if a := new(big.Int).Sub(m, big.NewInt(int64(g.r.Intn(2)))); a.Sign() > 0 {
				tx.PreciseAmount = a
			}
		}
		if !commit && tx.PreciseAmount == nil {
			continue
		}
		am := vAmount(tx)
		if !commit {
			am = new(big.Int).Set(tx.PreciseAmount)
		}
		hs, hd = new(big.Int).Set(hs), new(big.Int).Set(hd)
		desc := vdesc(tx, src, dst)
		s0, d0 := vsnap(src), vsnap(dst)
		err, pan := vTry(func() error {
			return l.applyTransactionToBalances(context.Background(), []*model.Balance{src, dst}, tx)
		})
		if pan != "" {
			vFail(t, "panic %s on %s", pan, desc)
		}
		if (err == nil) != (am.Cmp(hs) <= 0 && am.Cmp(hd) <= 0) {
			vFail(t, "amount %s, held %s/%s: got %v on %s", am, hs, hd, err, desc)
		}
		if err != nil {
			continue
		}
		s1, d1 := vsnap(src), vsnap(dst)
		neg, st := new(big.Int).Neg(am), new(big.Int)
		if commit {
			st = am
		}
		z := new(big.Int)
		for _, e := range [][2]*big.Int{{vdiff(s1.id, s0.id), neg}, {vdiff(d1.ic, d0.ic), neg}, {vdiff(s1.d, s0.d), st}, {vdiff(d1.c, d0.c), st},
			{vdiff(s1.c, s0.c), z}, {vdiff(s1.ic, s0.ic), z}, {vdiff(d1.d, d0.d), z}, {vdiff(d1.id, d0.id), z}, {vdiff(s1.qd, s0.qd), z}, {vdiff(d1.qc, d0.qc), z}} {
			if e[0].Cmp(e[1]) != 0 {
				vFail(t, "%s of %s: before %s after %s", tx.Status, am, desc, vdesc(tx, src, dst))
			}
		}
	}
}
