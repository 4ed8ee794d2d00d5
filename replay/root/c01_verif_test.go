package blnk

import (
	"context"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC01(t *testing.T) {
	g := newVGen(2)
	l := &Blnk{}
	for i := 0; i < 60000; i++ {
		src, dst := g.balance("src"), g.balance("dst")
		tx := g.txn(src, dst)
		if tx.Status == StatusCommit || tx.Status == StatusVoid {
			tx.Status = StatusApplied
		}
		desc := vdesc(tx, src, dst)
		hold := tx.Inflight
		want := vAmount(tx)
		s0, d0 := vsnap(src), vsnap(dst)
		err, pan := vTry(func() error {
			return l.applyTransactionToBalances(context.Background(), []*model.Balance{src, dst}, tx)
		})
		if pan != "" {
			vFail(t, "applyTransactionToBalances panics (%s) on %s", pan, desc)
		}
		s1, d1 := vsnap(src), vsnap(dst)
		ds, dd := vdiff(s1.d, s0.d), vdiff(d1.c, d0.c)
		hs, hd := vdiff(s1.id, s0.id), vdiff(d1.ic, d0.ic)
		if vdiff(s1.c, s0.c).Sign() != 0 || vdiff(s1.ic, s0.ic).Sign() != 0 || vdiff(d1.d, d0.d).Sign() != 0 || vdiff(d1.id, d0.id).Sign() != 0 {
			vFail(t, "a total that must not move moved: before %s after %s", desc, vdesc(tx, src, dst))
		}
		if err != nil {
			if ds.Sign() != 0 || dd.Sign() != 0 || hs.Sign() != 0 || hd.Sign() != 0 {
				vFail(t, "refused (%v) but balances changed: before %s after %s", err, desc, vdesc(tx, src, dst))
			}
			continue
		}
		a := want
		if a.Sign() <= 0 || hold && (hs.Cmp(a) != 0 || hd.Cmp(a) != 0 || ds.Sign() != 0 || dd.Sign() != 0) || !hold && (ds.Cmp(a) != 0 || dd.Cmp(a) != 0 || hs.Sign() != 0 || hd.Sign() != 0) {
			vFail(t, "not an exact double entry of %s: before %s after %s", a, desc, vdesc(tx, src, dst))
		}
	}
}
