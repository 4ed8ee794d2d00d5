package model

import (
	"math/big"
	"testing"
)

func TestVerifC01(t *testing.T) {
	g := newVGen(1)
	for i := 0; i < 300000; i++ {
		src, dst := g.balance("src"), g.balance("dst")
		tx := g.txn(src, dst)
		desc := vdesc(tx, src, dst)
		hold := tx.Inflight
		want := vAmount(tx)
		s0, d0 := vsnap(src), vsnap(dst)
		err, pan := vTry(func() error { return UpdateBalances(tx, src, dst) })
		if pan != "" {
			vFail(t, "UpdateBalances panics (%s) on %s", pan, desc)
		}
		s1, d1 := vsnap(src), vsnap(dst)
		ds, dd := vdiff(s1.d, s0.d), vdiff(d1.c, d0.c)
		hs, hd := vdiff(s1.id, s0.id), vdiff(d1.ic, d0.ic)
		rest := vdiff(s1.c, s0.c).Sign() != 0 || vdiff(s1.ic, s0.ic).Sign() != 0 || vdiff(d1.d, d0.d).Sign() != 0 || vdiff(d1.id, d0.id).Sign() != 0 ||
			vdiff(s1.qd, s0.qd).Sign() != 0 || vdiff(s1.qc, s0.qc).Sign() != 0 || vdiff(d1.qd, d0.qd).Sign() != 0 || vdiff(d1.qc, d0.qc).Sign() != 0
		if rest {
			vFail(t, "a total that must not move moved: before %s after %s", desc, vdesc(tx, src, dst))
		}
		if err != nil {
			if ds.Sign() != 0 || dd.Sign() != 0 || hs.Sign() != 0 || hd.Sign() != 0 {
				vFail(t, "refused (%v) but balances changed: before %s after %s", err, desc, vdesc(tx, src, dst))
			}
			continue
		}
		if tx.Inflight != hold {
			vFail(t, "inflight flag changed on %s", desc)
		}
		a := tx.PreciseAmount
		if a.Cmp(want) != 0 {
			vFail(t, "amount recorded %s, requested %s on %s", a, want, desc)
		}
		z := a.Sign()
		if z <= 0 {
			vFail(t, "accepted amount %s on %s", a, desc)
		}
		if hold && (hs.Cmp(a) != 0 || hd.Cmp(a) != 0 || ds.Sign() != 0 || dd.Sign() != 0) || !hold && (ds.Cmp(a) != 0 || dd.Cmp(a) != 0 || hs.Sign() != 0 || hd.Sign() != 0) {
			vFail(t, "not an exact double entry of %s: before %s after %s", a, desc, vdesc(tx, src, dst))
		}
		// The same two balances take part in further transactions: nothing they
		// hold may be shared with an earlier transaction or with one another.
		if i%3 == 0 {
			back := g.r.Intn(2) == 0
			t2 := g.txn(src, dst)
			a1 := vcp(tx.PreciseAmount)
			s2, d2 := src, dst
			if back {
				s2, d2 = dst, src
			}
			x0, y0 := vsnap(s2), vsnap(d2)
			desc2 := vdesc(t2, s2, d2)
			err, pan := vTry(func() error { return UpdateBalances(t2, s2, d2) })
			if pan != "" {
				vFail(t, "UpdateBalances panics (%s) on %s", pan, desc2)
			}
			if tx.PreciseAmount.Cmp(a1) != 0 {
				vFail(t, "applying a second transaction (%s) changed the amount of the first from %s to %s", desc2, a1, tx.PreciseAmount)
			}
			want := new(big.Int)
			if err == nil {
				want = vcp(t2.PreciseAmount)
			}
			x1, y1 := vsnap(s2), vsnap(d2)
			wd, wh := want, new(big.Int)
			if t2.Inflight {
				wd, wh = wh, wd
			}
			if vdiff(x1.d, x0.d).Cmp(wd) != 0 || vdiff(x1.id, x0.id).Cmp(wh) != 0 || vdiff(y1.c, y0.c).Cmp(wd) != 0 || vdiff(y1.ic, y0.ic).Cmp(wh) != 0 ||
				vdiff(x1.c, x0.c).Sign() != 0 || vdiff(x1.ic, x0.ic).Sign() != 0 || vdiff(y1.d, y0.d).Sign() != 0 || vdiff(y1.id, y0.id).Sign() != 0 {
				vFail(t, "second transaction on the same balances is not an exact double entry (%v): before %s after %s", err, desc2, vdesc(t2, s2, d2))
			}
		}
	}
}
