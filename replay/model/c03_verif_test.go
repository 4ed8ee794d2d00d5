package model

import "testing"

func TestVerifC03(t *testing.T) {
	g := newVGen(4)
	for i := 0; i < 300000; i++ {
		src, dst := g.balance("src"), g.balance("dst")
		tx := g.txn(src, dst)
		if tx.OverdraftLimit < 0 {
			tx.OverdraftLimit = -tx.OverdraftLimit
		}
		desc := vdesc(tx, src, dst)
		amt, avail := vAmount(tx), vAvail(src)
		p := tx.Precision
		if p == 0 {
			p = 1
		}
		ok := tx.AllowOverdraft && tx.OverdraftLimit == 0 || avail.Cmp(amt) >= 0
		if tx.OverdraftLimit > 0 && vdiff(amt, avail).Cmp(vRound(tx.OverdraftLimit, p)) <= 0 {
			ok = true
		}
		ok = ok && amt.Sign() > 0 && (tx.Amount >= 0 || vz(tx.PreciseAmount).Sign() > 0)
		err, pan := vTry(func() error { return UpdateBalances(tx, src, dst) })
		if pan != "" {
			vFail(t, "panic %s on %s", pan, desc)
		}
		if ok != (err == nil) {
			vFail(t, "available %s amount %s: expected accepted=%v, got %v on %s", avail, amt, ok, err, desc)
		}
	}
}
