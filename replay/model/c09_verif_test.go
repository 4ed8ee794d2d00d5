package model

import (
	"math"
	"math/big"
	"testing"

	"github.com/shopspring/decimal"
)

func TestVerifC09(t *testing.T) {
	g := newVGen(7)
	for i := 0; i < 300000; i++ {
		b := g.balance("b")
		tx := g.txn(b, b)
		p := tx.Precision
		if p == 0 {
			p = 1
		}
		given := new(big.Int).Set(vz(tx.PreciseAmount))
		am := tx.Amount
		want := vAmount(tx)
		desc := vdesc(tx)
		var r *big.Int
		which := "ApplyPrecision"
		_, pan := vTry(func() error {
			if i%2 == 0 {
				r = ApplyPrecision(tx)
			} else {
				which = "ApplyPrecisionWithDBLookup"
				r = ApplyPrecisionWithDBLookup(tx, nil)
			}
			return nil
		})
		if pan != "" {
			vFail(t, "%s panics (%s) on %s", which, pan, desc)
		}
		if r == nil || tx.PreciseAmount == nil || r.Cmp(tx.PreciseAmount) != 0 || r.Cmp(want) != 0 {
			vFail(t, "%s gives %v (stored %v), expected %s on %s", which, r, tx.PreciseAmount, want, desc)
		}
		if tx.Precision != p {
			vFail(t, "%s: precision %v on %s", which, tx.Precision, desc)
		}
		if given.Sign() > 0 {
			q, _ := decimal.NewFromBigInt(given, 0).Div(decimal.NewFromFloat(p)).Float64()
			if math.Abs(tx.Amount-q) > 1e-15*math.Abs(q)+1e-16 {
				vFail(t, "%s: decimal amount %v, expected %v on %s", which, tx.Amount, q, desc)
			}
		} else if tx.Amount != am {
			vFail(t, "%s: decimal amount changed to %v on %s", which, tx.Amount, desc)
		}
	}
}
