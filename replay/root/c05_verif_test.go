package blnk

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC05(t *testing.T) {
	ctx := context.Background()
	r := rand.New(rand.NewSource(5))
	d := newVDS()
	l, _ := vService(t, d, nil)
	kids := func(h string) (com *big.Int, voids, n int) {
		com = new(big.Int)
		for _, x := range d.txns {
			if x.ParentTransaction == h {
				n++
				if x.Status == StatusApplied {
					com.Add(com, x.PreciseAmount)
				} else if x.Status == StatusVoid {
					voids++
				}
			}
		}
		return
	}
	mk := func(i int, status string, inflightMeta interface{}, auth *big.Int, prec float64) string {
		h := fmt.Sprintf("txn_h%d", i)
		a, b := fmt.Sprintf("bln_a%d", i), fmt.Sprintf("bln_b%d", i)
		for _, id := range []string{a, b} {
			x := d.addBal(id, "USD", 1, 1, 0, 0)
			huge, _ := new(big.Int).SetString("1000000000000000000000000000000000000", 10)
			x.InflightCreditBalance.Set(huge)
			x.InflightDebitBalance.Set(huge)
		}
		m := map[string]interface{}{}
		if inflightMeta != nil {
			m["inflight"] = inflightMeta
		}
		f, _ := new(big.Float).Quo(new(big.Float).SetInt(auth), big.NewFloat(prec)).Float64()
		d.txns = append(d.txns, &model.Transaction{TransactionID: h, Reference: "r_" + h, Source: a, Destination: b, Currency: "USD", PreciseAmount: new(big.Int).Set(auth),
			Amount: f, Precision: prec, Status: status, MetaData: m})
		return h
	}
	large, _ := new(big.Int).SetString("123456789012345678901234567890", 10)
	for i := 0; i < 500; i++ {
		auth := big.NewInt(int64(1 + r.Intn(5)))
		if r.Intn(3) == 0 {
			auth = large
		}
		prec := []float64{1, 100, 1e8}[r.Intn(3)]
		status, meta := StatusInflight, interface{}(nil)
		switch r.Intn(6) {
		case 0:
			status, meta = StatusQueued, true
		case 1:
			status = []string{StatusQueued, StatusApplied, StatusVoid, StatusRejected}[r.Intn(4)]
			meta = []interface{}{nil, false, "true"}[r.Intn(3)]
		}
		isHold := status == StatusInflight || status == StatusQueued && meta == true
		h := mk(i, status, meta, auth, prec)
		if r.Intn(5) == 0 { // a settlement recorded by other means, possibly beyond what was authorised
			extra := big.NewInt(int64(r.Intn(8)))
			d.txns = append(d.txns, &model.Transaction{TransactionID: h + "x", Reference: "rx_" + h, ParentTransaction: h, Status: StatusApplied, PreciseAmount: extra, Precision: 1, Amount: 1})
		}
		hist := fmt.Sprintf("hold of %s (precision %v, status %s, inflight %v)", auth, prec, status, meta)
		for k := 0; k < 6; k++ {
			com, voids, n := kids(h)
			left := new(big.Int).Sub(auth, com)
			persists := d.persists
			d.fail = map[string]error{}
			if r.Intn(12) == 0 {
				f := []string{"GetTotalCommittedTransactions", "IsParentTransactionVoid"}[r.Intn(2)]
				d.fail[f] = errors.New("down")
				hist += "; " + f + " fails"
			}
			commit := r.Intn(3) > 0
			amt := new(big.Int)
			var res *model.Transaction
			var err error
			if commit {
				switch r.Intn(6) {
				case 1:
					amt.Set(auth)
				case 2:
					amt.Add(left, big.NewInt(int64(r.Intn(3)-1)))
				case 3:
					amt.SetInt64(-int64(1 + r.Intn(3)))
				case 4, 5:
					amt.SetInt64(int64(1 + r.Intn(3)))
				}
				hist += fmt.Sprintf("; commit %s", amt)
				want := new(big.Int).Set(amt)
				if amt.Sign() == 0 {
					want.Set(left)
				}
				ok := isHold && voids == 0 && left.Sign() > 0 && want.Sign() > 0 && want.Cmp(left) <= 0 && len(d.fail) == 0
				res, err = l.CommitInflightTransactionWithRef(ctx, h, amt, "")
				amt = want
				if (err == nil) != ok {
					vFail(t, "%s: remaining %s, got %v", hist, left, err)
				}
			} else {
				hist += "; void"
				ok := isHold && voids == 0 && left.Sign() > 0 && len(d.fail) == 0
				res, err = l.VoidInflightTransactionWithRef(ctx, h, "")
				amt.Set(left)
				if (err == nil) != ok {
					vFail(t, "%s: remaining %s, got %v", hist, left, err)
				}
			}
			_, _, n2 := kids(h)
			if err != nil {
				if n2 != n || d.persists != persists {
					vFail(t, "%s: refused (%v) but something was recorded", hist, err)
				}
				continue
			}
			c := d.txns[len(d.txns)-1]
			st := StatusVoid
			if commit {
				st = StatusApplied
			}
			if n2 != n+1 || c.ParentTransaction != h || c.Status != st || c.PreciseAmount.Cmp(amt) != 0 || res.PreciseAmount.Cmp(amt) != 0 {
				vFail(t, "%s: recorded %s, expected %s of %s", hist, vJSON(c), st, amt)
			}
		}
	}
	d.fail = map[string]error{}
	for i := 1000; i < 1015; i++ {
		h := mk(i, StatusInflight, nil, big.NewInt(10), 1)
		var wg sync.WaitGroup
		for k := 0; k < 5; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				if k == 4 {
					_, _ = l.VoidInflightTransactionWithRef(ctx, h, "")
				} else {
					_, _ = l.CommitInflightTransactionWithRef(ctx, h, big.NewInt(6), "")
				}
			}(k)
		}
		wg.Wait()
		com, voids, _ := kids(h)
		tot := new(big.Int).Set(com)
		for _, x := range d.txns {
			if x.ParentTransaction == h && x.Status == StatusVoid {
				tot.Add(tot, x.PreciseAmount)
			}
		}
		if com.Cmp(big.NewInt(10)) > 0 || voids > 1 || tot.Cmp(big.NewInt(10)) > 0 {
			vFail(t, "concurrent commits of 6 and a void on a hold of 10: committed %s, voids %d, total %s", com, voids, tot)
		}
	}
}
