package blnk

import (
	"context"

	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC10(t *testing.T) {
	ctx := context.Background()
	n := 0
	for _, status := range []string{StatusApplied, StatusVoid, StatusQueued, StatusInflight, StatusRejected, StatusScheduled, StatusCommit, ""} {
		for _, skip := range []bool{true, false} {
			for _, prec := range []float64{1, 100, 1000000} {
				for _, opt := range []int{0, 1, 2} {
					n++
					d := newVDS()
					d.addBal("bln_a", "USD", 100000, 0, 0, 0)
					d.addBal("bln_b", "USD", 100000, 0, 0, 0)
					l, _ := vService(t, d, nil)
					orig := &model.Transaction{TransactionID: fmt.Sprintf("txn_o%d", n), Reference: "r0", Source: "bln_a", Destination: "bln_b", Currency: "USD",
						PreciseAmount: big.NewInt(777), Amount: 777 / prec, Precision: prec, Status: status, Description: "d", MetaData: map[string]interface{}{"k": "v", "x": 1.0}}
					opts := RefundOptions{SkipQueue: skip}
					if opt > 0 {
						opts.Description = "other"
						opts.MetaData = map[string]interface{}{"k": "w", "n": "m"}
					}
					if opt == 2 {
						orig.MetaData = nil
					}
					before := vJSON(orig)
					pr := prepareRefundTransaction(orig, opts)
					if vJSON(orig) != before {
						vFail(t, "preparing a refund changed the original: %s -> %s", before, vJSON(orig))
					}
					if pr.Source != "bln_b" || pr.Destination != "bln_a" || pr.ParentTransaction != orig.TransactionID || pr.PreciseAmount.Int64() != 777 || pr.Precision != prec || pr.Currency != "USD" || pr.Amount != 777/prec {
						vFail(t, "refund of %s prepared as %s", before, vJSON(pr))
					}
					if p2 := prepareRefundTransaction(orig, RefundOptions{}); p2.Reference != pr.Reference {
						vFail(t, "two refunds of %s use references %s and %s", orig.TransactionID, pr.Reference, p2.Reference)
					}
					d.txns = append(d.txns, orig)
					rows := len(d.txns)
					r, err := l.RefundTransactionWithOptions(ctx, orig.TransactionID, opts)
					if (err == nil) != (status == StatusApplied || status == StatusVoid) {
						vFail(t, "refund of a transaction in status %q: %v", status, err)
					}
					if err != nil {
						if len(d.txns) != rows {
							vFail(t, "refused refund of status %q (%v) stored %s", status, err, vJSON(d.txns[rows:]))
						}
						continue
					}
					c := d.txns[len(d.txns)-1]
					for _, x := range []*model.Transaction{r, c} {
						if x.Source != "bln_b" || x.Destination != "bln_a" || x.ParentTransaction != orig.TransactionID || x.PreciseAmount.Int64() != 777 || x.Precision != prec || x.Currency != "USD" {
							vFail(t, "refund of %s is %s", before, vJSON(x))
						}
					}
					rows = len(d.txns)
					for _, again := range []RefundOptions{opts, {SkipQueue: true}, {}} {
						if r2, err := l.RefundTransactionWithOptions(ctx, orig.TransactionID, again); err == nil || len(d.txns) != rows {
							vFail(t, "second refund of %s accepted: %s", orig.TransactionID, vJSON(r2))
						}
					}
				}
			}
		}
	}
	// failures of the already-refunded check must refuse, and concurrent refunds yield one.
	d := newVDS()
	d.addBal("bln_a", "USD", 100000, 0, 0, 0)
	d.addBal("bln_b", "USD", 100000, 0, 0, 0)
	l, _ := vService(t, d, nil)
	mk := func(id string) {
		d.txns = append(d.txns, &model.Transaction{TransactionID: id, Reference: "r_" + id, Source: "bln_a", Destination: "bln_b", Currency: "USD", PreciseAmount: big.NewInt(5), Amount: 5, Precision: 1, Status: StatusApplied})
	}
	mk("txn_e")
	d.fail["IsTransactionRefunded"] = fmt.Errorf("down")
	if _, err := l.RefundTransactionWithOptions(ctx, "txn_e", RefundOptions{SkipQueue: true}); err == nil {
		vFail(t, "refund accepted although the already-refunded check failed")
	}
	delete(d.fail, "IsTransactionRefunded")
	if _, err := l.RefundTransactionWithOptions(ctx, "txn_none", RefundOptions{}); err == nil {
		vFail(t, "refund of an unknown transaction accepted")
	}
	for i := 0; i < 20; i++ {
		id := fmt.Sprintf("txn_p%d", i)
		mk(id)
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, _ = l.RefundTransactionWithOptions(ctx, id, RefundOptions{SkipQueue: true})
			}()
		}
		wg.Wait()
		c := 0
		for _, x := range d.txns {
			if x.ParentTransaction == id {
				c++
			}
		}
		if c > 1 {
			vFail(t, "%d refunds of %s", c, id)
		}
	}
}
