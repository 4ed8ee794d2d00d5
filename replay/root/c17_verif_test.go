package blnk

import (
	"context"
	"encoding/json"
	"math/big"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC17(t *testing.T) {
	ctx := context.Background()
	l := &Blnk{}
	big1, _ := new(big.Int).SetString("99999999999999999999999999", 10)
	for _, status := range []string{StatusQueued, StatusApplied, StatusScheduled, StatusCommit, StatusVoid, StatusRejected, StatusInflight, ""} {
		for _, infl := range []bool{false, true} {
			for _, parent := range []string{"", "txn_p"} {
				for _, meta := range []map[string]interface{}{nil, {}, {"inflight": true}, {LineageProviderKey: "stripe"}, {LineageProviderKey: "stripe", "inflight": true}, {LineageProviderKey: ""}, {LineageProviderKey: 5}} {
					for k := 0; k < 4; k++ {
						for _, amt := range []*big.Int{big.NewInt(0), big.NewInt(1), big1} {
							src := &model.Balance{BalanceID: "bln_s", TrackFundLineage: k&1 != 0}
							dst := &model.Balance{BalanceID: "bln_d", TrackFundLineage: k&2 != 0}
							m := map[string]interface{}(nil)
							if meta != nil {
								m = map[string]interface{}{}
								for a, b := range meta {
									m[a] = b
								}
							}
							tx := &model.Transaction{TransactionID: "txn_1", ParentTransaction: parent, Status: status, Inflight: infl, MetaData: m, PreciseAmount: new(big.Int).Set(amt), Precision: 100, Amount: 1, Currency: "USD", Reference: "r"}
							desc := vJSON(tx)
							w, skip := l.buildTransactionExecutionWork(ctx, tx, src, dst)
							settled := status == StatusQueued || status == StatusApplied || status == StatusScheduled || infl
							p, _ := meta[LineageProviderKey].(string)
							want := amt.Sign() != 0 && settled && status != StatusCommit && (src.TrackFundLineage || dst.TrackFundLineage && p != "")
							if skip != (amt.Sign() == 0) {
								vFail(t, "%s: discarded=%v", desc, skip)
							}
							if (w.outbox != nil) != want {
								vFail(t, "%s, inflight %v, source tracked %v, destination tracked %v: lineage work present %v, expected %v", desc, infl, src.TrackFundLineage, dst.TrackFundLineage, w.outbox != nil, want)
							}
							if w.outbox != nil {
								var pl LineageOutboxPayload
								_ = json.Unmarshal(w.outbox.Payload, &pl)
								ty := map[int]string{1: "debit", 2: "credit", 3: "both"}[k]
								if k == 3 && p == "" {
									ty = "debit"
								}
								if w.outbox.TransactionID != "txn_1" || w.outbox.SourceBalanceID != "bln_s" || w.outbox.DestinationBalanceID != "bln_d" || pl.PreciseAmount != amt.String() || pl.Currency != "USD" || pl.Inflight != infl || w.outbox.Inflight != infl || w.outbox.LineageType != ty {
									vFail(t, "%s: lineage work %s", desc, vJSON(w.outbox))
								}
							}
						}
					}
				}
			}
		}
	}
	// End to end: one work item per movement, none for the settlement of a hold.
	d := newVDS()
	a := d.addBal("bln_a", "USD", 1000, 0, 0, 0)
	a.TrackFundLineage = true
	d.addBal("bln_b", "USD", 0, 0, 0, 0)
	s, _ := vService(t, d, nil)
	for i, queuedHold := range []bool{false, true} {
		n := len(d.outbox)
		tx := &model.Transaction{TransactionID: "txn_h" + string(rune('0'+i)), Reference: "h" + string(rune('0'+i)), Source: "bln_a", Destination: "bln_b", Currency: "USD", Amount: 5, Precision: 1, Inflight: true, Status: StatusQueued, MetaData: map[string]interface{}{"inflight": true}}
		if queuedHold {
			tx.ParentTransaction = "txn_queued"
		}
		r, err := s.RecordTransaction(ctx, tx)
		if err != nil {
			t.Skip("hold not recorded: ", err)
		}
		if len(d.outbox) != n+1 || d.outbox[n].TransactionID != r.TransactionID {
			vFail(t, "recording the hold %s (parent %q) stored %d work items", r.TransactionID, tx.ParentTransaction, len(d.outbox)-n)
		}
		if _, err := s.CommitInflightTransaction(ctx, r.TransactionID, big.NewInt(0)); err != nil {
			t.Skip("hold not committed: ", err)
		}
		for _, o := range d.outbox[n+1:] {
			if o.LineageType != model.LineageTypeShadowCommit {
				vFail(t, "committing the hold %s stored another work item %s", r.TransactionID, vJSON(o))
			}
		}
	}
}
