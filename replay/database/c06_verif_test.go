package database

import (
	"context"
	"fmt"
	"strconv"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

// Every entry point, with every step of it failing in turn: all stored, or an error and nothing stored.
func TestVerifC06(t *testing.T) {
	type op struct {
		name    string
		run     func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error
		b, t, o int
	}
	ctx := context.Background()
	ops := []op{
		{"RecordTransactionWithBalances", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			_, err := ds.RecordTransactionWithBalances(ctx, ts[0], bs[0], bs[1])
			return err
		}, 2, 1, 0},
		{"RecordTransactionWithBalancesAndOutbox", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			_, err := ds.RecordTransactionWithBalancesAndOutbox(ctx, ts[0], bs[0], bs[1], os[0])
			return err
		}, 2, 1, 1},
		{"RecordTransactionWithBalancesAndOutbox(no work)", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			_, err := ds.RecordTransactionWithBalancesAndOutbox(ctx, ts[0], bs[0], bs[1], nil)
			return err
		}, 2, 1, 0},
		{"UpdateBalances", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			return ds.UpdateBalances(ctx, bs[0], bs[1])
		}, 2, 0, 0},
		{"RecordTransactionsWithBalancesAndOutboxes", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			_, err := ds.RecordTransactionsWithBalancesAndOutboxes(ctx, ts[:2], bs[0], bs[1], os[:2])
			return err
		}, 2, 2, 2},
		{"RecordTransactionsWithBalanceSetAndOutboxes", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			_, err := ds.RecordTransactionsWithBalanceSetAndOutboxes(ctx, ts, append([]*model.Balance{bs[0], nil, bs[1], bs[0]}, bs[2:]...), []*model.LineageOutbox{os[0], nil, os[1], os[2]})
			return err
		}, 4, 3, 3},
		{"RecordTransactionsWithBalanceSetAndOutboxes(no work)", func(ds *Datasource, bs []*model.Balance, ts []*model.Transaction, os []*model.LineageOutbox) error {
			_, err := ds.RecordTransactionsWithBalanceSetAndOutboxes(ctx, ts, bs, nil)
			return err
		}, 4, 3, 0},
	}
	for _, o := range ops {
		steps := 0
		for fail := -1; fail < steps || fail == -1; fail++ {
			for stale := -1; stale < 4; stale++ {
				if stale >= 0 && fail >= 0 {
					continue
				}
				d, ds := newVDB()
				var bs []*model.Balance
				var ts []*model.Transaction
				var os []*model.LineageOutbox
				for i, id := range []string{"a", "b", "c", "d"} {
					v := int64(3 + i)
					bs = append(bs, vTestBalance(id, int64(50+i), v))
					if i == stale {
						v++
					}
					d.st.bal[id] = vRow{"balance_id": id, "version": strconv.FormatInt(v, 10), "balance": "old"}
				}
				for i := 0; i < 3; i++ {
					ts, os = append(ts, vTestTxn(i)), append(os, vTestBox(i))
				}
				d.failAt = fail
				err := o.run(ds, bs, ts, os)
				if fail == -1 && stale == -1 {
					steps = d.ops
				}
				what := fmt.Sprintf("%s with step %d failing and balance %d stale (steps: %v)", o.name, fail, stale, d.trace)
				nb := 0
				for i, id := range []string{"a", "b", "c", "d"} {
					r := d.st.bal[id]
					if r["balance"] != "old" {
						nb++
						b := bs[i]
						if r["balance"] != b.Balance.String() || r["credit_balance"] != b.CreditBalance.String() || r["debit_balance"] != b.DebitBalance.String() || r["inflight_balance"] != b.InflightBalance.String() || r["inflight_credit_balance"] != b.InflightCreditBalance.String() || r["inflight_debit_balance"] != b.InflightDebitBalance.String() {
							vFail(t, "%s: balance %s stored as %v", what, id, r)
						}
					}
				}
				nt, no := 0, 0
				for _, x := range ts {
					k := 0
					for _, r := range d.st.tables["blnk.transactions"] {
						if r["transaction_id"] == x.TransactionID {
							k++
							if r["precise_amount"] != x.PreciseAmount.String() || r["source"] != x.Source || r["destination"] != x.Destination || r["reference"] != x.Reference || r["status"] != x.Status || r["parent_transaction"] != x.ParentTransaction || r["currency"] != x.Currency {
								vFail(t, "%s: transaction stored as %v", what, r)
							}
						}
					}
					nt += k
					no += d.has("blnk.lineage_outbox", "transaction_id", x.TransactionID)
				}
				if err == nil && (nb != o.b || nt != o.t || no != o.o) {
					vFail(t, "%s: success reported, but stored %d of %d balances, %d of %d transactions, %d of %d work items", what, nb, o.b, nt, o.t, no, o.o)
				}
				if err != nil && (nb != 0 || nt != 0 || no != 0) {
					vFail(t, "%s: error %v reported, but stored %d balances, %d transactions, %d work items", what, err, nb, nt, no)
				}
				if err != nil && fail == -1 && (stale == -1 || stale >= o.b) {
					vFail(t, "%s: refused although nothing failed: %v", what, err)
				}
				if d.open != 0 {
					vFail(t, "%s: database transaction left open", what)
				}
				ds.Conn.Close()
			}
		}
	}
}
