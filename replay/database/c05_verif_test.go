package database

import (
	"context"
	"database/sql/driver"
	"errors"
	"math/big"
	"strings"
	"testing"
)

func TestVerifC05(t *testing.T) {
	ctx := context.Background()
	var rows []map[string]string
	d, ds := newVDB()
	d.query = func(q string, args []driver.NamedValue) ([]string, [][]driver.Value, error) {
		s := vSelectRows(q, args, rows)
		if strings.Contains(strings.ToLower(q), "exists") {
			return []string{"e"}, [][]driver.Value{{len(s) > 0}}, nil
		}
		if len(s) == 0 {
			return []string{"t"}, nil, nil
		}
		sum := new(big.Int)
		col := "precise_amount"
		if !strings.Contains(vSQL(q), "sum(precise_amount)") {
			col = "transaction_id"
		}
		for _, r := range s {
			n, _ := new(big.Int).SetString(r[col], 10)
			if n != nil {
				sum.Add(sum, n)
			}
		}
		return []string{"t"}, [][]driver.Value{{sum.String()}}, nil
	}
	big40 := "1000000000000000000000000000000000000000"
	for _, s1 := range []string{"APPLIED", "INFLIGHT", "VOID", "QUEUED", "REJECTED", "COMMIT"} {
		for _, s2 := range []string{"APPLIED", "INFLIGHT", "VOID", "QUEUED"} {
			for _, p1 := range []string{"h", "x"} {
				for _, p2 := range []string{"h", ""} {
					rows = []map[string]string{vRowT("h", "", "a", "b", "INFLIGHT", "100"), vRowT("c", p1, "a", "b", s1, "7"), vRowT("e", p2, "a", "b", s2, big40)}
					want, void := new(big.Int), false
					for _, r := range rows {
						if r["parent_transaction"] == "h" && r["status"] == "APPLIED" {
							n, _ := new(big.Int).SetString(r["precise_amount"], 10)
							want.Add(want, n)
						}
						void = void || r["parent_transaction"] == "h" && r["status"] == "VOID"
					}
					if got, err := ds.GetTotalCommittedTransactions(ctx, "h"); err != nil || got.Cmp(want) != 0 {
						vFail(t, "committed of h over %v: got %v, %v; want %v", rows, got, err, want)
					}
					if got, err := ds.IsParentTransactionVoid(ctx, "h"); err != nil || got != void {
						vFail(t, "voided h over %v: got %v, %v; want %v", rows, got, err, void)
					}
				}
			}
		}
	}
	d.query = func(string, []driver.NamedValue) ([]string, [][]driver.Value, error) {
		return nil, nil, errors.New("down")
	}
	if _, err := ds.GetTotalCommittedTransactions(ctx, "h"); err == nil {
		vFail(t, "GetTotalCommittedTransactions hides a read failure")
	}
	if _, err := ds.IsParentTransactionVoid(ctx, "h"); err == nil {
		vFail(t, "IsParentTransactionVoid hides a read failure")
	}
}
