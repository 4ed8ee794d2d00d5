package database

import (
	"context"
	"database/sql/driver"
	"errors"
	"testing"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC10(t *testing.T) {
	ctx := context.Background()
	o := &model.Transaction{TransactionID: "o", Source: "a", Destination: "b"}
	for _, parent := range []string{"o", "x", ""} {
		for _, src := range []string{"a", "b"} {
			for _, dst := range []string{"a", "b"} {
				for _, st := range []string{"APPLIED", "QUEUED", "INFLIGHT", "VOID", "SCHEDULED"} {
					d, ds := newVDB()
					rows := []map[string]string{vRowT("o", "", "a", "b", "APPLIED", "5"), vRowT("c", parent, src, dst, st, "5")}
					d.query = vExists(rows)
					got, err := ds.IsTransactionRefunded(ctx, o)
					if want := parent == "o" && src == "b" && dst == "a"; err != nil || got != want {
						vFail(t, "IsTransactionRefunded of o(a->b) with stored child parent=%q %s->%s %s: got %v, %v", parent, src, dst, st, got, err)
					}
				}
			}
		}
	}
	d, ds := newVDB()
	d.query = func(string, []driver.NamedValue) ([]string, [][]driver.Value, error) {
		return nil, nil, errors.New("down")
	}
	if _, err := ds.IsTransactionRefunded(ctx, o); err == nil {
		vFail(t, "IsTransactionRefunded hides a read failure")
	}
}
