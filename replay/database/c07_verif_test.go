package database

import (
	"context"
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"testing"

	"github.com/blnkfinance/blnk/internal/apierror"
	"github.com/blnkfinance/blnk/model"
)

func TestVerifC07(t *testing.T) {
	ctx := context.Background()
	check := func(what string, d *vDB, bs []*model.Balance, first []bool, before []int64, stale bool, err error, rest []int64) {
		if stale {
			var api apierror.APIError
			if err == nil {
				vFail(t, "%s: a stale write was accepted", what)
			} else if !errors.As(err, &api) || api.Code != apierror.ErrConflict {
				vFail(t, "%s: a stale write was refused without a conflict error: %v", what, err)
			}
		} else if err != nil {
			vFail(t, "%s: a current write was refused: %v", what, err)
		}
		for i, b := range bs {
			if b == nil || b.BalanceID == "" {
				continue
			}
			n, _ := strconv.ParseInt(d.st.bal[b.BalanceID]["version"], 10, 64)
			if !stale && first[i] && (b.Version != before[i]+1 || n != before[i]+1) {
				vFail(t, "%s: %s was read at version %d; after the update the memory holds %d and the store %d", what, b.BalanceID, before[i], b.Version, n)
			}
			if !stale && first[i] && d.st.bal[b.BalanceID]["credit_balance"] != b.CreditBalance.String() {
				vFail(t, "%s: %s stored as %v", what, b.BalanceID, d.st.bal[b.BalanceID])
			}
			if stale && n != rest[i] {
				vFail(t, "%s: refused, yet the stored version of %s moved from %d to %d", what, b.BalanceID, rest[i], n)
			}
		}
	}
	for _, n := range []int{1, 2, 3, 4, 5, 999, 1000, 1001, 2001} {
		masks := 1 << n
		if n > 5 {
			masks = 6
		}
		for mask := 0; mask < masks; mask++ {
			for _, batch := range []bool{false, true} {
				if !batch && n != 2 {
					continue
				}
				d, ds := newVDB()
				var bs []*model.Balance
				var before, rest []int64
				var first []bool
				stale := false
				for i := 0; i < n; i++ {
					id := fmt.Sprintf("bln_%d", i)
					v := int64(i % 4)
					b := vTestBalance(id, int64(i), v)
					b.CreditBalance = big.NewInt(int64(5000 + i))
					st := v
					bad := n <= 5 && mask>>i&1 == 1 || n > 5 && mask > 0 && i == []int{-1, 0, n - 1, n / 2, 999, 998}[mask]
					if bad {
						stale = true
						st = v + int64(1-2*(i%2))
					}
					d.st.bal[id] = vRow{"balance_id": id, "version": strconv.FormatInt(st, 10)}
					bs, before, first, rest = append(bs, b), append(before, v), append(first, true), append(rest, st)
				}
				if batch && n <= 5 { // repeated and absent members are written once
					bs, before, first, rest = append(bs, bs[0], nil), append(before, before[0], 0), append(first, true, false), append(rest, rest[0], 0)
				}
				var err error
				if batch {
					_, err = ds.RecordTransactionsWithBalanceSetAndOutboxes(ctx, []*model.Transaction{vTestTxn(1)}, bs, nil)
				} else {
					err = ds.UpdateBalances(ctx, bs[0], bs[1])
				}
				check(fmt.Sprintf("n=%d mask=%b batch=%v", n, mask, batch), d, bs, first, before, stale, err, rest)
				if stale && batch {
					for i, b := range bs {
						if b != nil && b.Version != before[i] {
							vFail(t, "n=%d mask=%b: refused batch, yet %s in memory moved from version %d to %d", n, mask, b.BalanceID, before[i], b.Version)
						}
					}
				}
				if stale && !batch && bs[0].Version != before[0] && mask&1 == 1 {
					vFail(t, "mask=%b: refused update, yet the in-memory version moved from %d to %d", mask, before[0], bs[0].Version)
				}
				if stale && !batch && mask&2 == 2 && bs[1].Version != before[1] {
					vFail(t, "mask=%b: refused update, yet the in-memory version moved from %d to %d", mask, before[1], bs[1].Version)
				}
				ds.Conn.Close()
			}
		}
	}
}
