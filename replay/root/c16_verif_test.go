package blnk

import (
	"context"
	"fmt"
	"math/big"
	"sort"
	"testing"
	"time"

	"github.com/blnkfinance/blnk/model"
)

// Allocations over small and large holdings, all strategies; holdings come
// from shadow balances through getLineageSources.
func TestVerifC16(t *testing.T) {
	g := newVGen(16)
	base := time.Unix(1700000000, 0)
	for i := 0; i < 6000; i++ {
		d := newVDS()
		l := &Blnk{datasource: d}
		n := g.r.Intn(6)
		if i%50 == 0 {
			n = 10 + g.r.Intn(60)
		}
		var ms []model.LineageMapping
		avail := map[string]*big.Int{}
		made := map[string]time.Time{}
		sum := new(big.Int)
		perm := g.r.Perm(n)
		for j := 0; j < n; j++ {
			id := fmt.Sprintf("s%d", j)
			deb, cred := big.NewInt(int64(g.r.Intn(8))), big.NewInt(int64(g.r.Intn(4)))
			if i%3 == 0 {
				deb, cred = g.nnbig(), g.nnbig()
				if deb == nil || deb.Sign() < 0 {
					deb = big.NewInt(5)
				}
				if cred == nil || cred.Sign() < 0 {
					cred = new(big.Int)
				}
				if g.flip() {
					cred = new(big.Int)
				}
			}
			b := d.addBal(id, "USD", 0, 0, 0, 0)
			b.DebitBalance, b.CreditBalance = new(big.Int).Set(deb), new(big.Int).Set(cred)
			m := model.LineageMapping{BalanceID: "x", ShadowBalanceID: id, Provider: id, CreatedAt: base.Add(time.Duration(perm[j]) * time.Minute)}
			if g.r.Intn(12) == 0 {
				delete(d.bal, id)
				cred = deb
			}
			ms = append(ms, m)
			if a := new(big.Int).Sub(deb, cred); a.Sign() > 0 {
				avail[id], made[id] = a, m.CreatedAt
				sum.Add(sum, a)
			}
		}
		src, err := l.getLineageSources(context.Background(), ms)
		if err != nil {
			vFail(t, "sources: %v", err)
		}
		if len(src) != len(avail) {
			vFail(t, "%d tracked funds are available, %d offered", len(avail), len(src))
		}
		for _, s := range src {
			if avail[s.BalanceID] == nil || s.Balance.Cmp(avail[s.BalanceID]) != 0 {
				vFail(t, "source %s offers %v of %v", s.BalanceID, s.Balance, avail[s.BalanceID])
			}
		}
		amt := big.NewInt(int64(g.r.Intn(20)) - 1)
		if i%3 == 0 && g.flip() {
			amt = new(big.Int).Add(sum, big.NewInt(int64(g.r.Intn(5)-2)))
		} else if i%3 == 0 {
			if amt = g.nnbig(); amt == nil {
				amt = new(big.Int)
			}
		}
		for _, st := range []string{AllocationFIFO, AllocationLIFO, AllocationProp, ""} {
			ss := append([]LineageSource(nil), src...)
			for k := range ss {
				ss[k].Balance = new(big.Int).Set(ss[k].Balance)
			}
			in := new(big.Int).Set(amt)
			r := l.calculateAllocation(ss, in, st)
			what := func() string {
				o := fmt.Sprintf("strategy %q amount %v sources", st, amt)
				for _, m := range ms {
					o += fmt.Sprintf(" %s:%v@%d", m.ShadowBalanceID, avail[m.ShadowBalanceID], m.CreatedAt.Unix()-base.Unix())
				}
				o += " allocated"
				for _, a := range r {
					o += fmt.Sprintf(" %s:%v", a.BalanceID, a.Amount)
				}
				return o
			}
			if in.Cmp(amt) != 0 {
				vFail(t, "the requested amount was changed from %v to %v", amt, in)
			}
			want := new(big.Int)
			if amt.Sign() > 0 {
				want.Set(amt)
				if want.Cmp(sum) > 0 {
					want.Set(sum)
				}
			}
			got := new(big.Int)
			take := map[string]*big.Int{}
			for _, a := range r {
				if a.Amount == nil || a.Amount.Sign() <= 0 {
					vFail(t, "non-positive allocation: %s", what())
				}
				if take[a.BalanceID] != nil {
					vFail(t, "source allocated twice: %s", what())
				}
				if avail[a.BalanceID] == nil || a.Amount.Cmp(avail[a.BalanceID]) > 0 {
					vFail(t, "more than the source holds: %s", what())
				}
				take[a.BalanceID] = a.Amount
				got.Add(got, a.Amount)
			}
			if got.Cmp(want) != 0 {
				vFail(t, "allocated %v, should be %v: %s", got, want, what())
			}
			if st == AllocationProp {
				for id, a := range avail {
					if sum.Sign() == 0 || want.Sign() == 0 {
						break
					}
					q := new(big.Int).Mul(want, a)
					q.Div(q, sum)
					x := take[id]
					if x == nil {
						x = new(big.Int)
					}
					diff := new(big.Int).Sub(x, q)
					if diff.CmpAbs(big.NewInt(int64(len(avail)))) > 0 {
						vFail(t, "%s gets %v, its share is %v: %s", id, x, q, what())
					}
				}
				continue
			}
			ids := make([]string, 0, len(avail))
			for id := range avail {
				ids = append(ids, id)
			}
			sort.Slice(ids, func(a, b int) bool {
				if st == AllocationLIFO {
					return made[ids[a]].After(made[ids[b]])
				}
				return made[ids[a]].Before(made[ids[b]])
			})
			rest := new(big.Int).Set(want)
			for _, id := range ids {
				x := new(big.Int).Set(avail[id])
				if x.Cmp(rest) > 0 {
					x.Set(rest)
				}
				y := take[id]
				if y == nil {
					y = new(big.Int)
				}
				if x.Cmp(y) != 0 {
					vFail(t, "order broken at %s: %s", id, what())
				}
				rest.Sub(rest, x)
			}
		}
	}
}
