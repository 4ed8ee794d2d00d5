package blnk

import (
	"context"
	"encoding/json"
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/blnkfinance/blnk/model"
	"github.com/shopspring/decimal"
)

func TestVerifC19(t *testing.T) {
	d := newVDS()
	b, _ := vService(t, d, nil)
	ctx := context.Background()
	for cents := int64(1); cents < 300; cents++ {
		for _, p := range []float64{1, 100, 1000} {
			v, _ := decimal.New(cents, -2).Float64()
			m, err := b.CreateMonitor(ctx, model.BalanceMonitor{BalanceID: "x", Condition: model.AlertCondition{Value: v, Precision: p, Operator: ">", Field: "balance"}})
			want := decimal.New(cents, -2).Mul(decimal.NewFromFloat(p)).Round(0).BigInt()
			if err != nil || m.Condition.PreciseValue.Cmp(want) != 0 || m.Condition.Operator != ">" || m.Condition.Field != "balance" || m.BalanceID != "x" {
				vFail(t, "CreateMonitor value=%v precision=%v: stored %+v, want threshold %s (err %v)", v, p, m.Condition, want, err)
			}
		}
	}
	// one event per met condition
	for _, bal := range []int64{0, 5, 10} {
		d.mons = nil
		want := map[string]bool{}
		for i, op := range []string{">", "<", ">=", "<=", "==", "!=", "?", ">"} {
			thr := int64(5)
			id := fmt.Sprintf("m%d", i)
			d.mons = append(d.mons, model.BalanceMonitor{MonitorID: id, BalanceID: "y", Condition: model.AlertCondition{Operator: op, Field: "balance", PreciseValue: big.NewInt(thr)}})
			if op == ">" && bal > thr || op == "<" && bal < thr || op == ">=" && bal >= thr || op == "<=" && bal <= thr || op == "==" && bal == thr || op == "!=" && bal != thr {
				want[id] = true
			}
		}
		d.mons = append(d.mons, model.BalanceMonitor{MonitorID: "other", BalanceID: "z", Condition: model.AlertCondition{Operator: ">=", Field: "balance", PreciseValue: big.NewInt(0)}})
		b.config.Notification.Webhook.Url = "http://localhost:1/x"
		got := map[string]bool{}
		vDrain(b, "wh")
		b.checkBalanceMonitors(ctx, &model.Balance{BalanceID: "y", Balance: big.NewInt(bal), CreditBalance: new(big.Int), DebitBalance: new(big.Int), InflightBalance: new(big.Int), InflightCreditBalance: new(big.Int), InflightDebitBalance: new(big.Int)})
		for n := 0; n < 40; n++ {
			time.Sleep(10 * time.Millisecond)
			ts := vPending(b, "wh")
			got = map[string]bool{}
			for _, x := range ts {
				var h struct {
					Payload struct {
						MonitorID string `json:"monitor_id"`
					} `json:"data"`
				}
				_ = json.Unmarshal(x.Payload, &h)
				got[h.Payload.MonitorID] = true
			}
			if len(got) >= len(want) && n > 3 {
				break
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			vFail(t, "balance=%d: monitors fired %v, want %v", bal, got, want)
		}
	}
}
