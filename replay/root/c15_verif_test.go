package blnk

import (
	"reflect"
	"testing"
	"time"

	"github.com/blnkfinance/blnk/model"
)

func TestVerifC15(t *testing.T) {
	g := newVGen(15)
	for i := 0; i < 3000; i++ {
		n := g.r.Intn(4)
		var ts, keep []*model.Transaction
		for j := 0; j < n; j++ {
			x := g.txn(g.balance("a"), g.balance("b"))
			if g.flip() {
				tm := time.Unix(int64(i), 0)
				x.EffectiveDate = &tm
			}
			x.Sources = []model.Distribution{{Identifier: g.s()}}
			ts = append(ts, x)
			keep = append(keep, x.Clone())
		}
		cs := cloneTransactionsForAsync(ts)
		if len(cs) != len(ts) {
			vFail(t, "%d transactions copied to %d", len(ts), len(cs))
		}
		for j := range cs {
			if cs[j] == ts[j] || !reflect.DeepEqual(cs[j], ts[j]) || !reflect.DeepEqual(ts[j], keep[j]) {
				vFail(t, "copy of %s is %s", vdesc(keep[j]), vdesc(cs[j]))
			}
			cs[j].Status, cs[j].Amount = "CHANGED", cs[j].Amount+1
			if cs[j].MetaData != nil {
				for k := range cs[j].MetaData {
					cs[j].MetaData[k] = "changed"
				}
				cs[j].MetaData["changed"] = 1
			}
			if cs[j].EffectiveDate != nil {
				*cs[j].EffectiveDate = time.Now()
			}
			if !reflect.DeepEqual(ts[j], keep[j]) {
				vFail(t, "changing the copy changed the original %s to %s", vdesc(keep[j]), vdesc(ts[j]))
			}
		}
	}
}
