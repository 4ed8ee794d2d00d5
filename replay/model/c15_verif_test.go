package model

import (
	"fmt"
	"math/big"
	"reflect"
	"testing"
	"time"
)

// vFill sets every settable field of a struct to a random value or leaves it unset.
func vFill(g *vGen, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if g.r.Intn(4) == 0 {
			return
		}
		if v.Type() == reflect.TypeOf((*big.Int)(nil)) {
			v.Set(reflect.ValueOf(g.big()))
			return
		}
		if depth > 2 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		vFill(g, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(int64(g.r.Intn(1e9)), int64(g.r.Intn(1e9))).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				vFill(g, v.Field(i), depth)
			}
		}
	case reflect.String:
		v.SetString(g.s() + g.s())
	case reflect.Bool:
		v.SetBool(g.flip())
	case reflect.Int64, reflect.Int:
		v.SetInt(int64(g.r.Intn(1000)))
	case reflect.Float64:
		v.SetFloat(g.f())
	case reflect.Slice:
		if g.r.Intn(4) == 0 {
			return
		}
		n := g.r.Intn(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			vFill(g, v.Index(i), depth+1)
		}
	case reflect.Map:
		if g.r.Intn(4) == 0 {
			return
		}
		m := map[string]interface{}{}
		for i, n := 0, g.r.Intn(4); i < n; i++ {
			m[fmt.Sprintf("%s%d", g.s(), g.r.Intn(5))] = g.s()
		}
		v.Set(reflect.ValueOf(m))
	}
}

// vScramble overwrites everything reachable through the top level of a struct, in place.
func vScramble(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Ptr:
			if b, ok := f.Interface().(*big.Int); ok && b != nil {
				b.Add(b, big.NewInt(987654321))
			}
			if tm, ok := f.Interface().(*time.Time); ok && tm != nil {
				*tm = tm.Add(time.Hour)
			}
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				f.Index(j).Set(reflect.Zero(f.Index(j).Type()))
				if f.Index(j).Kind() == reflect.String {
					f.Index(j).SetString("scrambled")
				}
				if d, ok := f.Index(j).Addr().Interface().(*Distribution); ok {
					d.Identifier = "scrambled"
				}
			}
		case reflect.Map:
			if m, ok := f.Interface().(map[string]interface{}); ok && m != nil {
				for k := range m {
					m[k] = "scrambled"
				}
				m["scrambled"] = true
			}
		case reflect.String:
			f.SetString("scrambled")
		}
	}
}

func vDump(v interface{}) string {
	s := ""
	rv := reflect.ValueOf(v).Elem()
	for i := 0; i < rv.NumField(); i++ {
		s += fmt.Sprintf("%s=%#v ", rv.Type().Field(i).Name, rv.Field(i).Interface())
	}
	return s
}

func vField(a, b interface{}) string {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	for i := 0; i < x.NumField(); i++ {
		if !reflect.DeepEqual(x.Field(i).Interface(), y.Field(i).Interface()) {
			return fmt.Sprintf("%s: %v and %v", x.Type().Field(i).Name, x.Field(i).Interface(), y.Field(i).Interface())
		}
	}
	return ""
}

func TestVerifC15(t *testing.T) {
	g := newVGen(15)
	if (*Balance)(nil).Clone() != nil || (*Transaction)(nil).Clone() != nil {
		vFail(t, "a copy of nothing is something")
	}
	for i := 0; i < 20000; i++ {
		b, b2 := &Balance{}, &Balance{}
		s := g.r.Int63()
		fill := func(v interface{}) {
			h := newVGen(s)
			vFill(h, reflect.ValueOf(v).Elem(), 0)
		}
		fill(b)
		fill(b2)
		c := b.Clone()
		if c == b {
			vFail(t, "the copy of a balance is the balance itself")
		}
		if d := vField(b, c); d != "" {
			vFail(t, "copy of a balance differs from it in %s", d)
		}
		if d := vField(b, b2); d != "" {
			vFail(t, "copying a balance changed it in %s", d)
		}
		vScramble(reflect.ValueOf(c).Elem())
		if d := vField(b2, b); d != "" {
			vFail(t, "changing the copy of a balance changed the original in %s", d)
		}
		x, x2 := &Transaction{}, &Transaction{}
		fill(x)
		fill(x2)
		y := x.Clone()
		if y == x {
			vFail(t, "the copy of a transaction is the transaction itself")
		}
		if d := vField(x, y); d != "" {
			vFail(t, "copy of a transaction differs from it in %s", d)
		}
		if d := vField(x, x2); d != "" {
			vFail(t, "copying a transaction changed it in %s", d)
		}
		vScramble(reflect.ValueOf(y).Elem())
		if d := vField(x2, x); d != "" {
			vFail(t, "changing the copy of a transaction changed the original in %s", d)
		}
		// and through the ledger's own operations
		src, dst := g.balance("src"), g.balance("dst")
		tx := g.txn(src, dst)
		s1, d1, t1 := vDumpB(src), vDumpB(dst), vdesc(tx)
		cs, cd, ct := src.Clone(), dst.Clone(), tx.Clone()
		vTry(func() error { return UpdateBalances(ct, cs, cd) })
		vTry(func() error { cs.CommitInflightDebit(ct); cd.CommitInflightCredit(ct); return nil })
		vTry(func() error {
			cs.RollbackInflightDebit(big.NewInt(5))
			cd.RollbackInflightCredit(big.NewInt(5))
			return nil
		})
		if vDumpB(src) != s1 || vDumpB(dst) != d1 || vdesc(tx) != t1 {
			vFail(t, "operating on copies changed the originals: %s -> %s, %s -> %s, %s -> %s", s1, vDumpB(src), d1, vDumpB(dst), t1, vdesc(tx))
		}
	}
}

func vDumpB(b *Balance) string { return vdesc(&Transaction{}, b) }
