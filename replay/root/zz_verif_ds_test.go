package blnk

import (
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/apierror"
	"github.com/blnkfinance/blnk/internal/hooks"
	"github.com/blnkfinance/blnk/model"
	"github.com/hibiken/asynq"
)

// vDS: an in-memory data source that behaves like the Postgres one for the
// operations the service layer relies on (unique references, versioned
// balances, atomic persistence).
type vDS struct {
	database.IDataSource
	mu       sync.Mutex
	bal      map[string]*model.Balance
	txns     []*model.Transaction
	outbox   []*model.LineageOutbox
	mons     []model.BalanceMonitor
	mappings []model.LineageMapping
	idents   map[string]*model.Identity
	persists int
	writes   int
	fail     map[string]error
	// onPersist is called (without the lock) before a transaction is stored with balances.
	onPersist func(txns []*model.Transaction, bals []*model.Balance, out []*model.LineageOutbox) error
	queued    map[string]*big.Int // queued debit totals reported by GetBalanceByID(withQueued)
	seq       int
}

func newVDS() *vDS {
	return &vDS{bal: map[string]*model.Balance{}, fail: map[string]error{}, idents: map[string]*model.Identity{}, queued: map[string]*big.Int{}}
}
func vCopyT(t *model.Transaction) *model.Transaction {
	b, _ := json.Marshal(t.MetaData)
	c := t.Clone()
	c.MetaData = nil
	_ = json.Unmarshal(b, &c.MetaData)
	// columns only
	c.Inflight, c.AllowOverdraft, c.SkipQueue, c.Atomic, c.OverdraftLimit = false, false, false, false, 0
	c.Sources, c.Destinations = nil, nil
	return c
}
func (d *vDS) err(n string) error { return d.fail[n] }
func (d *vDS) addBal(id, cur string, credit, debit, hc, hd int64) *model.Balance {
	b := &model.Balance{BalanceID: id, Currency: cur, LedgerID: "l", Version: 1,
		CreditBalance: big.NewInt(credit), DebitBalance: big.NewInt(debit), Balance: big.NewInt(credit - debit),
		InflightCreditBalance: big.NewInt(hc), InflightDebitBalance: big.NewInt(hd), InflightBalance: big.NewInt(hc - hd)}
	d.bal[id] = b
	return b
}
func (d *vDS) CreateBalance(b model.Balance) (model.Balance, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.writes++
	d.seq++
	b.BalanceID = fmt.Sprintf("bln_%d", d.seq)
	b.Version = 1
	b.InitializeBalanceFields()
	d.bal[b.BalanceID] = b.Clone()
	return b, nil
}
func (d *vDS) GetBalanceByIDLite(id string) (*model.Balance, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if e := d.err("GetBalance"); e != nil {
		return nil, e
	}
	b := d.bal[id]
	if b == nil {
		return nil, fmt.Errorf("balance with ID '%s' not found", id)
	}
	return b.Clone(), nil
}
func (d *vDS) GetBalanceByID(id string, inc []string, q bool) (*model.Balance, error) {
	b, err := d.GetBalanceByIDLite(id)
	if err == nil && q {
		b.QueuedDebitBalance, b.QueuedCreditBalance = new(big.Int), new(big.Int)
		if v := d.queued[id]; v != nil {
			b.QueuedDebitBalance.Set(v)
		}
	}
	return b, err
}
func (d *vDS) GetBalancesByIDsLite(ctx context.Context, ids []string) (map[string]*model.Balance, error) {
	out := map[string]*model.Balance{}
	for _, id := range ids {
		if b, err := d.GetBalanceByIDLite(id); err == nil {
			out[id] = b
		}
	}
	return out, nil
}
func (d *vDS) GetBalanceByIndicator(ind, cur string) (*model.Balance, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, b := range d.bal {
		if b.Indicator == ind && b.Currency == cur {
			return b.Clone(), nil
		}
	}
	return nil, fmt.Errorf("not found")
}
func (d *vDS) GetSourceDestination(s, t string) ([]*model.Balance, error) {
	a, e1 := d.GetBalanceByIDLite(s)
	b, e2 := d.GetBalanceByIDLite(t)
	if e1 != nil || e2 != nil {
		return nil, errors.New("not found")
	}
	return []*model.Balance{a, b}, nil
}
func (d *vDS) hasRef(r string) bool {
	for _, t := range d.txns {
		if t.Reference == r {
			return true
		}
	}
	return false
}
func (d *vDS) TransactionExistsByRef(ctx context.Context, r string) (bool, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.hasRef(r), d.err("TransactionExistsByRef")
}
func (d *vDS) GetExistingTransactionReferences(ctx context.Context, rs []string) (map[string]struct{}, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	out := map[string]struct{}{}
	for _, r := range rs {
		if d.hasRef(r) {
			out[r] = struct{}{}
		}
	}
	return out, d.err("GetExistingTransactionReferences")
}
func (d *vDS) insert(ts []*model.Transaction) error {
	seen := map[string]bool{}
	for _, t := range ts {
		if t == nil || t.PreciseAmount == nil {
			return errors.New("nil transaction or precise amount")
		}
		if d.hasRef(t.Reference) || seen[t.Reference] {
			return errors.New(`duplicate key value violates unique constraint "transactions_reference_key"`)
		}
		seen[t.Reference] = true
	}
	for _, t := range ts {
		d.txns = append(d.txns, vCopyT(t))
	}
	return nil
}
func (d *vDS) RecordTransaction(ctx context.Context, t *model.Transaction) (*model.Transaction, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.writes++
	if e := d.err("RecordTransaction"); e != nil {
		return nil, e
	}
	if err := d.insert([]*model.Transaction{t}); err != nil {
		return nil, err
	}
	return t, nil
}
func (d *vDS) RecordTransactionsWithBalanceSetAndOutboxes(ctx context.Context, ts []*model.Transaction, bs []*model.Balance, out []*model.LineageOutbox) ([]*model.Transaction, error) {
	if d.onPersist != nil {
		if err := d.onPersist(ts, bs, out); err != nil {
			return nil, err
		}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.writes++
	d.persists++
	if e := d.err("Persist"); e != nil {
		return nil, e
	}
	upd := map[string]bool{}
	for _, b := range bs {
		cur := d.bal[b.BalanceID]
		if cur == nil || cur.Version != b.Version || upd[b.BalanceID] {
			return nil, apierror.NewAPIError(apierror.ErrConflict, fmt.Sprintf("Optimistic locking failure: balance with ID '%s' may have been updated", b.BalanceID), nil)
		}
		upd[b.BalanceID] = true
	}
	if err := d.insert(ts); err != nil {
		return nil, err
	}
	for _, b := range bs {
		b.Version++
		d.bal[b.BalanceID] = b.Clone()
	}
	for _, o := range out {
		if o != nil {
			d.outbox = append(d.outbox, o)
		}
	}
	return ts, nil
}
func (d *vDS) RecordTransactionsWithBalancesAndOutboxes(ctx context.Context, ts []*model.Transaction, s, t *model.Balance, out []*model.LineageOutbox) ([]*model.Transaction, error) {
	return d.RecordTransactionsWithBalanceSetAndOutboxes(ctx, ts, []*model.Balance{s, t}, out)
}
func (d *vDS) RecordTransactionWithBalancesAndOutbox(ctx context.Context, t *model.Transaction, s, dst *model.Balance, o *model.LineageOutbox) (*model.Transaction, error) {
	r, err := d.RecordTransactionsWithBalanceSetAndOutboxes(ctx, []*model.Transaction{t}, []*model.Balance{s, dst}, []*model.LineageOutbox{o})
	if err != nil {
		return nil, err
	}
	return r[0], nil
}
func (d *vDS) RecordTransactionWithBalances(ctx context.Context, t *model.Transaction, s, dst *model.Balance) (*model.Transaction, error) {
	return d.RecordTransactionWithBalancesAndOutbox(ctx, t, s, dst, nil)
}
func (d *vDS) sel(f func(t *model.Transaction) bool) []*model.Transaction {
	d.mu.Lock()
	defer d.mu.Unlock()
	var out []*model.Transaction
	for _, t := range d.txns {
		if f(t) {
			out = append(out, vCopyT(t))
		}
	}
	return out
}
func (d *vDS) GetTransaction(ctx context.Context, id string) (*model.Transaction, error) {
	if e := d.err("GetTransaction"); e != nil {
		return nil, e
	}
	for _, t := range d.sel(func(t *model.Transaction) bool { return t.TransactionID == id }) {
		return t, nil
	}
	return nil, apierror.NewAPIError(apierror.ErrNotFound, fmt.Sprintf("Transaction with ID '%s' not found", id), sql.ErrNoRows)
}
func (d *vDS) GetTransactionByRef(ctx context.Context, ref string) (model.Transaction, error) {
	for _, t := range d.sel(func(t *model.Transaction) bool { return t.Reference == ref }) {
		return *t, nil
	}
	return model.Transaction{}, apierror.NewAPIError(apierror.ErrNotFound, "not found", sql.ErrNoRows)
}
func (d *vDS) IsParentTransactionVoid(ctx context.Context, id string) (bool, error) {
	if e := d.err("IsParentTransactionVoid"); e != nil {
		return false, e
	}
	return len(d.sel(func(t *model.Transaction) bool { return t.ParentTransaction == id && t.Status == "VOID" })) > 0, nil
}
func (d *vDS) GetTotalCommittedTransactions(ctx context.Context, id string) (*big.Int, error) {
	if e := d.err("GetTotalCommittedTransactions"); e != nil {
		return nil, e
	}
	s := new(big.Int)
	for _, t := range d.sel(func(t *model.Transaction) bool { return t.ParentTransaction == id && t.Status == "APPLIED" }) {
		s.Add(s, t.PreciseAmount)
	}
	return s, nil
}
func vmeta(t *model.Transaction, k string) string {
	if t.MetaData == nil {
		return ""
	}
	s, _ := t.MetaData[k].(string)
	return s
}
func vpage(ts []*model.Transaction, n int, off int64) []*model.Transaction {
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].CreatedAt.After(ts[j].CreatedAt) })
	if int(off) >= len(ts) {
		return nil
	}
	ts = ts[off:]
	if len(ts) > n {
		ts = ts[:n]
	}
	return ts
}
func (d *vDS) GetInflightTransactionsByParentID(ctx context.Context, id string, n int, off int64) ([]*model.Transaction, error) {
	if e := d.err("GetInflightTransactionsByParentID"); e != nil {
		return nil, e
	}
	return vpage(d.sel(func(t *model.Transaction) bool {
		return t.Status == "INFLIGHT" && (t.TransactionID == id || t.ParentTransaction == id || vmeta(t, "QUEUED_PARENT_TRANSACTION") == id)
	}), n, off), nil
}
func (d *vDS) GetRefundableTransactionsByParentID(ctx context.Context, id string, n int, off int64) ([]*model.Transaction, error) {
	return vpage(d.sel(func(t *model.Transaction) bool {
		return t.TransactionID == id && t.Status == "APPLIED" || t.ParentTransaction == id && (t.Status == "APPLIED" || t.Status == "VOID") ||
			t.Status == "APPLIED" && vmeta(t, "QUEUED_PARENT_TRANSACTION") == id
	}), n, off), nil
}
func (d *vDS) IsTransactionRefunded(ctx context.Context, o *model.Transaction) (bool, error) {
	return len(d.sel(func(t *model.Transaction) bool {
		return t.ParentTransaction == o.TransactionID && t.Source == o.Destination && t.Destination == o.Source
	})) > 0, d.err("IsTransactionRefunded")
}
func (d *vDS) TransactionExistsByIDOrParentID(ctx context.Context, id string) (bool, error) {
	return len(d.sel(func(t *model.Transaction) bool { return t.TransactionID == id || t.ParentTransaction == id })) > 0, nil
}
func (d *vDS) GetTransactionsByParent(ctx context.Context, id string, n int, off int64) ([]*model.Transaction, error) {
	return vpage(d.sel(func(t *model.Transaction) bool { return t.ParentTransaction == id }), n, off), nil
}
func (d *vDS) GetTransactionsByShadowFor(ctx context.Context, id string) ([]model.Transaction, error) {
	var out []model.Transaction
	for _, t := range d.sel(func(t *model.Transaction) bool { return vmeta(t, "_shadow_for") == id }) {
		out = append(out, *t)
	}
	return out, nil
}
func (d *vDS) hasChild(id string) bool {
	for _, c := range d.txns {
		if c.ParentTransaction == id {
			return true
		}
	}
	return false
}
func (d *vDS) qsel(f func(t *model.Transaction) bool, n int) []*model.Transaction {
	ts := d.sel(func(t *model.Transaction) bool { return t.Status == "QUEUED" && !d.hasChild(t.TransactionID) && f(t) })
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].CreatedAt.Before(ts[j].CreatedAt) })
	if len(ts) > n {
		ts = ts[:n]
	}
	return ts
}
func (d *vDS) GetStuckQueuedTransactions(ctx context.Context, th time.Duration, n int) ([]*model.Transaction, error) {
	return d.qsel(func(t *model.Transaction) bool { return true }, n), nil
}
func (d *vDS) GetQueuedTransactionsForCoalescing(ctx context.Context, s, dst, cur, ex string, at time.Time, n int) ([]*model.Transaction, error) {
	return d.qsel(func(t *model.Transaction) bool {
		return t.Source == s && t.Destination == dst && t.Currency == cur && t.TransactionID != ex && !t.CreatedAt.Before(at)
	}, n), d.err("GetQueuedTransactionsForCoalescing")
}
func (d *vDS) GetQueuedTransactionsForSourceCoalescing(ctx context.Context, s, cur, ex string, at time.Time, n int) ([]*model.Transaction, error) {
	return d.qsel(func(t *model.Transaction) bool {
		return t.Source == s && t.Currency == cur && t.TransactionID != ex && !t.CreatedAt.Before(at)
	}, n), nil
}
func (d *vDS) GetQueuedTransactionsForDestinationCoalescing(ctx context.Context, dst, cur, ex string, at time.Time, n int) ([]*model.Transaction, error) {
	return d.qsel(func(t *model.Transaction) bool {
		return t.Destination == dst && t.Currency == cur && t.TransactionID != ex && !t.CreatedAt.Before(at)
	}, n), nil
}
func (d *vDS) CountQueuedTransactionsForPairLane(ctx context.Context, s, dst, cur, lane string) (int, error) {
	return 0, nil
}
func (d *vDS) UpdateTransactionMetadata(ctx context.Context, id string, m map[string]interface{}) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.writes++
	b, _ := json.Marshal(m)
	for _, t := range d.txns {
		if t.TransactionID == id {
			t.MetaData = nil
			_ = json.Unmarshal(b, &t.MetaData)
		}
	}
	return d.err("UpdateTransactionMetadata")
}
func (d *vDS) GetBalanceMonitors(id string) ([]model.BalanceMonitor, error) {
	if e := d.err("GetBalanceMonitors"); e != nil {
		return nil, e
	}
	var out []model.BalanceMonitor
	for _, m := range d.mons {
		if m.BalanceID == id {
			out = append(out, m)
		}
	}
	return out, nil
}
func (d *vDS) CreateMonitor(m model.BalanceMonitor) (model.BalanceMonitor, error) {
	if e := d.err("CreateMonitor"); e != nil {
		return model.BalanceMonitor{}, e
	}
	d.writes++
	d.seq++
	m.MonitorID = fmt.Sprintf("mon_%d", d.seq)
	d.mons = append(d.mons, m)
	return m, nil
}
func (d *vDS) GetIdentityByID(id string) (*model.Identity, error) {
	if i := d.idents[id]; i != nil {
		return i, nil
	}
	return nil, errors.New("identity not found")
}
func (d *vDS) GetLineageMappings(ctx context.Context, id string) ([]model.LineageMapping, error) {
	var out []model.LineageMapping
	for _, m := range d.mappings {
		if m.BalanceID == id {
			out = append(out, m)
		}
	}
	return out, d.err("GetLineageMappings")
}
func (d *vDS) GetLineageMappingByProvider(ctx context.Context, id, p string) (*model.LineageMapping, error) {
	for _, m := range d.mappings {
		if m.BalanceID == id && m.Provider == p {
			c := m
			return &c, nil
		}
	}
	return nil, nil
}
func (d *vDS) UpsertLineageMapping(ctx context.Context, m model.LineageMapping) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.mappings = append(d.mappings, m)
	return nil
}
func (d *vDS) InsertLineageOutbox(ctx context.Context, o *model.LineageOutbox) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.outbox = append(d.outbox, o)
	return nil
}
func (d *vDS) HasPendingCreditOutbox(ctx context.Context, id string) (bool, error) { return false, nil }

// vCache keeps nothing.
type vCache struct{}

func (vCache) Set(context.Context, string, interface{}, time.Duration) error { return nil }
func (vCache) Get(context.Context, string, interface{}) error                { return errors.New("miss") }
func (vCache) Delete(context.Context, string) error                          { return nil }

// vHooks never calls out; it may veto.
type vHooks struct {
	hooks.HookManager
	veto error
	post int
}

func (h *vHooks) ExecutePreHooks(ctx context.Context, id string, data interface{}) error {
	return h.veto
}
func (h *vHooks) ExecutePostHooks(ctx context.Context, id string, data interface{}) error {
	h.post++
	return nil
}
func (h *vHooks) ListHooks(ctx context.Context, t hooks.HookType) ([]*hooks.Hook, error) {
	return []*hooks.Hook{}, nil
}
func (h *vHooks) ExecuteHooks(ctx context.Context, hs []*hooks.Hook, t hooks.HookType, id string, data interface{}) error {
	if t == hooks.PreTransaction {
		return h.veto
	}
	return nil
}

// vService: a Blnk over vDS and an in-process redis.
func vService(t *testing.T, d *vDS, mod func(*config.Configuration)) (*Blnk, *miniredis.Miniredis) {
	t.Helper()
	mr, err := miniredis.Run()
	if err != nil {
		t.Fatal(err)
	}
	cnf := &config.Configuration{
		Redis:      config.RedisConfig{Dns: mr.Addr()},
		DataSource: config.DataSourceConfig{Dns: "postgres://x"},
		Server:     config.ServerConfig{SecretKey: "s"},
		Queue:      config.QueueConfig{NumberOfQueues: 3, WebhookQueue: "wh", IndexQueue: "ix", TransactionQueue: "tq", InflightExpiryQueue: "ie", InflightCommitQueue: "ic"},
	}
	if mod != nil {
		mod(cnf)
	}
	config.MockConfig(cnf)
	b, err := NewBlnk(d)
	if err != nil {
		t.Fatal(err)
	}
	b.cache = vCache{}
	b.Hooks = &vHooks{}
	t.Cleanup(func() { _ = b.Close(); mr.Close() })
	return b, mr
}
func vlockKeys(mr *miniredis.Miniredis, ids ...string) bool {
	for _, id := range ids {
		if !mr.Exists(id) {
			return false
		}
	}
	return true
}
func vsum(b *model.Balance) string {
	return strings.Join([]string{b.CreditBalance.String(), b.DebitBalance.String(), b.Balance.String(), b.InflightCreditBalance.String(), b.InflightDebitBalance.String(), b.InflightBalance.String()}, "/")
}

// vPending: everything waiting in a queue (immediate or scheduled).
func vPending(b *Blnk, q string) []*asynq.TaskInfo {
	p, _ := b.queue.Inspector.ListPendingTasks(q, asynq.PageSize(1000))
	s, _ := b.queue.Inspector.ListScheduledTasks(q, asynq.PageSize(1000))
	return append(p, s...)
}
func vDrain(b *Blnk, q string) {
	_, _ = b.queue.Inspector.DeleteAllPendingTasks(q)
	_, _ = b.queue.Inspector.DeleteAllScheduledTasks(q)
}
