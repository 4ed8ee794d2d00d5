property C06
strings abstract
replay ./database TestVerifC06
ghost cur int
ghost wrote intset
ghost sealed intset
ghost done bool
ghost streamed strset
ghost flushed bool

// One database transaction: what was written in it, and what it held when it was committed.
extern "(*database/sql.DB).BeginTx" (db, ctx, opts) (tx, err)
  ensures implies(err == nil, fresh(tx))
  set cur = tx if err == nil
  set wrote = emptyset("int") if err == nil
track "(*database/sql.DB).BeginTx" as begin
track "(*database/sql.DB).%Context" as direct
track "(*database/sql.DB).Exec" as direct
track "(*database/sql.DB).Query%" as direct
track "(*database/sql.Tx).Commit" as commit
track "(*database/sql.Tx).Rollback" as rollback
extern "(*database/sql.Tx).Commit" (tx) (err)
  set done = true if err == nil
  set sealed = wrote if err == nil && tx == cur
track "(*database/sql.Tx).ExecContext" as exec
track "(*database/sql.Tx).QueryContext" as query
track "(*database/sql.Tx).QueryRowContext" as queryrow
track "(*database/sql.Tx).PrepareContext" as prep
track "(*database/sql.Row).Scan" as scan
track "(*database/sql.Stmt).ExecContext" as stream
track "(*database/sql.Stmt).Close" as closestmt

func "database.updateBalance" (ctx, tx, b) (err)
  requires b != nil
  let q = arg(exec, 2)
  modifies b.Version
  ensures one-statement-in-tx: calls(exec) == 1 && arg(exec, 0) == tx && sqlverb(q) == "update" && sqltable(q) == "balances"
  ensures of-this-balance: as(arg(exec, 3)[sqlwhere(q, "balance_id") - 1], "string") == b.BalanceID
  ensures failure-reported: implies(res(exec, 1) != nil, err != nil)
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(query) == 0 && calls(queryrow) == 0 && calls(prep) == 0
  set wrote = store(wrote, b, true) if err == nil && tx == cur
  cover ok: err == nil

func "database.recordTransactionInTx" (ctx, tx, t) (err)
  requires t != nil && t.PreciseAmount != nil
  let q = arg(exec, 2)
  let a = arg(exec, 3)
  modifies nothing
  ensures one-statement-in-tx: implies(err == nil, calls(exec) == 1 && arg(exec, 0) == tx && sqlverb(q) == "insert" && sqltable(q) == "transactions")
  ensures this-transaction: implies(err == nil, as(a[sqlcol(q, "transaction_id") - 1], "string") == t.TransactionID && as(a[sqlcol(q, "reference") - 1], "string") == t.Reference &&
    as(a[sqlcol(q, "parent_transaction") - 1], "string") == t.ParentTransaction && as(a[sqlcol(q, "source") - 1], "string") == t.Source &&
    as(a[sqlcol(q, "destination") - 1], "string") == t.Destination && as(a[sqlcol(q, "status") - 1], "string") == t.Status &&
    as(a[sqlcol(q, "currency") - 1], "string") == t.Currency && as(a[sqlcol(q, "precise_amount") - 1], "string") == itoa(num(t.PreciseAmount)))
  ensures failure-reported: implies(calls(exec) > 0 && res(exec, 1) != nil, err != nil)
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(query) == 0 && calls(queryrow) == 0 && calls(prep) == 0
  set wrote = store(wrote, t, true) if err == nil && tx == cur
  cover ok: err == nil

func "(database.Datasource).InsertLineageOutboxInTx" (d, ctx, tx, o) (err)
  requires o != nil
  let q = arg(queryrow, 2)
  let a = arg(queryrow, 3)
  modifies o.ID
  ensures one-statement-in-tx: calls(queryrow) == 1 && arg(queryrow, 0) == tx && sqlverb(q) == "insert" && sqltable(q) == "lineage_outbox"
  ensures this-work-item: as(a[sqlcol(q, "transaction_id") - 1], "string") == o.TransactionID && as(a[sqlcol(q, "source_balance_id") - 1], "string") == o.SourceBalanceID && as(a[sqlcol(q, "destination_balance_id") - 1], "string") == o.DestinationBalanceID
  ensures failure-reported: implies(calls(scan) == 0 || res(scan, 0) != nil, err != nil)
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(exec) == 0 && calls(query) == 0 && calls(prep) == 0
  set wrote = store(wrote, o, true) if err == nil && tx == cur
  cover ok: err == nil

func "(database.Datasource).RecordTransactionWithBalances" (d, ctx, t, src, dst) (r, err)
  requires t != nil && src != nil && dst != nil && t.PreciseAmount != nil && !done
  ensures one-database-transaction: calls(begin) <= 1 && calls(direct) == 0 && calls(commit) <= 1 && implies(calls(commit) == 1, arg(commit, 0) == res(begin, 0))
  ensures all-stored-on-success: implies(err == nil, done && at(sealed, src) && at(sealed, dst) && at(sealed, t))
  ensures nothing-stored-on-failure: implies(err != nil, !done)
  ensures abandoned-on-failure: implies(err != nil && calls(begin) == 1 && res(begin, 1) == nil, calls(rollback) > 0 && arg(rollback, 0) == res(begin, 0))
  cover stored: err == nil
func "(database.Datasource).RecordTransactionWithBalancesAndOutbox" (d, ctx, t, src, dst, o) (r, err)
  requires t != nil && src != nil && dst != nil && t.PreciseAmount != nil && !done
  ensures one-database-transaction: calls(begin) <= 1 && calls(direct) == 0 && calls(commit) <= 1 && implies(calls(commit) == 1, arg(commit, 0) == res(begin, 0))
  ensures all-stored-on-success: implies(err == nil, done && at(sealed, src) && at(sealed, dst) && at(sealed, t) && (o == nil || at(sealed, o)))
  ensures nothing-stored-on-failure: implies(err != nil, !done)
  ensures abandoned-on-failure: implies(err != nil && calls(begin) == 1 && res(begin, 1) == nil, calls(rollback) > 0 && arg(rollback, 0) == res(begin, 0))
  cover stored: err == nil
  cover stored-with-work: err == nil && o != nil
func "(database.Datasource).UpdateBalances" (d, ctx, src, dst) (err)
  requires src != nil && dst != nil && !done
  ensures one-database-transaction: calls(begin) <= 1 && calls(direct) == 0 && calls(commit) <= 1 && implies(calls(commit) == 1, arg(commit, 0) == res(begin, 0))
  ensures all-stored-on-success: implies(err == nil, done && at(sealed, src) && at(sealed, dst))
  ensures nothing-stored-on-failure: implies(err != nil, !done)
  cover stored: err == nil

// Batches: several transactions, the balances they touch, and their work items.
ghost returned strset
ghost scols int
ghost bset intset
extern "(*database/sql.Rows).Scan" (rows, dest) (err)
  set returned = store(returned, *as(dest[0], "*string"), true) if err == nil && len(dest) == 1
  set returned = store(returned, *as(dest[1], "*string"), true) if err == nil && len(dest) == 2
extern "(*database/sql.Stmt).ExecContext" (s, ctx, a) (r, err)
  set streamed = store(streamed, as(a[0], "string"), true) if err == nil && len(a) > 0
  set flushed = err == nil && len(a) == 0

func "database.updateBalanceChunk" (ctx, tx, bs) (err)
  requires forall(i, 0, len(bs), bs[i] != nil)
  modifies nothing
  havoc returned
  ensures only-more: all(k, "string", implies(at(old(returned), k), at(returned, k)))
  ensures in-tx: implies(len(bs) > 0, calls(query) == 1 && arg(query, 0) == tx)
  ensures every-balance-confirmed: implies(err == nil, forall(i, 0, len(bs), at(returned, bs[i].BalanceID)))
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(exec) == 0 && calls(queryrow) == 0 && calls(prep) == 0
  invariant [?u map[string]struct{}] all(k, "string", implies(has(u, k), at(returned, k)))
  invariant forall(i, 0, iter, at(returned, bs[i].BalanceID))
  invariant all(k, "string", implies(at(entry(returned), k), at(returned, k)))

func "database.updateBalanceSet" (ctx, tx, bs) (err)
  modifies fieldof("model.Balance", "Version")
  havoc returned
  ensures only-more: all(k, "string", implies(at(old(returned), k), at(returned, k)))
  invariant all(k, "string", implies(at(entry(returned), k), at(returned, k)))
  ensures every-balance-confirmed: implies(err == nil, forall(i, 0, len(bs), bs[i] == nil || bs[i].BalanceID == "" || at(returned, bs[i].BalanceID)))
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(exec) == 0 && calls(queryrow) == 0 && calls(prep) == 0
  invariant [?s map[string]struct{}] [?u []*model.Balance] all(k, "string", implies(has(s, k), exists(j, 0, len(u), u[j] != nil && u[j].BalanceID == k)))
  invariant [?u []*model.Balance] forall(j, 0, len(u), u[j] != nil)
  invariant [?s map[string]struct{}] forall(i, 0, iter, bs[i] == nil || bs[i].BalanceID == "" || has(s, bs[i].BalanceID))
  invariant [?u []*model.Balance] [?n int] forall(j, 0, n, implies(j < len(u), at(returned, u[j].BalanceID)))

func "database.recordTransactionsInTx" (ctx, tx, ts) (err)
  requires forall(i, 0, len(ts), ts[i] != nil && ts[i].PreciseAmount != nil)
  modifies nothing
  havoc streamed, flushed
  ensures every-transaction-streamed: implies(err == nil, forall(i, 0, len(ts), at(streamed, ts[i].TransactionID)))
  ensures flushed-last: implies(err == nil && len(ts) > 0, flushed)
  ensures in-tx: implies(err == nil && len(ts) > 0, calls(prep) == 1 && arg(prep, 0) == tx)
  ensures closed-clean: implies(err == nil && len(ts) > 0, calls(closestmt) > 0)
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(exec) == 0 && calls(queryrow) == 0 && calls(query) == 0
  invariant forall(i, 0, iter, at(streamed, ts[i].TransactionID))

func "database.insertLineageOutboxesInTx" (ctx, tx, os) (err)
  modifies fieldof("model.LineageOutbox", "ID")
  havoc returned
  ensures only-more: all(k, "string", implies(at(old(returned), k), at(returned, k)))
  invariant all(k, "string", implies(at(entry(returned), k), at(returned, k)))
  ensures in-tx: calls(query) <= 1 && implies(calls(query) == 1, arg(query, 0) == tx)
  ensures no-commit: calls(commit) == 0
  ensures no-other-write: calls(direct) == 0 && calls(exec) == 0 && calls(queryrow) == 0 && calls(prep) == 0
  ensures failure-reported: implies(calls(query) == 1 && res(query, 1) != nil, err != nil)
  ensures written-unless-none: implies(err == nil && calls(query) == 0, forall(i, 0, len(os), os[i] == nil))
  invariant [?a []interface{}] forall(i, 0, iter, os[i] == nil || len(a) > 0)

track "database.updateBalanceSet" as setb
track "database.recordTransactionsInTx" as sett
track "database.insertLineageOutboxesInTx" as seto
func "(database.Datasource).RecordTransactionsWithBalanceSetAndOutboxes" (d, ctx, ts, bs, os) (r, err)
  requires forall(i, 0, len(ts), ts[i] != nil && ts[i].PreciseAmount != nil)
  requires !done
  ensures one-database-transaction: calls(begin) <= 1 && calls(direct) == 0 && calls(commit) <= 1 && implies(calls(commit) == 1, arg(commit, 0) == res(begin, 0))
  ensures nothing-stored-on-failure: implies(err != nil, !done)
  ensures stored-on-success: implies(err == nil, done)
  ensures balances-stored: implies(err == nil, calls(setb) == 1 && arg(setb, 1) == res(begin, 0) && res(setb, 0) == nil && when(setb) < when(commit) && forall(i, 0, len(bs), bs[i] == nil || bs[i].BalanceID == "" || at(returned, bs[i].BalanceID)) || len(bs) == 0)
  ensures transactions-stored: implies(err == nil && len(ts) > 0, calls(sett) == 1 && arg(sett, 1) == res(begin, 0) && res(sett, 0) == nil && when(sett) < when(commit) && flushed && forall(i, 0, len(ts), at(streamed, ts[i].TransactionID)))
  ensures work-stored: implies(err == nil && len(os) > 0, calls(seto) == 1 && arg(seto, 1) == res(begin, 0) && res(seto, 0) == nil && when(seto) < when(commit) && arr(arg(seto, 2)) == arr(os))
  ensures abandoned-on-failure: implies(err != nil && calls(begin) == 1 && res(begin, 1) == nil, calls(rollback) > 0 && arg(rollback, 0) == res(begin, 0))
  cover stored: err == nil
func "(database.Datasource).RecordTransactionsWithBalancesAndOutboxes" (d, ctx, ts, src, dst, os) (r, err)
  requires forall(i, 0, len(ts), ts[i] != nil && ts[i].PreciseAmount != nil)
  requires !done && src != nil && dst != nil && src.BalanceID != "" && dst.BalanceID != ""
  ensures nothing-stored-on-failure: implies(err != nil, !done)
  ensures stored-on-success: implies(err == nil, done)
  ensures balances-stored: implies(err == nil, calls(setb) == 1 && res(setb, 0) == nil && when(setb) < when(commit) && at(returned, src.BalanceID) && at(returned, dst.BalanceID))
  cover stored: err == nil
