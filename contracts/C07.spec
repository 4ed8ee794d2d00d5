property C07
strings abstract
replay ./database TestVerifC07
bounded ./database TestVerifC07 database.updateBalanceSet/updateBalanceChunk: in-memory versions and SQL text of the batch update, all batches of up to 5 balances with every subset stale, plus batches around the 1000-row chunk size
ghost returned strset
track "(*database/sql.Tx).ExecContext" as exec
track "(*database/sql.Tx).QueryContext" as query
track "(database/sql.Result).RowsAffected" as rows
extern "(*database/sql.Rows).Scan" (rows, dest) (err)
  set returned = store(returned, *as(dest[0], "*string"), true) if err == nil && len(dest) == 1

func "database.updateBalance" (ctx, tx, b) (err)
  requires b != nil && b.Balance != nil && b.CreditBalance != nil && b.DebitBalance != nil && b.InflightBalance != nil && b.InflightCreditBalance != nil && b.InflightDebitBalance != nil
  let q = arg(exec, 2)
  let a = arg(exec, 3)
  modifies b.Version
  ensures checks-identity: calls(exec) == 1 && sqlverb(q) == "update" && sqltable(q) == "balances" && as(a[sqlwhere(q, "balance_id") - 1], "string") == b.BalanceID
  ensures checks-version-read: sqlwhere(q, "version") > 0 && as(a[sqlwhere(q, "version") - 1], "int64") == old(b.Version)
  ensures stored-version-advances-by-one: sqlexpr(q, "version") == "version + 1"
  ensures values-stored: (as(a[sqlcol(q, "balance") - 1], "string") == itoa(num(b.Balance)) && as(a[sqlcol(q, "credit_balance") - 1], "string") == itoa(num(b.CreditBalance)) &&
    as(a[sqlcol(q, "debit_balance") - 1], "string") == itoa(num(b.DebitBalance)) && as(a[sqlcol(q, "inflight_balance") - 1], "string") == itoa(num(b.InflightBalance)) &&
    as(a[sqlcol(q, "inflight_credit_balance") - 1], "string") == itoa(num(b.InflightCreditBalance)) && as(a[sqlcol(q, "inflight_debit_balance") - 1], "string") == itoa(num(b.InflightDebitBalance)))
  ensures success-only-if-a-row-matched: implies(err == nil, res(exec, 1) == nil && calls(rows) == 1 && res(rows, 1) == nil && res(rows, 0) != 0)
  ensures a-matched-row-succeeds: implies(calls(rows) == 1 && res(rows, 1) == nil && res(rows, 0) != 0, err == nil)
  ensures no-row-is-a-conflict: implies(calls(rows) == 1 && res(rows, 1) == nil && res(rows, 0) == 0, err != nil && typeis(err, "apierror.APIError") && as(err, "apierror.APIError").Code == "CONFLICT")
  ensures version-in-memory: b.Version == old(b.Version) + ite(err == nil, 1, 0)
  cover accepted: err == nil
  cover refused: err != nil

func "database.updateBalanceChunk" (ctx, tx, bs) (err)
  requires forall(i, 0, len(bs), bs[i] != nil)
  let a = arg(query, 3)
  modifies nothing
  havoc returned
  ensures only-more: all(k, "string", implies(at(old(returned), k), at(returned, k)))
  ensures success-only-if-every-row-matched: implies(err == nil, forall(i, 0, len(bs), at(returned, bs[i].BalanceID)))
  ensures one-statement: implies(len(bs) > 0, calls(query) == 1)
  ensures identities-and-versions-read: implies(len(bs) > 0, len(a) == 11 * len(bs) && forall(i, 0, len(bs), as(a[11*i], "string") == bs[i].BalanceID && as(a[11*i+10], "int64") == bs[i].Version))
  invariant [?u map[string]struct{}] all(k, "string", implies(has(u, k), at(returned, k)))
  invariant forall(i, 0, iter, at(returned, bs[i].BalanceID))
  invariant all(k, "string", implies(at(entry(returned), k), at(returned, k)))
  invariant [?a []interface{}] len(a) == 11 * iter
  invariant [?a []interface{}] forall(i, 0, iter, as(a[11*i], "string") == bs[i].BalanceID && as(a[11*i+10], "int64") == bs[i].Version)

func "database.updateBalanceSet" (ctx, tx, bs) (err)
  modifies fieldof("model.Balance", "Version")
  havoc returned
  ensures success-only-if-every-row-matched: implies(err == nil, forall(i, 0, len(bs), bs[i] == nil || bs[i].BalanceID == "" || at(returned, bs[i].BalanceID)))
  ensures versions-kept-on-refusal: implies(err != nil, forall(i, 0, len(bs), bs[i] == nil || bs[i].Version == old(bs[i].Version)))
  invariant [?s map[string]struct{}] [?u []*model.Balance] all(k, "string", implies(has(s, k), exists(j, 0, len(u), u[j] != nil && u[j].BalanceID == k)))
  invariant [?u []*model.Balance] forall(j, 0, len(u), u[j] != nil)
  invariant [?s map[string]struct{}] forall(i, 0, iter, bs[i] == nil || bs[i].BalanceID == "" || has(s, bs[i].BalanceID))
  invariant [?u []*model.Balance] [?n int] forall(j, 0, n, implies(j < len(u), at(returned, u[j].BalanceID)))
