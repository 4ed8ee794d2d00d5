property C05
strings abstract
replay . TestVerifC05
replay ./database TestVerifC05
ghost authorised int
ghost ishold bool
ghost committed int
ghost totalled bool
ghost notvoided bool
ghost recorded int
ghost held bool

pred hold(t) = (t.Status == "INFLIGHT" || (t.Status == "QUEUED" && has(t.MetaData, "inflight") && typeis(t.MetaData["inflight"], "bool") && as(t.MetaData["inflight"], "bool")))

track "internal/lock.NewLocker" as newlock
track "(*internal/lock.Locker).Lock" as lock
track "(*internal/lock.Locker).Unlock" as unlock
track "(database.%).GetTransaction" as fetch
track "(*blnk.Queue).GetTransactionFromQueue" as qfetch
track "(database.%).IsParentTransactionVoid" as voided
track "(database.%).GetTotalCommittedTransactions" as total
track "(*blnk.Blnk).RecordTransaction" as record

extern "internal/lock.NewLocker" (client, key, value) (r)
  ensures r != nil && fresh(r)
extern "(*internal/lock.Locker).Lock" (l, ctx, d) (err)
extern "(*internal/lock.Locker).Unlock" (l, ctx) (err)
extern "(database.%).GetTransaction" (d, ctx, id) (r, err)
  ensures implies(err == nil, r != nil && r.PreciseAmount != nil && r.TransactionID == id)
  set authorised = num(r.PreciseAmount) if err == nil
  set ishold = hold(r) if err == nil
extern "(*blnk.Queue).GetTransactionFromQueue" (q, id) (r, err)
  ensures implies(err == nil && r != nil, r.PreciseAmount != nil && r.TransactionID == id)
  set authorised = num(r.PreciseAmount) if err == nil && r != nil
  set ishold = hold(r) if err == nil && r != nil
extern "(database.%).IsParentTransactionVoid" (d, ctx, id) (r, err)
  set notvoided = (err == nil && !r)
extern "(database.%).GetTotalCommittedTransactions" (d, ctx, id) (r, err)
  ensures implies(err == nil, r != nil)
  set committed = num(r) if err == nil
  set totalled = (err == nil)
extern "(*blnk.Blnk).queueShadowWork" (l, ctx, id, kind) (err)
extern "(*blnk.Blnk).RecordTransaction" (l, ctx, t) (r, err)
  requires is-a-hold: ishold
  requires not-voided: notvoided
  requires something-left: totalled && authorised - committed > 0
  requires positive: num(t.PreciseAmount) > 0
  requires at-most-what-is-left: num(t.PreciseAmount) <= authorised - committed
  set recorded = num(t.PreciseAmount)

func "(*blnk.Blnk).CommitInflightTransactionWithRef" (l, ctx, id, amount, ref) (r, err)
  requires l != nil && amount != nil && !ishold && !notvoided && !totalled
  let want = old(num(amount))
  ensures recorded-once: calls(record) <= 1
  ensures the-named-hold: implies(calls(record) == 1, calls(fetch) == 1 && arg(fetch, 2) == id && arg(voided, 2) == id && arg(total, 2) == id)
  ensures exactly-as-asked: implies(calls(record) == 1, recorded == ite(want == 0, authorised - committed, want))
  ensures as-a-commit-of-the-hold: implies(calls(record) == 1, arg(record, 2).Status == "COMMIT" && arg(record, 2).ParentTransaction == id)
  ensures serialised: implies(calls(record) == 1, calls(newlock) == 1 && arg(newlock, 1) == cat("inflight-commit:", id) && calls(lock) == 1 && arg(lock, 0) == res(newlock, 0) && res(lock, 0) == nil && when(lock) < when(fetch) && calls(unlock) == 1 && when(record) < when(unlock))
  ensures lock-released: implies(calls(lock) == 1 && res(lock, 0) == nil, calls(unlock) == 1 && arg(unlock, 0) == arg(lock, 0))
  ensures success-only-if-recorded: implies(err == nil, calls(record) == 1 && res(record, 1) == nil)
  ensures covered-commits-go-through: implies(calls(record) == 0 && calls(total) == 1 && totalled, want < 0 || authorised <= committed || want > authorised - committed || want > authorised)
  cover commits: err == nil
  cover refuses: err != nil

func "(*blnk.Blnk).VoidInflightTransactionWithRef" (l, ctx, id, ref) (r, err)
  requires l != nil && !ishold && !notvoided && !totalled
  ensures recorded-once: calls(record) <= 1
  ensures the-named-hold: implies(calls(record) == 1, calls(fetch) == 1 && arg(fetch, 2) == id && arg(voided, 2) == id && arg(total, 2) == id)
  ensures exactly-the-rest: implies(calls(record) == 1, recorded == authorised - committed)
  ensures as-a-void-of-the-hold: implies(calls(record) == 1, arg(record, 2).Status == "VOID" && arg(record, 2).ParentTransaction == id)
  ensures serialised: implies(calls(record) == 1, calls(newlock) == 1 && arg(newlock, 1) == cat("inflight-commit:", id) && calls(lock) == 1 && arg(lock, 0) == res(newlock, 0) && res(lock, 0) == nil && when(lock) < when(fetch) && calls(unlock) == 1 && when(record) < when(unlock))
  ensures lock-released: implies(calls(lock) == 1 && res(lock, 0) == nil, calls(unlock) == 1 && arg(unlock, 0) == arg(lock, 0))
  ensures success-only-if-recorded: implies(err == nil, calls(record) == 1 && res(record, 1) == nil)
  ensures covered-voids-go-through: implies(calls(record) == 0 && calls(total) == 1 && totalled, authorised <= committed)
  cover voids: err == nil
  cover refuses: err != nil

// What has been committed, and whether it was voided, is read from the stored children of the hold.
track "(*database/sql.DB).QueryRowContext" as queryrow
track "(*database/sql.Row).Scan" as scan
func "(database.Datasource).IsParentTransactionVoid" (d, ctx, id) (r, err)
  let q = arg(queryrow, 2)
  ensures one-question: calls(queryrow) == 1 && calls(scan) == 1 && sqlexists(q) && sqltable(q) == "transactions" && sqlconjuncts(q) == 2
  ensures voids-of-this-hold: as(arg(queryrow, 3)[sqlwhere(q, "parent_transaction") - 1], "string") == id && sqlcond(q, "status") == "'void'"
  ensures failure-reported: implies(res(scan, 0) != nil, err != nil)
  ensures answer-returned: implies(err == nil, r == *as(arg(scan, 1)[0], "*bool"))
  cover answers: err == nil

func "(database.Datasource).GetTotalCommittedTransactions" (d, ctx, id) (r, err)
  let q = arg(queryrow, 2)
  ensures one-question: calls(queryrow) == 1 && calls(scan) == 1 && sqlverb(q) == "select" && sqlhas(q, "select sum(precise_amount)") && sqltable(q) == "transactions" && sqlconjuncts(q) == 2
  ensures commits-of-this-hold: as(arg(queryrow, 3)[sqlwhere(q, "parent_transaction") - 1], "string") == id && sqlcond(q, "status") == "'applied'"
  ensures total-returned: implies(err == nil && res(scan, 0) == nil, r != nil && num(r) == uf("str_toint", "int", *as(arg(scan, 1)[0], "*string"), 10))
  ensures nothing-committed-is-zero: implies(err == nil && res(scan, 0) != nil, is(res(scan, 0), sql.ErrNoRows) && r != nil && num(r) == 0)
  cover answers: err == nil
