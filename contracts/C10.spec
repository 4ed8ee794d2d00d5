property C10
strings abstract
replay . TestVerifC10
replay ./database TestVerifC10

track "(*blnk.Blnk).QueueTransaction" as queue
track "(database.%).GetTransaction" as fetch
track "(*blnk.Queue).GetTransactionFromQueue" as qfetch
track "(database.%).IsTransactionRefunded" as refunded
track "(*internal/lock.Locker).Lock" as lock
track "(*internal/lock.Locker).Unlock" as unlock
track "internal/lock.NewLocker" as newlock

extern "(*internal/lock.Locker).Lock" (l, ctx, d) (err)
extern "(*internal/lock.Locker).Unlock" (l, ctx) (err)
extern "internal/lock.NewLocker" (client, key, value) (r)
  ensures r != nil && fresh(r)
extern "(*blnk.Blnk).QueueTransaction" (l, ctx, t) (r, err)
  ensures implies(err == nil, r != nil)
extern "(database.%).GetTransaction" (d, ctx, id) (r, err)
  ensures implies(err == nil, r != nil)
extern "(*blnk.Queue).GetTransactionFromQueue" (q, id) (r, err)

func "blnk.prepareRefundTransaction" (t, opts) (r)
  requires t != nil
  modifies nothing
  ensures new-transaction: r != nil && fresh(r)
  ensures same-amount: r.Amount == t.Amount && r.AmountString == t.AmountString && r.PreciseAmount == t.PreciseAmount && r.Precision == t.Precision && r.Currency == t.Currency
  ensures amount-value-kept: num(r.PreciseAmount) == old(num(t.PreciseAmount))
  ensures parties-swapped: r.Source == t.Destination && r.Destination == t.Source
  ensures original-is-parent: r.ParentTransaction == t.TransactionID
  ensures reference-from-original-alone: r.Reference == cat(t.TransactionID, "_refund")
  ensures own-metadata: implies(len(opts.MetaData) > 0, !isnil(r.MetaData) && fresh(r.MetaData))
  ensures original-kept: deepsame(t)
  ensures original-metadata-kept: all(k, "string", has(t.MetaData, k) == old(has(t.MetaData, k)) && implies(has(t.MetaData, k), t.MetaData[k] == old(t.MetaData[k])))
  ensures unsettled: r.Status == "" && r.Inflight == (t.Status == "VOID")
  cover prepares: true

func "(*blnk.Blnk).RefundTransactionWithOptions" (l, ctx, id, opts) (r, err)
  requires l != nil
  let orig = ite(calls(qfetch) > 0, res(qfetch, 0), res(fetch, 0))
  let t = arg(queue, 2)
  ensures at-most-once: calls(queue) <= 1
  ensures the-named-original: implies(calls(queue) == 1, calls(fetch) == 1 && arg(fetch, 2) == id && implies(calls(qfetch) > 0, arg(qfetch, 1) == id))
  ensures only-settled: implies(calls(queue) == 1, orig != nil && (orig.Status == "APPLIED" || orig.Status == "VOID"))
  ensures not-refunded-before: implies(calls(queue) == 1, calls(refunded) == 1 && arg(refunded, 2) == orig && !res(refunded, 0) && res(refunded, 1) == nil)
  ensures serialised: implies(calls(queue) == 1, calls(newlock) == 1 && arg(newlock, 1) == cat("refund:", id) && calls(lock) == 1 && arg(lock, 0) == res(newlock, 0) && res(lock, 0) == nil)
  ensures checked-under-the-lock: implies(calls(queue) == 1, when(lock) < when(refunded) && when(refunded) < when(queue) && calls(unlock) == 1 && when(queue) < when(unlock))
  ensures lock-released: implies(calls(lock) == 1 && res(lock, 0) == nil, calls(unlock) == 1 && arg(unlock, 0) == arg(lock, 0))
  ensures same-amount: implies(calls(queue) == 1, t.Amount == orig.Amount && t.PreciseAmount == orig.PreciseAmount && t.Precision == orig.Precision && t.Currency == orig.Currency)
  ensures parties-swapped: implies(calls(queue) == 1, t.Source == orig.Destination && t.Destination == orig.Source)
  ensures original-is-parent: implies(calls(queue) == 1, t.ParentTransaction == orig.TransactionID)
  ensures reference-from-original-alone: implies(calls(queue) == 1, t.Reference == cat(orig.TransactionID, "_refund"))
  ensures not-the-original-itself: implies(calls(queue) == 1, t != orig)
  ensures failure-reported: implies(err == nil, calls(queue) == 1 && res(queue, 1) == nil)
  ensures done-when-eligible: implies(calls(queue) == 1 && res(queue, 1) == nil, err == nil)
  cover refunds: err == nil
  cover refuses: err != nil

// A refund is a stored child that pays the original's destination back to its source.
track "(*database/sql.DB).QueryRowContext" as queryrow
track "(*database/sql.Row).Scan" as scan
func "(database.Datasource).IsTransactionRefunded" (d, ctx, t) (r, err)
  requires t != nil
  let q = arg(queryrow, 2)
  let a = arg(queryrow, 3)
  modifies nothing
  ensures one-question: calls(queryrow) == 1 && calls(scan) == 1 && sqlexists(q) && sqltable(q) == "transactions" && sqlconjuncts(q) == 3
  ensures of-this-original: as(a[sqlwhere(q, "parent_transaction") - 1], "string") == t.TransactionID
  ensures reversed-parties: as(a[sqlwhere(q, "source") - 1], "string") == t.Destination && as(a[sqlwhere(q, "destination") - 1], "string") == t.Source
  ensures failure-reported: implies(res(scan, 0) != nil, err != nil)
  ensures answer-returned: implies(res(scan, 0) == nil, err == nil && r == *as(arg(scan, 1)[0], "*bool"))
  cover answers: err == nil
