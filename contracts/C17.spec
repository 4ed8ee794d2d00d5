property C17
strings abstract
replay . TestVerifC17

// lost: the payload could not be encoded (json.Marshal failed), which the code only logs.
ghost lost bool
track "encoding/json.Marshal" as marshal
extern "encoding/json.Marshal" (v) (r, err)
  set lost = true if err != nil

pred provided(t) = (!isnil(t.MetaData) && has(t.MetaData, "BLNK_LINEAGE_PROVIDER") && typeis(t.MetaData["BLNK_LINEAGE_PROVIDER"], "string") && as(t.MetaData["BLNK_LINEAGE_PROVIDER"], "string") != "")
pred tracked(t, src, dst) = ((src != nil && src.TrackFundLineage) || (dst != nil && dst.TrackFundLineage && provided(t)))

func "(*blnk.Blnk).PrepareLineageOutbox" (l, ctx, t, src, dst) (o)
  requires t != nil && t.PreciseAmount != nil
  let pay = as(arg(marshal, 0), "blnk.LineageOutboxPayload")
  modifies nothing
  havoc lost
  ensures exactly-when-tracked: implies(!lost, (o != nil) == tracked(t, src, dst))
  ensures only-when-tracked: implies(o != nil, tracked(t, src, dst))
  ensures encoded-once: implies(o != nil, calls(marshal) == 1)
  ensures lost-only-if-encoding-failed: implies(lost, old(lost) || (calls(marshal) == 1 && res(marshal, 1) != nil))
  ensures new: implies(o != nil, fresh(o))
  ensures this-transaction: implies(o != nil, o.TransactionID == t.TransactionID && o.Inflight == t.Inflight)
  ensures its-balances: implies(o != nil, o.SourceBalanceID == ite(src != nil, src.BalanceID, "") && o.DestinationBalanceID == ite(dst != nil, dst.BalanceID, ""))
  ensures its-amount: implies(o != nil, pay.PreciseAmount == itoa(num(t.PreciseAmount)) && pay.Currency == t.Currency && pay.Precision == t.Precision && pay.Reference == t.Reference && pay.Inflight == t.Inflight)
  ensures amount-carried: implies(o != nil, len(o.Payload) == len(res(marshal, 0)) && off(o.Payload) == off(res(marshal, 0)) && arr(o.Payload) == arr(res(marshal, 0)))
  ensures its-sides: implies(o != nil, o.LineageType == ite(src == nil || !src.TrackFundLineage, "credit", ite(dst != nil && dst.TrackFundLineage && provided(t), "both", "debit")))
  cover some: o != nil
  cover none: o == nil

track "(*blnk.Blnk).PrepareLineageOutbox" as prepare
func "(*blnk.Blnk).buildTransactionExecutionWork" (l, ctx, t, src, dst) (w, skip)
  requires t != nil && t.PreciseAmount != nil && src != nil && dst != nil
  let eligible = (t.Status != "COMMIT" && (t.Inflight || t.Status == "QUEUED" || t.Status == "APPLIED" || t.Status == "SCHEDULED"))
  ensures nothing-when-not-settled-or-held: implies(!old(eligible), w.outbox == nil)
  ensures never-without-a-movement: implies(skip, w.outbox == nil)
  ensures exactly-when-tracked: implies(!skip && old(eligible) && !lost, (w.outbox != nil) == old(tracked(t, src, dst)))
  ensures only-when-tracked: implies(w.outbox != nil, old(eligible) && old(tracked(t, src, dst)))
  ensures at-most-one: calls(prepare) <= 1
  ensures this-transaction: implies(w.outbox != nil, w.outbox.TransactionID == old(t.TransactionID) && w.outbox.SourceBalanceID == src.BalanceID && w.outbox.DestinationBalanceID == dst.BalanceID)
  ensures its-amount: implies(w.outbox != nil, num(arg(prepare, 2).PreciseAmount) == old(num(t.PreciseAmount)))
  ensures with-that-transaction: w.transaction != nil && w.transaction.TransactionID == old(t.TransactionID)
  cover work: w.outbox != nil
  cover no-work: !skip && w.outbox == nil
  cover discarded: skip

// The work item is stored together with its transaction, in the same call.
track "(database.%).RecordTransactionWithBalancesAndOutbox" as persist
extern "(database.%).RecordTransactionWithBalancesAndOutbox" (d, ctx, t, src, dst, o) (r, err)
  ensures implies(err == nil, r != nil)
func "(*blnk.Blnk).persistSingleTransactionExecutionWork" (l, ctx, w) (r, err)
  ensures one-call: calls(persist) == 1
  ensures same-work: arg(persist, 2) == w.transaction && arg(persist, 3) == w.sourceBalance && arg(persist, 4) == w.destinationBalance && arg(persist, 5) == w.outbox
  ensures failure-reported: implies(res(persist, 1) != nil, err != nil)
  cover stored: err == nil
