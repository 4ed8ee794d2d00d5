property C09
strings abstract
include model.inc
replay ./model TestVerifC09

pred prec(t) = ite(old(t.Precision) == 0, 1, old(t.Precision))
func "model.ApplyPrecision" (t) (r)
  requires t != nil && sepbig(t)
  ensures precision-default: t.Precision == prec(t)
  ensures result-stored: r != nil && r == t.PreciseAmount
  ensures given-precise-kept: implies(old(num(t.PreciseAmount)) > 0, num(t.PreciseAmount) == old(num(t.PreciseAmount)))
  let q = old(num(t.PreciseAmount)) / prec(t)
  ensures decimal-derived: implies(old(num(t.PreciseAmount)) > 0, abs(t.Amount - q) <= 0.0000000000000001 + 0.0000000000000003 * abs(q))
  ensures precise-derived: implies(old(num(t.PreciseAmount)) <= 0, num(t.PreciseAmount) == roundhalf(old(t.Amount) * prec(t)))
  ensures decimal-kept: implies(old(num(t.PreciseAmount)) <= 0, t.Amount == old(t.Amount))
  ensures rest: sameexcept(t, "Precision", "PreciseAmount", "Amount", "AmountString")

func "model.UpdateBalances" (t, src, dst) (err)
  requires t != nil && src != nil && dst != nil && src != dst && sepbig(t, src, dst)
  ensures precision-default: t.Precision == prec(t)
  ensures given-precise-kept: implies(old(num(t.PreciseAmount)) > 0, num(t.PreciseAmount) == old(num(t.PreciseAmount)))
  ensures precise-derived: implies(old(num(t.PreciseAmount)) <= 0, num(t.PreciseAmount) == roundhalf(old(t.Amount) * prec(t)))

// The stored precision of the transaction, when one is found, is the one used.
track "model.fetchTransactionPrecisionFromDB" as lookup
extern "model.fetchTransactionPrecisionFromDB" (db, id) (p, found, err)
func "model.ApplyPrecisionWithDBLookup" (t, db) (r)
  requires t != nil && sepbig(t)
  let stored = calls(lookup) > 0 && res(lookup, 1) && res(lookup, 0) > 0
  let p = ite(stored, res(lookup, 0), prec(t))
  ensures own-precision: implies(calls(lookup) > 0, arg(lookup, 1) == old(t.TransactionID))
  ensures looked-up: implies(db != nil && old(t.TransactionID) != "", calls(lookup) == 1)
  ensures precision: t.Precision == p
  ensures result-stored: r != nil && r == t.PreciseAmount
  ensures given-precise-kept: implies(old(num(t.PreciseAmount)) > 0, num(t.PreciseAmount) == old(num(t.PreciseAmount)))
  ensures precise-derived: implies(old(num(t.PreciseAmount)) <= 0, num(t.PreciseAmount) == roundhalf(old(t.Amount) * p))
  cover stored: stored

func "(*api/model.RecordTransaction).ToTransaction" (t) (r)
  requires t != nil
  ensures amounts-copied: r.Amount == t.Amount && r.PreciseAmount == t.PreciseAmount && r.Precision == t.Precision
