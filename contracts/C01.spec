property C01
strings abstract
include model.inc
replay ./model TestVerifC01
replay . TestVerifC01

func "model.UpdateBalances" (t, src, dst) (err)
  requires t != nil && src != nil && dst != nil && src != dst
  requires sepbig(t, src, dst)
  let amt = num(t.PreciseAmount)
  let hold = t.Inflight
  ensures separate: implies(err == nil, sepbig(t, src, dst))
  ensures hold-unchanged: t.Inflight == old(t.Inflight)
  ensures amount-positive: implies(err == nil, amt > 0)
  ensures amount-requested: implies(err == nil && old(num(t.PreciseAmount)) > 0, amt == old(num(t.PreciseAmount)))
  ensures source-debited: implies(err == nil && !hold, num(src.DebitBalance) == old(num(src.DebitBalance)) + amt)
  ensures source-held: implies(err == nil && hold, num(src.InflightDebitBalance) == old(num(src.InflightDebitBalance)) + amt)
  ensures destination-credited: implies(err == nil && !hold, num(dst.CreditBalance) == old(num(dst.CreditBalance)) + amt)
  ensures destination-held: implies(err == nil && hold, num(dst.InflightCreditBalance) == old(num(dst.InflightCreditBalance)) + amt)
  ensures source-rest: implies(err == nil, num(src.CreditBalance) == old(num(src.CreditBalance)) && num(src.InflightCreditBalance) == old(num(src.InflightCreditBalance)))
  ensures source-rest2: implies(err == nil && hold, num(src.DebitBalance) == old(num(src.DebitBalance)))
  ensures source-rest3: implies(err == nil && !hold, num(src.InflightDebitBalance) == old(num(src.InflightDebitBalance)))
  ensures destination-rest: implies(err == nil, num(dst.DebitBalance) == old(num(dst.DebitBalance)) && num(dst.InflightDebitBalance) == old(num(dst.InflightDebitBalance)))
  ensures destination-rest2: implies(err == nil && hold, num(dst.CreditBalance) == old(num(dst.CreditBalance)))
  ensures destination-rest3: implies(err == nil && !hold, num(dst.InflightCreditBalance) == old(num(dst.InflightCreditBalance)))
  ensures queued-totals: queuedKept(src) && queuedKept(dst)
  ensures identities: src.BalanceID == old(src.BalanceID) && dst.BalanceID == old(dst.BalanceID) && src.Version == old(src.Version) && dst.Version == old(dst.Version)
  ensures refused-source: implies(err != nil, totalsKept(src) && num(src.Balance) == old(num(src.Balance)) && num(src.InflightBalance) == old(num(src.InflightBalance)))
  ensures refused-destination: implies(err != nil, totalsKept(dst) && num(dst.Balance) == old(num(dst.Balance)) && num(dst.InflightBalance) == old(num(dst.InflightBalance)))
  cover accepts: err == nil
  cover refuses: err != nil

// The one place where every kind of transaction reaches the balances.
func "(*blnk.Blnk).applyTransactionToBalances" (l, ctx, balances, t) (err)
  requires len(balances) == 2 && balances[0] != nil && balances[1] != nil && balances[0] != balances[1] && t != nil
  requires t.Status != "COMMIT" && t.Status != "VOID"
  let src = balances[0]
  let dst = balances[1]
  requires sepbig(t, src, dst)
  let amt = num(t.PreciseAmount)
  let hold = t.Inflight
  ensures separate: implies(err == nil, sepbig(t, src, dst))
  ensures hold-unchanged: t.Inflight == old(t.Inflight)
  ensures amount-positive: implies(err == nil, amt > 0)
  ensures amount-requested: implies(err == nil && old(num(t.PreciseAmount)) > 0, amt == old(num(t.PreciseAmount)))
  ensures source-debited: implies(err == nil && !hold, num(src.DebitBalance) == old(num(src.DebitBalance)) + amt)
  ensures source-held: implies(err == nil && hold, num(src.InflightDebitBalance) == old(num(src.InflightDebitBalance)) + amt)
  ensures destination-credited: implies(err == nil && !hold, num(dst.CreditBalance) == old(num(dst.CreditBalance)) + amt)
  ensures destination-held: implies(err == nil && hold, num(dst.InflightCreditBalance) == old(num(dst.InflightCreditBalance)) + amt)
  ensures source-rest: implies(err == nil, num(src.CreditBalance) == old(num(src.CreditBalance)) && num(src.InflightCreditBalance) == old(num(src.InflightCreditBalance)))
  ensures source-rest2: implies(err == nil && hold, num(src.DebitBalance) == old(num(src.DebitBalance)))
  ensures source-rest3: implies(err == nil && !hold, num(src.InflightDebitBalance) == old(num(src.InflightDebitBalance)))
  ensures destination-rest: implies(err == nil, num(dst.DebitBalance) == old(num(dst.DebitBalance)) && num(dst.InflightDebitBalance) == old(num(dst.InflightDebitBalance)))
  ensures destination-rest2: implies(err == nil && hold, num(dst.CreditBalance) == old(num(dst.CreditBalance)))
  ensures destination-rest3: implies(err == nil && !hold, num(dst.InflightCreditBalance) == old(num(dst.InflightCreditBalance)))
  ensures queued-totals: queuedKept(src) && queuedKept(dst)
  ensures identities: src.BalanceID == old(src.BalanceID) && dst.BalanceID == old(dst.BalanceID) && src.Version == old(src.Version) && dst.Version == old(dst.Version)
  ensures refused-source: implies(err != nil, totalsKept(src) && num(src.Balance) == old(num(src.Balance)) && num(src.InflightBalance) == old(num(src.InflightBalance)))
  ensures refused-destination: implies(err != nil, totalsKept(dst) && num(dst.Balance) == old(num(dst.Balance)) && num(dst.InflightBalance) == old(num(dst.InflightBalance)))
  cover accepts: err == nil
  cover refuses: err != nil
