property C04
strings abstract
include model.inc
replay ./model TestVerifC04
replay . TestVerifC04

func "(*model.Balance).CommitInflightDebit" (b, t) (err)
  requires t != nil && b != nil && sepbig(t, b)
  let amt = ite(old(num(t.PreciseAmount)) > 0, old(num(t.PreciseAmount)), roundhalf(old(t.Amount) * ite(old(t.Precision) == 0, 1, old(t.Precision))))
  let held = old(num(b.InflightDebitBalance))
  ensures refused-only-if-short: implies(amt <= held, err == nil)
  ensures never-overdrawn: implies(err == nil, amt <= held)
  ensures hold-reduced: implies(err == nil, num(b.InflightDebitBalance) == held - amt)
  ensures settled-increased: implies(err == nil, num(b.DebitBalance) == old(num(b.DebitBalance)) + amt)
  ensures amount-recorded: implies(err == nil, num(t.PreciseAmount) == amt)
  ensures other-side: num(b.CreditBalance) == old(num(b.CreditBalance)) && num(b.InflightCreditBalance) == old(num(b.InflightCreditBalance))
  ensures queued: queuedKept(b) && b.BalanceID == old(b.BalanceID) && b.Version == old(b.Version)
  ensures refused-unchanged: implies(err != nil, kept(b))
  cover accepts: err == nil
  cover refuses: err != nil

func "(*model.Balance).CommitInflightCredit" (b, t) (err)
  requires t != nil && b != nil && sepbig(t, b)
  let amt = ite(old(num(t.PreciseAmount)) > 0, old(num(t.PreciseAmount)), roundhalf(old(t.Amount) * ite(old(t.Precision) == 0, 1, old(t.Precision))))
  let held = old(num(b.InflightCreditBalance))
  ensures refused-only-if-short: implies(amt <= held, err == nil)
  ensures never-overdrawn: implies(err == nil, amt <= held)
  ensures hold-reduced: implies(err == nil, num(b.InflightCreditBalance) == held - amt)
  ensures settled-increased: implies(err == nil, num(b.CreditBalance) == old(num(b.CreditBalance)) + amt)
  ensures amount-recorded: implies(err == nil, num(t.PreciseAmount) == amt)
  ensures other-side: num(b.DebitBalance) == old(num(b.DebitBalance)) && num(b.InflightDebitBalance) == old(num(b.InflightDebitBalance))
  ensures queued: queuedKept(b) && b.BalanceID == old(b.BalanceID) && b.Version == old(b.Version)
  ensures refused-unchanged: implies(err != nil, kept(b))
  cover accepts: err == nil
  cover refuses: err != nil

func "(*model.Balance).RollbackInflightDebit" (b, a) (err)
  requires a != nil && b != nil && sepbig(b, a)
  let amt = old(num(a))
  let held = old(num(b.InflightDebitBalance))
  ensures refused-only-if-short: implies(amt <= held, err == nil)
  ensures never-overdrawn: implies(err == nil, amt <= held)
  ensures hold-reduced: implies(err == nil, num(b.InflightDebitBalance) == held - amt)
  ensures amount-kept: num(a) == amt
  ensures settled-kept: num(b.DebitBalance) == old(num(b.DebitBalance)) && num(b.Balance) == old(num(b.Balance))
  ensures other-side: num(b.CreditBalance) == old(num(b.CreditBalance)) && num(b.InflightCreditBalance) == old(num(b.InflightCreditBalance))
  ensures queued: queuedKept(b) && b.BalanceID == old(b.BalanceID) && b.Version == old(b.Version)
  ensures refused-unchanged: implies(err != nil, kept(b))
  cover accepts: err == nil
  cover refuses: err != nil

func "(*model.Balance).RollbackInflightCredit" (b, a) (err)
  requires a != nil && b != nil && sepbig(b, a)
  let amt = old(num(a))
  let held = old(num(b.InflightCreditBalance))
  ensures refused-only-if-short: implies(amt <= held, err == nil)
  ensures never-overdrawn: implies(err == nil, amt <= held)
  ensures hold-reduced: implies(err == nil, num(b.InflightCreditBalance) == held - amt)
  ensures amount-kept: num(a) == amt
  ensures settled-kept: num(b.CreditBalance) == old(num(b.CreditBalance)) && num(b.Balance) == old(num(b.Balance))
  ensures other-side: num(b.DebitBalance) == old(num(b.DebitBalance)) && num(b.InflightDebitBalance) == old(num(b.InflightDebitBalance))
  ensures queued: queuedKept(b) && b.BalanceID == old(b.BalanceID) && b.Version == old(b.Version)
  ensures refused-unchanged: implies(err != nil, kept(b))
  cover accepts: err == nil
  cover refuses: err != nil

pred appliedCOMMIT(src, dst, amt) = (
  num(src.InflightDebitBalance) == old(num(src.InflightDebitBalance)) - amt && num(dst.InflightCreditBalance) == old(num(dst.InflightCreditBalance)) - amt &&
  num(src.DebitBalance) == old(num(src.DebitBalance)) + amt && num(dst.CreditBalance) == old(num(dst.CreditBalance)) + amt &&
  num(src.CreditBalance) == old(num(src.CreditBalance)) && num(src.InflightCreditBalance) == old(num(src.InflightCreditBalance)) &&
  num(dst.DebitBalance) == old(num(dst.DebitBalance)) && num(dst.InflightDebitBalance) == old(num(dst.InflightDebitBalance)))
func "(*blnk.Blnk).applyTransactionToBalances" (l, ctx, balances, t) (err)
  requires len(balances) == 2 && balances[0] != nil && balances[1] != nil && balances[0] != balances[1] && t != nil
  requires t.Status == "COMMIT"
  requires t.Status != "VOID" || t.PreciseAmount != nil
  let src = balances[0]
  let dst = balances[1]
  requires sepbig(t, src, dst)
  let amt = ite(old(num(t.PreciseAmount)) > 0, old(num(t.PreciseAmount)), roundhalf(old(t.Amount) * ite(old(t.Precision) == 0, 1, old(t.Precision))))
  ensures COMMIT-moves-exactly: implies(err == nil, appliedCOMMIT(src, dst, amt))
  ensures COMMIT-never-overdraws: implies(err == nil, amt <= old(num(src.InflightDebitBalance)) && amt <= old(num(dst.InflightCreditBalance)))
  ensures COMMIT-accepted-when-covered: implies(amt <= old(num(src.InflightDebitBalance)) && amt <= old(num(dst.InflightCreditBalance)), err == nil)
  ensures COMMIT-queued: queuedKept(src) && queuedKept(dst)
  cover accepts: err == nil
  cover refuses: err != nil

pred appliedVOID(src, dst, amt) = (
  num(src.InflightDebitBalance) == old(num(src.InflightDebitBalance)) - amt && num(dst.InflightCreditBalance) == old(num(dst.InflightCreditBalance)) - amt &&
  num(src.DebitBalance) == old(num(src.DebitBalance)) + 0 && num(dst.CreditBalance) == old(num(dst.CreditBalance)) + 0 &&
  num(src.CreditBalance) == old(num(src.CreditBalance)) && num(src.InflightCreditBalance) == old(num(src.InflightCreditBalance)) &&
  num(dst.DebitBalance) == old(num(dst.DebitBalance)) && num(dst.InflightDebitBalance) == old(num(dst.InflightDebitBalance)))
func "(*blnk.Blnk).applyTransactionToBalances" (l, ctx, balances, t) (err)
  requires len(balances) == 2 && balances[0] != nil && balances[1] != nil && balances[0] != balances[1] && t != nil
  requires t.Status == "VOID"
  requires t.Status != "VOID" || t.PreciseAmount != nil
  let src = balances[0]
  let dst = balances[1]
  requires sepbig(t, src, dst)
  let amt = old(num(t.PreciseAmount))
  ensures VOID-moves-exactly: implies(err == nil, appliedVOID(src, dst, amt))
  ensures VOID-never-overdraws: implies(err == nil, amt <= old(num(src.InflightDebitBalance)) && amt <= old(num(dst.InflightCreditBalance)))
  ensures VOID-accepted-when-covered: implies(amt <= old(num(src.InflightDebitBalance)) && amt <= old(num(dst.InflightCreditBalance)), err == nil)
  ensures VOID-queued: queuedKept(src) && queuedKept(dst)
  cover accepts: err == nil
  cover refuses: err != nil
