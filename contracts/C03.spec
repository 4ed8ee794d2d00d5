property C03
strings abstract
include model.inc
replay ./model TestVerifC03

func "model.canProcessTransaction" (t, src) (err)
  requires t != nil && src != nil && t.PreciseAmount != nil && sepbig(t, src)
  requires t.OverdraftLimit >= 0 && t.Precision > 0
  let avail = old(num(src.Balance) - num(src.InflightDebitBalance) - num(src.QueuedDebitBalance))
  let amt = old(num(t.PreciseAmount))
  let unlimited = old(t.AllowOverdraft && t.OverdraftLimit == 0)
  let within = old(t.OverdraftLimit > 0 && amt - avail <= roundhalf(t.OverdraftLimit * t.Precision))
  ensures accepted-only-if-covered: implies(err == nil, unlimited || avail >= amt || within)
  ensures covered-is-accepted: implies(unlimited || avail >= amt || within, err == nil)
  cover accepts: err == nil
  cover refuses: err != nil

func "model.UpdateBalances" (t, src, dst) (err)
  requires t != nil && src != nil && dst != nil && src != dst && sepbig(t, src, dst)
  requires t.OverdraftLimit >= 0 && t.Precision >= 0
  let amt = ite(old(num(t.PreciseAmount)) > 0, old(num(t.PreciseAmount)), roundhalf(old(t.Amount) * ite(old(t.Precision) == 0, 1, old(t.Precision))))
  let avail = old(num(src.Balance) - num(src.InflightDebitBalance) - num(src.QueuedDebitBalance))
  let unlimited = old(t.AllowOverdraft && t.OverdraftLimit == 0)
  let within = old(t.OverdraftLimit) > 0 && amt - avail <= roundhalf(old(t.OverdraftLimit) * t.Precision)
  ensures accepted-only-if-covered: implies(err == nil, amt > 0 && (unlimited || avail >= amt || within))
  ensures covered-is-accepted: implies(amt > 0 && t.Amount >= 0 && (unlimited || avail >= amt || within), err == nil)
  cover accepts: err == nil
  cover refuses: err != nil

func "(*blnk.Blnk).applyTransactionToBalances" (l, ctx, balances, t) (err)
  requires len(balances) == 2 && balances[0] != nil && balances[1] != nil && balances[0] != balances[1] && t != nil
  requires t.Status != "COMMIT" && t.Status != "VOID"
  let src = balances[0]
  let dst = balances[1]
  requires sepbig(t, src, dst)
  requires t.OverdraftLimit >= 0 && t.Precision >= 0
  let amt = ite(old(num(t.PreciseAmount)) > 0, old(num(t.PreciseAmount)), roundhalf(old(t.Amount) * ite(old(t.Precision) == 0, 1, old(t.Precision))))
  let avail = old(num(src.Balance) - num(src.InflightDebitBalance) - num(src.QueuedDebitBalance))
  let unlimited = old(t.AllowOverdraft && t.OverdraftLimit == 0)
  let within = old(t.OverdraftLimit) > 0 && amt - avail <= roundhalf(old(t.OverdraftLimit) * t.Precision)
  ensures accepted-only-if-covered: implies(err == nil, amt > 0 && (unlimited || avail >= amt || within))
  ensures covered-is-accepted: implies(amt > 0 && t.Amount >= 0 && (unlimited || avail >= amt || within), err == nil)
  cover accepts: err == nil
  cover refuses: err != nil
