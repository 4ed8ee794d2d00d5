property C02
strings abstract
include model.inc
replay ./model TestVerifC02
pred settled(b) = num(b.Balance) == num(b.CreditBalance) - num(b.DebitBalance)
pred heldok(b) = num(b.InflightBalance) == num(b.InflightCreditBalance) - num(b.InflightDebitBalance)
pred wellKept(b) = implies(old(settled(b)) && old(heldok(b)), settled(b) && heldok(b))

func "model.UpdateBalances" (t, src, dst) (err)
  requires t != nil && src != nil && dst != nil && src != dst && sepbig(t, src, dst)
  ensures source-settled: implies(err == nil && old(settled(src)), settled(src))
  ensures source-held: implies(err == nil && old(heldok(src)), heldok(src))
  ensures destination-settled: implies(err == nil && old(settled(dst)), settled(dst))
  ensures destination-held: implies(err == nil && old(heldok(dst)), heldok(dst))
  ensures refused: implies(err != nil, wellKept(src) && wellKept(dst))
  cover accepts: err == nil

func "(*model.Balance).CommitInflightDebit" (b, t) (err)
  requires t != nil && b != nil && sepbig(t, b)
  ensures settled: implies(err == nil && old(settled(b)), settled(b))
  ensures held: implies(err == nil && old(heldok(b)), heldok(b))
  ensures refused: implies(err != nil, wellKept(b))
  cover accepts: err == nil

func "(*model.Balance).CommitInflightCredit" (b, t) (err)
  requires t != nil && b != nil && sepbig(t, b)
  ensures settled: implies(err == nil && old(settled(b)), settled(b))
  ensures held: implies(err == nil && old(heldok(b)), heldok(b))
  ensures refused: implies(err != nil, wellKept(b))
  cover accepts: err == nil

func "(*model.Balance).RollbackInflightDebit" (b, a) (err)
  requires a != nil && b != nil && sepbig(b, a)
  ensures settled: implies(err == nil && old(settled(b)), settled(b))
  ensures held: implies(err == nil && old(heldok(b)), heldok(b))
  ensures refused: implies(err != nil, wellKept(b))
  cover accepts: err == nil

func "(*model.Balance).RollbackInflightCredit" (b, a) (err)
  requires a != nil && b != nil && sepbig(b, a)
  ensures settled: implies(err == nil && old(settled(b)), settled(b))
  ensures held: implies(err == nil && old(heldok(b)), heldok(b))
  ensures refused: implies(err != nil, wellKept(b))
  cover accepts: err == nil

func "(*blnk.Blnk).applyTransactionToBalances" (l, ctx, balances, t) (err)
  requires len(balances) == 2 && balances[0] != nil && balances[1] != nil && balances[0] != balances[1] && t != nil
  let src = balances[0]
  let dst = balances[1]
  requires t.PreciseAmount != nil || t.Status != "VOID"
  requires sepbig(t, src, dst)
  ensures source-settled: implies(err == nil && old(settled(src)), settled(src))
  ensures source-held: implies(err == nil && old(heldok(src)), heldok(src))
  ensures destination-settled: implies(err == nil && old(settled(dst)), settled(dst))
  ensures destination-held: implies(err == nil && old(heldok(dst)), heldok(dst))
  cover accepts: err == nil
