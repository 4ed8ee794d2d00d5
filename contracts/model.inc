// Contracts of the balance helpers in model/model.go, shared by C01..C04.
pred kept(b) = (
  num(b.CreditBalance) == old(num(b.CreditBalance)) && num(b.DebitBalance) == old(num(b.DebitBalance)) &&
  num(b.InflightCreditBalance) == old(num(b.InflightCreditBalance)) && num(b.InflightDebitBalance) == old(num(b.InflightDebitBalance)) &&
  num(b.Balance) == old(num(b.Balance)) && num(b.InflightBalance) == old(num(b.InflightBalance)))
pred totalsKept(b) = (
  num(b.CreditBalance) == old(num(b.CreditBalance)) && num(b.DebitBalance) == old(num(b.DebitBalance)) &&
  num(b.InflightCreditBalance) == old(num(b.InflightCreditBalance)) && num(b.InflightDebitBalance) == old(num(b.InflightDebitBalance)))
pred queuedKept(b) = (
  num(b.QueuedDebitBalance) == old(num(b.QueuedDebitBalance)) && num(b.QueuedCreditBalance) == old(num(b.QueuedCreditBalance)) &&
  (b.QueuedDebitBalance == nil) == old(b.QueuedDebitBalance == nil))
pred inited(b) = (b.CreditBalance != nil && b.DebitBalance != nil && b.Balance != nil && b.InflightCreditBalance != nil && b.InflightDebitBalance != nil && b.InflightBalance != nil)
pred ptr1(p, q) = ((q != nil && p == q) || fresh(p))
pred ptrsKept(b) = (ptr1(b.CreditBalance, old(b.CreditBalance)) && ptr1(b.DebitBalance, old(b.DebitBalance)) && ptr1(b.Balance, old(b.Balance)) &&
  ptr1(b.InflightCreditBalance, old(b.InflightCreditBalance)) && ptr1(b.InflightDebitBalance, old(b.InflightDebitBalance)) && ptr1(b.InflightBalance, old(b.InflightBalance)))
pred restKept(b) = sameexcept(b, "CreditBalance", "DebitBalance", "Balance", "InflightCreditBalance", "InflightDebitBalance", "InflightBalance")

helper "(*model.Balance).InitializeBalanceFields" (b)
  requires b != nil && sepbig(b)
  modifies *b
  ensures inited(b) && ptrsKept(b) && restKept(b) && sepbig(b) && kept(b)

helper "(*model.Balance).addCredit" (b, amt, infl)
  requires b != nil && amt != nil && sepbig(b, amt)
  modifies *b, num(b.CreditBalance), num(b.InflightCreditBalance)
  ensures inited(b) && ptrsKept(b) && restKept(b) && sepbig(b, amt) && num(amt) == old(num(amt))
  ensures num(b.CreditBalance) == old(num(b.CreditBalance)) + ite(infl, 0, num(amt))
  ensures num(b.InflightCreditBalance) == old(num(b.InflightCreditBalance)) + ite(infl, num(amt), 0)
  ensures num(b.DebitBalance) == old(num(b.DebitBalance)) && num(b.InflightDebitBalance) == old(num(b.InflightDebitBalance))
  ensures num(b.Balance) == old(num(b.Balance)) && num(b.InflightBalance) == old(num(b.InflightBalance))

helper "(*model.Balance).addDebit" (b, amt, infl)
  requires b != nil && amt != nil && sepbig(b, amt)
  modifies *b, num(b.DebitBalance), num(b.InflightDebitBalance)
  ensures inited(b) && ptrsKept(b) && restKept(b) && sepbig(b, amt) && num(amt) == old(num(amt))
  ensures num(b.DebitBalance) == old(num(b.DebitBalance)) + ite(infl, 0, num(amt))
  ensures num(b.InflightDebitBalance) == old(num(b.InflightDebitBalance)) + ite(infl, num(amt), 0)
  ensures num(b.CreditBalance) == old(num(b.CreditBalance)) && num(b.InflightCreditBalance) == old(num(b.InflightCreditBalance))
  ensures num(b.Balance) == old(num(b.Balance)) && num(b.InflightBalance) == old(num(b.InflightBalance))

helper "(*model.Balance).computeBalance" (b, infl)
  requires b != nil && sepbig(b)
  modifies *b, num(b.Balance), num(b.InflightBalance)
  ensures inited(b) && ptrsKept(b) && restKept(b) && sepbig(b)
  ensures totalsKept(b)
  ensures num(b.Balance) == ite(infl, old(num(b.Balance)), num(b.CreditBalance) - num(b.DebitBalance))
  ensures num(b.InflightBalance) == ite(infl, num(b.InflightCreditBalance) - num(b.InflightDebitBalance), old(num(b.InflightBalance)))

helper "model.ApplyPrecision" (t) (r)
  requires t != nil
  modifies *t
  ensures sameexcept(t, "Precision", "PreciseAmount", "Amount", "AmountString")
  ensures t.Precision == ite(old(t.Precision) == 0, 1, old(t.Precision))
  ensures r == t.PreciseAmount && r != nil
  ensures implies(old(num(t.PreciseAmount)) > 0, t.PreciseAmount == old(t.PreciseAmount) && num(r) == old(num(t.PreciseAmount)))
  ensures implies(old(num(t.PreciseAmount)) <= 0, fresh(r) && t.Amount == old(t.Amount) && num(r) == roundhalf(old(t.Amount) * t.Precision))
