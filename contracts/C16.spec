property C16
replay . TestVerifC16
bounded . TestVerifC16 getLineageSources (map-valued batch read) and the permutation done by sort.Slice: 6000 generated sets of up to 70 sources

pred usable(s) = forall(i, 0, len(s), s[i].Balance != nil && num(s[i].Balance) > 0)
pred distinctIDs(s) = forall(i, 0, len(s), forall(j, 0, i, s[i].BalanceID != s[j].BalanceID))

func "(*blnk.Blnk).sequentialAllocation" (l, sources, amount) (r)
  modifies nothing
  requires amount != nil && usable(sources)
  invariant [?q []blnk.Allocation] len(q) == iter
  invariant [?q []blnk.Allocation] forall(j, 0, iter, q[j].BalanceID == sources[j].BalanceID)
  invariant [?q []blnk.Allocation] forall(j, 0, iter, q[j].Amount != nil && fresh(q[j].Amount))
  invariant [?q []blnk.Allocation] [?m *big.Int] forall(j, 0, iter, q[j].Amount != m)
  invariant [?q []blnk.Allocation] forall(j, 0, iter, num(q[j].Amount) > 0 && num(q[j].Amount) <= num(sources[j].Balance))
  invariant [?q []blnk.Allocation] [?m *big.Int] forall(j, 0, iter, implies(j < iter-1 || num(m) > 0, num(q[j].Amount) == num(sources[j].Balance)))
  invariant [?q []blnk.Allocation] [?m *big.Int] num(m) == num(amount) - sum(j, 0, iter, num(q[j].Amount))
  invariant [?q []blnk.Allocation] [?m *big.Int] implies(num(m) > 0, sum(j, 0, iter, num(q[j].Amount)) == sum(j, 0, iter, num(sources[j].Balance)))
  invariant [?m *big.Int] implies(num(m) > 0, num(m) == num(amount) - sum(j, 0, iter, num(sources[j].Balance)))
  invariant [?m *big.Int] num(m) == max(0, num(amount) - sum(j, 0, iter, num(sources[j].Balance)))
  invariant [?m *big.Int] num(m) >= 0
  ensures exact-total: sum(i, 0, len(r), num(r[i].Amount)) == ite(num(amount) <= 0, 0, min(num(amount), sum(i, 0, len(sources), num(sources[i].Balance))))
  ensures positive: forall(i, 0, len(r), r[i].Amount != nil && num(r[i].Amount) > 0)
  ensures in-order: len(r) <= len(sources) && forall(i, 0, len(r), r[i].BalanceID == sources[i].BalanceID && num(r[i].Amount) <= num(sources[i].Balance))
  ensures earlier-exhausted: forall(i, 0, len(r)-1, num(r[i].Amount) == num(sources[i].Balance))
  cover partial: len(r) > 1 && num(amount) > 0

func "(*blnk.Blnk).proportionalAllocation" (l, sources, amount) (r)
  modifies nothing
  requires amount != nil && usable(sources) && distinctIDs(sources)
  let all = sum(i, 0, len(sources), num(sources[i].Balance))
  invariant [?m *big.Int] num(m) == sum(j, 0, iter, num(sources[j].Balance))
  invariant [?m *big.Int] [?n *big.Int] num(n) == all - sum(j, 0, iter, num(sources[j].Balance)) && 0 <= num(m) && num(m) <= num(n)
  invariant [?q []blnk.Allocation] forall(j, 0, len(q), q[j].Amount != nil && fresh(q[j].Amount))
  invariant [?q []blnk.Allocation] [?m *big.Int] num(m) == all - sum(j, 0, iter, num(sources[j].Balance)) && forall(j, 0, len(q), q[j].Amount != m)
  invariant [?q []blnk.Allocation] [?m *big.Int] num(m) == min(num(amount), all) - sum(j, 0, len(q), num(q[j].Amount)) && forall(j, 0, len(q), q[j].Amount != m)
  invariant [?q []blnk.Allocation] forall(j, 0, len(q), num(q[j].Amount) > 0)
  invariant [?q []blnk.Allocation] len(q) <= iter
  ensures exact-total: sum(i, 0, len(r), num(r[i].Amount)) == ite(num(amount) <= 0, 0, min(num(amount), all))
  ensures positive: forall(i, 0, len(r), r[i].Amount != nil && num(r[i].Amount) > 0)
  cover partial: len(r) > 1 && num(amount) > 0

func "(*blnk.Blnk).calculateAllocation" (l, sources, amount, strategy) (r)
  modifies elems(sources)
  requires amount != nil && usable(sources) && distinctIDs(sources)
  ensures covers-debit: sum(i, 0, len(r), num(r[i].Amount)) == ite(num(amount) <= 0, 0, min(num(amount), sum(i, 0, len(sources), num(sources[i].Balance))))
  ensures positive: forall(i, 0, len(r), r[i].Amount != nil && num(r[i].Amount) > 0)
  ensures in-listed-order: implies(strategy != "PROPORTIONAL", len(r) <= len(sources) && forall(i, 0, len(r), r[i].BalanceID == sources[i].BalanceID && num(r[i].Amount) <= num(sources[i].Balance)))
  ensures earlier-exhausted: implies(strategy != "PROPORTIONAL", forall(i, 0, len(r)-1, num(r[i].Amount) == num(sources[i].Balance)))
  ensures fifo-oldest-first: implies(strategy != "PROPORTIONAL" && strategy != "LIFO", forall(i, 0, len(sources), forall(j, 0, i, !(sources[i].CreatedAt < sources[j].CreatedAt))))
  ensures lifo-newest-first: implies(strategy == "LIFO", forall(i, 0, len(sources), forall(j, 0, i, !(sources[i].CreatedAt > sources[j].CreatedAt))))
