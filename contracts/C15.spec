property C15
replay ./model TestVerifC15
replay . TestVerifC15

pred sameMeta(m, q) = (isnil(m) == isnil(q) && all(k, "string", has(m, k) == has(q, k) && implies(has(q, k), m[k] == q[k])))
pred ownBig(p) = (p == nil || fresh(p))

func "(*model.Balance).Clone" (b) (r)
  ensures nothing-of-nothing: (r == nil) == (b == nil)
  ensures its-own: implies(b != nil, fresh(r))
  ensures same-values: implies(b != nil, copyof(r, b, "MetaData"))
  ensures same-metadata: implies(b != nil, isnil(r.MetaData) == isnil(old(b.MetaData)))
  ensures same-metadata-entries: implies(b != nil, all(k, "string", has(r.MetaData, k) == old(has(b.MetaData, k)) && implies(has(r.MetaData, k), r.MetaData[k] == old(b.MetaData[k]))))
  ensures own-metadata: implies(b != nil && !isnil(r.MetaData), fresh(r.MetaData))
  ensures own-numbers: implies(b != nil, ownBig(r.Balance) && ownBig(r.InflightBalance) && ownBig(r.CreditBalance) && ownBig(r.InflightCreditBalance) && ownBig(r.DebitBalance) && ownBig(r.InflightDebitBalance) && ownBig(r.QueuedDebitBalance) && ownBig(r.QueuedCreditBalance))
  ensures numbers-apart: implies(b != nil, sepbig(r))
  ensures original-kept: implies(b != nil, deepsame(b))
  cover copies: b != nil

func "(*model.Transaction).Clone" (t) (r)
  ensures nothing-of-nothing: (r == nil) == (t == nil)
  ensures its-own: implies(t != nil, fresh(r))
  ensures same-values: implies(t != nil, copyof(r, t, "MetaData", "EffectiveDate", "Sources", "Destinations", "GroupIds"))
  ensures own-amount: implies(t != nil, ownBig(r.PreciseAmount))
  ensures same-date: implies(t != nil, (r.EffectiveDate == nil) == (old(t.EffectiveDate) == nil) && implies(r.EffectiveDate != nil, *r.EffectiveDate == old(*t.EffectiveDate) && fresh(r.EffectiveDate)))
  ensures same-metadata: implies(t != nil, isnil(r.MetaData) == isnil(old(t.MetaData)))
  ensures same-metadata-entries: implies(t != nil, all(k, "string", has(r.MetaData, k) == old(has(t.MetaData, k)) && implies(has(r.MetaData, k), r.MetaData[k] == old(t.MetaData[k]))))
  ensures own-metadata: implies(t != nil && !isnil(r.MetaData), fresh(r.MetaData))
  ensures same-sources: implies(t != nil, len(r.Sources) == old(len(t.Sources)) && isnil(r.Sources) == isnil(old(t.Sources)) && forall(i, 0, len(r.Sources), r.Sources[i] == old(t.Sources[i])))
  ensures same-destinations: implies(t != nil, len(r.Destinations) == old(len(t.Destinations)) && isnil(r.Destinations) == isnil(old(t.Destinations)) && forall(i, 0, len(r.Destinations), r.Destinations[i] == old(t.Destinations[i])))
  ensures same-groups: implies(t != nil, len(r.GroupIds) == old(len(t.GroupIds)) && isnil(r.GroupIds) == isnil(old(t.GroupIds)) && forall(i, 0, len(r.GroupIds), r.GroupIds[i] == old(t.GroupIds[i])))
  ensures own-lists: implies(t != nil, implies(!isnil(r.Sources), fresh(r.Sources)) && implies(!isnil(r.Destinations), fresh(r.Destinations)) && implies(!isnil(r.GroupIds), fresh(r.GroupIds)))
  ensures original-kept: implies(t != nil, deepsame(t))
  cover copies: t != nil

func "blnk.cloneTransactionForAsync" (t) (r)
  modifies nothing
  requires t != nil
  ensures its-own: r != nil && fresh(r)
  ensures same-values: copyof(r, t, "MetaData", "EffectiveDate")
  ensures same-date: (r.EffectiveDate == nil) == (old(t.EffectiveDate) == nil) && implies(r.EffectiveDate != nil, *r.EffectiveDate == old(*t.EffectiveDate) && fresh(r.EffectiveDate))
  ensures same-metadata: isnil(r.MetaData) == isnil(old(t.MetaData))
  ensures same-metadata-entries: all(k, "string", has(r.MetaData, k) == old(has(t.MetaData, k)) && implies(has(r.MetaData, k), r.MetaData[k] == old(t.MetaData[k])))
  ensures own-metadata: implies(!isnil(r.MetaData), fresh(r.MetaData))
  ensures original-kept: deepsame(t)
  cover copies: true

func "blnk.cloneTransactionsForAsync" (ts) (r)
  requires forall(i, 0, len(ts), ts[i] != nil)
  invariant [?q []*model.Transaction] forall(j, 0, iter, q[j] != nil && fresh(q[j]))
  ensures one-each: len(r) == old(len(ts))
  ensures own-list: fresh(r)
  ensures own-copies: forall(i, 0, len(r), r[i] != nil && fresh(r[i]))
  cover copies: len(r) > 1
