property C19
strings abstract
replay ./model TestVerifC19
replay . TestVerifC19
goroutines run
ghost met int

pred rel(x, op, y) = ((op == ">" && x > y) || (op == "<" && x < y) || (op == ">=" && x >= y) || (op == "<=" && x <= y) || (op == "==" && x == y) || (op == "!=" && x != y))
func "(*model.BalanceMonitor).CheckCondition" (m, b) (r)
  requires m != nil && b != nil && m.Condition.PreciseValue != nil
  requires b.CreditBalance != nil && b.DebitBalance != nil && b.Balance != nil && b.InflightCreditBalance != nil && b.InflightDebitBalance != nil && b.InflightBalance != nil
  let op = m.Condition.Operator
  let thr = num(m.Condition.PreciseValue)
  let f = m.Condition.Field
  ensures debit: implies(f == "debit_balance", r == rel(num(b.DebitBalance), op, thr))
  ensures credit: implies(f == "credit_balance", r == rel(num(b.CreditBalance), op, thr))
  ensures balance: implies(f == "balance", r == rel(num(b.Balance), op, thr))
  ensures held-debit: implies(f == "inflight_debit_balance", r == rel(num(b.InflightDebitBalance), op, thr))
  ensures held-credit: implies(f == "inflight_credit_balance", r == rel(num(b.InflightCreditBalance), op, thr))
  ensures held: implies(f == "inflight_balance", r == rel(num(b.InflightBalance), op, thr))
  ensures unknown-field: implies(f != "debit_balance" && f != "credit_balance" && f != "balance" && f != "inflight_debit_balance" && f != "inflight_credit_balance" && f != "inflight_balance", !r)
  modifies nothing
  set met = met + 1 if r
  cover fires: r
  cover silent: !r

// The threshold a monitor is created with is its value in minor units.
track "(database.%).CreateMonitor" as store
extern "(database.%).CreateMonitor" (d, m) (r, err)
func "(*blnk.Blnk).CreateMonitor" (l, ctx, monitor) (r, err)
  requires l != nil
  ensures stored-once: calls(store) == 1
  ensures threshold: num(arg(store, 1).Condition.PreciseValue) == roundhalf(monitor.Condition.Value * monitor.Condition.Precision)
  ensures condition-kept: arg(store, 1).Condition.Field == monitor.Condition.Field && arg(store, 1).Condition.Operator == monitor.Condition.Operator && arg(store, 1).BalanceID == monitor.BalanceID
  ensures failure-reported: implies(res(store, 1) != nil, err != nil)

// Every monitor of the balance is checked against the updated balance.
track "(*model.BalanceMonitor).CheckCondition" as check
track "(*blnk.Blnk).getBalanceMonitorsCached" as list
track "(*blnk.Blnk).SendWebhook" as fire
extern "(*blnk.Blnk).getBalanceMonitorsCached" (l, ctx, id) (ms, err)
  ensures forall(i, 0, len(ms), ms[i].Condition.PreciseValue != nil)
extern "(*blnk.Blnk).SendWebhook" (l, hook) (err)
  requires only-when-met: calls(check) > 0 && res(check, 0)
  requires names-the-monitor: hook.Event == "balance.monitor" && as(hook.Payload, "model.BalanceMonitor").MonitorID == arg(check, 0).MonitorID
func "(*blnk.Blnk).checkBalanceMonitors" (l, ctx, b)
  requires l != nil && b != nil
  requires b.CreditBalance != nil && b.DebitBalance != nil && b.Balance != nil && b.InflightCreditBalance != nil && b.InflightDebitBalance != nil && b.InflightBalance != nil
  ensures own-monitors: calls(list) == 1 && arg(list, 2) == b.BalanceID
  ensures all-checked: implies(res(list, 1) == nil, calls(check) == len(res(list, 0)))
  ensures fires-exactly-when-met: calls(fire) == met - old(met)
  invariant calls(fire) == met - old(met)
  invariant calls(check) == iter

// Updating a monitor: the stored threshold must follow the stored value.
track "(*database/sql.DB).ExecContext" as exec
func "(database.Datasource).UpdateMonitor" (d, m) (err)
  requires m != nil
  let q = arg(exec, 2)
  ensures one-statement: calls(exec) == 1
  ensures of-that-monitor: as(arg(exec, 3)[sqlwhere(q, "monitor_id") - 1], "string") == m.MonitorID
  ensures relation-stored: as(arg(exec, 3)[sqlcol(q, "operator") - 1], "string") == m.Condition.Operator && as(arg(exec, 3)[sqlcol(q, "field") - 1], "string") == m.Condition.Field
  ensures threshold-stored: sqlcol(q, "value") == 0 || sqlcol(q, "precise_value") > 0
func "(database.Datasource).CreateMonitor" (d, m) (r, err)
  let q = arg(exec, 2)
  ensures stored: calls(exec) == 1 && sqlverb(q) == "insert" && sqltable(q) == "balance_monitors"
  ensures of-that-balance: as(arg(exec, 3)[sqlcol(q, "balance_id") - 1], "string") == m.BalanceID
  ensures relation-stored: as(arg(exec, 3)[sqlcol(q, "operator") - 1], "string") == m.Condition.Operator && as(arg(exec, 3)[sqlcol(q, "field") - 1], "string") == m.Condition.Field
  ensures threshold-stored: as(arg(exec, 3)[sqlcol(q, "precise_value") - 1], "string") == itoa(num(m.Condition.PreciseValue))
