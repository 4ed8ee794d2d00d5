#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, **({"state": [dict(name=n, meaning=m) for n, m in state]} if state else {}),
                     mechanism=[dict(name=n, where=w) for n, w in mech])))

prop("C01", "Every accepted transaction is an exact double entry",
 "When a transaction is applied to a source and a destination balance, the source's debit total and the destination's credit total each grow by exactly the transaction's precise amount (their held totals instead, if the transaction is a hold), and no other total of either balance changes. If the application is refused, neither balance's totals change at all.",
 ["inputs"], "all transactions, all pairs of balances (arbitrarily large totals, unset totals included), hold or immediate",
 "Tests apply a handful of amounts to fresh balances; the law quantifies over all amounts, all starting totals and every refusal path.",
 ["model/model.go", "transaction_execution.go"],
 [("apply to two balances", "model/model.go:UpdateBalances"), ("flow entry", "transaction_execution.go:applyTransactionToBalances")],
 [("debit/credit totals", "cumulative amounts debited from and credited to a balance"), ("inflight totals", "held, unsettled debits and credits")])

prop("C02", "A balance always equals its credits minus its debits",
 "After any successful application, hold, settlement or release, the reported balance equals total credits minus total debits and the reported inflight balance equals held credits minus held debits, for every balance the operation touched that satisfied this before.",
 ["inputs", "histories"], "all balances satisfying the identity, all transactions, every balance operation, hence every history by induction",
 "It is an inductive invariant over unbounded histories; tests check end values of short fixed sequences.",
 ["model/model.go", "transaction_execution.go"],
 [("apply", "model/model.go:UpdateBalances"), ("settle", "model/model.go:CommitInflightDebit"), ("settle credit", "model/model.go:CommitInflightCredit"), ("release", "model/model.go:RollbackInflightDebit"), ("release credit", "model/model.go:RollbackInflightCredit")],
 [("balance, inflight balance", "net of credit and debit totals")])

prop("C03", "No overspending: funds, holds and overdraft limits are enforced exactly",
 "A debit or hold is accepted only if the source's balance less its held debits (and less queued debits when those are tracked) covers the amount, or overdraft is allowed without a limit, or the shortfall stays within the overdraft limit rounded to minor units; and whenever one of these holds, and the amount is positive, it is accepted.",
 ["inputs", "configurations"], "all balances, amounts, overdraft settings and precisions; queued-debit tracking on or off",
 "The accept/refuse boundary is a relation over six unbounded numbers; tests probe a few points on it.",
 ["model/model.go"],
 [("sufficiency check", "model/model.go:canProcessTransaction"), ("caller", "model/model.go:UpdateBalances")],
 [("available funds", "balance minus held debits minus queued debits")])

prop("C04", "Settling or releasing a hold moves exactly that amount and never over-draws it",
 "Committing a hold moves exactly the committed amount from the held total to the settled total on each side, voiding removes exactly the voided amount from the held totals, and nothing else changes. A held total is never driven below zero: an amount larger than what is held is refused and the balance on which it is refused is left unchanged.",
 ["inputs"], "all balances and all settlement amounts",
 "Tests use one hold and one amount; the guarantee ranges over all held totals including smaller, equal and zero holds.",
 ["model/model.go", "transaction_execution.go"],
 [("commit debit", "model/model.go:CommitInflightDebit"), ("commit credit", "model/model.go:CommitInflightCredit"), ("void debit", "model/model.go:RollbackInflightDebit"), ("void credit", "model/model.go:RollbackInflightCredit"), ("dispatch by status", "transaction_execution.go:applyTransactionToBalances")],
 [("held totals", "inflight debit and inflight credit totals")])

prop("C05", "A hold is never settled for more than was authorised",
 "A commit of a held transaction is recorded only if the transaction is a hold that has not been voided, and for an amount that is positive and at most the authorised amount less everything already committed; asking for zero commits exactly that remainder. A void records exactly that remainder, and neither is recorded once nothing remains.",
 ["inputs", "histories"], "all authorised amounts, all prior partial commits, all requested amounts including negative, zero and oversized ones",
 "Tests run one or two partial commits; the bound must hold for every sequence of partial commits and every requested amount.",
 ["transaction_inflight.go"],
 [("commit", "transaction_inflight.go:CommitInflightTransactionWithRef"), ("void", "transaction_inflight.go:VoidInflightTransactionWithRef"), ("remaining amount", "transaction_inflight.go:calculateRemainingAmount"), ("amount validation", "transaction_inflight.go:validateRequestedAmount")],
 [("committed so far", "sum of applied children of the held transaction")])

prop("C06", "A transaction and its balance changes are stored together or not at all",
 "Storing a transaction writes both balances, the transaction record and any fund-lineage work item inside one database transaction, and success is reported only after that database transaction has committed. If any write or the commit itself fails, an error is reported and nothing has been committed.",
 ["fault_sequences", "crash_points", "inputs"], "every position at which a database statement or the commit may fail, for single transactions and batches of any size",
 "Tests inject failures at a few statements; the guarantee ranges over every fault position and batch length.",
 ["database/transaction.go", "database/balance.go", "database/lineage.go"],
 [("single", "database/transaction.go:RecordTransactionWithBalancesAndOutbox"), ("batch", "database/transaction.go:RecordTransactionsWithBalanceSetAndOutboxes"), ("balances only", "database/balance.go:UpdateBalances")],
 [("database transaction", "begun, written to, committed or rolled back")])

prop("C07", "Stale balance writes are refused",
 "A balance update succeeds only if the stored version is still the one that was read, in which case the version advances by exactly one; if no row matched, a conflict error is returned and the in-memory version is not advanced.",
 ["inputs", "schedules", "fault_sequences"], "all balances, all outcomes of the conditional update",
 "Lost updates need a concurrent writer between read and write; tests mock one outcome of the update statement.",
 ["database/balance.go"],
 [("conditional update", "database/balance.go:updateBalance"), ("batched conditional update", "database/balance.go:updateBalanceSet")],
 [("version", "optimistic concurrency counter of a balance")])

prop("C08", "Split transactions distribute exactly the total",
 "When a transaction is split over several sources or destinations, the legs' precise amounts add up to exactly the transaction's precise amount, no leg is negative, and there is one leg per named party. The identifier recorded for each party is that of the leg which really pays it.",
 ["inputs"], "all totals, all mixes of fixed, percentage and remainder shares accepted by the splitter, any number of parties",
 "Rounding residue depends on amount, percentages and number of legs; tests check a few hand-picked mixes.",
 ["model/transaction.go"],
 [("distribution", "model/transaction.go:CalculateDistributionsPrecise"), ("split", "model/transaction.go:SplitTransactionPrecise")],
 [("distribution table", "precise amount per party")])

prop("C09", "Amount and precise amount always agree",
 "A given positive precise amount is always kept as is and the decimal amount is derived from it; otherwise the precise amount is the decimal amount times the precision, rounded half away from zero to a whole number of minor units. An unset precision means one.",
 ["inputs"], "all amounts, precise amounts and precisions",
 "Floating-point pitfalls appear at particular values; tests use a few round ones.",
 ["model/model.go"],
 [("conversion", "model/model.go:ApplyPrecision"), ("to minor units", "model/model.go:convertDecimalToPrecise"), ("to decimal", "model/model.go:convertPreciseToDecimal")])

prop("C10", "A refund is the exact reverse of a settled transaction, issued at most once",
 "A refund is only queued for an original that is applied or void and has not been refunded before; it has the original's amount, precision and currency, source and destination swapped, the original as parent and a reference determined by the original alone. Preparing it never alters the original transaction.",
 ["inputs", "histories", "schedules"], "all originals in all statuses, all refund options, repeated and concurrent refund requests",
 "Tests refund one applied transaction; eligibility and exact reversal quantify over all originals and repeated requests.",
 ["transaction_refunds.go"],
 [("refund", "transaction_refunds.go:RefundTransactionWithOptions"), ("reverse", "transaction_refunds.go:prepareRefundTransaction"), ("eligibility", "transaction_refunds.go:validateTransactionForRefund")])

prop("C11", "Nothing is recorded for a refused transaction, and a reference is used at most once",
 "If a transaction is refused for any reason (reference already used, unknown balance, insufficient funds, hook veto, lock not obtained), nothing is persisted and an error is returned. A transaction is persisted at most once per request, only after its reference was checked to be unused, and with the amounts actually applied to the balances.",
 ["inputs", "fault_sequences"], "all transactions, every failure point of the recording flow",
 "Each collaborator may fail at each step; tests cover single failures of some steps.",
 ["transaction_execution.go"],
 [("record", "transaction_execution.go:RecordTransaction"), ("validation", "transaction_execution.go:validateAndPrepareTransaction"), ("persist", "transaction_execution.go:persistSingleTransactionExecutionWork")])

prop("C12", "A coalesced batch is all-or-nothing and single-currency",
 "Queued transactions processed as one batch share one currency, have pairwise distinct and unused references, and are persisted in one call together with exactly the balances they touch; if any member is refused, no member is persisted. Only plain queued transactions (not atomic, split, scheduled or queue-skipping) may join a batch.",
 ["inputs", "fault_sequences"], "all batches of any length, any failing member, any eligibility mix",
 "Tests build two- or three-element batches; the guarantee is for all lengths and all failing positions.",
 ["transaction_coalescing.go"],
 [("batch persistence", "transaction_coalescing.go:persistQueuedTransactionBatchLocked"), ("eligibility", "transaction_coalescing.go:canCoalesceQueuedTransaction"), ("batch references", "transaction_coalescing.go:validateQueuedBatchTransactionReference")])

prop("C13", "Balance locks cover both sides, in one global order, and are always released",
 "A transaction is executed only while locks on both of its (resolved) balances are held; lock keys are acquired without duplicates in ascending order, a failed acquisition releases every lock already taken, and the locks are released on every exit. Only the current holder can release or extend a lock.",
 ["schedules", "inputs", "fault_sequences"], "all sets of balance identifiers, failure of any single acquisition or release, every exit path",
 "Deadlock and leak need particular key orders and failures in the middle; tests take two free locks.",
 ["internal/lock/lock.go", "transaction_execution.go"],
 [("ordered key set", "internal/lock/lock.go:NewMultiLocker"), ("acquire with rollback", "internal/lock/lock.go:MultiLocker.Lock"), ("locked execution", "transaction_execution.go:executeWithLock"), ("holder check", "internal/lock/lock.go:Locker.Unlock")])

prop("C14", "A dry run changes nothing and predicts the real outcome",
 "A dry run of a transaction never records or queues anything and leaves the caller's transaction unchanged. The balances it reports are those the real application of the same transaction to the same balances produces, and it reports a refusal exactly when the real application would refuse.",
 ["inputs"], "all transactions and balances",
 "Tests compare a few projections; agreement with the real arithmetic is universally quantified.",
 ["transaction_dryrun.go", "model/transaction_preview.go", "model/clone.go"],
 [("projection", "transaction_dryrun.go:DryRunTransaction")])

prop("C15", "Copies of balances and transactions are independent of the original",
 "A copy of a balance or transaction initially has the same value as the original in every field, unset numbers stay unset, and applying any operation to the copy never changes the original.",
 ["inputs"], "all balances and transactions, including unset fields",
 "Aliasing shows only when a specific field is later mutated; tests mutate some fields.",
 ["model/clone.go"],
 [("balance copy", "model/clone.go:Balance.Clone"), ("transaction copy", "model/clone.go:Transaction.Clone")])

prop("C16", "Fund-lineage allocation spends exactly what is available, oldest/newest first or pro rata",
 "Allocating a debit over tracked fund sources yields only positive amounts, never more than a source holds, and in total exactly the smaller of the debit and everything available. First-in-first-out exhausts earlier sources before later ones are touched, last-in-first-out the reverse.",
 ["inputs"], "all source lists, all balances, all debit amounts and strategies",
 "Rounding and exhaustion corner cases depend on exact numbers; tests use two or three sources.",
 ["lineage_allocation.go"],
 [("allocation", "lineage_allocation.go:calculateAllocation"), ("sequential", "lineage_allocation.go:sequentialAllocation"), ("proportional", "lineage_allocation.go:proportionalAllocation")])

prop("C17", "Only settled or held movements create lineage work, once",
 "Fund-lineage work accompanies a recorded transaction exactly when the transaction is applied or held, is not the commit of an existing hold, and its source tracks lineage or its destination does and the transaction names a fund provider; the work item carries that transaction's identifier, amount and balances.",
 ["inputs"], "all transactions and balances",
 "Eligibility is a relation over status, metadata and tracking flags; tests sample it.",
 ["lineage_outbox.go", "transaction_execution.go"],
 [("eligibility", "transaction_execution.go:prepareTransactionOutbox"), ("work item", "lineage_outbox.go:PrepareLineageOutbox")])

prop("C18", "The hash chain seals transactions gaplessly and verification exposes any break",
 "Sealing appends each unsealed transaction exactly once with consecutive sequence numbers, each link bound to its predecessor's hash, all in one database transaction that also advances the recorded head. Verification succeeds only if the stored links are consecutive from one, each link's predecessor and recomputed hash match, and the replay reaches the recorded head; an altered, removed or inserted link is reported.",
 ["inputs", "histories", "fault_sequences"], "chains of any length, any single alteration, removal or truncation, any statement failure during sealing",
 "Tamper positions and chain lengths are unbounded; tests alter one row of a short chain.",
 ["chain_worker.go", "database/chain.go", "model/chain.go"],
 [("verify", "chain_worker.go:VerifyChain"), ("seal", "database/chain.go:ChainPendingTransactions"), ("link hash", "model/chain.go:ComputeChainHash")],
 [("head", "hash and sequence number of the last sealed link")])

prop("C19", "Balance monitors fire exactly when their condition holds",
 "A monitor fires for a balance if and only if the monitored total stands in the stated relation (>, <, >=, <=, ==, !=) to the threshold; an unknown field or operator never fires. Checking a condition changes nothing.",
 ["inputs"], "all fields, operators, totals and thresholds",
 "Six fields times six operators times all integers; tests sample a few combinations.",
 ["model/model.go"],
 [("condition", "model/model.go:CheckCondition"), ("comparison", "model/model.go:compare")])

prop("C20", "API keys are confined to their scopes",
 "With secured mode on, a request proceeds only with the master key or with a valid API key holding a scope that covers the requested resource and the method's action; every other request is refused before reaching a handler. A key can be granted only scopes each of which is covered by the granting caller's scopes.",
 ["inputs", "configurations"], "all scope lists, resources, methods, keys and configuration states",
 "Authorization is a relation over arbitrary strings and lists; tests enumerate some combinations.",
 ["api/middleware/scope.go", "api/middleware/auth.go"],
 [("permission", "api/middleware/scope.go:HasPermission"), ("delegation", "api/middleware/scope.go:CanGrantScopes"), ("gate", "api/middleware/auth.go:Authenticate")])

prop("C21", "Search filters never leak user text into SQL and never shift parameters",
 "For every accepted filter set, the generated conditions contain only fixed text, known column names, validated metadata keys and numbered placeholders; the placeholders are exactly the consecutive numbers from the given start, one per bound value. Unknown fields and operators are rejected.",
 ["inputs"], "all filter sets, tables, fields, operators, value lists and start positions",
 "Injection and mis-numbering hide in particular operator/field/value-count combinations; tests cover some of them.",
 ["internal/filter/sql_builder.go", "internal/filter/sql_json.go", "internal/filter/sql_special.go", "internal/filter/validation.go"],
 [("builder", "internal/filter/sql_builder.go:Build"), ("validation", "internal/filter/validation.go:Validate")])

prop("C22", "Tokenised personal data can always be restored exactly",
 "Whatever value is tokenised, in either mode, detokenising the result with the same key returns exactly that value; tokenisation with no valid key is refused.",
 ["inputs"], "all strings (any characters), both modes, all 32-byte keys",
 "Failures depend on particular characters in the value; tests use ordinary names and emails.",
 ["internal/tokenization/tokenization.go"],
 [("tokenise", "internal/tokenization/tokenization.go:TokenizeWithMode"), ("restore", "internal/tokenization/tokenization.go:Detokenize")])

prop("C23", "Reconciliation matches exactly when some rule's every criterion holds",
 "An external and an internal record match if and only if there is a rule all of whose criteria they satisfy; amount and date criteria hold exactly when the difference is within the allowed drift. An unknown criterion field never matches.",
 ["inputs"], "all records, all rule sets of any size, all drifts",
 "Rules and criteria lists are unbounded; tests use one or two.",
 ["reconciliation.go"],
 [("rule evaluation", "reconciliation.go:matchesRules"), ("amount", "reconciliation.go:matchesGroupAmount"), ("date", "reconciliation.go:matchesGroupDate")])

prop("C24", "A balance at a past instant is the sum of the movements up to it",
 "The historical credit (debit) total reported for a balance is the starting snapshot's total plus the precise amounts of every returned movement in which the balance is the destination (source), and the reported balance is credits minus debits; any read failure is reported as an error, never as a partial result.",
 ["inputs", "histories", "fault_sequences"], "all movement histories of any length, with or without snapshot, any read failure",
 "Histories are unbounded and failures may strike any row; tests feed a few rows.",
 ["database/balance.go"],
 [("history replay", "database/balance.go:calculateBalanceFromTransactions"), ("entry", "database/balance.go:GetBalanceAtTime")])

prop("C25", "Outcome statuses follow the lifecycle",
 "A processed transaction is recorded as held if it was submitted as a hold, as void if it was a void, and as applied if it was queued, scheduled, immediate or a commit; it keeps its identifier, amount, reference and metadata, and its recorded parties are the balances it was applied to. A rejected transaction is recorded as rejected with its reason and without touching balances.",
 ["inputs"], "all submitted transactions and statuses",
 "A table over statuses and flags on arbitrary transactions; tests check a few entries.",
 ["transaction_execution.go", "transaction_rejection.go"],
 [("status", "transaction_execution.go:updateTransactionDetails"), ("rejection", "transaction_rejection.go:RejectTransaction")])

prop("C26", "Queued work is routed deterministically and recovered a bounded number of times",
 "All queued transactions of one source balance go to the same numbered queue, whose number lies within the configured number of queues. A stuck queued transaction is re-driven under its fixed derived reference while attempts remain, and is rejected rather than re-driven once the attempt limit is reached.",
 ["inputs", "configurations", "histories"], "all balance identifiers, queue counts, attempt counts and limits",
 "Routing and limits quantify over all identifiers and counters; tests use a few.",
 ["queue.go", "queue_recovery.go"],
 [("routing", "queue.go:hashBalanceID"), ("recovery", "queue_recovery.go")])

prop("C27", "Atomic bulk requests leave no partial effect behind",
 "If any item of an atomic bulk request fails, every item already recorded in that request is reversed (held items voided, others refunded) and the request reports failure; a non-atomic bulk request stops at the first failure and reports it.",
 ["inputs", "fault_sequences"], "bulk requests of any size, failure at any item",
 "The failing position is universally quantified; tests fail one item of two or three.",
 ["transaction_bulk.go"],
 [("bulk", "transaction_bulk.go:CreateBulkTransactions")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
