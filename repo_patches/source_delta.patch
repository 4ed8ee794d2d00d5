From 1e996a6df8acf20091196562df97a08922ebb242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 1/6] fix: keep a fractional precision when deriving the
 precise amount

strconv.FormatFloat(precision,'f',0) rounded the precision to a whole number
first, so amount 10 at precision 2.5 became 20 minor units instead of 25.
---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index 1cb52a2..42c541e 100644
--- a/model/model.go
+++ b/model/model.go
@@ -421,7 +421,7 @@ func convertDecimalToPrecise(transaction *Transaction) *big.Int {
 
 	// Using decimal package approach
 	amountStr := strconv.FormatFloat(transaction.Amount, 'f', -1, 64)
-	precisionStr := strconv.FormatFloat(transaction.Precision, 'f', 0, 64)
+	precisionStr := strconv.FormatFloat(transaction.Precision, 'f', -1, 64)
 
 	amountDec, _ := decimal.NewFromString(amountStr)
 	precisionDec, _ := decimal.NewFromString(precisionStr)
-- 
2.43.0


From deb60bc9b20ca68901483d19af63f21677b1b4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 2/6] fix: do not overflow int64 when scaling the overdraft
 limit

IntPart truncates to int64, so a limit of 10 at precision 1e18 became a
negative number and refused transactions well within the limit.
---
 model/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 42c541e..7034547 100644
--- a/model/model.go
+++ b/model/model.go
@@ -187,8 +187,8 @@ func canProcessTransaction(transaction *Transaction, sourceBalance *Balance) err
 		// products (0.29*100 -> 28), rejecting transactions exactly at the
 		// configured limit.
 		overdraftLimitPrecise := decimal.NewFromFloat(transaction.OverdraftLimit).
-			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).IntPart()
-		overdraftLimitBigInt := new(big.Int).SetInt64(overdraftLimitPrecise)
+			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0)
+		overdraftLimitBigInt := overdraftLimitPrecise.BigInt()
 
 		// Negative of overdraft limit (as balance will be negative)
 		negativeOverdraftLimit := new(big.Int).Neg(overdraftLimitBigInt)
-- 
2.43.0


From 61d7fb57cae2083c4c3cf75812ef81703b33907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 3/6] fix: derive a monitor's precise threshold in decimal
 arithmetic

int64(value*precision) truncated binary-float products, so a threshold of 0.29
at precision 100 was stored as 28 minor units, and large thresholds overflowed.
---
 balance.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/balance.go b/balance.go
index 7b904b2..8bbc6c4 100644
--- a/balance.go
+++ b/balance.go
@@ -28,6 +28,7 @@ import (
 	"github.com/blnkfinance/blnk/internal/metrics"
 	"github.com/blnkfinance/blnk/internal/notification"
 	"github.com/blnkfinance/blnk/model"
+	"github.com/shopspring/decimal"
 	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel"
 	"go.opentelemetry.io/otel/attribute"
@@ -362,9 +363,10 @@ func (l *Blnk) CreateMonitor(ctx context.Context, monitor model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "CreateMonitor")
 	defer span.End()
 
-	amount := int64(monitor.Condition.Value * monitor.Condition.Precision) // apply precision to value
-	amountBigInt := model.Int64ToBigInt(amount)
-	monitor.Condition.PreciseValue = amountBigInt
+	// Apply precision to value in decimal arithmetic: int64(value*precision)
+	// truncates binary-float products (0.29*100 -> 28) and overflows.
+	monitor.Condition.PreciseValue = decimal.NewFromFloat(monitor.Condition.Value).
+		Mul(decimal.NewFromFloat(monitor.Condition.Precision)).Round(0).BigInt()
 	monitor, err := l.datasource.CreateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
-- 
2.43.0


From 43f375e35dc91e3b6d227b89aa967e8b085501f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 4/6] fix: proportional lineage allocation left part of the
 debit unallocated when shares rounded down

Every source but the last got its share rounded down and the last one was
capped at its balance, so three sources holding 3, 3 and 1 covered only 3 of a
debit of 4. Carry the rounding to the following sources instead.
---
 lineage_allocation.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 0444713..25e26cb 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -182,18 +182,19 @@ func (l *Blnk) proportionalAllocation(sources []LineageSource, amount *big.Int)
 
 	remaining := new(big.Int).Set(effectiveAmount)
 
-	for i, source := range sources {
-		var alloc *big.Int
-
-		if i == len(sources)-1 {
-			// Last source gets the remainder to handle rounding
-			alloc = new(big.Int).Set(remaining)
-		} else {
-			// Calculate proportional share: (effectiveAmount * source.Balance) / total
-			proportion := new(big.Int).Mul(effectiveAmount, source.Balance)
-			alloc = new(big.Int).Div(proportion, total)
+	for _, source := range sources {
+		if total.Sign() <= 0 {
+			break
 		}
 
+		// Share of what is still unallocated, proportional to what the sources not
+		// visited yet hold: (remaining * source.Balance) / total. What rounding down
+		// leaves over carries to the following sources, so that together they always
+		// receive the full amount without any of them exceeding its balance.
+		proportion := new(big.Int).Mul(remaining, source.Balance)
+		alloc := new(big.Int).Div(proportion, total)
+		total.Sub(total, source.Balance)
+
 		// Cap at source's available balance
 		if alloc.Cmp(source.Balance) > 0 {
 			alloc.Set(source.Balance)
-- 
2.43.0


From b439f8edbc718df1ee0491f4c53436d688e9b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 5/6] fix: refuse to settle or void a hold whose remaining
 amount is not positive

A remainder below zero (more settled than authorised) passed the == 0
checks, so committing or voiding it recorded a negative settlement that
grew the held totals again.
---
 transaction_dryrun_inflight.go | 2 +-
 transaction_inflight.go        | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 964685d..ba04971 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -217,7 +217,7 @@ func (l *Blnk) buildInflightSettlementForPreview(ctx context.Context, leg *model
 		if err != nil {
 			return nil, err
 		}
-		if amountLeft.Cmp(big.NewInt(0)) == 0 {
+		if amountLeft.Cmp(big.NewInt(0)) <= 0 {
 			return nil, fmt.Errorf("cannot void. Transaction already committed")
 		}
 		settlement.Status = StatusVoid
diff --git a/transaction_inflight.go b/transaction_inflight.go
index 8a75b97..f99c5b8 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -319,7 +319,7 @@ func (l *Blnk) validateAndUpdateAmount(ctx context.Context, transaction *model.T
 // Returns:
 // - error: An error if the transaction is already fully committed.
 func (l *Blnk) checkTransactionCommitStatus(amountLeft *big.Int) error {
-	if amountLeft.Cmp(big.NewInt(0)) == 0 {
+	if amountLeft.Cmp(big.NewInt(0)) <= 0 {
 		return errors.New("cannot commit. Transaction already committed")
 	}
 	return nil
@@ -484,7 +484,7 @@ func (l *Blnk) VoidInflightTransactionWithRef(ctx context.Context, transactionID
 		return nil, err
 	}
 
-	if amountLeft.Cmp(big.NewInt(0)) == 0 {
+	if amountLeft.Cmp(big.NewInt(0)) <= 0 {
 		err := errors.New("cannot void. Transaction already committed")
 		span.RecordError(err)
 		return transaction, err
@@ -818,7 +818,7 @@ func (l *Blnk) anyInflightLegRemaining(ctx context.Context, legs []*model.Transa
 		if err != nil {
 			return false, err
 		}
-		if amountLeft.Sign() != 0 {
+		if amountLeft.Sign() > 0 {
 			return true, nil
 		}
 	}
-- 
2.43.0


From 86cb6c7500fb61a80135e88850ff6090f4ddb29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 6/6] fix: create lineage work for queued and split holds

A held transaction processed from the queue, or as a leg of a split,
carries a parent and the inflight metadata flag, so it was mistaken for
the commit of an existing hold and its lineage work was dropped. Only the
COMMIT status identifies a commit.
---
 transaction_execution.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/transaction_execution.go b/transaction_execution.go
index d36f7a3..459bd06 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -717,6 +717,7 @@ func (l *Blnk) processBalances(ctx context.Context, transaction *model.Transacti
 // buildTransactionExecutionWork converts an in-memory-applied transaction into the shared
 // persistence and post-commit work shape used by both single and batched execution paths.
 func (l *Blnk) buildTransactionExecutionWork(ctx context.Context, transaction *model.Transaction, sourceBalance, destinationBalance *model.Balance) (queuedBatchPostCommitWork, bool) {
+	isInflightCommit := transaction.Status == StatusCommit
 	transaction = l.updateTransactionDetails(ctx, transaction, sourceBalance, destinationBalance)
 	if transaction.PreciseAmount != nil && transaction.PreciseAmount.Cmp(big.NewInt(0)) == 0 {
 		return queuedBatchPostCommitWork{
@@ -726,7 +727,11 @@ func (l *Blnk) buildTransactionExecutionWork(ctx context.Context, transaction *m
 		}, true
 	}
 
-	outbox := l.prepareTransactionOutbox(ctx, transaction, sourceBalance, destinationBalance)
+	// Skip lineage for commits of inflight transactions - lineage was already created for the original.
+	var outbox *model.LineageOutbox
+	if !isInflightCommit {
+		outbox = l.prepareTransactionOutbox(ctx, transaction, sourceBalance, destinationBalance)
+	}
 	clearTerminalInflightMetadata(transaction)
 
 	return queuedBatchPostCommitWork{
@@ -763,12 +768,6 @@ func (l *Blnk) prepareTransactionOutbox(ctx context.Context, transaction *model.
 		return nil
 	}
 
-	// Skip lineage for commits of inflight transactions - lineage was already created for the original.
-	isInflightCommit := transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
-	if isInflightCommit {
-		return nil
-	}
-
 	return l.PrepareLineageOutbox(ctx, transaction, sourceBalance, destinationBalance)
 }
 
-- 
2.43.0

