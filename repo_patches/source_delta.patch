From 9c46beb8083341c04f59d328e27d1934ea2b75ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 01/78] fix: do not settle an inflight transaction whose hold
 is still queued

Committing, voiding or expiring a QUEUED inflight transaction by its own id took
the amount out of other transactions' holds, and left its own hold open to be
settled a second time once the queue applied it. Expiry now expands to the
recorded holds, as the void endpoint does.
---
 cmd/workers.go                 |  5 +++--
 transaction_dryrun_inflight.go |  4 ++++
 transaction_inflight.go        | 21 +++++++++++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/cmd/workers.go b/cmd/workers.go
index fa971ea..0037906 100644
--- a/cmd/workers.go
+++ b/cmd/workers.go
@@ -336,8 +336,9 @@ func (b *blnkInstance) processInflightExpiry(cxt context.Context, t *asynq.Task)
 		return err
 	}
 
-	// Void the inflight transaction by its ID.
-	_, err := b.blnk.VoidInflightTransaction(cxt, txnID)
+	// Void every inflight leg under the transaction. A queued or split transaction's holds are
+	// recorded on its children, the same expansion the void endpoint performs.
+	_, err := b.blnk.ProcessTransactionInBatches(cxt, txnID, big.NewInt(0), 1, false, b.blnk.GetInflightTransactionsByParentID, b.blnk.VoidWorker)
 	if err != nil {
 		return err
 	}
diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 964685d..f3e1f68 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -212,6 +212,10 @@ func (l *Blnk) buildInflightSettlementForPreview(ctx context.Context, leg *model
 	// the transaction it is given.
 	settlement := leg.Clone()
 
+	if leg.Status == StatusQueued {
+		return nil, errInflightStillQueued
+	}
+
 	if action == InflightActionVoid {
 		amountLeft, err := l.calculateRemainingAmount(ctx, settlement)
 		if err != nil {
diff --git a/transaction_inflight.go b/transaction_inflight.go
index 8a75b97..610cd27 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -83,6 +83,10 @@ func IsInflightTransaction(transaction *model.Transaction) bool {
 			transaction.MetaData["inflight"] == true)
 }
 
+// errInflightStillQueued is returned when a commit or void reaches an inflight
+// transaction that is still queued. It clears once the hold has been applied.
+var errInflightStillQueued = errors.New("transaction is not in inflight status: it is still queued")
+
 func clearTerminalInflightMetadata(transaction *model.Transaction) {
 	if transaction == nil || transaction.Status == StatusInflight {
 		return
@@ -548,6 +552,14 @@ func (l *Blnk) fetchAndValidateInflightTransaction(ctx context.Context, transact
 		return nil, err
 	}
 
+	// A queued inflight transaction has not placed a hold of its own: the hold is the
+	// INFLIGHT child the queue creates. Settling the queued row would take the amount
+	// out of other transactions' holds.
+	if transaction.Status == StatusQueued {
+		span.RecordError(errInflightStillQueued)
+		return nil, errInflightStillQueued
+	}
+
 	parentVoided, err := l.datasource.IsParentTransactionVoid(ctx, transactionID)
 	if err != nil {
 		span.RecordError(err)
@@ -650,6 +662,9 @@ func (l *Blnk) isTerminalInflightError(err error) bool {
 	if IsDuplicateReferenceError(err) {
 		return true
 	}
+	if errors.Is(err, errInflightStillQueued) {
+		return false // the hold may be applied before the next attempt
+	}
 	switch classifyInflightError(err) {
 	case "ALREADY_COMMITTED", "ALREADY_VOIDED", "NOT_INFLIGHT", "INVALID_AMOUNT":
 		return true
@@ -786,6 +801,12 @@ func (l *Blnk) preValidateInflightAction(ctx context.Context, transactionID, act
 		return nil, errors.New("cannot commit. Transaction already committed")
 	}
 
+	if len(legs) == 1 {
+		if _, err := l.validateInflightActionAmount(ctx, legs[0], action, amount); err != nil {
+			return nil, err
+		}
+	}
+
 	// Response stand-in: first leg's fields, but the id the client committed
 	// against (parent / batch id) so the queued payload matches the request.
 	representative := *legs[0]
-- 
2.43.0


From 8b5fa248acc4a71a49360f71dace857072d0325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 02/78] fix: report a racing duplicate reference as a duplicate
 instead of an internal error

---
 database/transaction.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/database/transaction.go b/database/transaction.go
index a1dfdd6..296babc 100644
--- a/database/transaction.go
+++ b/database/transaction.go
@@ -20,7 +20,9 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/blnkfinance/blnk/internal/apierror"
@@ -41,6 +43,17 @@ func utcOrNil(t *time.Time) *time.Time {
 	return &u
 }
 
+// recordTransactionError classifies a failed transaction insert. A violation of the
+// unique reference index means a concurrent request recorded the same reference after
+// this one passed its reference check, so it is reported as a duplicate reference.
+func recordTransactionError(err error, reference string) error {
+	var pqErr *pq.Error
+	if errors.As(err, &pqErr) && pqErr.Code.Name() == "unique_violation" && strings.Contains(pqErr.Constraint, "reference") {
+		return apierror.NewAPIError(apierror.ErrTxnDuplicateReference, fmt.Sprintf("reference %s has already been used", reference), nil)
+	}
+	return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to record transaction", err)
+}
+
 func (d Datasource) RecordTransaction(ctx context.Context, txn *model.Transaction) (*model.Transaction, error) {
 	// Start a new tracing span for the database operation
 	ctx, span := otel.Tracer("transaction.database").Start(ctx, "PersistTransaction")
@@ -62,7 +75,7 @@ func (d Datasource) RecordTransaction(ctx context.Context, txn *model.Transactio
 	// Handle errors that may occur during the execution of the query
 	if err != nil {
 		span.RecordError(err)
-		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to record transaction", err)
+		return nil, recordTransactionError(err, txn.Reference)
 	}
 
 	// Log the successful transaction recording as an event in the tracing span
@@ -93,7 +106,7 @@ func recordTransactionInTx(ctx context.Context, tx *sql.Tx, txn *model.Transacti
 	)
 	if err != nil {
 		span.RecordError(err)
-		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to record transaction", err)
+		return recordTransactionError(err, txn.Reference)
 	}
 
 	span.AddEvent("Transaction recorded in transaction", trace.WithAttributes(
-- 
2.43.0


From 90cb5680f335075f2273094e2845eeecfe79039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 03/78] fix: do not overflow int64 when applying precision to
 an overdraft limit

---
 model/model.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/model.go b/model/model.go
index 1cb52a2..3770e1c 100644
--- a/model/model.go
+++ b/model/model.go
@@ -186,9 +186,9 @@ func canProcessTransaction(transaction *Transaction, sourceBalance *Balance) err
 		// decimal arithmetic: int64(limit*precision) truncates binary-float
 		// products (0.29*100 -> 28), rejecting transactions exactly at the
 		// configured limit.
-		overdraftLimitPrecise := decimal.NewFromFloat(transaction.OverdraftLimit).
-			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).IntPart()
-		overdraftLimitBigInt := new(big.Int).SetInt64(overdraftLimitPrecise)
+		// IntPart would wrap around for limits beyond int64 (high precisions).
+		overdraftLimitBigInt := decimal.NewFromFloat(transaction.OverdraftLimit).
+			Mul(decimal.NewFromFloat(transaction.Precision)).Round(0).BigInt()
 
 		// Negative of overdraft limit (as balance will be negative)
 		negativeOverdraftLimit := new(big.Int).Neg(overdraftLimitBigInt)
-- 
2.43.0


From a0c4e25181550b402fb1769de674ab274ade1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 04/78] fix: keep the overdraft limit of queued transactions
 replayed from the database

---
 transaction_coalescing.go |  3 +++
 transaction_queue.go      | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index bc2b02e..b560f14 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -605,4 +605,7 @@ func restoreTransactionFlagsFromMetadata(transaction *model.Transaction) {
 	if v, ok := transaction.MetaData["allow_overdraft"].(bool); ok {
 		transaction.AllowOverdraft = v
 	}
+	if v, ok := transaction.MetaData[overdraftLimitMetaKey].(float64); ok {
+		transaction.OverdraftLimit = v
+	}
 }
diff --git a/transaction_queue.go b/transaction_queue.go
index e037dd2..4b08583 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -333,6 +333,9 @@ func setTransactionStatus(transaction *model.Transaction) {
 	}
 }
 
+// overdraftLimitMetaKey holds a transaction's overdraft limit, which has no column.
+const overdraftLimitMetaKey = "QUEUED_OVERDRAFT_LIMIT"
+
 // setTransactionMetadata initializes and sets the required metadata for a transaction.
 // calculates the transaction hash, and sets the precise amount based on the transaction's precision.
 //
@@ -365,6 +368,14 @@ func setTransactionMetadata(transaction *model.Transaction) {
 	if transaction.AllowOverdraft {
 		transaction.MetaData["allow_overdraft"] = true
 	}
+	// Without the limit a queued transaction reloaded from the database would be
+	// replayed with an unlimited overdraft. It is cleared otherwise because a
+	// refund inherits the metadata of the transaction it reverses.
+	if transaction.OverdraftLimit > 0 {
+		transaction.MetaData[overdraftLimitMetaKey] = transaction.OverdraftLimit
+	} else {
+		delete(transaction.MetaData, overdraftLimitMetaKey)
+	}
 }
 
 // createQueueCopy creates a new copy of a transaction specifically for queueing.
-- 
2.43.0


From 2060e7c08f2f9dc71847fc6930d9730cc2a98985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 05/78] fix: refunding a transaction again must not refund its
 refund

---
 api/transactions.go             |  2 +-
 transaction_batch_processing.go | 15 +++++++++++++++
 transaction_dryrun.go           | 25 +++++++++++++------------
 transaction_refunds.go          |  7 ++++++-
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index 4c53f1e..5ed3f0f 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -270,7 +270,7 @@ func (a Api) RefundTransaction(c *gin.Context) {
 		MetaData:    req.MetaData,
 	}
 
-	transaction, err := a.blnk.ProcessTransactionInBatches(c.Request.Context(), id, big.NewInt(0), 1, false, a.blnk.GetRefundableTransactionsByParentID, a.blnk.RefundWorkerWithRefundOptions(refundOptions))
+	transaction, err := a.blnk.ProcessTransactionInBatches(c.Request.Context(), id, big.NewInt(0), 1, false, a.blnk.GetRefundableLegs, a.blnk.RefundWorkerWithRefundOptions(refundOptions))
 	if err != nil {
 		respondError(c, err, withUpgrade(apierror.ErrGenNotFound, apierror.ErrTxnNotFound), withDefault(apierror.ErrGenBadRequest))
 		return
diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 3456a5c..98cd065 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -41,6 +41,21 @@ func (l *Blnk) GetRefundableTransactionsByParentID(ctx context.Context, parentTr
 	return transactions, nil
 }
 
+// GetRefundableLegs returns every transaction that refunding transactionID reverses, all of
+// them at offset 0: paging the query while the refunds it feeds are being recorded would
+// list a transaction again behind its own reversal.
+func (l *Blnk) GetRefundableLegs(ctx context.Context, transactionID string, _ int, offset int64) ([]*model.Transaction, error) {
+	if offset > 0 {
+		return nil, nil
+	}
+	return l.refundableLegs(ctx, transactionID)
+}
+
+// isReversal reports whether the transaction is itself the refund of its parent.
+func isReversal(transaction *model.Transaction) bool {
+	return transaction.ParentTransaction != "" && transaction.Reference == refundReference(transaction.ParentTransaction)
+}
+
 // ProcessTransactionInBatches processes transactions in batches or streams them based on the provided mode.
 // It starts a tracing span, initializes worker pools, fetches transactions, and processes them concurrently.
 //
diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 2b1c8e8..797cac7 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -86,7 +86,7 @@ func (l *Blnk) PreviewRefund(ctx context.Context, transactionID string) (*model.
 	ctx, span := tracer.Start(ctx, "PreviewRefund")
 	defer span.End()
 
-	refundable, err := l.refundableLegsForPreview(ctx, transactionID)
+	refundable, err := l.refundableLegs(ctx, transactionID)
 	if err != nil {
 		span.RecordError(err)
 		return nil, err
@@ -116,10 +116,7 @@ func (l *Blnk) PreviewRefund(ctx context.Context, transactionID string) (*model.
 		// The same eligibility check each leg passes through on the real
 		// path. GetRefundableTransactionsByParentID filters on status alone,
 		// so without this a leg that has already been reversed still comes
-		// back from the query — its reversal is itself an APPLIED row under
-		// the same parent — and would be projected as refundable again, both
-		// claiming the refund would apply and counting the reversal into the
-		// total.
+		// back from the query and would be projected as refundable again.
 		if err := l.validateTransactionForRefund(ctx, original); err != nil {
 			preview.WouldApply = false
 			legErrors = append(legErrors, err)
@@ -186,13 +183,13 @@ func (l *Blnk) PreviewRefund(ctx context.Context, transactionID string) (*model.
 	return preview, nil
 }
 
-// refundableLegsForPreview collects every transaction a refund of transactionID
-// would reverse.
+// refundableLegs collects every transaction a refund of transactionID reverses,
+// for the real refund and its projection alike.
 //
-// The real refund reaches these through ProcessTransactionInBatches, which
-// pages the same query until it is exhausted, so the projection pages it too
-// rather than reading a single row and answering for that one.
-func (l *Blnk) refundableLegsForPreview(ctx context.Context, transactionID string) ([]*model.Transaction, error) {
+// The reversal of a refunded leg is itself an APPLIED row under the same parent.
+// It is left out unless it was asked for by its own id: refunding a transaction
+// again must not undo its refund.
+func (l *Blnk) refundableLegs(ctx context.Context, transactionID string) ([]*model.Transaction, error) {
 	batchSize := l.Config().Transaction.BatchSize
 	if batchSize <= 0 {
 		batchSize = 100
@@ -204,7 +201,11 @@ func (l *Blnk) refundableLegsForPreview(ctx context.Context, transactionID strin
 		if err != nil {
 			return nil, err
 		}
-		all = append(all, batch...)
+		for _, leg := range batch {
+			if leg.TransactionID == transactionID || !isReversal(leg) {
+				all = append(all, leg)
+			}
+		}
 		if len(batch) < batchSize {
 			return all, nil
 		}
diff --git a/transaction_refunds.go b/transaction_refunds.go
index 5736f55..a952cfd 100644
--- a/transaction_refunds.go
+++ b/transaction_refunds.go
@@ -195,11 +195,16 @@ type RefundOptions struct {
 	MetaData map[string]interface{}
 }
 
+// refundReference is the reference of the refund of a transaction.
+func refundReference(transactionID string) string {
+	return fmt.Sprintf("%s_refund", transactionID)
+}
+
 // prepareRefundTransaction creates and configures a new transaction object for the refund.
 func prepareRefundTransaction(originalTxn *model.Transaction, opts RefundOptions) *model.Transaction {
 	newTransaction := *originalTxn // Create a copy
 	newTransaction.TransactionID = model.GenerateUUIDWithSuffix("txn")
-	newTransaction.Reference = fmt.Sprintf("%s_refund", originalTxn.TransactionID)
+	newTransaction.Reference = refundReference(originalTxn.TransactionID)
 	newTransaction.ParentTransaction = originalTxn.TransactionID
 	newTransaction.Source = originalTxn.Destination // Swap source and destination
 	newTransaction.Destination = originalTxn.Source
-- 
2.43.0


From 8a9b2fced7d996dbd36ffe19420d8cff341b1300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:18 +0000
Subject: [PATCH 06/78] fix: refuse a queued commit or void of a hold whose
 legs were all voided

---
 transaction_inflight.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/transaction_inflight.go b/transaction_inflight.go
index 610cd27..53ac025 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -832,14 +832,21 @@ func shouldExpandInflightParent(err error) bool {
 }
 
 // anyInflightLegRemaining reports whether at least one leg still has an
-// uncommitted amount left.
+// amount left that was neither committed nor voided.
 func (l *Blnk) anyInflightLegRemaining(ctx context.Context, legs []*model.Transaction) (bool, error) {
 	for _, leg := range legs {
 		amountLeft, err := l.calculateRemainingAmount(ctx, leg)
 		if err != nil {
 			return false, err
 		}
-		if amountLeft.Sign() != 0 {
+		if amountLeft.Sign() == 0 {
+			continue
+		}
+		voided, err := l.datasource.IsParentTransactionVoid(ctx, leg.TransactionID)
+		if err != nil {
+			return false, err
+		}
+		if !voided {
 			return true, nil
 		}
 	}
-- 
2.43.0


From a707407445c084eff61df3d5d544392a0860b678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 07/78] fix: refuse to commit an inflight amount below the
 smallest unit instead of committing everything

---
 api/transactions.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/api/transactions.go b/api/transactions.go
index 5ed3f0f..670d83f 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -458,6 +458,13 @@ func (a Api) FilterTransactions(c *gin.Context) {
 	}
 }
 
+// belowSmallestUnit reports whether a requested commit amount came out as zero
+// in the transaction's precision. A precise amount of zero stands for
+// "commit everything that remains", so such a request must not be passed on.
+func belowSmallestUnit(amount float64, precise *big.Int) bool {
+	return amount != 0 && precise != nil && precise.Sign() == 0
+}
+
 // UpdateInflightStatus updates the status of an inflight transaction based on the provided ID and status.
 // It processes the transaction in batches according to the specified status (commit or void).
 // If any errors occur during processing or if the status is unsupported, it responds with an appropriate error message.
@@ -521,6 +528,9 @@ func (a Api) UpdateInflightStatus(c *gin.Context) {
 			return
 		}
 		amount = req.PreciseAmount
+	} else if status == blnk.InflightActionCommit && belowSmallestUnit(req.Amount, amount) {
+		respondCode(c, apierror.ErrTxnInvalidAmount, "amount is smaller than the smallest unit of the transaction", nil)
+		return
 	}
 
 	if req.DryRun {
@@ -947,6 +957,10 @@ func (a Api) BulkCommitInflight(c *gin.Context) {
 			amount = it.PreciseAmount
 		} else {
 			amount = model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
+			if belowSmallestUnit(it.Amount, amount) {
+				respondCode(c, apierror.ErrTxnInvalidAmount, "amount is smaller than the smallest unit of transaction "+it.TransactionID, nil)
+				return
+			}
 		}
 		items[i] = blnk.BulkInflightItem{TransactionID: it.TransactionID, Amount: amount}
 	}
-- 
2.43.0


From 539d094851ec1dd20d7dafef3ecf0ac9c168c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 08/78] fix: do not commit an inflight amount in a guessed
 precision when the lookup fails

---
 api/transactions.go | 12 ++++++++++--
 model/model.go      |  8 +++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index 670d83f..df5c3c3 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -520,7 +520,11 @@ func (a Api) UpdateInflightStatus(c *gin.Context) {
 		return
 	}
 
-	amount := model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: req.Amount, TransactionID: id}, ds.Conn)
+	amount, err := model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: req.Amount, TransactionID: id}, ds.Conn)
+	if err != nil && req.Amount != 0 {
+		respondError(c, err)
+		return
+	}
 
 	if req.PreciseAmount != nil {
 		if req.PreciseAmount.Sign() <= 0 {
@@ -956,7 +960,11 @@ func (a Api) BulkCommitInflight(c *gin.Context) {
 		if it.PreciseAmount != nil {
 			amount = it.PreciseAmount
 		} else {
-			amount = model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
+			amount, err = model.ApplyPrecisionWithDBLookup(&model.Transaction{Amount: it.Amount, TransactionID: it.TransactionID}, ds.Conn)
+			if err != nil && it.Amount != 0 {
+				respondError(c, err)
+				return
+			}
 			if belowSmallestUnit(it.Amount, amount) {
 				respondCode(c, apierror.ErrTxnInvalidAmount, "amount is smaller than the smallest unit of transaction "+it.TransactionID, nil)
 				return
diff --git a/model/model.go b/model/model.go
index 3770e1c..0f683ee 100644
--- a/model/model.go
+++ b/model/model.go
@@ -355,8 +355,10 @@ func fetchTransactionPrecisionFromDB(db *sql.DB, transactionID string) (float64,
 
 // ApplyPrecisionWithDBLookup attempts to fetch precision from the database
 // and then applies it to the transaction. Falls back to transaction-defined
-// precision or a default of 1 if DB lookup fails or precision is invalid.
-func ApplyPrecisionWithDBLookup(transaction *Transaction, db *sql.DB) *big.Int {
+// precision or a default of 1 if the DB has none or precision is invalid. The
+// error is set when the lookup itself failed: the amount was then computed
+// without knowing the stored precision.
+func ApplyPrecisionWithDBLookup(transaction *Transaction, db *sql.DB) (*big.Int, error) {
 	var dbPrecision float64
 	var found bool
 	var err error
@@ -389,7 +391,7 @@ func ApplyPrecisionWithDBLookup(transaction *Transaction, db *sql.DB) *big.Int {
 		}
 	}
 
-	return applyPrecisionLogic(transaction)
+	return applyPrecisionLogic(transaction), err
 }
 
 // convertPreciseToDecimal converts the precise integer amount to a decimal value
-- 
2.43.0


From 319a2194cfb260f608e7236668c9e74fbedc8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 09/78] fix: do not read transaction flags back from metadata
 the caller supplied

---
 transaction_queue.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/transaction_queue.go b/transaction_queue.go
index 4b08583..19b720a 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -359,15 +359,11 @@ func setTransactionMetadata(transaction *model.Transaction) {
 
 	// Set inflight flag in metadata if the transaction is inflight
 	//maybe move to their respective columns in the db later
-	if transaction.Inflight {
-		transaction.MetaData["inflight"] = true
-	}
-	if transaction.Atomic {
-		transaction.MetaData["atomic"] = true
-	}
-	if transaction.AllowOverdraft {
-		transaction.MetaData["allow_overdraft"] = true
-	}
+	//they are read back when a queued transaction is replayed from the database, so
+	//values the caller supplied (or a refund inherited) under these keys must not stay
+	setFlagMetadata(transaction.MetaData, "inflight", transaction.Inflight)
+	setFlagMetadata(transaction.MetaData, "atomic", transaction.Atomic)
+	setFlagMetadata(transaction.MetaData, "allow_overdraft", transaction.AllowOverdraft)
 	// Without the limit a queued transaction reloaded from the database would be
 	// replayed with an unlimited overdraft. It is cleared otherwise because a
 	// refund inherits the metadata of the transaction it reverses.
@@ -378,6 +374,15 @@ func setTransactionMetadata(transaction *model.Transaction) {
 	}
 }
 
+// setFlagMetadata records a transaction flag under its metadata key, or clears it.
+func setFlagMetadata(metadata map[string]interface{}, key string, set bool) {
+	if set {
+		metadata[key] = true
+		return
+	}
+	delete(metadata, key)
+}
+
 // createQueueCopy creates a new copy of a transaction specifically for queueing.
 // It generates new identifiers and maintains the relationship with the original transaction.
 //
-- 
2.43.0


From ac9f7dfe891abd01128fb9fb997fbdfcd730b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 10/78] fix: keep the effective date of queued transactions
 replayed from the database

---
 database/transaction_coalescing.go | 8 ++++----
 database/transaction_recovery.go   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/database/transaction_coalescing.go b/database/transaction_coalescing.go
index cffc0a7..33c2d56 100644
--- a/database/transaction_coalescing.go
+++ b/database/transaction_coalescing.go
@@ -36,7 +36,7 @@ func (d Datasource) GetQueuedTransactionsForCoalescing(ctx context.Context, sour
 	defer span.End()
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash, effective_date
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.source = $1
@@ -75,7 +75,7 @@ func (d Datasource) GetQueuedTransactionsForSourceCoalescing(ctx context.Context
 	defer span.End()
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash, effective_date
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.source = $1
@@ -113,7 +113,7 @@ func (d Datasource) GetQueuedTransactionsForDestinationCoalescing(ctx context.Co
 	defer span.End()
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash, effective_date
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.destination = $1
@@ -162,7 +162,7 @@ func scanQueuedTransactionsForCoalescing(rows *sql.Rows) ([]*model.Transaction,
 			&txn.TransactionID, &txn.ParentTransaction, &txn.Source, &txn.Reference,
 			&txn.Amount, &preciseAmountStr, &txn.Precision,
 			&txn.Currency, &txn.Destination, &txn.Description, &txn.Status,
-			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.Hash,
+			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.Hash, &txn.EffectiveDate,
 		); err != nil {
 			return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to scan queued transaction for coalescing", err)
 		}
diff --git a/database/transaction_recovery.go b/database/transaction_recovery.go
index 37bde6d..a032786 100644
--- a/database/transaction_recovery.go
+++ b/database/transaction_recovery.go
@@ -37,7 +37,7 @@ func (d Datasource) GetStuckQueuedTransactions(ctx context.Context, threshold ti
 	cutoff := time.Now().UTC().Add(-threshold)
 
 	rows, err := d.Conn.QueryContext(ctx, `
-		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
+		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash, effective_date
 		FROM blnk.transactions t
 		WHERE t.status = 'QUEUED'
 		  AND t.created_at < $1
@@ -67,7 +67,7 @@ func (d Datasource) GetStuckQueuedTransactions(ctx context.Context, threshold ti
 			&txn.TransactionID, &txn.ParentTransaction, &txn.Source, &txn.Reference,
 			&txn.Amount, &preciseAmountStr, &txn.Precision,
 			&txn.Currency, &txn.Destination, &txn.Description, &txn.Status,
-			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.Hash,
+			&txn.CreatedAt, &metaDataJSON, &txn.ScheduledFor, &txn.Hash, &txn.EffectiveDate,
 		)
 		if err != nil {
 			span.RecordError(err)
-- 
2.43.0


From ae84c3b712e5168ce028ff2fa64b1301f38059bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:06 +0000
Subject: [PATCH 11/78] fix: do not share the metadata map between a recovered
 transaction and its original

---
 transaction_queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transaction_queue.go b/transaction_queue.go
index 19b720a..2547c92 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -393,7 +393,9 @@ func setFlagMetadata(metadata map[string]interface{}, key string, set bool) {
 // Returns:
 // - *model.Transaction: A pointer to the new queue copy of the transaction.
 func createQueueCopy(persistedTxn *model.Transaction, originalRef string) *model.Transaction {
-	queueTxn := *persistedTxn
+	// The copy is processed, and its webhook sent, while the original's metadata can
+	// still be written to, so the two must not share the map.
+	queueTxn := *cloneTransactionForAsync(persistedTxn)
 	queueTxn.TransactionID = model.GenerateUUIDWithSuffix("txn")
 	queueTxn.ParentTransaction = persistedTxn.TransactionID
 	queueTxn.Reference = fmt.Sprintf("%s_q", originalRef)
-- 
2.43.0


From 1866e9119f40ed38cc6379215f28870748cd7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:52 +0000
Subject: [PATCH 12/78] fix: roll back an atomic batch whose caller went away

---
 transaction_bulk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transaction_bulk.go b/transaction_bulk.go
index 58614e6..5041fd9 100644
--- a/transaction_bulk.go
+++ b/transaction_bulk.go
@@ -55,6 +55,10 @@ func (l *Blnk) processBulkTransactions(ctx context.Context, transactions []*mode
 // rollbackBatchTransactions performs a rollback of transactions in a batch
 // Returns the action performed (voided/refunded) and any error that occurred
 func (l *Blnk) rollbackBatchTransactions(ctx context.Context, batchID string, isInflight bool) (string, error) {
+	// The members already recorded must be undone even when the batch failed because
+	// the caller went away and cancelled its context.
+	ctx = context.WithoutCancel(ctx)
+
 	var action string
 	var rollbackErr error
 
-- 
2.43.0


From 3e969ac6992bc42913f96065d23f12b3eb314dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 13/78] fix: roll back the legs of split members of a failed
 atomic batch

---
 transaction_bulk.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/transaction_bulk.go b/transaction_bulk.go
index 5041fd9..d6d4351 100644
--- a/transaction_bulk.go
+++ b/transaction_bulk.go
@@ -53,8 +53,10 @@ func (l *Blnk) processBulkTransactions(ctx context.Context, transactions []*mode
 }
 
 // rollbackBatchTransactions performs a rollback of transactions in a batch
-// Returns the action performed (voided/refunded) and any error that occurred
-func (l *Blnk) rollbackBatchTransactions(ctx context.Context, batchID string, isInflight bool) (string, error) {
+// Returns the action performed (voided/refunded) and any error that occurred.
+// The legs of a member with several sources or destinations are recorded under that
+// member, not under the batch: splitMembers names the members whose legs to roll back too.
+func (l *Blnk) rollbackBatchTransactions(ctx context.Context, batchID string, isInflight bool, splitMembers ...string) (string, error) {
 	// The members already recorded must be undone even when the batch failed because
 	// the caller went away and cancelled its context.
 	ctx = context.WithoutCancel(ctx)
@@ -62,16 +64,31 @@ func (l *Blnk) rollbackBatchTransactions(ctx context.Context, batchID string, is
 	var action string
 	var rollbackErr error
 
-	if isInflight {
-		action, rollbackErr = l.voidInflightBatchTransactions(ctx, batchID)
-	} else {
-		action, rollbackErr = l.refundNonInflightBatchTransactions(ctx, batchID)
+	for _, parentID := range append([]string{batchID}, splitMembers...) {
+		var err error
+		if isInflight {
+			action, err = l.voidInflightBatchTransactions(ctx, parentID)
+		} else {
+			action, err = l.refundNonInflightBatchTransactions(ctx, parentID)
+		}
+		rollbackErr = errors.Join(rollbackErr, err)
 	}
 
 	l.logRollbackResult(batchID, action, rollbackErr)
 	return action, rollbackErr
 }
 
+// splitMemberIDs returns the IDs of the batch members that have several sources or destinations.
+func splitMemberIDs(transactions []*model.Transaction) []string {
+	var ids []string
+	for _, txn := range transactions {
+		if txn.TransactionID != "" && (len(txn.Sources) > 0 || len(txn.Destinations) > 0) {
+			ids = append(ids, txn.TransactionID)
+		}
+	}
+	return ids
+}
+
 // voidInflightBatchTransactions voids all inflight transactions in a batch
 func (l *Blnk) voidInflightBatchTransactions(ctx context.Context, batchID string) (string, error) {
 	_, err := l.ProcessTransactionInBatches(
@@ -142,13 +159,13 @@ func (l *Blnk) sendBulkTransactionWebhook(batchID, status, errorMsg string, tran
 
 // handleAsyncBulkTransactionFailure handles failures in asynchronous processing
 // and builds a detailed error message including rollback status
-func (l *Blnk) handleAsyncBulkTransactionFailure(ctx context.Context, err error, batchID string, isAtomic bool, isInflight bool) {
+func (l *Blnk) handleAsyncBulkTransactionFailure(ctx context.Context, err error, batchID string, isAtomic bool, isInflight bool, splitMembers ...string) {
 	logrus.WithError(err).WithField("batch_id", batchID).Error("async bulk transaction error")
 
 	var errorMessage string
 
 	if isAtomic {
-		action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, isInflight)
+		action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, isInflight, splitMembers...)
 
 		if rollbackErr != nil {
 			errorMessage = fmt.Sprintf("%s. Failed to roll back all transactions: %s", err.Error(), rollbackErr.Error())
@@ -212,7 +229,7 @@ func (l *Blnk) CreateBulkTransactions(ctx context.Context, req *model.BulkTransa
 
 			if err != nil {
 				// Handle failure (rollback if atomic, send webhook)
-				l.handleAsyncBulkTransactionFailure(bgCtx, err, batchID, req.Atomic, req.Inflight)
+				l.handleAsyncBulkTransactionFailure(bgCtx, err, batchID, req.Atomic, req.Inflight, splitMemberIDs(asyncTxns)...)
 			} else {
 				// Send webhook notification for success
 				status := "inflight"
@@ -242,7 +259,7 @@ func (l *Blnk) CreateBulkTransactions(ctx context.Context, req *model.BulkTransa
 
 		var responseError string
 		if req.Atomic {
-			action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, req.Inflight)
+			action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, req.Inflight, splitMemberIDs(req.Transactions)...)
 			if rollbackErr != nil {
 				responseError = fmt.Sprintf("%s. Failed to roll back all transactions: %s", err.Error(), rollbackErr.Error())
 			} else {
-- 
2.43.0


From a3dbf6a29943cdc3c5e0fc9637a3092a92e1f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 14/78] fix: split a transaction only over distributions that
 cover it, each leg for its own identifier

---
 model/transaction.go | 142 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 113 insertions(+), 29 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 35f8a84..94d4d3e 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -48,6 +48,7 @@ type distributionState struct {
 	precisionDec    decimal.Decimal
 	totalPercentage decimal.Decimal
 	fixedTotalDec   decimal.Decimal
+	identifiers     []string // every identifier once, in the order given
 	fixedAmounts    map[string]decimal.Decimal
 	percentAmounts  map[string]decimal.Decimal
 	result          map[string]*big.Int
@@ -152,12 +153,15 @@ func processFixedDistributions(distributions []Distribution, state *distribution
 		if fixedAmountDec.IsZero() {
 			continue
 		}
+		if fixedAmountDec.IsNegative() {
+			return errors.New("fixed amount must not be negative")
+		}
 
 		if fixedAmountDec.Cmp(state.amountLeftDec) > 0 {
 			return errors.New("fixed amount exceeds remaining transaction amount")
 		}
 
-		state.fixedAmounts[dist.Identifier] = fixedAmountDec
+		state.fixedAmounts[dist.Identifier] = state.fixedAmounts[dist.Identifier].Add(fixedAmountDec)
 		state.fixedTotalDec = state.fixedTotalDec.Add(fixedAmountDec)
 		state.amountLeftDec = state.amountLeftDec.Sub(fixedAmountDec)
 	}
@@ -175,16 +179,32 @@ func parseFixedAmount(dist Distribution, precisionDec decimal.Decimal) (decimal.
 	}
 
 	if dist.Distribution != "" {
-		fixedAmount, err := strconv.ParseFloat(dist.Distribution, 64)
+		fixedAmountDec, err := parseShare(dist.Distribution)
 		if err != nil {
 			return decimal.Zero, errors.New("invalid fixed amount format")
 		}
-		return decimal.NewFromFloat(fixedAmount).Mul(precisionDec), nil
+		return fixedAmountDec.Mul(precisionDec), nil
 	}
 
 	return decimal.Zero, nil
 }
 
+// parseShare parses a fixed amount or a percentage exactly. The float parser
+// bounds the exponent; negative and non-finite shares are refused.
+func parseShare(share string) (decimal.Decimal, error) {
+	value, err := strconv.ParseFloat(share, 64)
+	if err != nil {
+		return decimal.Zero, err
+	}
+	if math.IsNaN(value) || math.IsInf(value, 0) || value < 0 {
+		return decimal.Zero, errors.New("share must be a finite, non-negative number")
+	}
+	if value == 0 {
+		return decimal.Zero, nil
+	}
+	return decimal.NewFromString(share)
+}
+
 // processPercentageDistributions handles the second pass: percentage distributions
 func processPercentageDistributions(distributions []Distribution, state *distributionState) error {
 	hundredDec := decimal.NewFromInt(100)
@@ -196,31 +216,51 @@ func processPercentageDistributions(distributions []Distribution, state *distrib
 		}
 
 		percentageStr := dist.Distribution[:len(dist.Distribution)-1]
-		percentage, err := strconv.ParseFloat(percentageStr, 64)
+		percentageDec, err := parseShare(percentageStr)
 		if err != nil {
 			return errors.New("invalid percentage format")
 		}
 
-		percentageDec := decimal.NewFromFloat(percentage)
 		state.totalPercentage = state.totalPercentage.Add(percentageDec)
 
 		rawAmountDec := state.totalAmountDec.Mul(percentageDec).Div(hundredDec)
 
 		if rawAmountDec.Sign() > 0 && rawAmountDec.Cmp(minValueDec) < 0 {
-			state.percentAmounts[dist.Identifier] = decimal.Zero
-		} else {
-			state.percentAmounts[dist.Identifier] = rawAmountDec
+			rawAmountDec = decimal.Zero
 		}
+		state.percentAmounts[dist.Identifier] = state.percentAmounts[dist.Identifier].Add(rawAmountDec)
 	}
 	return nil
 }
 
-// validateDistributions checks that total distributions don't exceed limits
-func validateDistributions(state *distributionState) error {
+// validateDistributions checks that the distributions cover the amount: no more
+// than it, no less than it unless one of them takes what is left, and only one
+// taking what is left. A difference below the smallest unit is rounding.
+func validateDistributions(distributions []Distribution, state *distributionState) error {
 	hundredDec := decimal.NewFromInt(100)
 	if state.totalPercentage.Cmp(hundredDec) > 0 || state.fixedTotalDec.Cmp(state.totalAmountDec) > 0 {
 		return errors.New("total distributions exceed 100% or total amount")
 	}
+
+	uncovered := state.totalAmountDec.Sub(state.fixedTotalDec).
+		Sub(state.totalAmountDec.Mul(state.totalPercentage).Shift(-2))
+	smallestUnit := decimal.NewFromInt(1)
+	if uncovered.Cmp(smallestUnit.Neg()) <= 0 {
+		return errors.New("total distributions exceed 100% or total amount")
+	}
+
+	left := 0
+	for _, dist := range distributions {
+		if dist.isLeftDistribution() {
+			left++
+		}
+	}
+	if left > 1 {
+		return errors.New("multiple identifiers with 'left' distribution")
+	}
+	if left == 0 && uncovered.Cmp(smallestUnit) >= 0 {
+		return errors.New("total distributions do not cover the total amount")
+	}
 	return nil
 }
 
@@ -249,12 +289,13 @@ func adjustPercentageAmounts(state *distributionState) {
 	}
 }
 
-// findLargestDecimal finds the key with the largest decimal value
+// findLargestDecimal finds the key with the largest decimal value, the same one
+// every time when several have it
 func findLargestDecimal(amounts map[string]decimal.Decimal) (string, decimal.Decimal) {
 	var largestKey string
 	var largestAmount decimal.Decimal
 	for id, amount := range amounts {
-		if amount.Cmp(largestAmount) > 0 {
+		if cmp := amount.Cmp(largestAmount); cmp > 0 || (cmp == 0 && largestKey != "" && id < largestKey) {
 			largestAmount = amount
 			largestKey = id
 		}
@@ -269,7 +310,11 @@ func combineDistributions(state *distributionState) {
 	}
 
 	for id, amountDec := range state.percentAmounts {
-		state.result[id] = amountDec.BigInt()
+		share := amountDec
+		if fixedDec, exists := state.fixedAmounts[id]; exists {
+			share = share.Add(fixedDec)
+		}
+		state.result[id] = share.BigInt()
 		state.amountLeftDec = state.amountLeftDec.Sub(amountDec)
 	}
 }
@@ -303,15 +348,16 @@ func balanceDistributions(state *distributionState) {
 	}
 
 	var largestKey string
-	largestAmount := big.NewInt(0)
-	for id, amount := range state.result {
-		if amount.Cmp(largestAmount) > 0 {
+	var largestAmount *big.Int
+	for _, id := range state.identifiers {
+		amount, exists := state.result[id]
+		if exists && (largestAmount == nil || amount.Cmp(largestAmount) > 0) {
 			largestAmount = amount
 			largestKey = id
 		}
 	}
 
-	if largestKey != "" {
+	if largestAmount != nil {
 		diff := state.totalAmountDec.Sub(sumDec)
 		state.result[largestKey] = new(big.Int).Add(state.result[largestKey], diff.BigInt())
 	}
@@ -319,6 +365,10 @@ func balanceDistributions(state *distributionState) {
 
 // CalculateDistributionsPrecise calculates distributions using big.Int for precision
 func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.Int, distributions []Distribution, precision int64) (map[string]*big.Int, error) {
+	return calculateDistributions(ctx, totalPreciseAmount, distributions, decimal.NewFromInt(precision))
+}
+
+func calculateDistributions(ctx context.Context, totalPreciseAmount *big.Int, distributions []Distribution, precision decimal.Decimal) (map[string]*big.Int, error) {
 	_, span := tracer.Start(ctx, "CalculateDistributionsPrecise")
 	defer span.End()
 
@@ -331,16 +381,17 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		return handleZeroAmount(distributions), nil
 	}
 
-	totalAmountDec := decimal.NewFromBigInt(totalPreciseAmount, 0)
-
-	if result := handleSmallAmount(totalAmountDec, totalPreciseAmount, distributions); result != nil {
-		return result, nil
+	if len(distributions) == 0 {
+		return map[string]*big.Int{}, nil
 	}
 
+	totalAmountDec := decimal.NewFromBigInt(totalPreciseAmount, 0)
+
 	state := &distributionState{
 		totalAmountDec: totalAmountDec,
 		amountLeftDec:  totalAmountDec,
-		precisionDec:   decimal.NewFromInt(precision),
+		precisionDec:   precision,
+		identifiers:    distinctIdentifiers(distributions),
 		fixedAmounts:   make(map[string]decimal.Decimal),
 		percentAmounts: make(map[string]decimal.Decimal),
 		result:         make(map[string]*big.Int),
@@ -356,11 +407,15 @@ func CalculateDistributionsPrecise(ctx context.Context, totalPreciseAmount *big.
 		return nil, err
 	}
 
-	if err := validateDistributions(state); err != nil {
+	if err := validateDistributions(distributions, state); err != nil {
 		span.RecordError(err)
 		return nil, err
 	}
 
+	if result := handleSmallAmount(totalAmountDec, totalPreciseAmount, distributions); result != nil {
+		return result, nil
+	}
+
 	adjustPercentageAmounts(state)
 	combineDistributions(state)
 
@@ -394,11 +449,26 @@ func handleSmallAmount(totalAmountDec decimal.Decimal, totalPreciseAmount *big.I
 	result := make(map[string]*big.Int)
 	result[distributions[0].Identifier] = totalPreciseAmount
 	for i := 1; i < len(distributions); i++ {
-		result[distributions[i].Identifier] = big.NewInt(0)
+		if _, exists := result[distributions[i].Identifier]; !exists {
+			result[distributions[i].Identifier] = big.NewInt(0)
+		}
 	}
 	return result
 }
 
+// distinctIdentifiers lists every identifier once, in the order given
+func distinctIdentifiers(distributions []Distribution) []string {
+	seen := make(map[string]bool, len(distributions))
+	identifiers := make([]string, 0, len(distributions))
+	for _, dist := range distributions {
+		if !seen[dist.Identifier] {
+			seen[dist.Identifier] = true
+			identifiers = append(identifiers, dist.Identifier)
+		}
+	}
+	return identifiers
+}
+
 // Function to integrate the new CalculateDistributionsPrecise into SplitTransaction
 func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]*Transaction, error) {
 	ctx, span := tracer.Start(ctx, "SplitTransactionPrecise")
@@ -418,8 +488,8 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 	))
 
 	// Use PreciseAmount for distribution calculation
-	precisionInt := int64(transaction.Precision)
-	distributions, err := CalculateDistributionsPrecise(ctx, transaction.PreciseAmount, ds, precisionInt)
+	precisionDec := decimal.NewFromFloat(transaction.Precision).Truncate(0)
+	distributions, err := calculateDistributions(ctx, transaction.PreciseAmount, ds, precisionDec)
 	if err != nil {
 		span.RecordError(err)
 		return nil, err
@@ -427,7 +497,12 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 	var transactions []*Transaction
 	counter := 1
-	for direction, preciseAmount := range distributions {
+	for _, direction := range distinctIdentifiers(ds) {
+		preciseAmount, exists := distributions[direction]
+		if !exists {
+			continue
+		}
+
 		newTransaction := *transaction                               // Create a copy of the original transaction
 		newTransaction.TransactionID = GenerateUUIDWithSuffix("txn") // Set the transaction ID
 		newTransaction.PreciseAmount = preciseAmount                 // Set the precise amount based on the distribution
@@ -442,10 +517,10 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 
 		if len(transaction.Sources) > 0 {
 			newTransaction.Source = direction // Set the source
-			transaction.Sources[counter-1].TransactionID = newTransaction.TransactionID
+			attributeLeg(transaction.Sources, direction, newTransaction.TransactionID)
 		} else if len(transaction.Destinations) > 0 {
 			newTransaction.Destination = direction // Set the destination
-			transaction.Destinations[counter-1].TransactionID = newTransaction.TransactionID
+			attributeLeg(transaction.Destinations, direction, newTransaction.TransactionID)
 		}
 
 		newTransaction.Reference = fmt.Sprintf("%s-%d", transaction.Reference, counter)
@@ -466,6 +541,15 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 	return transactions, nil
 }
 
+// attributeLeg notes on the distributions of an identifier the leg made for it.
+func attributeLeg(distributions []Distribution, identifier, transactionID string) {
+	for i := range distributions {
+		if distributions[i].Identifier == identifier {
+			distributions[i].TransactionID = transactionID
+		}
+	}
+}
+
 // BulkTransactionRequest encapsulates the data needed for a bulk transaction request.
 type BulkTransactionRequest struct {
 	Transactions []*Transaction `json:"transactions"`
-- 
2.43.0


From ec7122903d733b0a4335d3ccc804094720e16d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 15/78] fix: do not post the legs of a split whose share rounds
 to nothing

---
 model/transaction.go       | 16 ++++++++++++++++
 transaction_dryrun.go      |  1 +
 transaction_dryrun_bulk.go |  2 +-
 transaction_queue.go       |  2 +-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/model/transaction.go b/model/transaction.go
index 94d4d3e..4aa2eeb 100644
--- a/model/transaction.go
+++ b/model/transaction.go
@@ -541,6 +541,22 @@ func (transaction *Transaction) SplitTransactionPrecise(ctx context.Context) ([]
 	return transactions, nil
 }
 
+// DropEmptyLegs leaves out the legs whose share rounds to nothing: there is
+// nothing to post for them, and posting them would be refused after the legs
+// before them had moved money. When no leg carries anything all are kept.
+func DropEmptyLegs(legs []*Transaction) []*Transaction {
+	kept := make([]*Transaction, 0, len(legs))
+	for _, leg := range legs {
+		if leg.PreciseAmount == nil || leg.PreciseAmount.Sign() != 0 {
+			kept = append(kept, leg)
+		}
+	}
+	if len(kept) == 0 {
+		return legs
+	}
+	return kept
+}
+
 // attributeLeg notes on the distributions of an identifier the leg made for it.
 func attributeLeg(distributions []Distribution, identifier, transactionID string) {
 	for i := range distributions {
diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index 797cac7..afae918 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -324,6 +324,7 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 		span.RecordError(err)
 		return nil, fmt.Errorf("failed to split transaction: %w", err)
 	}
+	legs = model.DropEmptyLegs(legs)
 
 	preview := newPreviewFor(transaction)
 	preview.WouldApply = true
diff --git a/transaction_dryrun_bulk.go b/transaction_dryrun_bulk.go
index a02ec9e..e4c5383 100644
--- a/transaction_dryrun_bulk.go
+++ b/transaction_dryrun_bulk.go
@@ -179,7 +179,7 @@ func (l *Blnk) previewBulkItem(ctx context.Context, item *model.Transaction, wor
 		if err != nil {
 			return nil, err
 		}
-		legs = split
+		legs = model.DropEmptyLegs(split)
 	}
 
 	preview := newPreviewFor(item)
diff --git a/transaction_queue.go b/transaction_queue.go
index 2547c92..568bfb2 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -209,7 +209,7 @@ func (l *Blnk) handleSplitTransactions(ctx context.Context, transaction *model.T
 	if err != nil {
 		return nil, fmt.Errorf("failed to split transaction: %w", err)
 	}
-	return transactions, nil
+	return model.DropEmptyLegs(transactions), nil
 }
 
 // processTxns handles the processing of transactions based on whether they are split or single.
-- 
2.43.0


From 56444c935ec0d55d366392ef3e8fcef3854a9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 16/78] fix: keep the numbers of a request as sent when noting
 the API key in its metadata

---
 api/middleware/auth.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/api/middleware/auth.go b/api/middleware/auth.go
index 9625258..12d3049 100644
--- a/api/middleware/auth.go
+++ b/api/middleware/auth.go
@@ -143,9 +143,10 @@ func injectAPIKeyToMetadata(c *gin.Context, apiKeyID string) error {
 	}
 	_ = c.Request.Body.Close()
 
-	// Parse the request body as JSON
+	// Parse the request body as JSON, keeping numbers as they were sent: a
+	// precise amount does not survive a float64.
 	var bodyMap map[string]interface{}
-	if err := json.Unmarshal(bodyBytes, &bodyMap); err != nil {
+	if err := unmarshalKeepingNumbers(bodyBytes, &bodyMap); err != nil {
 		// If not valid JSON, restore the original body and continue
 		c.Request.Body = io.NopCloser(bytes.NewBuffer(bodyBytes))
 		return err
@@ -179,6 +180,16 @@ func injectAPIKeyToMetadata(c *gin.Context, apiKeyID string) error {
 	return nil
 }
 
+// unmarshalKeepingNumbers is json.Unmarshal with numbers kept as json.Number.
+func unmarshalKeepingNumbers(data []byte, v interface{}) error {
+	if !json.Valid(data) {
+		return json.Unmarshal(data, v)
+	}
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode(v)
+}
+
 // Authenticate returns a middleware function that handles authentication and authorization for all routes.
 // It checks for the X-Blnk-Key header and validates it against either the master key or API keys.
 // For API keys, it verifies the key's validity and checks permissions based on the resource and HTTP method.
-- 
2.43.0


From 75e979abebf26ef7343d8f20cbed859c983c5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 17/78] fix: deliver webhooks with the numbers that were
 enqueued

---
 webhooks.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/webhooks.go b/webhooks.go
index 5eec46d..5d3842b 100644
--- a/webhooks.go
+++ b/webhooks.go
@@ -174,8 +174,12 @@ func (b *Blnk) ProcessWebhook(_ context.Context, task *asynq.Task) error {
 	if conf.Notification.Webhook.Url == "" {
 		return nil
 	}
+	// Numbers are passed on as they were enqueued: a precise amount does not
+	// survive a float64.
 	var payload NewWebhook
-	if err := json.Unmarshal(task.Payload(), &payload); err != nil {
+	decoder := json.NewDecoder(bytes.NewReader(task.Payload()))
+	decoder.UseNumber()
+	if err := decoder.Decode(&payload); err != nil {
 		logrus.Errorf("Error unmarshaling task payload: %v", err)
 		return err
 	}
-- 
2.43.0


From bd6ef34b0de0700389e82ac3321ba733b418165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 18/78] fix: derive the amount of a precise amount with enough
 digits for the precision

---
 model/model.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/model/model.go b/model/model.go
index 0f683ee..c5108f7 100644
--- a/model/model.go
+++ b/model/model.go
@@ -404,8 +404,12 @@ func convertPreciseToDecimal(transaction *Transaction) {
 	// Create decimal for precision
 	precisionDec := decimal.NewFromFloat(transaction.Precision)
 
-	// Perform division with exact decimal arithmetic
-	resultDec := preciseAmountDec.Div(precisionDec)
+	// Perform division with enough digits to tell every smallest unit apart
+	digits := int32(decimal.DivisionPrecision)
+	if needed := int32(len(precisionDec.Truncate(0).String())) + 1; needed > digits {
+		digits = needed
+	}
+	resultDec := preciseAmountDec.DivRound(precisionDec, digits)
 
 	// Store the exact string representation
 	transaction.AmountString = resultDec.String()
-- 
2.43.0


From 8c9f6b944eaa0eb2c4821851687f9b1e5968dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 19/78] fix: refuse a precision that cannot be stored instead
 of losing the queued transaction

---
 api/model/model.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api/model/model.go b/api/model/model.go
index bda1c1d..42ff514 100644
--- a/api/model/model.go
+++ b/api/model/model.go
@@ -68,6 +68,17 @@ func validatePrecisionNotNegative(value interface{}) error {
 	return nil
 }
 
+// validatePrecisionStorable rejects a precision beyond the range of the column
+// it is stored in: accepting it would acknowledge a queued transaction that can
+// never be recorded.
+func validatePrecisionStorable(value interface{}) error {
+	if precision, ok := value.(float64); ok && precision >= math.MaxInt64 {
+		return errors.New("precision is too large")
+	}
+
+	return nil
+}
+
 // validateAmountNotNegative rejects negative amounts on both the float
 // `amount` field and the big.Int `precise_amount` field.
 //
@@ -275,7 +286,7 @@ func (t *RecordTransaction) ValidateRecordTransaction() error {
 
 			return nil
 		}), validation.By(validateAmountNotNegative(t))),
-		validation.Field(&t.Precision, validation.By(validatePrecisionIsInteger), validation.By(validatePrecisionNotNegative)),
+		validation.Field(&t.Precision, validation.By(validatePrecisionIsInteger), validation.By(validatePrecisionNotNegative), validation.By(validatePrecisionStorable)),
 		validation.Field(&t.Currency, validation.Required),
 		validation.Field(&t.Reference, validation.Required),
 		validation.Field(&t.Description, validation.Required),
-- 
2.43.0


From 922b1c3610943c30e4a30c979f7871a75af4c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 20/78] fix: fail verification of a hash chain cut or extended
 at its end

VerifyChain compared the replayed head with chain_state only when both had
the same length, so removing the last rows, or adding rows after them,
went unnoticed. Compare the lengths, re-reading the bookmark after the rows
so that concurrent chaining is no false alarm.
---
 chain_worker.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/chain_worker.go b/chain_worker.go
index 7c121cc..d501416 100644
--- a/chain_worker.go
+++ b/chain_worker.go
@@ -185,7 +185,17 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 			return ChainVerifyResult{}, err
 		}
 		if len(rows) == 0 {
-			break
+			// A chainer may have advanced the bookmark since it was read: then
+			// there is more to replay before the two can be compared.
+			latest, err := l.datasource.GetChainState(ctx)
+			if err != nil {
+				return ChainVerifyResult{}, err
+			}
+			if latest.LastSeq <= state.LastSeq {
+				break
+			}
+			state = latest
+			continue
 		}
 		for _, ct := range rows {
 			if ct.ChainSeq != expectedSeq {
@@ -209,8 +219,13 @@ func (l *Blnk) VerifyChain(ctx context.Context, progress func(seq int64)) (Chain
 		}
 	}
 
-	// The replayed head must match the recorded head at the recorded length.
-	if lastSeq == state.LastSeq && head != state.HeadHash {
+	// The replayed chain must have the recorded length: rows missing from, or
+	// added to, its end break no link.
+	if lastSeq != state.LastSeq {
+		return ChainVerifyResult{BrokenSeq: lastSeq, Reason: fmt.Sprintf("chain ends at seq %d but chain_state records %d", lastSeq, state.LastSeq)}, nil
+	}
+	// The replayed head must match the recorded head.
+	if head != state.HeadHash {
 		return ChainVerifyResult{BrokenSeq: lastSeq, Reason: "replayed head does not match chain_state head_hash"}, nil
 	}
 
-- 
2.43.0


From 6486b9b0db21bf7fa7958467f6e57c412a5feb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 21/78] fix: take the moment a past balance is asked for in UTC

The stored times carry no zone, so the database ignored the offset of the
timestamp it was asked about: 04:30+05:30 was answered as of 04:30 UTC.
---
 api/balance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/balance.go b/api/balance.go
index c5465de..f8f6cd6 100644
--- a/api/balance.go
+++ b/api/balance.go
@@ -418,7 +418,8 @@ func (a Api) GetBalanceAtTime(c *gin.Context) {
 	fromSourceStr := c.Query("from_source")
 	fromSource := fromSourceStr == "true" || fromSourceStr == "1"
 
-	balance, err := a.blnk.GetBalanceAtTime(c.Request.Context(), balanceID, timestamp, fromSource)
+	// The times of transactions are stored in UTC, without a zone.
+	balance, err := a.blnk.GetBalanceAtTime(c.Request.Context(), balanceID, timestamp.UTC(), fromSource)
 	if err != nil {
 		respondError(c, err, withUpgrade(apierror.ErrGenNotFound, apierror.ErrBalNotFound))
 		return
-- 
2.43.0


From 0446b573d167087ed68ae2d85aea243a2c337323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 22/78] fix: dry runs of splits check the references their legs
 are recorded under

---
 transaction_dryrun.go      | 47 ++++++++++++++++++++++++--------
 transaction_dryrun_bulk.go | 56 ++++++++++++++++++++++++++++++--------
 2 files changed, 80 insertions(+), 23 deletions(-)

diff --git a/transaction_dryrun.go b/transaction_dryrun.go
index afae918..bbba290 100644
--- a/transaction_dryrun.go
+++ b/transaction_dryrun.go
@@ -343,7 +343,7 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 	// different, uncoordinated times.
 	shared := newPreviewBalanceSet(l)
 
-	for _, leg := range legs {
+	for i, leg := range legs {
 		normalizePreviewStatus(leg)
 		leg.PreciseAmount = model.ApplyPrecision(leg)
 
@@ -359,7 +359,13 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 		}
 
 		failed := false
-		if err := sameBalanceErr(source, destination); err != nil {
+		if err := l.referenceUsedErr(ctx, legReference(transaction, leg, i)); err != nil {
+			preview.WouldApply = false
+			if preview.Rejection == nil {
+				preview.Rejection = previewRejection(err)
+			}
+			failed = true
+		} else if err := sameBalanceErr(source, destination); err != nil {
 			preview.WouldApply = false
 			if preview.Rejection == nil {
 				preview.Rejection = previewRejection(err)
@@ -405,6 +411,27 @@ func (l *Blnk) previewSplitTransaction(ctx context.Context, transaction *model.T
 	return preview, nil
 }
 
+// legReference is the reference the leg at index i of a split is recorded
+// under. The reference of the split itself is never recorded.
+func legReference(transaction, leg *model.Transaction, i int) string {
+	if transaction.SkipQueue {
+		return leg.Reference
+	}
+	return fmt.Sprintf("%s_%d", transaction.Reference, i+1)
+}
+
+// referenceUsedErr reports the error a real post would fail with when the
+// reference is taken, or nil.
+func (l *Blnk) referenceUsedErr(ctx context.Context, reference string) error {
+	if reference == "" {
+		return nil
+	}
+	if exists, err := l.datasource.TransactionExistsByRef(ctx, reference); err != nil || !exists {
+		return nil
+	}
+	return fmt.Errorf("transaction validation failed: reference %s has already been used", reference)
+}
+
 // previewBalance is a balance resolved for projection, along with whether it
 // had to be invented because it does not exist yet.
 type previewBalance struct {
@@ -617,15 +644,13 @@ func (l *Blnk) notePreviewCaveats(ctx context.Context, preview *model.Transactio
 		}
 	}
 
-	if transaction.Reference != "" {
-		if exists, err := l.datasource.TransactionExistsByRef(ctx, transaction.Reference); err == nil && exists {
-			// A duplicate reference is fatal on a real post (transaction
-			// validation rejects it before balances are ever touched), so this
-			// is a rejection like any other — not a caveat balance projection
-			// can still say would_apply: true around.
-			preview.WouldApply = false
-			preview.Rejection = previewRejection(fmt.Errorf("transaction validation failed: reference %s has already been used", transaction.Reference))
-		}
+	if err := l.referenceUsedErr(ctx, transaction.Reference); err != nil {
+		// A duplicate reference is fatal on a real post (transaction
+		// validation rejects it before balances are ever touched), so this
+		// is a rejection like any other — not a caveat balance projection
+		// can still say would_apply: true around.
+		preview.WouldApply = false
+		preview.Rejection = previewRejection(err)
 	}
 }
 
diff --git a/transaction_dryrun_bulk.go b/transaction_dryrun_bulk.go
index e4c5383..728a03e 100644
--- a/transaction_dryrun_bulk.go
+++ b/transaction_dryrun_bulk.go
@@ -128,21 +128,31 @@ func (l *Blnk) PreviewBulkTransactions(ctx context.Context, request *model.BulkT
 // Returns a non-nil preview only when item.Reference collides; nil, nil
 // means the caller should preview the item normally.
 func (l *Blnk) bulkItemDuplicateReference(ctx context.Context, item *model.Transaction, seenRefs map[string]bool) (*model.TransactionPreview, error) {
-	if item.Reference == "" {
-		return nil, nil
-	}
+	references := recordedReferences(ctx, item)
 
-	duplicate := seenRefs[item.Reference]
-	if !duplicate {
-		exists, err := l.datasource.TransactionExistsByRef(ctx, item.Reference)
-		if err != nil {
-			return nil, err
+	taken := ""
+	for _, reference := range references {
+		if reference == "" {
+			continue
+		}
+		duplicate := seenRefs[reference]
+		if !duplicate {
+			exists, err := l.datasource.TransactionExistsByRef(ctx, reference)
+			if err != nil {
+				return nil, err
+			}
+			duplicate = exists
+		}
+		if duplicate {
+			taken = reference
+			break
 		}
-		duplicate = exists
 	}
 
-	if !duplicate {
-		seenRefs[item.Reference] = true
+	if taken == "" {
+		for _, reference := range references {
+			seenRefs[reference] = true
+		}
 		return nil, nil
 	}
 
@@ -153,11 +163,33 @@ func (l *Blnk) bulkItemDuplicateReference(ctx context.Context, item *model.Trans
 	preview.WouldApply = false
 	preview.PreciseAmount = preciseString(item.PreciseAmount)
 	preview.Amount = item.Amount
-	preview.Rejection = previewRejection(fmt.Errorf("transaction validation failed: reference %s has already been used", item.Reference))
+	preview.Rejection = previewRejection(fmt.Errorf("transaction validation failed: reference %s has already been used", taken))
 	preview.Finalize()
 	return preview, nil
 }
 
+// recordedReferences lists the references a real post of item records: its
+// own, or those of its legs when it is a split.
+func recordedReferences(ctx context.Context, item *model.Transaction) []string {
+	if len(item.Sources) == 0 && len(item.Destinations) == 0 {
+		return []string{item.Reference}
+	}
+
+	split := item.Clone()
+	split.PreciseAmount = model.ApplyPrecision(split)
+	legs, err := split.SplitTransactionPrecise(ctx)
+	if err != nil {
+		// Reported when the item is projected.
+		return nil
+	}
+
+	var references []string
+	for i, leg := range model.DropEmptyLegs(legs) {
+		references = append(references, legReference(item, leg, i))
+	}
+	return references
+}
+
 // previewBulkItem projects one item of a batch.
 //
 // In cumulative mode the item is applied to the shared working balances so the
-- 
2.43.0


From 273aeacb9e229517a2f600a9148b53a410178346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 23/78] fix: dry runs of bulk commits and voids that skip the
 queue do not expand parents

---
 api/transactions.go            | 13 +++++++++----
 transaction_dryrun_inflight.go | 17 ++++++++++++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index df5c3c3..c3bd8c8 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -746,7 +746,7 @@ func (a Api) RecoverQueuedTransactions(c *gin.Context) {
 // than failing the whole request, mirroring BulkInflightUpdate, whose
 // per-item failures do not abort the rest of the batch. Only an
 // infrastructure error aborts.
-func (a Api) respondBulkInflightPreview(c *gin.Context, action string, items []blnk.BulkInflightItem) {
+func (a Api) respondBulkInflightPreview(c *gin.Context, action string, items []blnk.BulkInflightItem, skipQueue bool) {
 	preview := model.BulkTransactionPreview{
 		DryRun:     true,
 		WouldApply: true,
@@ -782,7 +782,12 @@ func (a Api) respondBulkInflightPreview(c *gin.Context, action string, items []b
 	}
 
 	for _, item := range items {
-		itemPreview, err := a.blnk.PreviewInflightAction(c.Request.Context(), item.TransactionID, action, item.Amount)
+		// Only the queued action expands a parent into its legs.
+		project := a.blnk.PreviewInflightAction
+		if skipQueue {
+			project = a.blnk.PreviewInflightItem
+		}
+		itemPreview, err := project(c.Request.Context(), item.TransactionID, action, item.Amount)
 		if err != nil {
 			// The id could not be resolved at all (missing, or an
 			// infrastructure failure). Report it against the item rather than
@@ -877,7 +882,7 @@ func (a Api) BulkVoidInflight(c *gin.Context) {
 	// Ahead of both the queueing and the synchronous branch: a dry run must
 	// not release a hold on either path.
 	if req.DryRun {
-		a.respondBulkInflightPreview(c, blnk.InflightActionVoid, items)
+		a.respondBulkInflightPreview(c, blnk.InflightActionVoid, items, req.SkipQueue)
 		return
 	}
 
@@ -976,7 +981,7 @@ func (a Api) BulkCommitInflight(c *gin.Context) {
 	// Ahead of both the queueing and the synchronous branch: a dry run must
 	// not settle a hold on either path.
 	if req.DryRun {
-		a.respondBulkInflightPreview(c, blnk.InflightActionCommit, items)
+		a.respondBulkInflightPreview(c, blnk.InflightActionCommit, items, req.SkipQueue)
 		return
 	}
 
diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index f3e1f68..2410079 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -35,6 +35,17 @@ import (
 // Nothing is written: no settlement transaction is recorded, no hold is
 // released, and nothing is queued.
 func (l *Blnk) PreviewInflightAction(ctx context.Context, txID, action string, amount *big.Int) (*model.TransactionPreview, error) {
+	return l.previewInflightAction(ctx, txID, action, amount, true)
+}
+
+// PreviewInflightItem projects one item of a bulk commit or void that skips the
+// queue. BulkInflightUpdate settles each item by its own id and does not expand
+// parents, so neither does its projection.
+func (l *Blnk) PreviewInflightItem(ctx context.Context, txID, action string, amount *big.Int) (*model.TransactionPreview, error) {
+	return l.previewInflightAction(ctx, txID, action, amount, false)
+}
+
+func (l *Blnk) previewInflightAction(ctx context.Context, txID, action string, amount *big.Int, expand bool) (*model.TransactionPreview, error) {
 	ctx, span := tracer.Start(ctx, "PreviewInflightAction")
 	defer span.End()
 
@@ -42,7 +53,7 @@ func (l *Blnk) PreviewInflightAction(ctx context.Context, txID, action string, a
 		return nil, fmt.Errorf("status not supported. use either commit or void")
 	}
 
-	legs, err := l.inflightLegsForPreview(ctx, txID)
+	legs, err := l.inflightLegsForPreview(ctx, txID, expand)
 	if err != nil {
 		// A transaction that's already been voided, or was never inflight,
 		// is exactly the kind of "would this apply" fact a preview answers
@@ -181,13 +192,13 @@ func (l *Blnk) PreviewInflightAction(ctx context.Context, txID, action string, a
 // A transaction id resolves to itself. An id that names no inflight transaction
 // directly may still be the parent of a split, so it is expanded the same way
 // the real commit and void paths expand it.
-func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string) ([]*model.Transaction, error) {
+func (l *Blnk) inflightLegsForPreview(ctx context.Context, txID string, expand bool) ([]*model.Transaction, error) {
 	transaction, err := l.fetchAndValidateInflightTransaction(ctx, txID)
 	if err == nil {
 		return []*model.Transaction{transaction}, nil
 	}
 
-	if !shouldExpandInflightParent(err) {
+	if !expand || !shouldExpandInflightParent(err) {
 		return nil, err
 	}
 
-- 
2.43.0


From 2c36036e5fc599d041f0dd82a33d1b73f0e751f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:43 +0000
Subject: [PATCH 24/78] fix: dry runs of an action on a parent refuse legs that
 were voided already

---
 transaction_dryrun_inflight.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/transaction_dryrun_inflight.go b/transaction_dryrun_inflight.go
index 2410079..887865b 100644
--- a/transaction_dryrun_inflight.go
+++ b/transaction_dryrun_inflight.go
@@ -18,6 +18,7 @@ package blnk
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/big"
 
@@ -107,6 +108,21 @@ func (l *Blnk) previewInflightAction(ctx context.Context, txID, action string, a
 	var legErrors []error
 
 	for _, leg := range legs {
+		if leg.TransactionID != txID {
+			// A leg of the parent that was asked about: it is refused on the
+			// same grounds as the real action refuses it.
+			voided, err := l.datasource.IsParentTransactionVoid(ctx, leg.TransactionID)
+			if err != nil {
+				span.RecordError(err)
+				return nil, err
+			}
+			if voided {
+				preview.WouldApply = false
+				legErrors = append(legErrors, errors.New("transaction has already been voided"))
+				continue
+			}
+		}
+
 		settlement, err := l.buildInflightSettlementForPreview(ctx, leg, action, amount)
 		if err != nil {
 			preview.WouldApply = false
-- 
2.43.0


From dccacbf2beac19a96a5ce1394dc0524a54bde96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 25/78] fix: a proportional debit draws all of its amount when
 the last provider cannot take the rounding

---
 lineage_allocation.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 0444713..1407f6a 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -212,6 +212,40 @@ func (l *Blnk) proportionalAllocation(sources []LineageSource, amount *big.Int)
 		remaining.Sub(remaining, alloc)
 	}
 
+	return distributeRemainder(sources, allocations, remaining)
+}
+
+// distributeRemainder hands out what rounding down left over when the last
+// source cannot cover all of it, to the other sources that still have funds.
+func distributeRemainder(sources []LineageSource, allocations []Allocation, remaining *big.Int) []Allocation {
+	for _, source := range sources {
+		if remaining.Sign() <= 0 {
+			break
+		}
+
+		index := -1
+		room := new(big.Int).Set(source.Balance)
+		for i := range allocations {
+			if allocations[i].BalanceID == source.BalanceID {
+				index = i
+				room.Sub(room, allocations[i].Amount)
+			}
+		}
+		if room.Cmp(remaining) > 0 {
+			room.Set(remaining)
+		}
+		if room.Sign() <= 0 {
+			continue
+		}
+
+		if index >= 0 {
+			allocations[index].Amount.Add(allocations[index].Amount, room)
+		} else {
+			allocations = append(allocations, Allocation{BalanceID: source.BalanceID, Amount: new(big.Int).Set(room)})
+		}
+		remaining.Sub(remaining, room)
+	}
+
 	return allocations
 }
 
-- 
2.43.0


From 8d68a7b645a7f14e9ef71e96ca1a10771de39c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 26/78] fix: retried lineage credits do not fail on what they
 recorded, nor drop the mapping

---
 lineage_credit.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lineage_credit.go b/lineage_credit.go
index 08da11f..909679e 100644
--- a/lineage_credit.go
+++ b/lineage_credit.go
@@ -57,7 +57,8 @@ func (l *Blnk) processLineageCredit(ctx context.Context, txn *model.Transaction,
 	if err := l.upsertCreditLineageMapping(ctx, destBalance, provider, shadowBalance, aggregateBalance, identityID); err != nil {
 		logrus.Errorf("failed to create lineage mapping after shadow transaction: %v (txn: %s, provider: %s)", err, txn.TransactionID, provider)
 		span.RecordError(err)
-		// Don't return error - shadow transaction succeeded, mapping is for optimization
+		// Without the mapping the credit is never drawn on or reported; retry it.
+		return err
 	}
 
 	span.AddEvent("Lineage credit processed", trace.WithAttributes(
@@ -144,6 +145,17 @@ func (l *Blnk) upsertCreditLineageMapping(ctx context.Context, destBalance *mode
 // Returns:
 // - error: An error if the shadow transaction could not be queued.
 func (l *Blnk) queueShadowCreditTransaction(ctx context.Context, txn *model.Transaction, destBalance *model.Balance, provider string, shadowBalance, aggregateBalance *model.Balance, identityID string) error {
+	reference := fmt.Sprintf("%s_shadow_%s", txn.Reference, provider)
+
+	// A retry of the same outbox entry must not fail on the credit it already recorded.
+	exists, err := l.datasource.TransactionExistsByRef(ctx, reference)
+	if err != nil {
+		return fmt.Errorf("failed to check shadow credit idempotency: %w", err)
+	}
+	if exists {
+		return nil
+	}
+
 	shadowTxn := &model.Transaction{
 		Source:        shadowBalance.BalanceID,
 		Destination:   aggregateBalance.BalanceID,
@@ -151,7 +163,7 @@ func (l *Blnk) queueShadowCreditTransaction(ctx context.Context, txn *model.Tran
 		PreciseAmount: new(big.Int).Set(txn.PreciseAmount),
 		Currency:      destBalance.Currency,
 		Precision:     txn.Precision,
-		Reference:     fmt.Sprintf("%s_shadow_%s", txn.Reference, provider),
+		Reference:     reference,
 		Description:   fmt.Sprintf("Shadow credit from %s", provider),
 		MetaData: map[string]interface{}{
 			"_shadow_for":   txn.TransactionID,
@@ -165,8 +177,7 @@ func (l *Blnk) queueShadowCreditTransaction(ctx context.Context, txn *model.Tran
 		Inflight:       txn.Inflight,
 	}
 
-	_, err := l.QueueTransaction(ctx, shadowTxn)
-	if err != nil {
+	if _, err := l.QueueTransaction(ctx, shadowTxn); err != nil {
 		return fmt.Errorf("failed to queue shadow credit transaction: %w", err)
 	}
 
-- 
2.43.0


From 593fe4eb12f70ee932540cc8a8b392546fbc17b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 27/78] fix: retried lineage debits finish what an earlier
 attempt began

---
 lineage_debit.go | 69 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 21 deletions(-)

diff --git a/lineage_debit.go b/lineage_debit.go
index c5f6cb2..70cc8f0 100644
--- a/lineage_debit.go
+++ b/lineage_debit.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"fmt"
 	"math/big"
+	"slices"
 
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/model"
@@ -43,8 +44,7 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		// If so, retry later after those credits are processed
 		hasPending, err := l.datasource.HasPendingCreditOutbox(ctx, sourceBalance.BalanceID)
 		if err != nil {
-			logrus.Warnf("failed to check pending credit outbox for balance %s: %v", sourceBalance.BalanceID, err)
-			return nil
+			return fmt.Errorf("failed to check pending credit outbox for balance %s: %w", sourceBalance.BalanceID, err)
 		}
 		if hasPending {
 			return fmt.Errorf("pending credit outbox entries exist for balance %s, retry later", sourceBalance.BalanceID)
@@ -85,16 +85,25 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 		return fmt.Errorf("failed to get lineage sources: %w", err)
 	}
 
+	prior, err := l.priorReleases(ctx, txn, mappings)
+	if err != nil {
+		return err
+	}
+
 	remaining, err := l.remainingDebitAmount(ctx, txn, mappings)
 	if err != nil {
 		return err
 	}
-	if remaining.Sign() <= 0 {
-		span.AddEvent("Lineage debit already fully processed; nothing to allocate")
-		return nil
+
+	// What an earlier attempt released stays as it is; only the rest is
+	// allocated, among the providers it had not reached.
+	for _, alloc := range prior {
+		sources = slices.DeleteFunc(sources, func(source LineageSource) bool {
+			return source.BalanceID == alloc.BalanceID
+		})
 	}
 
-	allocations := l.calculateAllocation(sources, remaining, sourceBalance.AllocationStrategy)
+	allocations := append(prior, l.calculateAllocation(sources, remaining, sourceBalance.AllocationStrategy)...)
 
 	sourceAggBalance, err := l.getSourceAggregateBalance(ctx, sourceBalance)
 	if err != nil {
@@ -121,10 +130,10 @@ func receiveReference(parentRef, provider string) string {
 	return fmt.Sprintf("%s_receive_%s", parentRef, provider)
 }
 
-// remainingDebitAmount returns the original debit amount minus any releases
-// already persisted for this transaction's providers.
-func (l *Blnk) remainingDebitAmount(ctx context.Context, txn *model.Transaction, mappings []model.LineageMapping) (*big.Int, error) {
-	released := big.NewInt(0)
+// priorReleases returns the releases already persisted for this transaction's
+// providers by an earlier attempt.
+func (l *Blnk) priorReleases(ctx context.Context, txn *model.Transaction, mappings []model.LineageMapping) ([]Allocation, error) {
+	var prior []Allocation
 	for _, m := range mappings {
 		ref := releaseReference(txn.Reference, m.Provider)
 		exists, err := l.datasource.TransactionExistsByRef(ctx, ref)
@@ -134,13 +143,27 @@ func (l *Blnk) remainingDebitAmount(ctx context.Context, txn *model.Transaction,
 		if !exists {
 			continue
 		}
-		prior, err := l.datasource.GetTransactionByRef(ctx, ref)
+		release, err := l.datasource.GetTransactionByRef(ctx, ref)
 		if err != nil {
 			return nil, fmt.Errorf("failed to load prior release %s: %w", ref, err)
 		}
-		released.Add(released, prior.PreciseAmount)
+		prior = append(prior, Allocation{BalanceID: m.ShadowBalanceID, Amount: new(big.Int).Set(release.PreciseAmount)})
 	}
-	return new(big.Int).Sub(txn.PreciseAmount, released), nil
+	return prior, nil
+}
+
+// remainingDebitAmount returns the original debit amount minus any releases
+// already persisted for this transaction's providers.
+func (l *Blnk) remainingDebitAmount(ctx context.Context, txn *model.Transaction, mappings []model.LineageMapping) (*big.Int, error) {
+	prior, err := l.priorReleases(ctx, txn, mappings)
+	if err != nil {
+		return nil, err
+	}
+	remaining := new(big.Int).Set(txn.PreciseAmount)
+	for _, release := range prior {
+		remaining.Sub(remaining, release.Amount)
+	}
+	return remaining, nil
 }
 
 // prepareDestinationLineageBalances pre-creates destination shadow and aggregate balances for all providers.
@@ -252,12 +275,10 @@ func (l *Blnk) processAllocations(ctx context.Context, txn *model.Transaction, a
 		if err != nil {
 			return fmt.Errorf("failed to check release idempotency: %w", err)
 		}
-		if exists {
-			continue
-		}
-
-		if err := l.queueReleaseTransaction(ctx, txn, alloc, mapping, sourceBalance, sourceAggBalance); err != nil {
-			return fmt.Errorf("failed to queue release transaction: %w", err)
+		if !exists {
+			if err := l.queueReleaseTransaction(ctx, txn, alloc, mapping, sourceBalance, sourceAggBalance); err != nil {
+				return fmt.Errorf("failed to queue release transaction: %w", err)
+			}
 		}
 
 		if err := l.processDestinationLineage(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destLineageBalances); err != nil {
@@ -337,8 +358,14 @@ func (l *Blnk) processDestinationLineage(ctx context.Context, txn *model.Transac
 	destShadowBalance := destInfo.shadowBalance
 	destAggBalance := destInfo.aggregateBalance
 
-	if err := l.queueReceiveTransaction(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destShadowBalance, destAggBalance); err != nil {
-		return fmt.Errorf("failed to queue receive transaction: %w", err)
+	received, err := l.datasource.TransactionExistsByRef(ctx, receiveReference(txn.Reference, mapping.Provider))
+	if err != nil {
+		return fmt.Errorf("failed to check receive idempotency: %w", err)
+	}
+	if !received {
+		if err := l.queueReceiveTransaction(ctx, txn, alloc, mapping, sourceBalance, destinationBalance, destShadowBalance, destAggBalance); err != nil {
+			return fmt.Errorf("failed to queue receive transaction: %w", err)
+		}
 	}
 
 	destMapping := model.LineageMapping{
-- 
2.43.0


From 67511ff264b83d617299465703d6b571ec32cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 28/78] fix: track the lineage of holds that were queued,
 batched or split

---
 transaction_execution.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transaction_execution.go b/transaction_execution.go
index d36f7a3..ec3d418 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -764,7 +764,8 @@ func (l *Blnk) prepareTransactionOutbox(ctx context.Context, transaction *model.
 	}
 
 	// Skip lineage for commits of inflight transactions - lineage was already created for the original.
-	isInflightCommit := transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
+	// A hold has a parent too when it was queued or belongs to a batch or split; it is still to be tracked.
+	isInflightCommit := transaction.Status == StatusApplied && transaction.ParentTransaction != "" && transaction.MetaData != nil && transaction.MetaData["inflight"] == true
 	if isInflightCommit {
 		return nil
 	}
-- 
2.43.0


From a7ae15e49245640fb075afbe57cffcb0e398eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 29/78] fix: settle the lineage of a hold that was settled
 before its lineage was recorded

---
 lineage_outbox.go | 27 +++++++++++++++++++++++++++
 lineage_shadow.go |  2 ++
 2 files changed, 29 insertions(+)

diff --git a/lineage_outbox.go b/lineage_outbox.go
index 8c14267..5a75ee5 100644
--- a/lineage_outbox.go
+++ b/lineage_outbox.go
@@ -189,6 +189,33 @@ func (l *Blnk) ProcessLineageFromOutbox(ctx context.Context, entry model.Lineage
 		return err
 	}
 
+	if entry.Inflight {
+		if err := l.settleLateShadows(ctx, entry.TransactionID); err != nil {
+			return err
+		}
+	}
+
 	span.AddEvent("Lineage processing completed from outbox")
 	return nil
 }
+
+// settleLateShadows commits or voids the shadows of a hold that was itself
+// committed or voided before they were recorded, when there were none to settle.
+func (l *Blnk) settleLateShadows(ctx context.Context, transactionID string) error {
+	committed, err := l.datasource.GetTotalCommittedTransactions(ctx, transactionID)
+	if err != nil {
+		return fmt.Errorf("failed to check commits of %s: %w", transactionID, err)
+	}
+	if committed != nil && committed.Sign() > 0 {
+		return l.commitShadowTransactions(ctx, transactionID, nil)
+	}
+
+	voided, err := l.datasource.IsParentTransactionVoid(ctx, transactionID)
+	if err != nil {
+		return fmt.Errorf("failed to check void of %s: %w", transactionID, err)
+	}
+	if voided {
+		return l.voidShadowTransactions(ctx, transactionID)
+	}
+	return nil
+}
diff --git a/lineage_shadow.go b/lineage_shadow.go
index f2431a9..c126376 100644
--- a/lineage_shadow.go
+++ b/lineage_shadow.go
@@ -42,6 +42,7 @@ func (l *Blnk) commitShadowTransactions(ctx context.Context, parentTransactionID
 		_, err := l.CommitInflightTransaction(ctx, shadow.TransactionID, shadow.PreciseAmount)
 		if err != nil {
 			if strings.Contains(err.Error(), "already committed") ||
+				strings.Contains(err.Error(), "already been voided") ||
 				strings.Contains(err.Error(), "not in inflight status") {
 				span.AddEvent("Shadow transaction already processed, skipping", trace.WithAttributes(
 					attribute.String("shadow.id", shadow.TransactionID),
@@ -89,6 +90,7 @@ func (l *Blnk) voidShadowTransactions(ctx context.Context, parentTransactionID s
 		_, err := l.VoidInflightTransaction(ctx, shadow.TransactionID)
 		if err != nil {
 			if strings.Contains(err.Error(), "already committed") ||
+				strings.Contains(err.Error(), "already been voided") ||
 				strings.Contains(err.Error(), "not in inflight status") {
 				span.AddEvent("Shadow transaction already processed, skipping", trace.WithAttributes(
 					attribute.String("shadow.id", shadow.TransactionID),
-- 
2.43.0


From a807647e3a707dc802436387c8824d30b979d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 30/78] fix: what inflight debits hold of a provider's funds is
 not available to other debits

---
 lineage_allocation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lineage_allocation.go b/lineage_allocation.go
index 1407f6a..15344d3 100644
--- a/lineage_allocation.go
+++ b/lineage_allocation.go
@@ -53,6 +53,11 @@ func (l *Blnk) getLineageSources(ctx context.Context, mappings []model.LineageMa
 
 		if balance.DebitBalance != nil && balance.CreditBalance != nil && balance.DebitBalance.Cmp(big.NewInt(0)) > 0 {
 			available := new(big.Int).Sub(balance.DebitBalance, balance.CreditBalance)
+			if balance.InflightCreditBalance != nil {
+				// Releases of inflight debits are held on the shadow until the
+				// debit is settled; nobody else can draw them meanwhile.
+				available.Sub(available, balance.InflightCreditBalance)
+			}
 			if available.Cmp(big.NewInt(0)) > 0 {
 				sources = append(sources, LineageSource{
 					BalanceID: mapping.ShadowBalanceID,
-- 
2.43.0


From ca808590c00468670c54fdf11dd11b650b09f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 31/78] fix: a lineage debit whose destination could not be
 prepared is retried

---
 lineage_debit.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lineage_debit.go b/lineage_debit.go
index 70cc8f0..599f4e3 100644
--- a/lineage_debit.go
+++ b/lineage_debit.go
@@ -24,7 +24,6 @@ import (
 
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/model"
-	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
 	"go.opentelemetry.io/otel/trace"
 )
@@ -64,12 +63,13 @@ func (l *Blnk) processLineageDebit(ctx context.Context, txn *model.Transaction,
 	if destinationBalance != nil && destinationBalance.TrackFundLineage && destinationBalance.IdentityID != "" {
 		destLineageBalances, err = l.prepareDestinationLineageBalances(ctx, mappings, destinationBalance)
 		if err != nil {
-			logrus.Warnf("failed to prepare destination lineage balances: %v", err)
-		} else {
-			for _, info := range destLineageBalances {
-				lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
-				lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
-			}
+			// Releasing without receiving would lose the providers of these
+			// funds for good; the outbox retries the whole debit instead.
+			return fmt.Errorf("failed to prepare destination lineage balances: %w", err)
+		}
+		for _, info := range destLineageBalances {
+			lockKeys = append(lockKeys, info.shadowBalance.BalanceID)
+			lockKeys = append(lockKeys, info.aggregateBalance.BalanceID)
 		}
 	}
 
-- 
2.43.0


From 6bb4bf210501fe61d2fd3ba4ad953580c13de0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 32/78] fix: API keys can reach snapshots, S3 backups and
 metadata with the scopes for them

---
 api/middleware/auth.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/api/middleware/auth.go b/api/middleware/auth.go
index 12d3049..5803513 100644
--- a/api/middleware/auth.go
+++ b/api/middleware/auth.go
@@ -48,18 +48,20 @@ func abortWithCode(c *gin.Context, code apierror.ErrorCode, message string) {
 // pathToResource maps URL paths to their corresponding resource types.
 // This is used by the authentication middleware to determine the required permissions.
 var pathToResource = map[string]Resource{
-	"ledgers":          ResourceLedgers,
-	"balances":         ResourceBalances,
-	"accounts":         ResourceAccounts,
-	"identities":       ResourceIdentities,
-	"transactions":     ResourceTransactions,
-	"balance-monitors": ResourceBalanceMonitors,
-	"hooks":            ResourceHooks,
-	"api-keys":         ResourceAPIKeys,
-	"search":           ResourceSearch,
-	"reconciliation":   ResourceReconciliation,
-	"metadata":         ResourceMetadata,
-	"backup":           ResourceBackup,
+	"ledgers":            ResourceLedgers,
+	"balances":           ResourceBalances,
+	"balances-snapshots": ResourceBalances,
+	"accounts":           ResourceAccounts,
+	"identities":         ResourceIdentities,
+	"transactions":       ResourceTransactions,
+	"balance-monitors":   ResourceBalanceMonitors,
+	"hooks":              ResourceHooks,
+	"api-keys":           ResourceAPIKeys,
+	"search":             ResourceSearch,
+	"reconciliation":     ResourceReconciliation,
+	"metadata":           ResourceMetadata,
+	"backup":             ResourceBackup,
+	"backup-s3":          ResourceBackup,
 }
 
 // AuthMiddleware handles authentication and authorization for API routes.
@@ -112,6 +114,11 @@ func getResourceFromPath(path string) Resource {
 		return resource
 	}
 
+	// The metadata of every kind of entity is updated at /:entity-id/metadata
+	if len(parts) == 2 && parts[1] == "metadata" {
+		return ResourceMetadata
+	}
+
 	return ""
 }
 
-- 
2.43.0


From 81e116a5679254e65673953fc4aa1a9b986961bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 33/78] fix: a revoked API key is refused by every server at
 once

---
 database/api_key.go     | 45 +++++++++++++++++++++++++++++++++++++----
 internal/cache/cache.go | 34 +++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+), 4 deletions(-)

diff --git a/database/api_key.go b/database/api_key.go
index fa05ae8..5662531 100644
--- a/database/api_key.go
+++ b/database/api_key.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"time"
 
+	"github.com/blnkfinance/blnk/internal/cache"
 	"github.com/blnkfinance/blnk/model"
 	"github.com/lib/pq"
 	"github.com/sirupsen/logrus"
@@ -48,6 +49,35 @@ func getAPIKeyCacheKey(hashedKey string) string {
 	return fmt.Sprintf("api_key:hash:%s", hashedKey)
 }
 
+const apiKeyCacheTTL = 5 * time.Minute
+
+// getCachedAPIKey reads a cached key. Every process must see a revocation made
+// by another one, so the in-memory tier of the cache is bypassed.
+func (s *Datasource) getCachedAPIKey(ctx context.Context, cacheKey string, apiKey *model.APIKey) error {
+	if shared, ok := s.Cache.(cache.Shared); ok {
+		return shared.GetShared(ctx, cacheKey, apiKey)
+	}
+	return s.Cache.Get(ctx, cacheKey, apiKey)
+}
+
+// cacheAPIKey caches a key read from the database. It does not replace an entry:
+// the key may have been revoked since it was read.
+func (s *Datasource) cacheAPIKey(ctx context.Context, cacheKey string, apiKey *model.APIKey) error {
+	if shared, ok := s.Cache.(cache.Shared); ok {
+		return shared.SetShared(ctx, cacheKey, apiKey, apiKeyCacheTTL, true)
+	}
+	return s.Cache.Set(ctx, cacheKey, apiKey, apiKeyCacheTTL)
+}
+
+// cacheRevokedAPIKey replaces the cached entry of a key that was revoked, so that
+// a reader that loaded the key before cannot cache it as valid afterwards.
+func (s *Datasource) cacheRevokedAPIKey(ctx context.Context, cacheKey string, apiKey *model.APIKey) error {
+	if shared, ok := s.Cache.(cache.Shared); ok {
+		return shared.SetShared(ctx, cacheKey, apiKey, apiKeyCacheTTL, false)
+	}
+	return s.Cache.Delete(ctx, cacheKey)
+}
+
 // CreateAPIKey creates a new API key with the specified parameters and stores it in the database.
 // The key is hashed using bcrypt before storage for security. The plain text key is returned ONLY during creation
 // and should be displayed to the user immediately as it cannot be retrieved later.
@@ -129,7 +159,7 @@ func (s *Datasource) GetAPIKey(ctx context.Context, key string) (*model.APIKey,
 	// Try to get from cache first
 	var apiKey model.APIKey
 	if s.Cache != nil {
-		err := s.Cache.Get(ctx, cacheKey, &apiKey)
+		err := s.getCachedAPIKey(ctx, cacheKey, &apiKey)
 		if err == nil && apiKey.Key != "" {
 			// Verify the cached key matches using bcrypt
 			if verifyAPIKey(apiKey.Key, key) {
@@ -176,7 +206,7 @@ func (s *Datasource) GetAPIKey(ctx context.Context, key string) (*model.APIKey,
 		if verifyAPIKey(candidate.Key, key) {
 			// Cache the verified key
 			if s.Cache != nil {
-				err = s.Cache.Set(ctx, cacheKey, &candidate, 5*time.Minute)
+				err = s.cacheAPIKey(ctx, cacheKey, &candidate)
 				if err != nil {
 					logrus.WithError(err).Warn("failed to cache API key")
 				}
@@ -225,7 +255,8 @@ func (s *Datasource) RevokeAPIKey(ctx context.Context, id, ownerID string) error
 		WHERE api_key_id = $2 AND owner_id = $3
 	`
 
-	result, err := s.Conn.ExecContext(ctx, updateQuery, time.Now(), id, ownerID)
+	revokedAt := time.Now()
+	result, err := s.Conn.ExecContext(ctx, updateQuery, revokedAt, id, ownerID)
 	if err != nil {
 		return err
 	}
@@ -247,7 +278,13 @@ func (s *Datasource) RevokeAPIKey(ctx context.Context, id, ownerID string) error
 
 	if keyPrefix.Valid && s.Cache != nil {
 		cacheKey := getAPIKeyCacheKey(keyPrefix.String)
-		err = s.Cache.Delete(ctx, cacheKey)
+		err = s.cacheRevokedAPIKey(ctx, cacheKey, &model.APIKey{
+			APIKeyID:  id,
+			Key:       hashedKey,
+			OwnerID:   ownerID,
+			IsRevoked: true,
+			RevokedAt: &revokedAt,
+		})
 		if err != nil {
 			// Log the error, but don't fail the revocation
 			logrus.WithError(err).Warn("failed to invalidate API key cache")
diff --git a/internal/cache/cache.go b/internal/cache/cache.go
index ec4bbcf..8177a1c 100644
--- a/internal/cache/cache.go
+++ b/internal/cache/cache.go
@@ -54,6 +54,17 @@ type Cache interface {
 	Delete(ctx context.Context, key string) error
 }
 
+// Shared is implemented by caches that can bypass the in-memory tier of the
+// process, so that an entry written by one process is what all of them read.
+type Shared interface {
+	// GetShared retrieves an entry like Cache.Get, past the in-memory tier.
+	GetShared(ctx context.Context, key string, data interface{}) error
+
+	// SetShared stores an entry like Cache.Set, past the in-memory tier. With
+	// ifAbsent an entry that is already there is left as it is.
+	SetShared(ctx context.Context, key string, value interface{}, ttl time.Duration, ifAbsent bool) error
+}
+
 // RedisCache implements the Cache interface, using Redis as the underlying cache store.
 // It leverages both Redis and local in-memory caching for efficient lookups.
 type RedisCache struct {
@@ -145,6 +156,29 @@ func (r *RedisCache) Get(ctx context.Context, key string, data interface{}) erro
 	return err
 }
 
+// GetShared retrieves an entry from Redis, past the in-memory tier of this process.
+// A missing entry is not an error, as with Get.
+func (r *RedisCache) GetShared(ctx context.Context, key string, data interface{}) error {
+	err := r.cache.GetSkippingLocalCache(ctx, key, &data)
+	if errors.Is(err, cache.ErrCacheMiss) {
+		return nil
+	}
+
+	return err
+}
+
+// SetShared stores an entry in Redis alone, past the in-memory tier of this process.
+func (r *RedisCache) SetShared(ctx context.Context, key string, value interface{}, ttl time.Duration, ifAbsent bool) error {
+	return r.cache.Set(&cache.Item{
+		Ctx:            ctx,
+		Key:            key,
+		Value:          value,
+		TTL:            ttl,
+		SetNX:          ifAbsent,
+		SkipLocalCache: true,
+	})
+}
+
 // Delete removes an entry from the cache based on the provided key.
 // Parameters:
 // - ctx: The context for the operation.
-- 
2.43.0


From 4257fa4d75004118df41536290db19c7756f8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 34/78] fix: a tokenised value that contains a colon can be
 detokenised

---
 internal/tokenization/tokenization.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/tokenization/tokenization.go b/internal/tokenization/tokenization.go
index 9ccc45c..4c4ccf5 100644
--- a/internal/tokenization/tokenization.go
+++ b/internal/tokenization/tokenization.go
@@ -250,8 +250,9 @@ func (s *TokenizationService) formatPreservingDetokenize(token string) (string,
 		return "", fmt.Errorf("invalid format-preserving token format")
 	}
 
-	// Extract the standard token part
-	standardToken := parts[2]
+	// Extract the standard token part. It is what follows the last separator: the
+	// visible token keeps the colons of the original value.
+	standardToken := token[strings.LastIndex(token, ":")+1:]
 
 	// Use standard detokenization to get the original value
 	return s.standardDetokenize(standardToken)
-- 
2.43.0


From e877446e0f8df6ac2c1f07e9cbf609f231bf292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 35/78] fix: a detokenised identity read from the database
 holds its original values

---
 identity.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/identity.go b/identity.go
index 0949d86..1ec7664 100644
--- a/identity.go
+++ b/identity.go
@@ -356,22 +356,17 @@ func (l *Blnk) GetDetokenizedIdentity(identityID string) (*model.Identity, error
 
 	// Detokenize all tokenized fields
 	if identity.MetaData != nil {
-		tokenizedFields, ok := identity.MetaData["tokenized_fields"].(map[string]bool)
-		if ok {
-			for field, isTokenized := range tokenizedFields {
-				if isTokenized {
-					originalValue, err := l.DetokenizeIdentityField(identityID, field)
-					if err != nil {
-						return nil, err
-					}
-
-					// Set the original value in the copy
-					val := reflect.ValueOf(&detokenizedIdentity).Elem()
-					fieldVal := val.FieldByName(field)
-					if fieldVal.IsValid() && fieldVal.CanSet() {
-						fieldVal.SetString(originalValue)
-					}
-				}
+		originalValues, err := l.DetokenizeIdentity(identityID)
+		if err != nil {
+			return nil, err
+		}
+
+		// Set the original values in the copy
+		val := reflect.ValueOf(&detokenizedIdentity).Elem()
+		for field, originalValue := range originalValues {
+			fieldVal := val.FieldByName(field)
+			if fieldVal.IsValid() && fieldVal.CanSet() {
+				fieldVal.SetString(originalValue)
 			}
 		}
 	}
-- 
2.43.0


From da97a6b2457bcdd88f7cdcd944ff4c73b208b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 36/78] fix: updates of one entity's metadata or tokenised
 fields do not overwrite each other

---
 identity.go | 15 ++++++++++++++-
 metadata.go | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/identity.go b/identity.go
index 1ec7664..a00473b 100644
--- a/identity.go
+++ b/identity.go
@@ -125,6 +125,12 @@ func (l *Blnk) GetAllIdentitiesWithFilterAndOptions(ctx context.Context, filters
 // Returns:
 // - error: An error if the identity could not be updated.
 func (l *Blnk) UpdateIdentity(identity *model.Identity) error {
+	unlock, err := l.lockEntity(context.Background(), identity.IdentityID)
+	if err != nil {
+		return err
+	}
+	defer unlock()
+
 	return l.datasource.UpdateIdentity(identity)
 }
 
@@ -164,6 +170,13 @@ func (l *Blnk) TokenizeIdentityField(identityID, fieldName string) error {
 		return fmt.Errorf("field %s is not tokenizable", fieldName)
 	}
 
+	// The identity is written back as a whole, so its updates must not interleave.
+	unlock, err := l.lockEntity(context.Background(), identityID)
+	if err != nil {
+		return err
+	}
+	defer unlock()
+
 	// Get the identity
 	identity, err := l.GetIdentity(identityID)
 	if err != nil {
@@ -201,7 +214,7 @@ func (l *Blnk) TokenizeIdentityField(identityID, fieldName string) error {
 	identity.MarkFieldAsTokenized(fieldName)
 
 	// Update the identity
-	return l.UpdateIdentity(identity)
+	return l.datasource.UpdateIdentity(identity)
 }
 
 // DetokenizeIdentityField detokenizes a specific field in an identity.
diff --git a/metadata.go b/metadata.go
index 7abf089..d5d1551 100644
--- a/metadata.go
+++ b/metadata.go
@@ -6,7 +6,9 @@ import (
 	"fmt"
 	"strings"
 
+	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/internal/notification"
+	"github.com/blnkfinance/blnk/model"
 )
 
 // ErrEntityNotFound is returned by UpdateMetadata when the target entity
@@ -57,6 +59,16 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 		return nil, err
 	}
 
+	// The other entities' metadata is read, merged and written back, so updates of
+	// the same entity must not interleave.
+	if entityType != "transactions" {
+		unlock, err := l.lockEntity(ctx, entityID)
+		if err != nil {
+			return nil, err
+		}
+		defer unlock()
+	}
+
 	// Check if entity exists first
 	switch entityType {
 	case "ledgers":
@@ -177,6 +189,27 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 	}
 }
 
+// lockEntity serializes the updates of an entity that read it and write it back.
+//
+// Parameters:
+// - ctx: The context for the operation.
+// - entityID: The ID of the entity to be updated.
+//
+// Returns:
+// - func(): Releases the lock.
+// - error: An error if the lock could not be acquired.
+func (l *Blnk) lockEntity(ctx context.Context, entityID string) (func(), error) {
+	if l.redis == nil {
+		return func() {}, nil
+	}
+	locker := redlock.NewLocker(l.redis, fmt.Sprintf("entity:%s", entityID), model.GenerateUUIDWithSuffix("loc"))
+	cfg := l.Config().Transaction
+	if err := locker.WaitLock(ctx, cfg.LockDuration, cfg.LockWaitTimeout); err != nil {
+		return nil, fmt.Errorf("failed to acquire lock for %s: %w", entityID, err)
+	}
+	return func() { l.releaseSingleLock(ctx, locker) }, nil
+}
+
 // mergeMetadata merges new metadata with existing metadata.
 // If the current metadata is nil, it initializes a new map.
 //
-- 
2.43.0


From b376e63f88d56056d27da3ec311868dbb9ab1641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:43 +0000
Subject: [PATCH 37/78] fix: pages of a filtered listing neither repeat nor
 miss records that sort equally

---
 database/account.go             | 4 ++--
 database/balance.go             | 4 ++--
 database/identity.go            | 4 ++--
 database/ledger.go              | 4 ++--
 database/transaction_filters.go | 4 ++++
 5 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/database/account.go b/database/account.go
index 0b60bfc..33b65b3 100644
--- a/database/account.go
+++ b/database/account.go
@@ -469,8 +469,8 @@ func (d Datasource) GetAllAccountsWithFilterAndOptions(ctx context.Context, filt
 		baseQuery += " WHERE " + filter.BuildConditionExpression(result.Conditions, logicalOperator)
 	}
 
-	// Add ORDER BY clause
-	baseQuery += " ORDER BY " + result.OrderBy
+	// Add ORDER BY clause; the id orders equal rows, so that pages neither repeat nor miss any
+	baseQuery += " ORDER BY " + result.OrderBy + ", account_id"
 
 	// Add pagination
 	baseQuery += fmt.Sprintf(" LIMIT $%d OFFSET $%d", argPos, argPos+1)
diff --git a/database/balance.go b/database/balance.go
index 56b0eed..fbf4545 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -1786,8 +1786,8 @@ func (d Datasource) GetAllBalancesWithFilterAndOptions(ctx context.Context, filt
 		baseQuery += " WHERE " + filter.BuildConditionExpression(result.Conditions, logicalOperator)
 	}
 
-	// Add ORDER BY clause
-	baseQuery += " ORDER BY " + result.OrderBy
+	// Add ORDER BY clause; the id orders equal rows, so that pages neither repeat nor miss any
+	baseQuery += " ORDER BY " + result.OrderBy + ", balance_id"
 
 	// Add pagination
 	baseQuery += fmt.Sprintf(" LIMIT $%d OFFSET $%d", argPos, argPos+1)
diff --git a/database/identity.go b/database/identity.go
index b05eeae..797fa10 100644
--- a/database/identity.go
+++ b/database/identity.go
@@ -456,8 +456,8 @@ func (d Datasource) GetAllIdentitiesWithFilterAndOptions(ctx context.Context, fi
 		baseQuery += " WHERE " + filter.BuildConditionExpression(result.Conditions, logicalOperator)
 	}
 
-	// Add ORDER BY clause
-	baseQuery += " ORDER BY " + result.OrderBy
+	// Add ORDER BY clause; the id orders equal rows, so that pages neither repeat nor miss any
+	baseQuery += " ORDER BY " + result.OrderBy + ", identity_id"
 
 	// Add pagination
 	baseQuery += fmt.Sprintf(" LIMIT $%d OFFSET $%d", argPos, argPos+1)
diff --git a/database/ledger.go b/database/ledger.go
index 63ddcdf..db40d07 100644
--- a/database/ledger.go
+++ b/database/ledger.go
@@ -281,8 +281,8 @@ func (d Datasource) GetAllLedgersWithFilterAndOptions(ctx context.Context, filte
 		baseQuery += " WHERE " + filter.BuildConditionExpression(result.Conditions, logicalOperator)
 	}
 
-	// Add ORDER BY clause
-	baseQuery += " ORDER BY " + result.OrderBy
+	// Add ORDER BY clause; the id orders equal rows, so that pages neither repeat nor miss any
+	baseQuery += " ORDER BY " + result.OrderBy + ", ledger_id"
 
 	// Add pagination
 	baseQuery += fmt.Sprintf(" LIMIT $%d OFFSET $%d", argPos, argPos+1)
diff --git a/database/transaction_filters.go b/database/transaction_filters.go
index fd56e49..edad476 100644
--- a/database/transaction_filters.go
+++ b/database/transaction_filters.go
@@ -102,6 +102,10 @@ func (d Datasource) GetAllTransactionsWithFilterAndOptions(ctx context.Context,
 
 	// Add ORDER BY clause
 	baseQuery += " ORDER BY " + result.OrderBy
+	if opts.SortBy != "" && opts.SortBy != filter.GetDefaultSortField("transactions") {
+		// The id orders equal rows, so that pages neither repeat nor miss any
+		baseQuery += ", transaction_id"
+	}
 
 	// Add pagination
 	baseQuery += fmt.Sprintf(" LIMIT $%d OFFSET $%d", argPos, argPos+1)
-- 
2.43.0


From 0954996aca9cb16e829e82ca2f5606ce3064b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 38/78] fix: more than one indicator filter can be used in one
 listing

---
 internal/filter/sql_builder.go | 8 ++++++++
 internal/filter/sql_special.go | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index 93517df..fcf1e23 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -62,6 +62,14 @@ func Build(filters *QueryFilterSet, table string, alias string, startArgPos int)
 
 		if f.Field == "indicator" && table == "transactions" {
 			cond, args, nextArgPos, ctes = buildIndicatorCondition(f, alias, argPos)
+			if len(result.CTEs) > 0 {
+				// Each indicator filter needs a CTE name of its own.
+				unique := fmt.Sprintf("%s_%d", indicatorCTE, len(result.CTEs)+1)
+				cond = strings.ReplaceAll(cond, indicatorCTE, unique)
+				for i := range ctes {
+					ctes[i] = strings.ReplaceAll(ctes[i], indicatorCTE, unique)
+				}
+			}
 			if cond != "" {
 				result.Conditions = append(result.Conditions, cond)
 				result.Args = append(result.Args, args...)
diff --git a/internal/filter/sql_special.go b/internal/filter/sql_special.go
index 6fb20da..9f5acd9 100644
--- a/internal/filter/sql_special.go
+++ b/internal/filter/sql_special.go
@@ -7,6 +7,9 @@ import (
 	"github.com/lib/pq"
 )
 
+// indicatorCTE names the balances an indicator filter selects.
+const indicatorCTE = "_indicator_matches"
+
 func buildBalanceIdCondition(f QueryFilter, tableAlias string, argPosition int) (condition string, args []interface{}, newArgPosition int, ctes []string) {
 	srcField := "source"
 	dstField := "destination"
@@ -151,7 +154,7 @@ func buildIndicatorCondition(f QueryFilter, tableAlias string, argPosition int)
 		return "", nil, argPosition, nil
 	}
 
-	cte := fmt.Sprintf("_indicator_matches AS (SELECT b.balance_id FROM blnk.balances b WHERE %s)", subqueryCondition)
+	cte := fmt.Sprintf("%s AS (SELECT b.balance_id FROM blnk.balances b WHERE %s)", indicatorCTE, subqueryCondition)
 	ctes = []string{cte}
 
 	srcField := "source"
@@ -160,8 +163,8 @@ func buildIndicatorCondition(f QueryFilter, tableAlias string, argPosition int)
 		srcField = tableAlias + ".source"
 		dstField = tableAlias + ".destination"
 	}
-	condition = fmt.Sprintf("(%s IN (SELECT balance_id FROM _indicator_matches) OR %s IN (SELECT balance_id FROM _indicator_matches))",
-		srcField, dstField)
+	condition = fmt.Sprintf("(%s IN (SELECT balance_id FROM %s) OR %s IN (SELECT balance_id FROM %s))",
+		srcField, indicatorCTE, dstField, indicatorCTE)
 	args = subqueryArgs
 
 	return condition, args, newArgPosition, ctes
-- 
2.43.0


From eb425e6fb9ddc249d6fe86bce32125aca507828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 39/78] fix: sorting transactions by a field that is no column
 does not fail the listing

---
 api/filter_helper.go           |  4 ++--
 internal/filter/sql_builder.go |  2 +-
 internal/filter/validation.go  | 11 ++++++++---
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/api/filter_helper.go b/api/filter_helper.go
index 8cfa33c..60beca7 100644
--- a/api/filter_helper.go
+++ b/api/filter_helper.go
@@ -108,7 +108,7 @@ func ParseFiltersFromBody(c *gin.Context, table string) (*filter.QueryFilterSet,
 	// Sanitize sort field: normalize to lowercase, validate against table's allowed fields
 	sortBy := strings.ToLower(strings.TrimSpace(req.SortBy))
 	if sortBy != "" {
-		allowedFields := filter.GetValidFieldsForTable(table)
+		allowedFields := filter.GetSortableFieldsForTable(table)
 		if !allowedFields[sortBy] {
 			// Invalid field: coerce to empty string so default sort is used
 			sortBy = ""
@@ -150,7 +150,7 @@ func ParseQueryOptions(c *gin.Context, table string) *filter.QueryOptions {
 	// Sanitize sort field: normalize to lowercase, validate against table's allowed fields
 	sortBy := strings.ToLower(strings.TrimSpace(c.DefaultQuery("sort_by", "")))
 	if sortBy != "" {
-		allowedFields := filter.GetValidFieldsForTable(table)
+		allowedFields := filter.GetSortableFieldsForTable(table)
 		if !allowedFields[sortBy] {
 			// Invalid field: coerce to empty string so default sort is used
 			sortBy = ""
diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index fcf1e23..d2f501f 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -255,7 +255,7 @@ func ResolveSortField(table, sortBy string) string {
 	if normalized == "" {
 		return GetDefaultSortField(table)
 	}
-	allowed := GetValidFieldsForTable(table)
+	allowed := GetSortableFieldsForTable(table)
 	if allowed == nil || !allowed[normalized] {
 		return GetDefaultSortField(table)
 	}
diff --git a/internal/filter/validation.go b/internal/filter/validation.go
index 49bb33c..2a877cd 100644
--- a/internal/filter/validation.go
+++ b/internal/filter/validation.go
@@ -180,10 +180,15 @@ func GetValidFieldsForTable(table string) map[string]bool {
 }
 
 // GetSortableFieldsForTable returns fields that can be sorted.
-// All filterable fields are sortable. For optimal performance on large datasets,
+// All filterable fields are sortable, except those that are not columns. For optimal performance on large datasets,
 // consider adding indexes for frequently sorted fields. See docs/performance-tuning.mdx.
 func GetSortableFieldsForTable(table string) map[string]bool {
-	return GetValidFieldsForTable(table)
+	fields := GetValidFieldsForTable(table)
+	if table == "transactions" {
+		delete(fields, "balance_id")
+		delete(fields, "indicator")
+	}
+	return fields
 }
 
 // ValidateSortField validates that the sort field is allowed for the table.
@@ -217,7 +222,7 @@ func ValidateSortByForTable(opts *QueryOptions, table string) error {
 		return nil
 	}
 	sortBy := strings.ToLower(strings.TrimSpace(opts.SortBy))
-	allowed := GetValidFieldsForTable(table)
+	allowed := GetSortableFieldsForTable(table)
 	if len(allowed) == 0 || !allowed[sortBy] {
 		return fmt.Errorf("invalid sort_by field")
 	}
-- 
2.43.0


From c8da49e72f323165939c26d5be6cc2ee74e46225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 40/78] fix: a filter's timestamp with an offset means that
 moment

---
 internal/filter/datetime.go    | 33 ++++++++++++++++++++++++++++++++-
 internal/filter/helpers.go     |  2 +-
 internal/filter/sql_builder.go |  4 ++++
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/internal/filter/datetime.go b/internal/filter/datetime.go
index 456f9b9..feac07e 100644
--- a/internal/filter/datetime.go
+++ b/internal/filter/datetime.go
@@ -92,8 +92,39 @@ func getDatePrecisionFromTime(t time.Time) string {
 	return "day"
 }
 
+// isTimestampColumn reports whether a column holds timestamps, which are stored in UTC
+// without a time zone.
+func isTimestampColumn(column string) bool {
+	switch column {
+	case "created_at", "updated_at", "effective_date", "started_at", "completed_at", "date":
+		return true
+	}
+	return false
+}
+
+// timestampsInUTC converts the timestamps of a filter on a timestamp column to UTC, as the
+// database ignores the offset of what it compares such a column with.
+func timestampsInUTC(f QueryFilter) QueryFilter {
+	inUTC := func(value interface{}) interface{} {
+		if s, ok := value.(string); ok {
+			if t, err := time.Parse(time.RFC3339Nano, s); err == nil {
+				return t.UTC().Format(time.RFC3339Nano)
+			}
+		}
+		return value
+	}
+
+	f.Value = inUTC(f.Value)
+	values := make([]interface{}, len(f.Values))
+	for i, v := range f.Values {
+		values[i] = inUTC(v)
+	}
+	f.Values = values
+	return f
+}
+
 func computeTimestampRange(ts TimestampValue) (floor time.Time, ceiling time.Time) {
-	t := ts.Time
+	t := ts.Time.UTC()
 	switch ts.Precision {
 	case "microseconds":
 		floor = t.Truncate(time.Microsecond)
diff --git a/internal/filter/helpers.go b/internal/filter/helpers.go
index 026c51f..1ec5208 100644
--- a/internal/filter/helpers.go
+++ b/internal/filter/helpers.go
@@ -24,7 +24,7 @@ func convertToStringArray(values []interface{}) []string {
 
 func extractValueForSQL(value interface{}) interface{} {
 	if tsVal, ok := value.(TimestampValue); ok {
-		return tsVal.Time
+		return tsVal.Time.UTC()
 	}
 	return value
 }
diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index d2f501f..6f48a83 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -123,6 +123,10 @@ func buildStandardCondition(f QueryFilter, table string, tableAlias string, argP
 		fieldName = fmt.Sprintf("%s.%s", tableAlias, safeField)
 	}
 
+	if isTimestampColumn(safeField) {
+		f = timestampsInUTC(f)
+	}
+
 	switch f.Operator {
 	case OpEqual:
 		if tsVal, ok := f.Value.(TimestampValue); ok {
-- 
2.43.0


From cc74a469420f7207ecfe677f6f87a01eb88395df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:24 +0000
Subject: [PATCH 41/78] fix: a timestamp's ne filter selects what its eq filter
 does not

---
 internal/filter/sql_builder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index 6f48a83..20a9414 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -150,6 +150,14 @@ func buildStandardCondition(f QueryFilter, table string, tableAlias string, argP
 		newArgPosition = argPosition + 1
 
 	case OpNotEqual:
+		if tsVal, ok := f.Value.(TimestampValue); ok {
+			floor, ceiling := computeTimestampRange(tsVal)
+			condition = fmt.Sprintf("(%s < $%d OR %s >= $%d)", fieldName, argPosition, fieldName, argPosition+1)
+			args = []interface{}{floor, ceiling}
+			newArgPosition = argPosition + 2
+			return
+		}
+
 		condition = fmt.Sprintf("%s != $%d", fieldName, argPosition)
 		args = []interface{}{extractValueForSQL(f.Value)}
 		newArgPosition = argPosition + 1
-- 
2.43.0


From bc3f85bd974b451b6212ecc6c58c2f0bbf9ab34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 42/78] fix: numbers in a filter request keep all their digits

---
 internal/filter/types.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/filter/types.go b/internal/filter/types.go
index 0912667..8e04755 100644
--- a/internal/filter/types.go
+++ b/internal/filter/types.go
@@ -1,6 +1,10 @@
 package filter
 
-import "time"
+import (
+	"bytes"
+	"encoding/json"
+	"time"
+)
 
 // Operator represents supported filter operators.
 type Operator string
@@ -34,6 +38,15 @@ type QueryFilter struct {
 	Values   []interface{} `json:"values,omitempty"`
 }
 
+// UnmarshalJSON keeps numbers as they were written: amounts can be larger than what a
+// float64 holds exactly.
+func (f *QueryFilter) UnmarshalJSON(data []byte) error {
+	type plain QueryFilter
+	decoder := json.NewDecoder(bytes.NewReader(data))
+	decoder.UseNumber()
+	return decoder.Decode((*plain)(f))
+}
+
 // LogicalOperator represents how multiple filters are combined.
 type LogicalOperator string
 
-- 
2.43.0


From 88342f05d54418df16f71a34030c4803570bbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:07 +0000
Subject: [PATCH 43/78] fix: a query parameter filters text columns by what it
 says

---
 internal/filter/parser.go      |  3 +++
 internal/filter/sql_builder.go |  9 ++++++---
 internal/filter/types.go       | 21 +++++++++++++++++++++
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/internal/filter/parser.go b/internal/filter/parser.go
index c8b0a26..6a6a690 100644
--- a/internal/filter/parser.go
+++ b/internal/filter/parser.go
@@ -114,6 +114,7 @@ func ParseFromQuery(queryParams url.Values, opts *ParseOptions) *ParseResult {
 				})
 				continue
 			}
+			f.raw = betweenValues
 			f.Values = []interface{}{
 				parseValue(betweenValues[0]),
 				parseValue(betweenValues[1]),
@@ -131,12 +132,14 @@ func ParseFromQuery(queryParams url.Values, opts *ParseOptions) *ParseResult {
 			f.Values = make([]interface{}, len(inValues))
 			for i, v := range inValues {
 				f.Values[i] = parseValue(strings.TrimSpace(v))
+				f.raw = append(f.raw, strings.TrimSpace(v))
 			}
 
 		case OpIsNull, OpIsNotNull:
 			// No value needed for null checks
 
 		default:
+			f.raw = []string{value}
 			f.Value = parseValue(value)
 		}
 
diff --git a/internal/filter/sql_builder.go b/internal/filter/sql_builder.go
index 20a9414..b0f907e 100644
--- a/internal/filter/sql_builder.go
+++ b/internal/filter/sql_builder.go
@@ -48,7 +48,7 @@ func Build(filters *QueryFilterSet, table string, alias string, startArgPos int)
 		}
 
 		if f.Field == "balance_id" && table == "transactions" {
-			cond, args, nextArgPos, ctes = buildBalanceIdCondition(f, alias, argPos)
+			cond, args, nextArgPos, ctes = buildBalanceIdCondition(f.asWritten(), alias, argPos)
 			if cond != "" {
 				result.Conditions = append(result.Conditions, cond)
 				result.Args = append(result.Args, args...)
@@ -61,7 +61,7 @@ func Build(filters *QueryFilterSet, table string, alias string, startArgPos int)
 		}
 
 		if f.Field == "indicator" && table == "transactions" {
-			cond, args, nextArgPos, ctes = buildIndicatorCondition(f, alias, argPos)
+			cond, args, nextArgPos, ctes = buildIndicatorCondition(f.asWritten(), alias, argPos)
 			if len(result.CTEs) > 0 {
 				// Each indicator filter needs a CTE name of its own.
 				unique := fmt.Sprintf("%s_%d", indicatorCTE, len(result.CTEs)+1)
@@ -123,8 +123,11 @@ func buildStandardCondition(f QueryFilter, table string, tableAlias string, argP
 		fieldName = fmt.Sprintf("%s.%s", tableAlias, safeField)
 	}
 
-	if isTimestampColumn(safeField) {
+	switch {
+	case isTimestampColumn(safeField):
 		f = timestampsInUTC(f)
+	case safeField != "dob" && safeField != "meta_data":
+		f = f.asWritten()
 	}
 
 	switch f.Operator {
diff --git a/internal/filter/types.go b/internal/filter/types.go
index 8e04755..8b5eec6 100644
--- a/internal/filter/types.go
+++ b/internal/filter/types.go
@@ -36,6 +36,27 @@ type QueryFilter struct {
 	Operator Operator      `json:"operator"`
 	Value    interface{}   `json:"value,omitempty"`
 	Values   []interface{} `json:"values,omitempty"`
+
+	// raw holds the values as a query string spelled them, before their types were guessed.
+	raw []string
+}
+
+// asWritten returns the filter with its values as the query string spelled them, for columns
+// whose type is not to be guessed from the value: 007 is not 7 in a text column, and a large
+// number does not fit a float64. Filters that did not come from a query string are unchanged.
+func (f QueryFilter) asWritten() QueryFilter {
+	if len(f.raw) == 0 {
+		return f
+	}
+	if len(f.Values) > 0 {
+		f.Values = make([]interface{}, len(f.raw))
+		for i, v := range f.raw {
+			f.Values[i] = v
+		}
+		return f
+	}
+	f.Value = f.raw[0]
+	return f
 }
 
 // UnmarshalJSON keeps numbers as they were written: amounts can be larger than what a
-- 
2.43.0


From e1f12b7a5120903a16d970ce0109c0890fcfd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 44/78] fix: a filter parameter given several times filters by
 each of its values

---
 internal/filter/parser.go | 103 +++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 51 deletions(-)

diff --git a/internal/filter/parser.go b/internal/filter/parser.go
index 6a6a690..99b1014 100644
--- a/internal/filter/parser.go
+++ b/internal/filter/parser.go
@@ -79,72 +79,73 @@ func ParseFromQuery(queryParams url.Values, opts *ParseOptions) *ParseResult {
 			continue
 		}
 
-		// Enforce max filters
-		if filterCount >= maxFilters {
-			result.Errors = append(result.Errors, ParseError{
-				Param:   key,
-				Message: fmt.Sprintf("exceeded maximum number of filters (%d)", maxFilters),
-			})
-			continue
-		}
-
-		value := values[0]
-
-		// Enforce max char length
-		if len(value) > maxCharLen {
-			result.Errors = append(result.Errors, ParseError{
-				Param:   key,
-				Message: fmt.Sprintf("value exceeds maximum length (%d chars)", maxCharLen),
-			})
-			continue
-		}
-
-		f := QueryFilter{
-			Field:    field,
-			Operator: operator,
-		}
-
-		switch operator {
-		case OpBetween:
-			betweenValues := strings.Split(value, "|")
-			if len(betweenValues) != 2 {
+		// A parameter given several times is as many filters
+		for _, value := range values {
+			// Enforce max filters
+			if filterCount >= maxFilters {
 				result.Errors = append(result.Errors, ParseError{
 					Param:   key,
-					Message: "between operator requires exactly 2 pipe-separated values (value1|value2)",
+					Message: fmt.Sprintf("exceeded maximum number of filters (%d)", maxFilters),
 				})
 				continue
 			}
-			f.raw = betweenValues
-			f.Values = []interface{}{
-				parseValue(betweenValues[0]),
-				parseValue(betweenValues[1]),
-			}
 
-		case OpIn:
-			inValues := strings.Split(value, ",")
-			if len(inValues) > maxInValues {
+			// Enforce max char length
+			if len(value) > maxCharLen {
 				result.Errors = append(result.Errors, ParseError{
 					Param:   key,
-					Message: fmt.Sprintf("IN operator exceeds maximum values (%d)", maxInValues),
+					Message: fmt.Sprintf("value exceeds maximum length (%d chars)", maxCharLen),
 				})
 				continue
 			}
-			f.Values = make([]interface{}, len(inValues))
-			for i, v := range inValues {
-				f.Values[i] = parseValue(strings.TrimSpace(v))
-				f.raw = append(f.raw, strings.TrimSpace(v))
+
+			f := QueryFilter{
+				Field:    field,
+				Operator: operator,
 			}
 
-		case OpIsNull, OpIsNotNull:
-			// No value needed for null checks
+			switch operator {
+			case OpBetween:
+				betweenValues := strings.Split(value, "|")
+				if len(betweenValues) != 2 {
+					result.Errors = append(result.Errors, ParseError{
+						Param:   key,
+						Message: "between operator requires exactly 2 pipe-separated values (value1|value2)",
+					})
+					continue
+				}
+				f.raw = betweenValues
+				f.Values = []interface{}{
+					parseValue(betweenValues[0]),
+					parseValue(betweenValues[1]),
+				}
+
+			case OpIn:
+				inValues := strings.Split(value, ",")
+				if len(inValues) > maxInValues {
+					result.Errors = append(result.Errors, ParseError{
+						Param:   key,
+						Message: fmt.Sprintf("IN operator exceeds maximum values (%d)", maxInValues),
+					})
+					continue
+				}
+				f.Values = make([]interface{}, len(inValues))
+				for i, v := range inValues {
+					f.Values[i] = parseValue(strings.TrimSpace(v))
+					f.raw = append(f.raw, strings.TrimSpace(v))
+				}
+
+			case OpIsNull, OpIsNotNull:
+				// No value needed for null checks
+
+			default:
+				f.raw = []string{value}
+				f.Value = parseValue(value)
+			}
 
-		default:
-			f.raw = []string{value}
-			f.Value = parseValue(value)
+			result.Filters.Filters = append(result.Filters.Filters, f)
+			filterCount++
 		}
-
-		result.Filters.Filters = append(result.Filters.Filters, f)
-		filterCount++
 	}
 
 	return result
-- 
2.43.0


From 1d16f08de17848ad60546ebff98ce42b16bd1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:22 +0000
Subject: [PATCH 45/78] fix: a changed or deleted balance monitor takes effect
 on every server at once

---
 balance.go | 56 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 7 deletions(-)

diff --git a/balance.go b/balance.go
index 7b904b2..88e8754 100644
--- a/balance.go
+++ b/balance.go
@@ -20,10 +20,12 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 	"time"
 
 	"github.com/blnkfinance/blnk/config"
 	"github.com/blnkfinance/blnk/internal/apierror"
+	"github.com/blnkfinance/blnk/internal/cache"
 	"github.com/blnkfinance/blnk/internal/filter"
 	"github.com/blnkfinance/blnk/internal/metrics"
 	"github.com/blnkfinance/blnk/internal/notification"
@@ -117,10 +119,17 @@ func (l *Blnk) checkBalanceMonitors(ctx context.Context, updatedBalance *model.B
 // - []model.BalanceMonitor: A slice of monitors for the balance.
 // - error: An error if the monitors could not be retrieved.
 func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) ([]model.BalanceMonitor, error) {
-	cacheKey := "monitors:" + balanceID
+	// The key carries the version of the monitors as of before they are read,
+	// so what is read before a change is never found after it.
+	cacheKey := "monitors:" + balanceID + ":" + l.monitorsVersion(ctx)
 
 	var monitors []model.BalanceMonitor
-	err := l.cache.Get(ctx, cacheKey, &monitors)
+	var err error
+	if shared, ok := l.cache.(cache.Shared); ok {
+		err = shared.GetShared(ctx, cacheKey, &monitors)
+	} else {
+		err = l.cache.Get(ctx, cacheKey, &monitors)
+	}
 	if err == nil && monitors != nil {
 		return monitors, nil
 	}
@@ -134,10 +143,43 @@ func (l *Blnk) getBalanceMonitorsCached(ctx context.Context, balanceID string) (
 		monitors = []model.BalanceMonitor{}
 	}
 
-	_ = l.cache.Set(ctx, cacheKey, monitors, 5*time.Minute)
+	if shared, ok := l.cache.(cache.Shared); ok {
+		_ = shared.SetShared(ctx, cacheKey, monitors, monitorsCacheTTL, false)
+	} else {
+		_ = l.cache.Set(ctx, cacheKey, monitors, monitorsCacheTTL)
+	}
 	return monitors, nil
 }
 
+const monitorsCacheTTL = 5 * time.Minute
+
+const monitorsVersionKey = "monitors:version"
+
+// monitorsVersion names the current version of all monitors. Every process
+// must notice a change made by another one, so the in-memory tier of the cache
+// is bypassed.
+func (l *Blnk) monitorsVersion(ctx context.Context) string {
+	var version []string // the cache does not decode what it stores of a plain string
+	if shared, ok := l.cache.(cache.Shared); ok {
+		_ = shared.GetShared(ctx, monitorsVersionKey, &version)
+	} else {
+		_ = l.cache.Get(ctx, monitorsVersionKey, &version)
+	}
+	return strings.Join(version, "")
+}
+
+// monitorsChanged makes all processes read the monitors of all balances anew: a
+// changed monitor may have been another balance's before. The version outlives
+// every list cached under an earlier one.
+func (l *Blnk) monitorsChanged(ctx context.Context) {
+	version := []string{model.GenerateUUIDWithSuffix("ver")}
+	if shared, ok := l.cache.(cache.Shared); ok {
+		_ = shared.SetShared(ctx, monitorsVersionKey, version, 12*monitorsCacheTTL, false)
+	} else {
+		_ = l.cache.Set(ctx, monitorsVersionKey, version, 12*monitorsCacheTTL)
+	}
+}
+
 // getOrCreateBalanceByIndicator retrieves a balance by its indicator and currency.
 // If the balance does not exist, it creates a new one.
 // It starts a tracing span, fetches or creates the balance, and records relevant events.
@@ -371,7 +413,7 @@ func (l *Blnk) CreateMonitor(ctx context.Context, monitor model.BalanceMonitor)
 		return model.BalanceMonitor{}, err
 	}
 
-	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	l.monitorsChanged(ctx)
 
 	span.AddEvent("Monitor created", trace.WithAttributes(attribute.String("monitor.id", monitor.MonitorID)))
 	return monitor, nil
@@ -464,7 +506,7 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 		return err
 	}
 
-	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	l.monitorsChanged(ctx)
 
 	span.AddEvent("Monitor updated", trace.WithAttributes(attribute.String("monitor.id", monitor.MonitorID)))
 	return nil
@@ -483,7 +525,7 @@ func (l *Blnk) DeleteMonitor(ctx context.Context, id string) error {
 	_, span := balanceTracer.Start(ctx, "DeleteMonitor")
 	defer span.End()
 
-	monitor, err := l.datasource.GetMonitorByID(id)
+	_, err := l.datasource.GetMonitorByID(id)
 	if err != nil {
 		span.RecordError(err)
 		return err
@@ -495,7 +537,7 @@ func (l *Blnk) DeleteMonitor(ctx context.Context, id string) error {
 		return err
 	}
 
-	_ = l.cache.Delete(ctx, "monitors:"+monitor.BalanceID)
+	l.monitorsChanged(ctx)
 
 	span.AddEvent("Monitor deleted", trace.WithAttributes(attribute.String("monitor.id", id)))
 	return nil
-- 
2.43.0


From 15ebee834a87e1c9615a17a9042e5e79e8bfd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 46/78] fix: a balance monitor with the operator = compares

---
 model/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/model.go b/model/model.go
index c5108f7..f9796a4 100644
--- a/model/model.go
+++ b/model/model.go
@@ -83,7 +83,7 @@ func compare(value *big.Int, condition string, compareTo *big.Int) bool {
 		return cmp <= 0
 	case "!=":
 		return cmp != 0
-	case "==":
+	case "=", "==":
 		return cmp == 0
 	}
 	return false
-- 
2.43.0


From 35d6e2cb2bec5b87f1f702917d9be9fcb7df3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 47/78] fix: a balance monitor's threshold is exact, of any
 size, and follows updates of its value and precision

---
 balance.go          |  7 ++++---
 database/balance.go | 29 +++++++++++++++++++++--------
 model/model.go      |  6 ++++++
 sql/1781162330.sql  | 23 +++++++++++++++++++++++
 4 files changed, 54 insertions(+), 11 deletions(-)
 create mode 100644 sql/1781162330.sql

diff --git a/balance.go b/balance.go
index 88e8754..e7808ec 100644
--- a/balance.go
+++ b/balance.go
@@ -404,9 +404,7 @@ func (l *Blnk) CreateMonitor(ctx context.Context, monitor model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "CreateMonitor")
 	defer span.End()
 
-	amount := int64(monitor.Condition.Value * monitor.Condition.Precision) // apply precision to value
-	amountBigInt := model.Int64ToBigInt(amount)
-	monitor.Condition.PreciseValue = amountBigInt
+	monitor.Condition.ApplyPrecision() // apply precision to value
 	monitor, err := l.datasource.CreateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
@@ -500,6 +498,9 @@ func (l *Blnk) UpdateMonitor(ctx context.Context, monitor *model.BalanceMonitor)
 	_, span := balanceTracer.Start(ctx, "UpdateMonitor")
 	defer span.End()
 
+	if monitor.Condition.Precision != 0 {
+		monitor.Condition.ApplyPrecision()
+	}
 	err := l.datasource.UpdateMonitor(monitor)
 	if err != nil {
 		span.RecordError(err)
diff --git a/database/balance.go b/database/balance.go
index fbf4545..cee7422 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -1164,7 +1164,7 @@ func (d Datasource) CreateMonitor(monitor model.BalanceMonitor) (model.BalanceMo
 // - *model.BalanceMonitor: A pointer to the BalanceMonitor object if found.
 // - error: If the monitor is not found or if any errors occur during the query, an `APIError` is returned.
 func (d Datasource) GetMonitorByID(id string) (*model.BalanceMonitor, error) {
-	var preciseValue int64 // Temporary variable to hold the precise value as int64
+	var preciseValue string // Temporary variable to hold the precise value
 
 	// Query the database to get the monitor details by MonitorID
 	row := d.Conn.QueryRowContext(context.Background(), `
@@ -1188,9 +1188,10 @@ func (d Datasource) GetMonitorByID(id string) (*model.BalanceMonitor, error) {
 		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to retrieve monitor", err)
 	}
 
-	// Populate the PreciseValue field in the condition (convert from int64 to big.Int)
+	// Populate the PreciseValue field in the condition. It follows from the value
+	// and the precision, which an update of the monitor changes.
 	monitor.Condition = *condition
-	monitor.Condition.PreciseValue = big.NewInt(preciseValue)
+	monitor.Condition.ApplyPrecision()
 
 	// Return the populated BalanceMonitor object
 	return monitor, nil
@@ -1272,7 +1273,7 @@ func (d Datasource) GetBalanceMonitors(balanceID string) ([]model.BalanceMonitor
 
 	// Iterate through each row in the result set
 	for rows.Next() {
-		var preciseValue int64              // Temporary variable to hold the precise value as int64
+		var preciseValue string             // Temporary variable to hold the precise value
 		monitor := model.BalanceMonitor{}   // Create an empty BalanceMonitor object
 		condition := model.AlertCondition{} // Create an empty AlertCondition object (part of the monitor)
 
@@ -1285,7 +1286,7 @@ func (d Datasource) GetBalanceMonitors(balanceID string) ([]model.BalanceMonitor
 
 		// Assign the scanned AlertCondition to the monitor
 		monitor.Condition = condition
-		monitor.Condition.PreciseValue = big.NewInt(preciseValue)
+		monitor.Condition.ApplyPrecision()
 
 		// Append the monitor to the slice
 		monitors = append(monitors, monitor)
@@ -1311,12 +1312,24 @@ func (d Datasource) GetBalanceMonitors(balanceID string) ([]model.BalanceMonitor
 // Returns:
 // - error: If the update fails, an appropriate `APIError` is returned.
 func (d Datasource) UpdateMonitor(monitor *model.BalanceMonitor) error {
-	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
-	result, err := d.Conn.ExecContext(context.Background(), `
+	query := `
 		UPDATE blnk.balance_monitors
 		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7
 		WHERE monitor_id = $1
-	`, monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL)
+	`
+	args := []interface{}{monitor.MonitorID, monitor.BalanceID, monitor.Condition.Field, monitor.Condition.Operator, monitor.Condition.Value, monitor.Description, monitor.CallBackURL}
+	// A precision that is not given is kept
+	if monitor.Condition.Precision != 0 && monitor.Condition.PreciseValue != nil {
+		query = `
+		UPDATE blnk.balance_monitors
+		SET balance_id = $2, field = $3, operator = $4, value = $5, description = $6, call_back_url = $7, precision = $8, precise_value = $9
+		WHERE monitor_id = $1
+	`
+		args = append(args, monitor.Condition.Precision, monitor.Condition.PreciseValue.String())
+	}
+
+	// Execute the SQL update statement, replacing the placeholder values with the monitor's data
+	result, err := d.Conn.ExecContext(context.Background(), query, args...)
 	// If an error occurred during execution, return an internal server error
 	if err != nil {
 		return apierror.NewAPIError(apierror.ErrInternalServer, "Failed to update monitor", err)
diff --git a/model/model.go b/model/model.go
index f9796a4..de25bf2 100644
--- a/model/model.go
+++ b/model/model.go
@@ -501,6 +501,12 @@ func UpdateBalances(transaction *Transaction, source, destination *Balance) erro
 	return nil
 }
 
+// ApplyPrecision sets the condition's precise value: its value in minor units.
+func (c *AlertCondition) ApplyPrecision() {
+	precise := decimal.NewFromFloat(c.Value).Mul(decimal.NewFromFloat(c.Precision))
+	c.PreciseValue = precise.BigInt()
+}
+
 // CheckCondition checks if a balance meets the condition specified by a BalanceMonitor.
 // It compares various balance fields (e.g., debit balance, credit balance) against the precise value.
 func (bm *BalanceMonitor) CheckCondition(b *Balance) bool {
diff --git a/sql/1781162330.sql b/sql/1781162330.sql
new file mode 100644
index 0000000..b0abcd9
--- /dev/null
+++ b/sql/1781162330.sql
@@ -0,0 +1,23 @@
+-- Copyright 2024 Blnk Finance Authors.
+--
+-- Licensed under the Apache License, Version 2.0 (the "License");
+-- you may not use this file except in compliance with the License.
+-- You may obtain a copy of the License at
+--
+--     http://www.apache.org/licenses/LICENSE-2.0
+--
+-- Unless required by applicable law or agreed to in writing, software
+-- distributed under the License is distributed on an "AS IS" BASIS,
+-- WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+-- See the License for the specific language governing permissions and
+-- limitations under the License.
+
+-- Thresholds and balances may exceed 64 bits and thresholds may have a fraction.
+
+-- +migrate Up
+ALTER TABLE blnk.balance_monitors ALTER COLUMN value TYPE NUMERIC;
+ALTER TABLE blnk.balance_monitors ALTER COLUMN precise_value TYPE NUMERIC;
+
+-- +migrate Down
+ALTER TABLE blnk.balance_monitors ALTER COLUMN value TYPE BIGINT;
+ALTER TABLE blnk.balance_monitors ALTER COLUMN precise_value TYPE BIGINT;
-- 
2.43.0


From e8d59ca97d5312279caef24436479bb40e51dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 48/78] fix: running a hook does not undo a change or deletion
 made meanwhile

---
 internal/hooks/client.go | 44 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/internal/hooks/client.go b/internal/hooks/client.go
index 4e9e586..fd8f8b8 100644
--- a/internal/hooks/client.go
+++ b/internal/hooks/client.go
@@ -23,12 +23,14 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
 	"strconv"
 	"time"
 
+	"github.com/redis/go-redis/v9"
 	"github.com/sirupsen/logrus"
 )
 
@@ -222,11 +224,43 @@ func (m *redisHookManager) updateHookStatus(ctx context.Context, hook *Hook, suc
 		"last_run":  hook.LastRun,
 	}).Info("Updated hook execution status")
 
-	data, err := json.Marshal(hook)
-	if err != nil {
-		return fmt.Errorf("failed to marshal hook: %w", err)
+	// The hook may have been changed or deleted since its execution was queued:
+	// only its status is updated, and only if it is still registered.
+	key := fmt.Sprintf("%s:%s", hookKeyPrefix, hook.ID)
+	update := func(tx *redis.Tx) error {
+		data, err := tx.Get(ctx, key).Bytes()
+		if errors.Is(err, redis.Nil) {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		var current Hook
+		if err := json.Unmarshal(data, &current); err != nil {
+			return fmt.Errorf("failed to unmarshal hook: %w", err)
+		}
+		current.LastRun = hook.LastRun
+		current.LastSuccess = success
+		data, err = json.Marshal(current)
+		if err != nil {
+			return fmt.Errorf("failed to marshal hook: %w", err)
+		}
+		_, err = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.Set(ctx, key, data, 0)
+			return nil
+		})
+		return err
 	}
 
-	key := fmt.Sprintf("%s:%s", hookKeyPrefix, hook.ID)
-	return m.client.Set(ctx, key, data, 0).Err()
+	var err error
+	for attempt := 0; attempt < hookStatusUpdateAttempts; attempt++ {
+		if err = m.client.Watch(ctx, update, key); !errors.Is(err, redis.TxFailedErr) {
+			return err
+		}
+	}
+	return err
 }
+
+// hookStatusUpdateAttempts bounds how often a status update that meets a
+// concurrent change of the hook is tried again.
+const hookStatusUpdateAttempts = 10
-- 
2.43.0


From 011808276df5a573eee0952cc34591bcbc6aac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 49/78] fix: an updated hook is validated and gets defaults
 like a registered one

---
 internal/hooks/manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/hooks/manager.go b/internal/hooks/manager.go
index f3b5610..9beb746 100644
--- a/internal/hooks/manager.go
+++ b/internal/hooks/manager.go
@@ -132,6 +132,11 @@ func (m *redisHookManager) UpdateHook(ctx context.Context, hookID string, hook *
 	hook.LastRun = existing.LastRun
 	hook.LastSuccess = existing.LastSuccess
 
+	// Validate hook
+	if err := validateHook(hook); err != nil {
+		return err
+	}
+
 	// Handle type change
 	if existing.Type != hook.Type {
 		// Remove from old type set
-- 
2.43.0


From d4b3da55426aea3b7173be5b19e624930d34d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 50/78] fix: post-transaction hooks run for a posting whose
 client has gone away

---
 transaction_coalescing.go | 2 +-
 transaction_execution.go  | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/transaction_coalescing.go b/transaction_coalescing.go
index b560f14..a191860 100644
--- a/transaction_coalescing.go
+++ b/transaction_coalescing.go
@@ -271,7 +271,7 @@ func (l *Blnk) prepareQueuedBatchTransaction(ctx context.Context, span trace.Spa
 // runQueuedBatchPostCommitWork dispatches the post-commit work for a coalesced batch after
 // the balance-set lock has been released.
 func (l *Blnk) runQueuedBatchPostCommitWork(ctx context.Context, span trace.Span, result queuedBatchPersistResult) {
-	postHooks, err := l.listHooksForExecution(ctx, blnkhooks.PostTransaction)
+	postHooks, err := l.listHooksForExecution(context.WithoutCancel(ctx), blnkhooks.PostTransaction)
 	if err != nil {
 		logrus.WithError(err).Warn("failed to list post-transaction hooks for coalesced batch; falling back to per-transaction lookup")
 		l.runTransactionPostCommitWork(ctx, span, result.orderedBalances, result.postCommitWork)
diff --git a/transaction_execution.go b/transaction_execution.go
index ec3d418..8906af5 100644
--- a/transaction_execution.go
+++ b/transaction_execution.go
@@ -574,13 +574,16 @@ func (l *Blnk) runTransactionPostCommitWorkWithHooks(ctx context.Context, span t
 		}()
 	}
 
+	// The transactions are committed: a caller that has gone away meanwhile does
+	// not keep their hooks from running.
+	hookCtx := context.WithoutCancel(ctx)
 	for _, work := range postCommitWork {
 		if l.Hooks != nil {
 			var err error
 			if postHooks != nil {
-				err = l.Hooks.ExecuteHooks(ctx, postHooks, blnkhooks.PostTransaction, work.transaction.TransactionID, work.transaction)
+				err = l.Hooks.ExecuteHooks(hookCtx, postHooks, blnkhooks.PostTransaction, work.transaction.TransactionID, work.transaction)
 			} else {
-				err = l.Hooks.ExecutePostHooks(ctx, work.transaction.TransactionID, work.transaction)
+				err = l.Hooks.ExecutePostHooks(hookCtx, work.transaction.TransactionID, work.transaction)
 			}
 			if err != nil {
 				span.RecordError(err)
-- 
2.43.0


From 0513e836744df374c22b390e47e70d0801e0210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 51/78] fix: a queued split's legs do not share a metadata map
 with the response

---
 transaction_queue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transaction_queue.go b/transaction_queue.go
index 568bfb2..9e3bcb7 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -139,6 +139,8 @@ func processTransactionAsync(ctx context.Context, l *Blnk, transaction *model.Tr
 	// QueueTransaction. Snapshot it so the worker never races a caller that
 	// inspects the returned transaction.
 	asyncTxn := cloneTransactionForAsync(transaction)
+	// The legs of a split start out sharing the original's metadata map.
+	transactions = cloneTransactionsForAsync(transactions)
 	go func() {
 		if err := asyncTxnSemaphore.Acquire(ctx, 1); err != nil {
 			logrus.WithError(err).Error("failed to acquire async txn semaphore")
-- 
2.43.0


From 70cd104259bcb38a9d975bbe7ba1a8a4799aa45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 52/78] fix: a reconciliation reads the external transactions
 of its own upload

---
 database/reconciliation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/database/reconciliation.go b/database/reconciliation.go
index 1ede9d5..e6115c1 100644
--- a/database/reconciliation.go
+++ b/database/reconciliation.go
@@ -613,8 +613,8 @@ func (d Datasource) GetExternalTransactionsPaginated(ctx context.Context, upload
 	ctx, span := otel.Tracer("reconciliation.database").Start(ctx, "Fetching external transactions with pagination")
 	defer span.End()
 
-	// Create a cache key based on the pagination parameters
-	cacheKey := fmt.Sprintf("transactions:external:paginated:%d:%d", batchSize, offset)
+	// Create a cache key based on the upload and the pagination parameters
+	cacheKey := fmt.Sprintf("transactions:external:paginated:%s:%d:%d", uploadID, batchSize, offset)
 	var transactions []*model.ExternalTransaction
 
 	// Check if the data exists in the cache
-- 
2.43.0


From 4ac40ed03bb118e16966703c58a311f35c8543cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 53/78] fix: reconciliation reads current internal
 transactions, in pages that do not overlap

---
 database/reconciliation.go       | 12 +++---
 database/transaction_criteria.go |  2 +-
 database/transaction_grouping.go | 63 ++++++--------------------------
 3 files changed, 18 insertions(+), 59 deletions(-)

diff --git a/database/reconciliation.go b/database/reconciliation.go
index e6115c1..25d94ea 100644
--- a/database/reconciliation.go
+++ b/database/reconciliation.go
@@ -814,7 +814,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT amount::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND amount::text IS NOT NULL AND amount::text != ''
-        ORDER BY amount::text
+        ORDER BY amount::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "reference":
@@ -822,7 +822,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT reference::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND reference::text IS NOT NULL AND reference::text != ''
-        ORDER BY reference::text
+        ORDER BY reference::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "currency":
@@ -830,7 +830,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT currency::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND currency::text IS NOT NULL AND currency::text != ''
-        ORDER BY currency::text
+        ORDER BY currency::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "description":
@@ -838,7 +838,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT description::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND description::text IS NOT NULL AND description::text != ''
-        ORDER BY description::text
+        ORDER BY description::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "date":
@@ -846,7 +846,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT date::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND date::text IS NOT NULL AND date::text != ''
-        ORDER BY date::text
+        ORDER BY date::text, id
         LIMIT $2 OFFSET $3
     `, true
 	case "source":
@@ -854,7 +854,7 @@ func groupedExternalTransactionsQuery(groupCriteria string) (string, bool) {
         SELECT source::text AS group_key, id, amount, reference, currency, description, date, source
         FROM blnk.external_transactions
         WHERE upload_id = $1 AND source::text IS NOT NULL AND source::text != ''
-        ORDER BY source::text
+        ORDER BY source::text, id
         LIMIT $2 OFFSET $3
     `, true
 	default:
diff --git a/database/transaction_criteria.go b/database/transaction_criteria.go
index 92da047..c986662 100644
--- a/database/transaction_criteria.go
+++ b/database/transaction_criteria.go
@@ -75,7 +75,7 @@ func (d Datasource) GetTransactionsByCriteria(ctx context.Context, minAmount, ma
 		argCount++
 	}
 
-	query += fmt.Sprintf(" ORDER BY created_at ASC LIMIT $%d OFFSET $%d", argCount, argCount+1)
+	query += fmt.Sprintf(" ORDER BY created_at ASC, transaction_id LIMIT $%d OFFSET $%d", argCount, argCount+1)
 	args = append(args, limit, offset)
 
 	rows, err := d.Conn.QueryContext(ctx, query, args...)
diff --git a/database/transaction_grouping.go b/database/transaction_grouping.go
index 2881173..4d1914e 100644
--- a/database/transaction_grouping.go
+++ b/database/transaction_grouping.go
@@ -20,7 +20,6 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
-	"time"
 
 	"github.com/blnkfinance/blnk/internal/apierror"
 	"github.com/blnkfinance/blnk/model"
@@ -34,20 +33,8 @@ func (d Datasource) GetTransactionsPaginated(ctx context.Context, _ string, batc
 	ctx, span := otel.Tracer("transaction.database").Start(ctx, "GetInternalTransactionsPaginated")
 	defer span.End()
 
-	// Create a cache key based on the pagination parameters
-	cacheKey := fmt.Sprintf("transactions:paginated:%d:%d", batchSize, offset)
-
+	// Transactions are added all the time, so pages of them are not cached.
 	var transactions []*model.Transaction
-	// Attempt to retrieve transactions from cache
-	err := d.Cache.Get(ctx, cacheKey, &transactions)
-	if err == nil && len(transactions) > 0 {
-		span.AddEvent("Transactions retrieved from cache", trace.WithAttributes(
-			attribute.Int("transaction.count", len(transactions)),
-		))
-		return transactions, nil
-	}
-
-	// If not found in cache, fetch from the database
 	rows, err := d.Conn.QueryContext(ctx, `
         SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
@@ -114,15 +101,6 @@ func (d Datasource) GetTransactionsPaginated(ctx context.Context, _ string, batc
 		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Error occurred while iterating over transactions", err)
 	}
 
-	// Cache the fetched transactions for future use
-	if len(transactions) > 0 {
-		err = d.Cache.Set(ctx, cacheKey, transactions, 1*time.Hour) // Cache for 1 hour
-		if err != nil {
-			// Log the error but don't return it since the main operation succeeded
-			logrus.Errorf("Failed to cache transactions: %v", err)
-		}
-	}
-
 	span.AddEvent("Paginated transactions retrieved", trace.WithAttributes(
 		attribute.Int("transaction.count", len(transactions)),
 	))
@@ -130,7 +108,7 @@ func (d Datasource) GetTransactionsPaginated(ctx context.Context, _ string, batc
 }
 
 // GroupTransactions retrieves and groups transactions from the database based on a specified column (groupCriteria).
-// It supports pagination and caches the grouped results for efficiency. If the data is found in the cache, it returns the cached data.
+// It supports pagination.
 // Parameters:
 // - ctx: Context for managing request and tracing.
 // - groupCriteria: Column to group transactions by (e.g., "currency", "status").
@@ -148,19 +126,7 @@ func (d Datasource) GroupTransactions(ctx context.Context, groupCriteria string,
 		return nil, apierror.NewAPIError(apierror.ErrBadRequest, fmt.Sprintf("Invalid group criteria: %s", groupCriteria), nil)
 	}
 
-	// Create a cache key based on the grouping and pagination parameters
-	cacheKey := fmt.Sprintf("transactions:grouped:%s:%d:%d", groupCriteria, batchSize, offset)
-
-	var groupedTransactions map[string][]*model.Transaction
-	err := d.Cache.Get(ctx, cacheKey, &groupedTransactions)
-	if err == nil && len(groupedTransactions) > 0 {
-		span.AddEvent("Grouped transactions retrieved from cache", trace.WithAttributes(
-			attribute.Int("group.count", len(groupedTransactions)),
-		))
-		return groupedTransactions, nil
-	}
-
-	// If not in cache or error occurred, fetch from database
+	// Transactions are added all the time, so groups of them are not cached.
 	rows, err := d.Conn.QueryContext(ctx, query, batchSize, offset)
 	if err != nil {
 		span.RecordError(err)
@@ -172,7 +138,7 @@ func (d Datasource) GroupTransactions(ctx context.Context, groupCriteria string,
 		}
 	}()
 
-	groupedTransactions = make(map[string][]*model.Transaction)
+	groupedTransactions := make(map[string][]*model.Transaction)
 
 	// Group transactions by the selected groupCriteria
 	for rows.Next() {
@@ -222,13 +188,6 @@ func (d Datasource) GroupTransactions(ctx context.Context, groupCriteria string,
 		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Error occurred while iterating over transactions", err)
 	}
 
-	// Cache the fetched data if not empty
-	if len(groupedTransactions) > 0 {
-		if err := d.Cache.Set(ctx, cacheKey, groupedTransactions, 5*time.Minute); err != nil {
-			logrus.Errorf("Failed to cache grouped transactions: %v", err)
-		}
-	}
-
 	span.AddEvent("Grouped transactions retrieved", trace.WithAttributes(
 		attribute.Int("group.count", len(groupedTransactions)),
 	))
@@ -254,7 +213,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE parent_transaction::text IS NOT NULL AND parent_transaction::text != ''
-        ORDER BY parent_transaction::text
+        ORDER BY parent_transaction::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	case "source":
@@ -264,7 +223,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE source::text IS NOT NULL AND source::text != ''
-        ORDER BY source::text
+        ORDER BY source::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	case "reference":
@@ -274,7 +233,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE reference::text IS NOT NULL AND reference::text != ''
-        ORDER BY reference::text
+        ORDER BY reference::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	case "currency":
@@ -284,7 +243,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE currency::text IS NOT NULL AND currency::text != ''
-        ORDER BY currency::text
+        ORDER BY currency::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	case "destination":
@@ -294,7 +253,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE destination::text IS NOT NULL AND destination::text != ''
-        ORDER BY destination::text
+        ORDER BY destination::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	case "status":
@@ -304,7 +263,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE status::text IS NOT NULL AND status::text != ''
-        ORDER BY status::text
+        ORDER BY status::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	case "created_at":
@@ -314,7 +273,7 @@ func groupedTransactionsQuery(groupCriteria string) (string, bool) {
                description, status, created_at, meta_data, scheduled_for, hash
         FROM blnk.transactions
         WHERE created_at::text IS NOT NULL AND created_at::text != ''
-        ORDER BY created_at::text
+        ORDER BY created_at::text, transaction_id
         LIMIT $1 OFFSET $2
     `, true
 	default:
-- 
2.43.0


From f253632caff38e11bd45fa002fecaa09cec8ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:54 +0000
Subject: [PATCH 54/78] fix: reconciliation's workers count processed
 transactions without a race

---
 reconciliation.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 7fb337f..c027dcd 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -25,6 +25,7 @@ import (
 	"math/big"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/blnkfinance/blnk/config"
@@ -546,7 +547,7 @@ func (s *Blnk) processTransactions(ctx context.Context, uploadID string, process
 	if err != nil {
 		return err
 	}
-	processedCount := 0
+	var processedCount atomic.Int64 // the workers run concurrently
 	var transactionProcessor getTxns
 	// Use different transaction retrieval methods depending on the strategy.
 	if strategy == "many_to_one" {
@@ -571,15 +572,14 @@ func (s *Blnk) processTransactions(ctx context.Context, uploadID string, process
 					results <- BatchJobResult{Error: err}
 					return
 				}
-				processedCount++
-				if processedCount%10 == 0 {
-					logrus.Infof("Processed %d transactions", processedCount)
+				if n := processedCount.Add(1); n%10 == 0 {
+					logrus.Infof("Processed %d transactions", n)
 				}
 				results <- BatchJobResult{}
 			}
 		},
 	)
-	logrus.Infof("Total transactions processed: %d", processedCount)
+	logrus.Infof("Total transactions processed: %d", processedCount.Load())
 	return err
 }
 
-- 
2.43.0


From abce7bc39f2263e43d642bcc46bb27a066cf6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 55/78] fix: one-to-one reconciliation matches an external
 transaction once

---
 reconciliation.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index c027dcd..984b894 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -1019,7 +1019,11 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 		return err
 	}
 
-	matchFound := false
+	// The workers look at different candidates concurrently, and may outlive a failed
+	// query: whoever settles the external transaction first decides, so that it is
+	// either matched, once, or unmatched.
+	var mu sync.Mutex
+	settled := false
 
 	minAmount, maxAmount, minDate, maxDate, currency := s.calculateMatchingBounds(externalTxn, matchingRules)
 
@@ -1030,6 +1034,12 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 		conf.Transaction.MaxWorkers,
 		false, // Stream mode
 		func(ctx context.Context, id string, limit int, offset int64) ([]*model.Transaction, error) {
+			mu.Lock()
+			done := settled
+			mu.Unlock()
+			if done {
+				return nil, nil // no further candidates are needed
+			}
 			return s.datasource.GetTransactionsByCriteria(ctx, minAmount, maxAmount, currency, minDate, maxDate, limit, offset)
 		},
 
@@ -1040,30 +1050,38 @@ func (s *Blnk) findMatchingInternalTransaction(ctx context.Context, externalTxn
 				case <-ctx.Done():
 					return
 				default:
-					if s.matchesRules(externalTxn, *internalTxn, matchingRules) {
+					if !s.matchesRules(externalTxn, *internalTxn, matchingRules) {
+						continue
+					}
+					mu.Lock()
+					if !settled {
+						settled = true
 						matchChan <- model.Match{
 							ExternalTransactionID: externalTxn.TransactionID,
 							InternalTransactionID: internalTxn.TransactionID,
 							Amount:                externalTxn.Amount,
 							Date:                  externalTxn.CreatedAt,
 						}
-						matchFound = true
-						return
 					}
+					mu.Unlock()
 				}
 			}
 		},
 	)
+	mu.Lock()
+	defer mu.Unlock()
+	if settled {
+		return nil
+	}
+	settled = true
 	if err != nil && err != context.Canceled {
 		return err
 	}
 
-	if !matchFound {
-		select {
-		case unMatchChan <- externalTxn.TransactionID:
-		default:
-			return fmt.Errorf("failed to send unmatched transaction ID to channel")
-		}
+	select {
+	case unMatchChan <- externalTxn.TransactionID:
+	default:
+		return fmt.Errorf("failed to send unmatched transaction ID to channel")
 	}
 
 	return nil
-- 
2.43.0


From de51e82aa9a73fe91f5c9e6ddb56906d9c4db3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 56/78] fix: grouped reconciliation matches whole groups, once,
 instead of hanging or counting per page

---
 reconciliation.go | 96 +++++++++++++++++++++--------------------------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 984b894..34d4001 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -782,45 +782,38 @@ func (s *Blnk) manyToOne(ctx context.Context, internalTxns []*model.Transaction,
 	ctx, span := otel.Tracer("blnk.reconciliation").Start(ctx, "ProcessManyToOne")
 	defer span.End()
 
-	processedAny := false
-	// Every input transaction must end up matched or unmatched; if the loop
-	// exits before any group batch was processed, report them all unmatched
-	// instead of silently dropping them from the reconciliation results.
-	defer func() {
-		if !processedAny {
-			for _, txn := range internalTxns {
-				unMatchChan <- txn.TransactionID
-			}
-		}
-	}()
-
-	// Loop to process transactions in batches.
+	// A group can span several pages, and every input is matched against all groups
+	// once, so the pages are put together before anything is matched.
+	groups := make(map[string][]*model.Transaction)
 	for {
-		groupedExternalTxns, err := s.groupExternalTransactions(ctx, uploadID, groupingCriteria, batchSize, offset)
+		page, err := s.groupExternalTransactions(ctx, uploadID, groupingCriteria, batchSize, offset)
 		if err != nil {
 			logrus.Errorf("Error grouping external transactions: %v", err)
+			groups = nil // an incomplete group must not match
 			break
 		}
-		if len(groupedExternalTxns) == 0 {
+		if len(page) == 0 {
 			span.AddEvent("No more grouped transactions to process")
 			break
 		}
-		processedAny = true
-		groupMap := s.buildGroupMap(groupedExternalTxns)
-		var groupMapMu sync.Mutex
-		err = s.processGroupedTransactions(internalTxns, groupedExternalTxns, groupMap, &groupMapMu, matchingRules, isExternalGrouped, wg, matchChan, unMatchChan)
-		if err != nil {
-			logrus.Errorf("Error processing grouped transactions: %v", err)
-		}
-		groupMapMu.Lock()
-		groupMapEmpty := len(groupMap) == 0
-		groupMapMu.Unlock()
-		if groupMapEmpty {
-			break
+		for key, txns := range page {
+			groups[key] = append(groups[key], txns...)
 		}
 		offset += int64(batchSize)
 	}
-	return nil
+
+	// Every input transaction must end up matched or unmatched; without groups they
+	// are all unmatched instead of silently dropped from the reconciliation results.
+	if len(groups) == 0 {
+		for _, txn := range internalTxns {
+			unMatchChan <- txn.TransactionID
+		}
+		return nil
+	}
+
+	groupMap := s.buildGroupMap(groups)
+	var groupMapMu sync.Mutex
+	return s.processGroupedTransactions(internalTxns, groups, groupMap, &groupMapMu, matchingRules, isExternalGrouped, wg, matchChan, unMatchChan)
 }
 
 // groupExternalTransactions retrieves and groups external transactions based on the specified criteria.
@@ -942,43 +935,38 @@ func (s *Blnk) oneToMany(ctx context.Context, singleTxn []*model.Transaction, ma
 	ctx, span := otel.Tracer("blnk.reconciliation").Start(ctx, "ProcessOneToMany")
 	defer span.End()
 
-	processedAny := false
-	// Mirror manyToOne: inputs must never silently vanish when no group
-	// batch was processed.
-	defer func() {
-		if !processedAny {
-			for _, txn := range singleTxn {
-				unMatchChan <- txn.TransactionID
-			}
-		}
-	}()
-
+	// A group can span several pages, and every input is matched against all groups
+	// once, so the pages are put together before anything is matched.
+	groups := make(map[string][]*model.Transaction)
 	for {
-		txns, err := s.groupInternalTransactions(ctx, groupingCriteria, batchSize, offset)
+		page, err := s.groupInternalTransactions(ctx, groupingCriteria, batchSize, offset)
 		if err != nil {
 			logrus.Errorf("Error grouping internal transactions: %v", err)
+			groups = nil // an incomplete group must not match
 			break
 		}
-		if len(txns) == 0 {
+		if len(page) == 0 {
 			span.AddEvent("No more grouped transactions to process")
 			break
 		}
-		processedAny = true
-		groupMap := s.buildGroupMap(txns)
-		var groupMapMu sync.Mutex
-		err = s.processGroupedTransactions(singleTxn, txns, groupMap, &groupMapMu, matchingRules, isExternalGrouped, wg, matchChan, unMatchChan)
-		if err != nil {
-			logrus.Errorf("Error in one-to-many reconciliation: %v", err)
-		}
-		groupMapMu.Lock()
-		groupMapEmpty := len(groupMap) == 0
-		groupMapMu.Unlock()
-		if groupMapEmpty {
-			break
+		for key, txns := range page {
+			groups[key] = append(groups[key], txns...)
 		}
 		offset += int64(batchSize)
 	}
-	return nil
+
+	// Every input transaction must end up matched or unmatched; without groups they
+	// are all unmatched instead of silently dropped from the reconciliation results.
+	if len(groups) == 0 {
+		for _, txn := range singleTxn {
+			unMatchChan <- txn.TransactionID
+		}
+		return nil
+	}
+
+	groupMap := s.buildGroupMap(groups)
+	var groupMapMu sync.Mutex
+	return s.processGroupedTransactions(singleTxn, groups, groupMap, &groupMapMu, matchingRules, isExternalGrouped, wg, matchChan, unMatchChan)
 }
 
 // buildGroupMap creates a map for tracking unprocessed transaction groups.
-- 
2.43.0


From 622dfae4059f3371bc4bf8c98d6ec2e0f339cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 57/78] fix: reconciliation looks at every candidate some rule
 admits

---
 reconciliation.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 34d4001..4ceb8bf 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -1495,10 +1495,14 @@ func (s *Blnk) calculateMatchingBounds(externalTxn *model.Transaction, matchingR
 
 	firstAmount := true
 	firstDate := true
-	hasAmountCriteria := false
-	hasDateCriteria := false
+	// A rule without a bounded criterion admits any value, so the bounds hold only if
+	// every rule has one.
+	hasAmountCriteria := len(matchingRules) > 0
+	hasDateCriteria := len(matchingRules) > 0
 
 	for _, rule := range matchingRules {
+		ruleBoundsAmount := false
+		ruleBoundsDate := false
 		for _, criteria := range rule.Criteria {
 			if criteria.Field == "amount" && criteria.Operator == "equals" {
 				drift := criteria.AllowableDrift // fraction: 0.01 = 1%
@@ -1519,10 +1523,10 @@ func (s *Blnk) calculateMatchingBounds(externalTxn *model.Transaction, matchingR
 						highestMaxAmount = high
 					}
 				}
-				hasAmountCriteria = true
+				ruleBoundsAmount = true
 			}
 			if criteria.Field == "date" && criteria.Operator == "equals" {
-				drift := time.Duration(criteria.AllowableDrift) * time.Second
+				drift := time.Duration(criteria.AllowableDrift * float64(time.Second))
 				d := externalTxn.CreatedAt
 				low := d.Add(-drift)
 				high := d.Add(drift)
@@ -1539,9 +1543,11 @@ func (s *Blnk) calculateMatchingBounds(externalTxn *model.Transaction, matchingR
 						latestMaxDate = high
 					}
 				}
-				hasDateCriteria = true
+				ruleBoundsDate = true
 			}
 		}
+		hasAmountCriteria = hasAmountCriteria && ruleBoundsAmount
+		hasDateCriteria = hasDateCriteria && ruleBoundsDate
 	}
 
 	if hasAmountCriteria {
-- 
2.43.0


From 57ee5f9ed1d27dcc6c99102cc4d0b2b13cad3afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 58/78] fix: a reconciliation with an unknown strategy fails
 instead of completing with nothing

---
 reconciliation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reconciliation.go b/reconciliation.go
index 4ceb8bf..6ec4ff3 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -338,6 +338,13 @@ func (s *Blnk) processReconciliation(ctx context.Context, reconciliation model.R
 		return fmt.Errorf("failed to update reconciliation status: %w", err)
 	}
 
+	// A run that reconciles nothing must not complete as if it had.
+	switch strategy {
+	case "one_to_one", "one_to_many", "many_to_one":
+	default:
+		return fmt.Errorf("unsupported reconciliation strategy: %s", strategy)
+	}
+
 	// Retrieve the matching rules that apply to the reconciliation.
 	matchingRules, err := s.getMatchingRules(ctx, matchingRuleIDs)
 	if err != nil {
-- 
2.43.0


From dcf80dc096a06fadd7bdf69f8c2d85dc1bcdc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 59/78] fix: a balance without an identity can be read with its
 identity included

---
 database/balance.go | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/database/balance.go b/database/balance.go
index cee7422..30b7aa7 100644
--- a/database/balance.go
+++ b/database/balance.go
@@ -105,6 +105,34 @@ func prepareQueries(queryBuilder strings.Builder, include []string) string {
 	return queryBuilder.String()
 }
 
+// nullable scans a column into dest, leaving it as it is when the column is null.
+type nullable struct {
+	dest interface{}
+}
+
+func (n nullable) Scan(src interface{}) error {
+	if src == nil {
+		return nil
+	}
+	switch dest := n.dest.(type) {
+	case *string:
+		var v sql.NullString
+		if err := v.Scan(src); err != nil {
+			return err
+		}
+		*dest = v.String
+	case *time.Time:
+		var v sql.NullTime
+		if err := v.Scan(src); err != nil {
+			return err
+		}
+		*dest = v.Time
+	default:
+		return fmt.Errorf("unsupported destination type %T", n.dest)
+	}
+	return nil
+}
+
 // Scans a SQL row result and maps it into a Balance object, including optional identity and ledger data.
 // Converts string representations of big.Int fields into actual big.Int objects.
 func scanRow(row *sql.Row, include []string) (*model.Balance, error) {
@@ -125,10 +153,15 @@ func scanRow(row *sql.Row, include []string) (*model.Balance, error) {
 
 	// Conditionally scan for identity fields
 	if contains(include, "identity") {
-		scanArgs = append(scanArgs, &identity.IdentityID, &identity.FirstName, &identity.OrganizationName, &identity.Category, &identity.LastName,
+		// A balance without an identity joins to a row of nulls
+		for _, dest := range []interface{}{
+			&identity.IdentityID, &identity.FirstName, &identity.OrganizationName, &identity.Category, &identity.LastName,
 			&identity.OtherNames, &identity.Gender, &identity.DOB, &identity.EmailAddress,
 			&identity.PhoneNumber, &identity.Nationality, &identity.Street, &identity.Country,
-			&identity.State, &identity.PostCode, &identity.City, &identity.CreatedAt)
+			&identity.State, &identity.PostCode, &identity.City, &identity.CreatedAt,
+		} {
+			scanArgs = append(scanArgs, nullable{dest})
+		}
 	}
 
 	// Conditionally scan for ledger fields
@@ -181,7 +214,7 @@ func scanRow(row *sql.Row, include []string) (*model.Balance, error) {
 	}
 
 	// Attach identity and ledger objects if included
-	if contains(include, "identity") {
+	if contains(include, "identity") && identity.IdentityID != "" {
 		balance.Identity = identity
 	}
 	if contains(include, "ledger") {
-- 
2.43.0


From cfbce32c03d4b1d6053fc525463f77af4fa181b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 60/78] fix: an invalid hook is the caller's error, and failing
 to read one is not 'not found'

---
 api/hooks.go              | 14 +++++++++++---
 internal/hooks/manager.go | 11 ++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/api/hooks.go b/api/hooks.go
index 8b8c7d9..f119bb6 100644
--- a/api/hooks.go
+++ b/api/hooks.go
@@ -11,9 +11,13 @@ import (
 
 var errHooksRequireMasterKey = errors.New("hook management requires master key")
 
-// hookFailureCode distinguishes a missing hook (the manager returns
-// "hook not found: <id>") from genuine infrastructure failures.
+// hookFailureCode distinguishes an invalid hook and a missing hook (the manager
+// returns "hook not found: <id>") from genuine infrastructure failures.
 func hookFailureCode(err error) apierror.ErrorCode {
+	var invalid hooks.ValidationError
+	if errors.As(err, &invalid) {
+		return apierror.ErrHookInvalid
+	}
 	if code, ok := classifyMessage(err.Error()); ok && apierror.StatusForCode(code) == http.StatusNotFound {
 		return apierror.ErrHookNotFound
 	}
@@ -48,7 +52,7 @@ func (a *Api) RegisterHook(c *gin.Context) {
 	}
 
 	if err := a.blnk.Hooks.RegisterHook(c.Request.Context(), &hook); err != nil {
-		respondBareAPIError(c, apierror.NewAPIError(apierror.ErrInvalidInput, "failed to register hook", err), apierror.ErrHookOperationFailed)
+		respondBareAPIError(c, apierror.NewAPIError(apierror.ErrInvalidInput, "failed to register hook", err), hookFailureCode(err))
 		return
 	}
 
@@ -85,6 +89,10 @@ func (a *Api) GetHook(c *gin.Context) {
 	hookID := c.Param("id")
 	hook, err := a.blnk.Hooks.GetHook(c.Request.Context(), hookID)
 	if err != nil {
+		if code := hookFailureCode(err); code != apierror.ErrHookNotFound {
+			respondBareAPIError(c, apierror.NewAPIError(apierror.ErrInternalServer, "failed to retrieve hook", err), code)
+			return
+		}
 		respondBareAPIError(c, apierror.NewAPIError(apierror.ErrNotFound, "hook not found", err), apierror.ErrHookNotFound)
 		return
 	}
diff --git a/internal/hooks/manager.go b/internal/hooks/manager.go
index 9beb746..64353c6 100644
--- a/internal/hooks/manager.go
+++ b/internal/hooks/manager.go
@@ -123,7 +123,7 @@ func (m *redisHookManager) RegisterHook(ctx context.Context, hook *Hook) error {
 func (m *redisHookManager) UpdateHook(ctx context.Context, hookID string, hook *Hook) error {
 	existing, err := m.GetHook(ctx, hookID)
 	if err != nil {
-		return fmt.Errorf("hook not found: %s", hookID)
+		return err
 	}
 
 	// Update fields while preserving metadata
@@ -379,6 +379,11 @@ func (m *redisHookManager) queueHook(ctx context.Context, hook *Hook, payload Ho
 	return nil
 }
 
+// ValidationError tells what is wrong with a hook's configuration.
+type ValidationError string
+
+func (e ValidationError) Error() string { return string(e) }
+
 // validateHook checks if a hook configuration is valid.
 // It ensures the URL and type are set correctly, and sets default values for timeout and retry count if missing.
 //
@@ -389,10 +394,10 @@ func (m *redisHookManager) queueHook(ctx context.Context, hook *Hook, payload Ho
 // - error: An error if validation fails.
 func validateHook(hook *Hook) error {
 	if hook.URL == "" {
-		return fmt.Errorf("hook URL is required")
+		return ValidationError("hook URL is required")
 	}
 	if hook.Type != PreTransaction && hook.Type != PostTransaction {
-		return fmt.Errorf("invalid hook type: %s", hook.Type)
+		return ValidationError(fmt.Sprintf("invalid hook type: %s", hook.Type))
 	}
 	if hook.Timeout <= 0 {
 		hook.Timeout = 30 // Default timeout
-- 
2.43.0


From d5a10e1c0a77fc441d52285eae94743cc7fa96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 61/78] fix: a filter value that is a list or an object is
 refused

---
 internal/filter/validation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/filter/validation.go b/internal/filter/validation.go
index 2a877cd..59c33db 100644
--- a/internal/filter/validation.go
+++ b/internal/filter/validation.go
@@ -41,6 +41,13 @@ func Validate(filters *QueryFilterSet, table string) error {
 			}
 		}
 
+		for _, value := range append([]interface{}{f.Value}, f.Values...) {
+			switch value.(type) {
+			case []interface{}, map[string]interface{}:
+				return fmt.Errorf("invalid value for field '%s': must be a single value", f.Field)
+			}
+		}
+
 		// balance_id on transactions is a virtual field matched against
 		// source/destination; only a subset of operators is implemented.
 		if table == "transactions" && f.Field == "balance_id" {
-- 
2.43.0


From 5f0587041f1541746ab38c8e0b0c3128d9d6543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 62/78] fix: metadata of an entity whose lookup failed is not
 reported as not found

---
 metadata.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index d5d1551..f8ece7c 100644
--- a/metadata.go
+++ b/metadata.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strings"
 
+	"github.com/blnkfinance/blnk/internal/apierror"
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/internal/notification"
 	"github.com/blnkfinance/blnk/model"
@@ -74,7 +75,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 	case "ledgers":
 		ledger, err := l.GetLedgerByID(entityID)
 		if err != nil {
-			return nil, ErrEntityNotFound
+			return nil, lookupError(err)
 		}
 		currentMetadata := ledger.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
@@ -133,7 +134,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 	case "balances":
 		balance, err := l.GetBalanceByID(ctx, entityID, nil, false)
 		if err != nil {
-			return nil, ErrEntityNotFound
+			return nil, lookupError(err)
 		}
 		currentMetadata := balance.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
@@ -160,7 +161,7 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 	case "identities":
 		identity, err := l.GetIdentity(entityID)
 		if err != nil {
-			return nil, ErrEntityNotFound
+			return nil, lookupError(err)
 		}
 		currentMetadata := identity.MetaData
 		mergedMetadata := mergeMetadata(currentMetadata, newMetadata)
@@ -189,6 +190,21 @@ func (l *Blnk) UpdateMetadata(ctx context.Context, entityID string, newMetadata
 	}
 }
 
+// lookupError tells an entity that does not exist from a lookup that failed.
+//
+// Parameters:
+// - err: The error of the lookup.
+//
+// Returns:
+// - error: The error of the lookup if it failed, ErrEntityNotFound otherwise.
+func lookupError(err error) error {
+	var apiErr apierror.APIError
+	if errors.As(err, &apiErr) && apierror.Normalize(apiErr.Code) == apierror.ErrGenInternal {
+		return err
+	}
+	return ErrEntityNotFound
+}
+
 // lockEntity serializes the updates of an entity that read it and write it back.
 //
 // Parameters:
-- 
2.43.0


From d72b7eaf2104bd65e8623616cf8853da51669591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 63/78] fix: an instant reconciliation reports why its
 transactions were not stored

---
 reconciliation.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reconciliation.go b/reconciliation.go
index 6ec4ff3..11a9eff 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -220,9 +220,8 @@ func (s *Blnk) StartInstantReconciliation(ctx context.Context, externalTransacti
 		if err := s.storeExternalTransaction(ctx, tempID, txn); err != nil {
 			// Log error and update reconciliation status
 			logrus.Errorf("Error storing transaction: %v", err)
-			err := s.datasource.UpdateReconciliationStatus(ctx, reconciliationID, StatusFailed, 0, 0)
-			if err != nil {
-				logrus.Errorf("Error updating reconciliation status: %v", err)
+			if updateErr := s.datasource.UpdateReconciliationStatus(ctx, reconciliationID, StatusFailed, 0, 0); updateErr != nil {
+				logrus.Errorf("Error updating reconciliation status: %v", updateErr)
 				return "", fmt.Errorf("failed to store external transaction: %w", err)
 			}
 			return "", fmt.Errorf("failed to store external transaction: %w", err)
-- 
2.43.0


From 9c0a8ec2df01bdbf431156966293cd3f8339621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:43 +0000
Subject: [PATCH 64/78] fix: failures of the database and of Redis are reported
 as the service's, without their details

---
 api/errors.go                   | 78 ++++++++++++++++++++++++++++++++-
 api/reconciliation_api.go       |  4 ++
 api/transactions.go             | 11 ++++-
 database/ledger.go              |  2 +-
 internal/lock/lock.go           |  9 +++-
 transaction_batch_processing.go | 25 +++++++++++
 transaction_bulk.go             | 12 ++---
 transaction_inflight.go         |  2 +
 8 files changed, 132 insertions(+), 11 deletions(-)

diff --git a/api/errors.go b/api/errors.go
index 8e21cbb..d7dc52d 100644
--- a/api/errors.go
+++ b/api/errors.go
@@ -17,7 +17,11 @@ package api
 
 import (
 	"database/sql"
+	"database/sql/driver"
 	"errors"
+	"io"
+	"net"
+	"net/http"
 	"strings"
 
 	"github.com/blnkfinance/blnk"
@@ -27,6 +31,7 @@ import (
 	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/internal/tokenization"
 	"github.com/gin-gonic/gin"
+	"github.com/lib/pq"
 	"github.com/sirupsen/logrus"
 )
 
@@ -42,6 +47,10 @@ const errorDetailKey = "error_detail"
 // 5xx responses so database/driver details never leak to clients.
 const sanitizedInternalMessage = "internal server error"
 
+// invalidValueMessage answers values the database cannot hold, such as text
+// with NUL bytes or numbers and dates that are out of range.
+const invalidValueMessage = "a value in the request is invalid"
+
 type respondOptions struct {
 	defaultCode     apierror.ErrorCode
 	fallbackMessage string
@@ -112,6 +121,11 @@ func respondError(c *gin.Context, err error, opts ...respondOpt) {
 		return
 	}
 
+	if code, message, ok := classifyCause(err); ok {
+		writeError(c, code, message, nil, o)
+		return
+	}
+
 	var apiErr apierror.APIError
 	if errors.As(err, &apiErr) {
 		writeError(c, apiErr.Code, apiErr.Message, apiErr.Details, o)
@@ -142,6 +156,66 @@ func respondError(c *gin.Context, err error, opts ...respondOpt) {
 	writeError(c, apierror.ErrGenInternal, sanitizedInternalMessage, nil, o)
 }
 
+// classifyCause tells by what the database said whether the request or the service
+// is at fault, where the error was not already reported as one or the other: values
+// the database cannot hold (SQLSTATE class 22, data exception) and values that break
+// its rules (class 23, integrity constraint violation) are the request's, everything
+// else is the service failing. The message it returns never shows internals.
+func classifyCause(err error) (apierror.ErrorCode, string, bool) {
+	if errors.Is(err, redlock.ErrLockUnavailable) {
+		return apierror.ErrGenInternal, sanitizedInternalMessage, true
+	}
+
+	cause, reported := err, 0
+	var apiErr apierror.APIError
+	if errors.As(err, &apiErr) {
+		details, ok := apiErr.Details.(error)
+		if !ok {
+			return "", "", false
+		}
+		cause, reported = details, apierror.StatusForCode(apierror.Normalize(apiErr.Code))
+	}
+
+	var pqErr *pq.Error
+	switch isDatabase := errors.As(cause, &pqErr); {
+	case isDatabase && pqErr.Code.Class() == "22":
+		return apierror.ErrGenBadRequest, invalidValueMessage, true
+	case isDatabase && pqErr.Code.Class() == "23":
+		if reported > 0 && reported < http.StatusInternalServerError {
+			return "", "", false
+		}
+		if pqErr.Code == "23505" {
+			return apierror.ErrGenConflict, invalidValueMessage, true
+		}
+		return apierror.ErrGenBadRequest, invalidValueMessage, true
+	case isDatabase || isConnectionFailure(cause):
+		if reported >= http.StatusInternalServerError {
+			return "", "", false
+		}
+		logrus.WithError(err).Error("service failure in API response")
+		return apierror.ErrGenInternal, sanitizedInternalMessage, true
+	}
+	return "", "", false
+}
+
+// isConnectionFailure reports whether err is the connection to the database or
+// another service failing.
+func isConnectionFailure(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) ||
+		errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) ||
+		errors.Is(err, driver.ErrBadConn) || errors.Is(err, sql.ErrConnDone) || errors.Is(err, sql.ErrTxDone)
+}
+
+// publicDetails leaves out details that are internal errors: they carry driver
+// and query internals and have been logged where they were made.
+func publicDetails(details interface{}) interface{} {
+	if _, internal := details.(error); internal {
+		return nil
+	}
+	return details
+}
+
 func writeError(c *gin.Context, code apierror.ErrorCode, message string, details interface{}, o *respondOptions) {
 	code = apierror.Normalize(code)
 	if to, ok := o.upgrades[code]; ok {
@@ -153,7 +227,7 @@ func writeError(c *gin.Context, code apierror.ErrorCode, message string, details
 	}
 	c.JSON(apierror.StatusForCode(code), gin.H{
 		o.legacyKey:    legacyValue,
-		errorDetailKey: apierror.APIError{Code: code, Message: message, Details: details},
+		errorDetailKey: apierror.APIError{Code: code, Message: message, Details: publicDetails(details)},
 	})
 }
 
@@ -255,6 +329,7 @@ func classifyMessage(msg string) (apierror.ErrorCode, bool) {
 // a top-level {code, message, details} object — while adding error_detail.
 func respondBareAPIError(c *gin.Context, legacy apierror.APIError, code apierror.ErrorCode) {
 	code = apierror.Normalize(code)
+	legacy.Details = publicDetails(legacy.Details)
 	c.JSON(apierror.StatusForCode(code), gin.H{
 		"code":         legacy.Code,
 		"message":      legacy.Message,
@@ -267,6 +342,7 @@ func respondBareAPIError(c *gin.Context, legacy apierror.APIError, code apierror
 // the APIError object under "error" — while adding error_detail.
 func respondNestedAPIError(c *gin.Context, legacy apierror.APIError, code apierror.ErrorCode) {
 	code = apierror.Normalize(code)
+	legacy.Details = publicDetails(legacy.Details)
 	c.JSON(apierror.StatusForCode(code), gin.H{
 		"error":        legacy,
 		errorDetailKey: apierror.APIError{Code: code, Message: legacy.Message, Details: legacy.Details},
diff --git a/api/reconciliation_api.go b/api/reconciliation_api.go
index fdaa2d7..9bc3389 100644
--- a/api/reconciliation_api.go
+++ b/api/reconciliation_api.go
@@ -364,6 +364,10 @@ func (a Api) GetReconciliation(c *gin.Context) {
 			respondCode(c, apierror.ErrReconNotFound, "Reconciliation not found", nil)
 			return
 		}
+		if code, message, ok := classifyCause(err); ok {
+			respondCode(c, code, message, nil)
+			return
+		}
 		respondCode(c, apierror.ErrGenInternal, "Failed to retrieve reconciliation", nil)
 		return
 	}
diff --git a/api/transactions.go b/api/transactions.go
index c3bd8c8..51a2467 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -666,10 +666,17 @@ func (a Api) CreateBulkTransactions(c *gin.Context) {
 		if !ok {
 			code = apierror.ErrGenBadRequest
 		}
+		message := result.Error // Use the detailed error from the result
+		var apiErr apierror.APIError
+		if causeCode, causeMessage, ok := classifyCause(err); ok {
+			code, message = causeCode, causeMessage
+		} else if errors.As(err, &apiErr) && apierror.Normalize(apiErr.Code) == apierror.ErrGenInternal {
+			code = apierror.ErrGenInternal
+		}
 		c.JSON(apierror.StatusForCode(code), gin.H{
-			"error":        result.Error, // Use the detailed error from the result
+			"error":        message,
 			"batch_id":     result.BatchID,
-			"error_detail": apierror.NewErrorResponse(code, result.Error, gin.H{"batch_id": result.BatchID}).Error,
+			"error_detail": apierror.NewErrorResponse(code, message, gin.H{"batch_id": result.BatchID}).Error,
 		})
 		return
 	}
diff --git a/database/ledger.go b/database/ledger.go
index db40d07..fb7cf22 100644
--- a/database/ledger.go
+++ b/database/ledger.go
@@ -96,7 +96,7 @@ func (d Datasource) GetAllLedgers(limit, offset int) ([]model.Ledger, error) {
 
 	rows, err := d.Conn.QueryContext(context.Background(), query, limit, offset)
 	if err != nil {
-		return nil, apierror.NewAPIError(apierror.ErrInternalServer, err.Error(), err)
+		return nil, apierror.NewAPIError(apierror.ErrInternalServer, "Failed to retrieve ledgers", err)
 	}
 	defer func() { _ = rows.Close() }()
 
diff --git a/internal/lock/lock.go b/internal/lock/lock.go
index 26dd132..4bc811e 100644
--- a/internal/lock/lock.go
+++ b/internal/lock/lock.go
@@ -25,11 +25,14 @@ import (
 	"time"
 
 	"github.com/redis/go-redis/v9"
+	"github.com/sirupsen/logrus"
 )
 
 var (
 	ErrLockHeld        = errors.New("lock already held")
 	ErrLockWaitTimeout = errors.New("lock wait timeout")
+	// ErrLockUnavailable is Redis failing, as opposed to the lock being held.
+	ErrLockUnavailable = errors.New("lock service unavailable")
 )
 
 type lockError struct {
@@ -87,7 +90,11 @@ func NewLocker(client redis.UniversalClient, key, value string) *Locker {
 func (l *Locker) Lock(ctx context.Context, timeout time.Duration) error {
 	success, err := l.client.SetNX(ctx, l.key, l.value, timeout).Result()
 	if err != nil {
-		return err
+		logrus.WithError(err).WithField("key", l.key).Error("lock service unavailable")
+		return &lockError{
+			err: errors.Join(ErrLockUnavailable, err),
+			msg: ErrLockUnavailable.Error(),
+		}
 	}
 	if !success {
 		return &lockError{
diff --git a/transaction_batch_processing.go b/transaction_batch_processing.go
index 98cd065..e3ccb6e 100644
--- a/transaction_batch_processing.go
+++ b/transaction_batch_processing.go
@@ -18,10 +18,13 @@ package blnk
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/big"
 	"sync"
 
+	"github.com/blnkfinance/blnk/internal/apierror"
+	redlock "github.com/blnkfinance/blnk/internal/lock"
 	"github.com/blnkfinance/blnk/model"
 	"github.com/sirupsen/logrus"
 	"go.opentelemetry.io/otel/attribute"
@@ -124,6 +127,9 @@ func (l *Blnk) ProcessTransactionInBatches(ctx context.Context, parentTransactio
 				logrus.Errorf("Error during processing: %v", err)
 				span.RecordError(err)
 			}
+			if failure := internalFailure(allErrors); failure != nil {
+				return allTxns, fmt.Errorf("error occurred during processing: %w", failure)
+			}
 			return allTxns, fmt.Errorf("error occurred during processing: %v", allErrors)
 		}
 
@@ -146,6 +152,25 @@ func (l *Blnk) ProcessTransactionInBatches(ctx context.Context, parentTransactio
 	}
 }
 
+// internalFailure returns the first error that is the service failing, so that it is
+// reported as that and not as something wrong with the request.
+//
+// Parameters:
+// - errs []error: The errors encountered during processing.
+//
+// Returns:
+// - error: The first internal error, or nil if there is none.
+func internalFailure(errs []error) error {
+	for _, err := range errs {
+		var apiErr apierror.APIError
+		if errors.Is(err, redlock.ErrLockUnavailable) ||
+			(errors.As(err, &apiErr) && apierror.Normalize(apiErr.Code) == apierror.ErrGenInternal) {
+			return err
+		}
+	}
+	return nil
+}
+
 // processResults processes the results from the results channel, collecting transactions and errors.
 // It locks access to shared data to ensure thread safety and signals completion when done.
 //
diff --git a/transaction_bulk.go b/transaction_bulk.go
index d6d4351..8b2d874 100644
--- a/transaction_bulk.go
+++ b/transaction_bulk.go
@@ -257,24 +257,24 @@ func (l *Blnk) CreateBulkTransactions(ctx context.Context, req *model.BulkTransa
 		span.RecordError(err)
 		logrus.WithError(err).WithField("batch_id", batchID).Error("sync bulk transaction error")
 
-		var responseError string
+		var responseError error
 		if req.Atomic {
 			action, rollbackErr := l.rollbackBatchTransactions(ctx, batchID, req.Inflight, splitMemberIDs(req.Transactions)...)
 			if rollbackErr != nil {
-				responseError = fmt.Sprintf("%s. Failed to roll back all transactions: %s", err.Error(), rollbackErr.Error())
+				responseError = fmt.Errorf("%w. Failed to roll back all transactions: %s", err, rollbackErr.Error())
 			} else {
-				responseError = fmt.Sprintf("%s. All transactions in this batch have been %s.", err.Error(), action)
+				responseError = fmt.Errorf("%w. All transactions in this batch have been %s.", err, action)
 			}
 		} else {
-			responseError = fmt.Sprintf("%s. Previous transactions were not rolled back.", err.Error())
+			responseError = fmt.Errorf("%w. Previous transactions were not rolled back.", err)
 		}
 
 		// Return error result for synchronous failure
 		return &model.BulkTransactionResult{
 			BatchID: batchID,
 			Status:  "failed",
-			Error:   responseError,
-		}, errors.New(responseError) // Return the error itself as well
+			Error:   responseError.Error(),
+		}, responseError // Return the error itself as well
 	}
 
 	// Synchronous success
diff --git a/transaction_inflight.go b/transaction_inflight.go
index 53ac025..1646fb6 100644
--- a/transaction_inflight.go
+++ b/transaction_inflight.go
@@ -966,6 +966,8 @@ func classifyInflightError(err error) string {
 		return "NOT_INFLIGHT"
 	case strings.Contains(msg, "cannot commit more than"):
 		return "INVALID_AMOUNT"
+	case errors.Is(err, redlock.ErrLockUnavailable):
+		return "INTERNAL_ERROR"
 	case strings.Contains(msg, "failed to acquire lock"):
 		return "LOCKED"
 	default:
-- 
2.43.0


From 8e4910e6866e9a52b6119923116e7d76cd1a2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 65/78] fix: an uploaded row with an invalid amount or date is
 refused instead of stored as zero

---
 internal/files/files.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/internal/files/files.go b/internal/files/files.go
index ec10358..0a42262 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -24,6 +24,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"mime"
 	"net/http"
 	"os"
@@ -416,7 +417,10 @@ func parseExternalTransaction(record []string, columnMap map[string]int, source
 		return model.ExternalTransaction{}, err
 	}
 
-	amount := parseFloat(amountStr)
+	amount, err := parseFloat(amountStr)
+	if err != nil {
+		return model.ExternalTransaction{}, err
+	}
 
 	reference, err := getRequiredField(record, columnMap, "reference")
 	if err != nil {
@@ -432,7 +436,10 @@ func parseExternalTransaction(record []string, columnMap map[string]int, source
 	if err != nil {
 		return model.ExternalTransaction{}, err
 	}
-	date := parseTime(dateStr)
+	date, err := parseTime(dateStr)
+	if err != nil {
+		return model.ExternalTransaction{}, err
+	}
 
 	return model.ExternalTransaction{
 		ID:          id,
@@ -498,18 +505,18 @@ func ProcessJSON(ctx context.Context, uploadID, source string, reader io.Reader,
 	return total, nil
 }
 
-func parseFloat(s string) float64 {
+func parseFloat(s string) (float64, error) {
 	f, err := strconv.ParseFloat(s, 64)
-	if err != nil {
-		return 0
+	if err != nil || math.IsNaN(f) || math.IsInf(f, 0) {
+		return 0, fmt.Errorf("invalid amount '%s'", s)
 	}
-	return f
+	return f, nil
 }
 
-func parseTime(s string) time.Time {
+func parseTime(s string) (time.Time, error) {
 	t, err := time.Parse(time.RFC3339, s)
 	if err != nil {
-		return time.Time{}
+		return time.Time{}, fmt.Errorf("invalid date '%s': must be in RFC3339 format", s)
 	}
-	return t
+	return t, nil
 }
-- 
2.43.0


From c529eae3d2374b259b037ceae57edd6eb3898ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:15 +0000
Subject: [PATCH 66/78] fix: an upload with many bad rows, or given up by its
 client, neither hangs nor counts as complete

---
 internal/files/files.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/files/files.go b/internal/files/files.go
index 0a42262..5bb0412 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -272,7 +272,9 @@ func processCSVRowsParallel(ctx context.Context, uploadID, source string, csvRea
 	}
 
 	// Read CSV rows and send to workers
+	wg.Add(1)
 	go func() {
+		defer wg.Done()
 		rowNum := 1
 		for {
 			record, err := csvReader.Read()
@@ -300,16 +302,23 @@ func processCSVRowsParallel(ctx context.Context, uploadID, source string, csvRea
 		close(rowChan)
 	}()
 
-	// Wait for workers to finish
-	wg.Wait()
-	close(errChan)
+	// Close the error channel once the reader and the workers are finished
+	go func() {
+		wg.Wait()
+		close(errChan)
+	}()
 
-	// Collect errors
+	// Collect errors while the workers run: there can be more than the channel holds
 	var errs []error
 	for err := range errChan {
 		errs = append(errs, err)
 	}
 
+	// Rows that were not reached are not stored
+	if err := ctx.Err(); err != nil {
+		return int(totalCount), err
+	}
+
 	if len(errs) > 0 {
 		return int(totalCount), fmt.Errorf("encountered %d errors while processing CSV: %v", len(errs), errs)
 	}
-- 
2.43.0


From 074d81bc36cf7172754a08b5a6efd01fe265a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 67/78] fix: a JSON upload that was cut off or has more after
 its array is refused

---
 internal/files/files.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/files/files.go b/internal/files/files.go
index 5bb0412..58af139 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -511,6 +511,14 @@ func ProcessJSON(ctx context.Context, uploadID, source string, reader io.Reader,
 		}
 	}
 
+	// The array must be closed and be all there is: a file that was cut off is not complete.
+	if _, err := decoder.Token(); err != nil {
+		return total, fmt.Errorf("unexpected end of the JSON array: %w", err)
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return total, fmt.Errorf("unexpected data after the JSON array")
+	}
+
 	return total, nil
 }
 
-- 
2.43.0


From 32d0272165e742032a730539ae8368bd3f17f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 68/78] fix: external transactions dated in another zone keep
 their instant

---
 reconciliation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reconciliation.go b/reconciliation.go
index 11a9eff..407dec8 100644
--- a/reconciliation.go
+++ b/reconciliation.go
@@ -112,6 +112,8 @@ func (s *Blnk) UploadExternalData(ctx context.Context, source string, reader io.
 // Returns:
 // - error: If storing the transaction fails.
 func (s *Blnk) storeExternalTransaction(ctx context.Context, uploadID string, txn model.ExternalTransaction) error {
+	// The column holds times without a zone: they are stored and read as UTC.
+	txn.Date = txn.Date.UTC()
 	return s.datasource.RecordExternalTransaction(ctx, &txn, uploadID)
 }
 
-- 
2.43.0


From fe17b746ab6dbd7c5a0173595f63a0bf4aa6bbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 69/78] fix: a downloaded upload beyond the size limit is
 refused instead of cut off

---
 api/reconciliation_api.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/api/reconciliation_api.go b/api/reconciliation_api.go
index 9bc3389..2e88485 100644
--- a/api/reconciliation_api.go
+++ b/api/reconciliation_api.go
@@ -18,7 +18,6 @@ package api
 import (
 	"context"
 	"encoding/json"
-	"io"
 	"net/http"
 	"net/url"
 	"path"
@@ -201,13 +200,13 @@ func (a Api) downloadAndUpload(c *gin.Context, source, rawURL string) (uploadID
 		return "", 0, false
 	}
 
-	// Cap the downloaded body at MaxUploadSizeMB. An oversize response is
-	// truncated, which surfaces downstream as a parse/processing failure (500).
+	// Cap the downloaded body at MaxUploadSizeMB. Reading beyond it fails, so an
+	// oversize response surfaces downstream as a processing failure (500).
 	limit := int64(config.DEFAULT_MAX_UPLOAD_SIZE_MB) * 1024 * 1024
 	if cfg != nil && cfg.Server.MaxUploadSizeMB > 0 {
 		limit = cfg.Server.MaxUploadSizeMB * 1024 * 1024
 	}
-	limited := io.LimitReader(resp.Body, limit+1)
+	limited := http.MaxBytesReader(nil, resp.Body, limit)
 
 	id, total, err := a.blnk.UploadExternalData(ctx, source, limited, name)
 	if err != nil {
-- 
2.43.0


From d6e2da34578272e4f4ae6bfffa1345ce62c487dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 70/78] fix: a scheduled transaction that skips the queue waits
 for its time

---
 transaction_bulk.go  | 10 ++++++++++
 transaction_queue.go |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/transaction_bulk.go b/transaction_bulk.go
index 8b2d874..055afa5 100644
--- a/transaction_bulk.go
+++ b/transaction_bulk.go
@@ -194,6 +194,16 @@ func (l *Blnk) CreateBulkTransactions(ctx context.Context, req *model.BulkTransa
 	ctx, span := tracer.Start(ctx, "Blnk.CreateBulkTransactions")
 	defer span.End()
 
+	if req.Atomic && req.SkipQueue {
+		for _, txn := range req.Transactions {
+			if txn.ScheduledFor.After(time.Now()) {
+				// It could fail long after the others were applied.
+				return nil, apierror.NewAPIError(apierror.ErrInvalidInput,
+					fmt.Sprintf("transaction %s is scheduled for later and cannot be in an atomic batch that skips the queue", txn.Reference), nil)
+			}
+		}
+	}
+
 	// Generate batch ID (parent transaction ID)
 	batchID := model.GenerateUUIDWithSuffix("bulk")
 	span.SetAttributes(attribute.String("batch.id", batchID))
diff --git a/transaction_queue.go b/transaction_queue.go
index 9e3bcb7..4c33f9d 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -74,6 +74,10 @@ func (l *Blnk) QueueTransaction(ctx context.Context, transaction *model.Transact
 	originalRef := transaction.Reference
 	setTransactionMetadata(transaction)
 	setTransactionStatus(transaction)
+	if transaction.ScheduledFor.After(time.Now()) {
+		// Only the queue can wait for the time it is scheduled for.
+		transaction.SkipQueue = false
+	}
 	originalTxnID := transaction.TransactionID
 
 	// Handle split transactions if needed
-- 
2.43.0


From f436aac292ba41c17a2693313d2053983a2904a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:34 +0000
Subject: [PATCH 71/78] fix: a scheduled transaction whose task was lost is
 recovered when it is due

---
 database/transaction_recovery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/transaction_recovery.go b/database/transaction_recovery.go
index a032786..055bba0 100644
--- a/database/transaction_recovery.go
+++ b/database/transaction_recovery.go
@@ -39,7 +39,7 @@ func (d Datasource) GetStuckQueuedTransactions(ctx context.Context, threshold ti
 	rows, err := d.Conn.QueryContext(ctx, `
 		SELECT transaction_id, parent_transaction, source, reference, amount, precise_amount, precision, currency, destination, description, status, created_at, meta_data, scheduled_for, hash, effective_date
 		FROM blnk.transactions t
-		WHERE t.status = 'QUEUED'
+		WHERE (t.status = 'QUEUED' OR (t.status = 'SCHEDULED' AND t.scheduled_for < $1))
 		  AND t.created_at < $1
 		  AND NOT EXISTS (
 		      SELECT 1 FROM blnk.transactions child
-- 
2.43.0


From 770cf0bd45a76886291dbcfcc69854ef0eef6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 72/78] fix: expiry and commit dates reach holds that are
 placed late, or under a split member of a bulk

---
 cmd/workers.go              |  11 ++-
 queue.go                    |  22 +++++-
 transaction_inflight_due.go | 151 ++++++++++++++++++++++++++++++++++++
 3 files changed, 179 insertions(+), 5 deletions(-)
 create mode 100644 transaction_inflight_due.go

diff --git a/cmd/workers.go b/cmd/workers.go
index 0037906..b411059 100644
--- a/cmd/workers.go
+++ b/cmd/workers.go
@@ -314,7 +314,13 @@ func (b *blnkInstance) processInflightCommit(ctx context.Context, t *asynq.Task)
 		}
 	}
 
-	retryable, err := b.blnk.RunInflightActionByParent(ctx, p.TransactionID, action, amount, p.ActionID)
+	var retryable bool
+	var err error
+	if p.Scheduled {
+		retryable, err = b.blnk.CommitDueInflight(ctx, p.TransactionID, p.ActionID)
+	} else {
+		retryable, err = b.blnk.RunInflightActionByParent(ctx, p.TransactionID, action, amount, p.ActionID)
+	}
 	if err != nil && retryable {
 		return err // transient failure; asynq will retry
 	}
@@ -338,8 +344,7 @@ func (b *blnkInstance) processInflightExpiry(cxt context.Context, t *asynq.Task)
 
 	// Void every inflight leg under the transaction. A queued or split transaction's holds are
 	// recorded on its children, the same expansion the void endpoint performs.
-	_, err := b.blnk.ProcessTransactionInBatches(cxt, txnID, big.NewInt(0), 1, false, b.blnk.GetInflightTransactionsByParentID, b.blnk.VoidWorker)
-	if err != nil {
+	if err := b.blnk.VoidExpiredInflight(cxt, txnID); err != nil {
 		return err
 	}
 
diff --git a/queue.go b/queue.go
index 1397890..1b2da76 100644
--- a/queue.go
+++ b/queue.go
@@ -73,6 +73,7 @@ type InflightActionPayload struct {
 	Action        string `json:"action"`         // "commit" | "void"
 	PreciseAmount string `json:"precise_amount"` // big.Int string; "0" = full remaining
 	ActionID      string `json:"action_id"`
+	Scheduled     bool   `json:"scheduled,omitempty"` // an inflight_commit_date has come
 }
 
 // EnqueueInflightAction enqueues a commit or void to the inflight-commit queue.
@@ -258,6 +259,22 @@ func (q *Queue) Enqueue(ctx context.Context, transaction *model.Transaction) err
 	return nil
 }
 
+// notBefore returns the moment a hold's expiry or commit date can take effect: a scheduled
+// hold is not there before the time it is scheduled for.
+//
+// Parameters:
+// - due time.Time: The date given for the hold.
+// - scheduledFor time.Time: The time the hold is scheduled for, if it is.
+//
+// Returns:
+// - time.Time: The later of the two.
+func notBefore(due, scheduledFor time.Time) time.Time {
+	if scheduledFor.After(due) {
+		return scheduledFor
+	}
+	return due
+}
+
 // QueueInflightExpiry handles queuing a transaction for inflight expiration.
 // This method is separate from the main Enqueue to ensure expiration is handled
 // regardless of whether the transaction is queued or processed immediately.
@@ -270,7 +287,7 @@ func (q *Queue) Enqueue(ctx context.Context, transaction *model.Transaction) err
 // - error: An error if the expiration could not be queued.
 func (q *Queue) QueueInflightExpiry(ctx context.Context, transaction *model.Transaction) error {
 	if !transaction.InflightExpiryDate.IsZero() {
-		return q.queueInflightExpiry(transaction.TransactionID, transaction.InflightExpiryDate)
+		return q.queueInflightExpiry(transaction.TransactionID, notBefore(transaction.InflightExpiryDate, transaction.ScheduledFor))
 	}
 	return nil
 }
@@ -377,6 +394,7 @@ func (q *Queue) queueInflightCommit(transactionID string, commitAt time.Time) er
 		Action:        InflightActionCommit,
 		PreciseAmount: "0",
 		ActionID:      model.GenerateUUIDWithSuffix("act"),
+		Scheduled:     true,
 	})
 	if err != nil {
 		return err
@@ -409,7 +427,7 @@ func (q *Queue) queueInflightCommit(transactionID string, commitAt time.Time) er
 // - error: An error if the task could not be enqueued.
 func (q *Queue) QueueInflightCommit(ctx context.Context, transaction *model.Transaction) error {
 	if !transaction.InflightCommitDate.IsZero() {
-		return q.queueInflightCommit(transaction.TransactionID, transaction.InflightCommitDate)
+		return q.queueInflightCommit(transaction.TransactionID, notBefore(transaction.InflightCommitDate, transaction.ScheduledFor))
 	}
 	return nil
 }
diff --git a/transaction_inflight_due.go b/transaction_inflight_due.go
new file mode 100644
index 0000000..033df5f
--- /dev/null
+++ b/transaction_inflight_due.go
@@ -0,0 +1,151 @@
+/*
+Copyright 2024 Blnk Finance Authors.
+
+Licensed under the Apache License, Version 2.0 (the "License");
+you may not use this file except in compliance with the License.
+You may obtain a copy of the License at
+
+    http://www.apache.org/licenses/LICENSE-2.0
+
+Unless required by applicable law or agreed to in writing, software
+distributed under the License is distributed on an "AS IS" BASIS,
+WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+See the License for the specific language governing permissions and
+limitations under the License.
+*/
+
+package blnk
+
+import (
+	"context"
+	"errors"
+	"math/big"
+
+	"github.com/blnkfinance/blnk/internal/filter"
+)
+
+// expiryActionID seeds the references of the voids an expiry records.
+const expiryActionID = "expiry"
+
+// errInflightNotPlaced is returned when an expiry or commit date has come before the queue
+// placed every hold of the transaction.
+var errInflightNotPlaced = errors.New("the transaction has holds the queue has not placed yet")
+
+// queuedInflightLegs lists the queued or scheduled rows that stand for a transaction or its legs,
+// and reports whether the queue has yet to decide one of them.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - transactionID string: The transaction as the caller knows it.
+//
+// Returns:
+// - []string: The IDs of the queued rows; a hold is recorded as the child of one of them.
+// - bool: True if a row has no outcome yet, or nothing is recorded for the transaction.
+// - error: An error if the rows could not be read.
+func (l *Blnk) queuedInflightLegs(ctx context.Context, transactionID string) ([]string, bool, error) {
+	const pageSize = 500
+	filters := &filter.QueryFilterSet{
+		LogicalOperator: filter.LogicalOr,
+		Filters: []filter.QueryFilter{
+			{Field: "transaction_id", Operator: filter.OpEqual, Value: transactionID},
+			{Field: "parent_transaction", Operator: filter.OpEqual, Value: transactionID},
+		},
+	}
+
+	var legs []string
+	waiting, recorded := false, false
+	for offset := 0; ; offset += pageSize {
+		rows, err := l.datasource.GetAllTransactionsWithFilter(ctx, filters, pageSize, offset)
+		if err != nil {
+			return nil, false, err
+		}
+		for i := range rows {
+			recorded = true
+			if rows[i].Status != StatusQueued && rows[i].Status != StatusScheduled {
+				continue
+			}
+			if inflight, _ := rows[i].MetaData["inflight"].(bool); !inflight {
+				continue
+			}
+			legs = append(legs, rows[i].TransactionID)
+			decided, err := l.datasource.TransactionExistsByRef(ctx, rows[i].Reference+"_q")
+			if err != nil {
+				return nil, false, err
+			}
+			waiting = waiting || !decided
+		}
+		if len(rows) < pageSize {
+			return legs, waiting || !recorded, nil
+		}
+	}
+}
+
+// settleDueInflight commits or voids what is left of a transaction's holds, whose time has come:
+// its own, those of its legs, and those the queue placed for either.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - transactionID string: The transaction as the caller knows it.
+// - action string: InflightActionCommit or InflightActionVoid.
+// - actionID string: Seeds the references of the settlements, so that attempts can be repeated.
+//
+// Returns:
+// - bool: True if the attempt should be repeated.
+// - error: An error if something could not be settled, or is not there yet.
+func (l *Blnk) settleDueInflight(ctx context.Context, transactionID, action, actionID string) (bool, error) {
+	legs, waiting, err := l.queuedInflightLegs(ctx, transactionID)
+	if err != nil {
+		return true, err
+	}
+
+	retryable, failed := l.RunInflightActionByParent(ctx, transactionID, action, big.NewInt(0), actionID)
+	for _, leg := range legs {
+		if leg == transactionID {
+			continue
+		}
+		again, err := l.RunInflightActionByParent(ctx, leg, action, big.NewInt(0), actionID)
+		if err != nil {
+			failed, retryable = err, retryable || again
+		}
+	}
+	if waiting {
+		return true, errInflightNotPlaced
+	}
+	return retryable, failed
+}
+
+// CommitDueInflight commits a transaction whose commit date has come.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - transactionID string: The transaction the date was given for.
+// - actionID string: Seeds the references of the commits.
+//
+// Returns:
+// - bool: True if the attempt should be repeated.
+// - error: An error if something could not be committed, or is not there yet.
+func (l *Blnk) CommitDueInflight(ctx context.Context, transactionID, actionID string) (bool, error) {
+	return l.settleDueInflight(ctx, transactionID, InflightActionCommit, actionID)
+}
+
+// VoidExpiredInflight voids a transaction whose expiry date has come.
+//
+// Parameters:
+// - ctx context.Context: The context for the operation.
+// - transactionID string: The transaction the date was given for.
+//
+// Returns:
+// - error: An error if something could not be voided, or is not there yet.
+func (l *Blnk) VoidExpiredInflight(ctx context.Context, transactionID string) error {
+	legs, waiting, err := l.queuedInflightLegs(ctx, transactionID)
+	if err != nil {
+		return err
+	}
+	if len(legs) == 0 && !waiting {
+		// Recorded without the queue: the holds are found under the transaction itself.
+		_, err := l.ProcessTransactionInBatches(ctx, transactionID, big.NewInt(0), 1, false, l.GetInflightTransactionsByParentID, l.VoidWorker)
+		return err
+	}
+	_, err = l.settleDueInflight(ctx, transactionID, InflightActionVoid, expiryActionID)
+	return err
+}
-- 
2.43.0


From 00c01ebe9320a0a7c9a54f33eed7f770f4d41406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 73/78] fix: scheduled and expiring work does not run within
 the second before it is due

---
 queue.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/queue.go b/queue.go
index 1b2da76..5fd2139 100644
--- a/queue.go
+++ b/queue.go
@@ -146,7 +146,7 @@ func (q *Queue) queueInflightExpiry(transactionID string, expiresAt time.Time) e
 	taskOptions := []asynq.Option{
 		asynq.TaskID(transactionID),
 		asynq.Queue(q.config.Queue.InflightExpiryQueue),
-		asynq.ProcessIn(time.Until(expiresAt)),
+		processAt(expiresAt),
 	}
 	task := asynq.NewTask(q.config.Queue.InflightExpiryQueue, IPayload, taskOptions...)
 	_, err = q.Client.Enqueue(task)
@@ -259,6 +259,21 @@ func (q *Queue) Enqueue(ctx context.Context, transaction *model.Transaction) err
 	return nil
 }
 
+// processAt makes a task due at the given time. The queue keeps due times in whole seconds
+// and rounds them down, which would be before the time given.
+//
+// Parameters:
+// - due time.Time: The time before which the task must not run.
+//
+// Returns:
+// - asynq.Option: The task option.
+func processAt(due time.Time) asynq.Option {
+	if whole := due.Truncate(time.Second); whole.Before(due) {
+		due = whole.Add(time.Second)
+	}
+	return asynq.ProcessAt(due)
+}
+
 // notBefore returns the moment a hold's expiry or commit date can take effect: a scheduled
 // hold is not there before the time it is scheduled for.
 //
@@ -308,7 +323,7 @@ func (q *Queue) geTask(transaction *model.Transaction, payload []byte) *asynq.Ta
 
 	taskOptions := []asynq.Option{asynq.TaskID(transaction.TransactionID), asynq.Queue(queueName)}
 	if !transaction.ScheduledFor.IsZero() {
-		taskOptions = append(taskOptions, asynq.ProcessIn(time.Until(transaction.ScheduledFor)))
+		taskOptions = append(taskOptions, processAt(transaction.ScheduledFor))
 	}
 
 	return asynq.NewTask(queueName, payload, taskOptions...)
@@ -403,7 +418,7 @@ func (q *Queue) queueInflightCommit(transactionID string, commitAt time.Time) er
 	taskOptions := []asynq.Option{
 		asynq.TaskID(transactionID),
 		asynq.Queue(q.config.Queue.InflightCommitQueue),
-		asynq.ProcessIn(time.Until(commitAt)),
+		processAt(commitAt),
 	}
 
 	task := asynq.NewTask(q.config.Queue.InflightCommitQueue, IPayload, taskOptions...)
-- 
2.43.0


From 49d685d5fc0bc9c662d5d32f726d924b170d9668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 74/78] fix: withhold credentials in connection strings,
 headers, JSON and structs, and survive nil values, when exporting log records

---
 internal/monitoringexporter/redact.go | 102 ++++++++++++++++++++++++--
 1 file changed, 97 insertions(+), 5 deletions(-)

diff --git a/internal/monitoringexporter/redact.go b/internal/monitoringexporter/redact.go
index b6fbbf0..10cd170 100644
--- a/internal/monitoringexporter/redact.go
+++ b/internal/monitoringexporter/redact.go
@@ -1,11 +1,14 @@
 package monitoringexporter
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
 	"net/url"
 	"reflect"
 	"regexp"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sirupsen/logrus"
 )
@@ -19,6 +22,11 @@ var sensitiveKeyParts = []string{
 	"password",
 	"api_key",
 	"apikey",
+	"blnk_key",
+	"access_key",
+	"private_key",
+	"encryption_key",
+	"passwd",
 	"credential",
 	"dsn",
 	"url",
@@ -30,9 +38,15 @@ var sensitiveKeyParts = []string{
 }
 
 var (
-	absoluteURLPattern = regexp.MustCompile(`https?://[^\s"'<>]+`)
-	queryValuePattern  = regexp.MustCompile(`([?&][^=\s&]+)=([^&\s]+)`)
-	bearerPattern      = regexp.MustCompile(`(?i)\bBearer\s+[A-Za-z0-9._~+/=-]+`)
+	absoluteURLPattern = regexp.MustCompile(`(?i)https?://[^\s"'<>]+`)
+	// Connection strings of databases, caches and brokers carry their credentials like URLs do.
+	userinfoPattern   = regexp.MustCompile(`([A-Za-z][A-Za-z0-9+.-]*://)[^\s/"'<>]*@`)
+	queryValuePattern = regexp.MustCompile(`([?&][^=\s&]+)=([^&\s]+)`)
+	bearerPattern     = regexp.MustCompile(`(?i)\bBearer\s+[A-Za-z0-9._~+/=-]+`)
+	headerPattern     = regexp.MustCompile(`(?i)\b((?:proxy-)?authorization|x-blnk-key|x-api-key)(\s*:\s*)(?:(?:basic|digest|bearer)\s+)?[^\s"']+`)
+	// name=value and "name":"value", as in keyword connection strings and JSON bodies.
+	assignmentPattern = regexp.MustCompile(`([A-Za-z0-9_.-]+)(=)('[^']*'|"[^"]*"|[^\s&;,"']+)`)
+	jsonMemberPattern = regexp.MustCompile(`"([^"\\]+)"(\s*:\s*)"(?:[^"\\]|\\.)*"`)
 )
 
 func RedactFields(fields logrus.Fields) map[string]interface{} {
@@ -56,6 +70,13 @@ func RedactValue(value interface{}) interface{} {
 		return nil
 	}
 
+	switch rv := reflect.ValueOf(value); rv.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface, reflect.Func, reflect.Chan:
+		if rv.IsNil() {
+			return nil
+		}
+	}
+
 	switch v := value.(type) {
 	case error:
 		return RedactString(v.Error())
@@ -63,6 +84,10 @@ func RedactValue(value interface{}) interface{} {
 		return RedactString(v)
 	case fmt.Stringer:
 		return RedactString(v.String())
+	case json.RawMessage:
+		return redactJSON(v)
+	case []byte:
+		return RedactString(string(v))
 	case map[string]interface{}:
 		out := make(map[string]interface{}, len(v))
 		for key, nested := range v {
@@ -102,12 +127,31 @@ func RedactValue(value interface{}) interface{} {
 
 func RedactString(value string) string {
 	value = bearerPattern.ReplaceAllString(value, "Bearer "+redacted)
+	value = headerPattern.ReplaceAllString(value, "$1$2"+redacted)
 	value = absoluteURLPattern.ReplaceAllStringFunc(value, redactURL)
+	value = userinfoPattern.ReplaceAllString(value, "$1"+redacted+"@")
 	value = queryValuePattern.ReplaceAllString(value, "$1"+redacted)
+	value = redactNamed(value, assignmentPattern, "%s%s"+redacted)
+	value = redactNamed(value, jsonMemberPattern, `"%s"%s"`+redacted+`"`)
 	if len(value) <= 512 {
 		return value
 	}
-	return value[:512] + "...[truncated]"
+	cut := 512
+	for cut > 0 && !utf8.RuneStart(value[cut]) {
+		cut--
+	}
+	return value[:cut] + "...[truncated]"
+}
+
+// redactNamed replaces the values that the pattern finds under sensitive names.
+func redactNamed(value string, pattern *regexp.Regexp, replacement string) string {
+	return pattern.ReplaceAllStringFunc(value, func(found string) string {
+		parts := pattern.FindStringSubmatch(found)
+		if !holdsSecret(parts[1]) {
+			return found
+		}
+		return fmt.Sprintf(replacement, parts[1], parts[2])
+	})
 }
 
 func redactURL(raw string) string {
@@ -125,6 +169,9 @@ func redactURL(raw string) string {
 		}
 		parsed.RawQuery = query.Encode()
 	}
+	if strings.Contains(parsed.Fragment, "=") {
+		parsed.Fragment, parsed.RawFragment = redacted, ""
+	}
 	return parsed.String()
 }
 
@@ -138,12 +185,57 @@ func IsSensitiveKey(key string) bool {
 	return false
 }
 
+// holdsSecret reports whether a name inside a text is that of a secret. What is withheld as a
+// field for other reasons (an endpoint, metadata) is an ordinary word in a text.
+func holdsSecret(name string) bool {
+	if !IsSensitiveKey(name) {
+		return false
+	}
+	normalized := strings.ToLower(strings.ReplaceAll(name, "-", "_"))
+	for _, part := range []string{"authorization", "token", "secret", "passw", "key", "credential"} {
+		if strings.Contains(normalized, part) {
+			return true
+		}
+	}
+	return false
+}
+
+// redactJSON redacts an encoded value by its members.
+func redactJSON(encoded []byte) interface{} {
+	decoder := json.NewDecoder(bytes.NewReader(encoded))
+	decoder.UseNumber()
+	var decoded interface{}
+	if err := decoder.Decode(&decoded); err != nil {
+		return RedactString(string(encoded))
+	}
+	return RedactValue(decoded)
+}
+
 func redactReflectValue(value interface{}) interface{} {
 	rv := reflect.ValueOf(value)
+	if rv.Kind() == reflect.Ptr && rv.Elem().Kind() != reflect.Struct {
+		return RedactValue(rv.Elem().Interface())
+	}
 	switch rv.Kind() {
+	case reflect.Struct, reflect.Ptr:
+		// Redacted as it would be exported, by the names its members have there.
+		encoded, err := json.Marshal(value)
+		if err != nil {
+			return redacted
+		}
+		return redactJSON(encoded)
 	case reflect.Map:
 		if rv.Type().Key().Kind() != reflect.String {
-			return value
+			out := make(map[string]interface{}, rv.Len())
+			for _, key := range rv.MapKeys() {
+				keyString := fmt.Sprint(key.Interface())
+				if IsSensitiveKey(keyString) {
+					out[keyString] = redacted
+					continue
+				}
+				out[keyString] = RedactValue(rv.MapIndex(key).Interface())
+			}
+			return out
 		}
 		out := make(map[string]interface{}, rv.Len())
 		for _, key := range rv.MapKeys() {
-- 
2.43.0


From 5b63f780d1acf9d9c9cec0f9ac9e8930c19367a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 75/78] fix: the backlog limit counts although some queues have
 not been used yet

---
 queue_backpressure.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/queue_backpressure.go b/queue_backpressure.go
index e20e857..df34fc9 100644
--- a/queue_backpressure.go
+++ b/queue_backpressure.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"slices"
 	"strconv"
 	"strings"
 	"time"
@@ -114,16 +115,25 @@ func (q *Queue) evaluateBackpressure(ctx context.Context) (bool, error) {
 }
 
 func (q *Queue) transactionQueuePendingCount() (int, error) {
+	// A queue is there once it has been given its first task.
+	existing, err := q.Inspector.Queues()
+	if err != nil {
+		return 0, err
+	}
+
 	total := 0
 	for i := 1; i <= q.config.Queue.NumberOfQueues; i++ {
 		queueName := fmt.Sprintf("%s_%d", q.config.Queue.TransactionQueue, i)
+		if !slices.Contains(existing, queueName) {
+			continue
+		}
 		n, err := queuePendingTotal(q.Inspector, queueName)
 		if err != nil {
 			return 0, err
 		}
 		total += n
 	}
-	if q.config.Queue.EnableHotLane {
+	if q.config.Queue.EnableHotLane && slices.Contains(existing, q.config.Queue.HotQueueName) {
 		n, err := queuePendingTotal(q.Inspector, q.config.Queue.HotQueueName)
 		if err != nil {
 			return 0, err
@@ -136,9 +146,6 @@ func (q *Queue) transactionQueuePendingCount() (int, error) {
 func queuePendingTotal(inspector *asynq.Inspector, queueName string) (int, error) {
 	info, err := inspector.GetQueueInfo(queueName)
 	if err != nil {
-		if errors.Is(err, asynq.ErrQueueNotFound) {
-			return 0, nil
-		}
 		return 0, err
 	}
 	return info.Pending + info.Scheduled + info.Retry, nil
-- 
2.43.0


From 1115c5c2bd862e62620875c9ae96d3ed23953015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:15 +0000
Subject: [PATCH 76/78] fix: an overloaded queue refuses a request before
 recording it, with the overload answer

---
 api/transactions.go  | 2 ++
 queue.go             | 7 ++-----
 transaction_queue.go | 8 ++++++++
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/api/transactions.go b/api/transactions.go
index 51a2467..bbafb84 100644
--- a/api/transactions.go
+++ b/api/transactions.go
@@ -670,6 +670,8 @@ func (a Api) CreateBulkTransactions(c *gin.Context) {
 		var apiErr apierror.APIError
 		if causeCode, causeMessage, ok := classifyCause(err); ok {
 			code, message = causeCode, causeMessage
+		} else if errors.Is(err, blnk.ErrQueueBackpressure) {
+			code = apierror.ErrQueueBackpressure
 		} else if errors.As(err, &apiErr) && apierror.Normalize(apiErr.Code) == apierror.ErrGenInternal {
 			code = apierror.ErrGenInternal
 		}
diff --git a/queue.go b/queue.go
index 5fd2139..cbca379 100644
--- a/queue.go
+++ b/queue.go
@@ -223,7 +223,8 @@ func (q *Queue) queueIndexData(id string, collection string, data interface{}) e
 	return nil
 }
 
-// Enqueue enqueues a transaction to the Redis queue.
+// Enqueue enqueues a transaction to the Redis queue. What it is given is already recorded, so
+// it is not refused under backpressure: QueueTransaction has admitted it.
 //
 // Parameters:
 // - ctx context.Context: The context for the operation.
@@ -235,10 +236,6 @@ func (q *Queue) Enqueue(ctx context.Context, transaction *model.Transaction) err
 	ctx, span := tracer.Start(ctx, "Adding Transaction To Redis Queue")
 	defer span.End()
 
-	if err := q.assertEnqueueAllowed(ctx); err != nil {
-		return err
-	}
-
 	payload, err := json.Marshal(transaction)
 	if err != nil {
 		return err
diff --git a/transaction_queue.go b/transaction_queue.go
index 4c33f9d..ce18d42 100644
--- a/transaction_queue.go
+++ b/transaction_queue.go
@@ -80,6 +80,14 @@ func (l *Blnk) QueueTransaction(ctx context.Context, transaction *model.Transact
 	}
 	originalTxnID := transaction.TransactionID
 
+	// An overloaded queue refuses here, while the caller can still be told and nothing is recorded.
+	if !transaction.SkipQueue {
+		if err := l.queue.assertEnqueueAllowed(ctx); err != nil {
+			span.RecordError(err)
+			return nil, err
+		}
+	}
+
 	// Handle split transactions if needed
 	transactions, err := l.handleSplitTransactions(ctx, transaction)
 	if err != nil {
-- 
2.43.0


From 04dd06cf66bb03daba1241173defa0c7b2e76816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:00 +0000
Subject: [PATCH 77/78] fix: noting an API key's use does not read a request
 that is over

---
 api/middleware/auth.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/api/middleware/auth.go b/api/middleware/auth.go
index 5803513..ea1cddf 100644
--- a/api/middleware/auth.go
+++ b/api/middleware/auth.go
@@ -18,6 +18,7 @@ package middleware
 
 import (
 	"bytes"
+	"context"
 	"crypto/subtle"
 	"encoding/json"
 	"io"
@@ -291,9 +292,11 @@ func (m *AuthMiddleware) Authenticate() gin.HandlerFunc {
 			}
 		}
 
-		// Update last used timestamp in background
+		// Update last used timestamp in background. The request may be over, and its gin context
+		// in use for another one, before that is done.
+		ctx := context.WithoutCancel(c.Request.Context())
 		go func() {
-			_ = m.service.UpdateLastUsed(c.Request.Context(), apiKey.APIKeyID)
+			_ = m.service.UpdateLastUsed(ctx, apiKey.APIKeyID)
 		}()
 
 		c.Set("apiKey", apiKey)
-- 
2.43.0


From 5e77359006542a6858a2fa5c7a8eb38e6e299328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 78/78] fix: the change-capture migration can be rolled back
 and applied again

---
 sql/1712749737.sql | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/1712749737.sql b/sql/1712749737.sql
index 9797c13..e2149e8 100644
--- a/sql/1712749737.sql
+++ b/sql/1712749737.sql
@@ -47,4 +47,11 @@ language plpgsql;
 CREATE TRIGGER transaction_after_insert AFTER INSERT ON blnk.transactions  FOR EACH ROW EXECUTE FUNCTION blnk.capture_changes();
 CREATE TRIGGER ledger_after_insert AFTER INSERT ON blnk.ledgers FOR EACH ROW EXECUTE FUNCTION blnk.capture_changes();
 CREATE TRIGGER balance_after_insert AFTER INSERT ON blnk.balances FOR EACH ROW EXECUTE FUNCTION blnk.capture_changes();
-CREATE TRIGGER balance_after_update AFTER UPDATE ON blnk.balances FOR EACH ROW EXECUTE FUNCTION blnk.capture_changes();
\ No newline at end of file
+CREATE TRIGGER balance_after_update AFTER UPDATE ON blnk.balances FOR EACH ROW EXECUTE FUNCTION blnk.capture_changes();
+
+-- +migrate Down
+DROP TRIGGER IF EXISTS balance_after_update ON blnk.balances;
+DROP TRIGGER IF EXISTS balance_after_insert ON blnk.balances;
+DROP TRIGGER IF EXISTS ledger_after_insert ON blnk.ledgers;
+DROP TRIGGER IF EXISTS transaction_after_insert ON blnk.transactions;
+DROP FUNCTION IF EXISTS blnk.capture_changes();
-- 
2.43.0

