#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01","Double-entry conservation at every commit",
 "As long as no transaction is posted between balances kept in different currencies (the service leaves that to its caller): in every state the database ever commits, and for every currency, the total credited over all balances equals the total debited, and the total of pending (inflight) credits equals the total of pending debits. For every balance, its balance is its credits minus its debits, and its inflight balance is its inflight credits minus its inflight debits.",
 ["histories","schedules","inputs","fault_sequences"],"every mix and interleaving of single, bulk, split, inflight, refund, queued, coalesced and rejected transactions, with and without database faults",
 "Existing tests need a live Postgres for any end-to-end posting (they are skipped or fail offline) and then compare a handful of balances after one call; none looks at every committed state of the whole ledger.",
 ["transaction_execution.go","model/transaction.go","model/balance.go","database/transaction.go","database/balance.go"],
 [("both sides computed from one amount","model/transaction.go UpdateBalances"),("one SQL transaction for both sides and the record","database/transaction.go RecordTransactionWithBalances*")],
 [("blnk.balances","credit/debit/inflight columns","sql/"),],["each database commit"])
p("P02","Balances equal the fold of the recorded transactions",
 "At any quiescent point, every balance's credit, debit, inflight credit and inflight debit amounts equal those obtained by replaying the recorded transactions that touch it: applied ones move money, inflight ones hold it, commits and voids release the hold, and queued or rejected ones move nothing.",
 ["histories","schedules","inputs"],"every history of recorded transactions and every interleaving of the workers and API calls that produced it",
 "Tests check the arithmetic of one transaction on one pair of structs; agreement of the stored ledger with its own history over long mixed histories is never evaluated.",
 ["transaction_execution.go","transaction_inflight.go","transaction_batch_processing.go","transaction_coalescing.go","database/transaction_coalescing.go","model/balance.go"],
 [("status decided together with the balance update","transaction_execution.go"),("optimistic version check","database/balance.go")],
 (),["transactions table","balances table"])
p("P03","A posting is all-or-nothing under any fault",
 "Whatever statement of a posting fails, whenever the connection drops (including around the commit itself), the two balances, the transaction record and its lineage task become durable together or not at all. A caller told the posting succeeded can always find it; a posting that was not applied leaves no trace in any balance.",
 ["crash_points","fault_sequences","histories"],"every database statement of every kind of posting, times {error, connection lost before, connection lost after, commit acknowledgement lost}",
 "Unit tests mock the datasource, so a statement that moves out of the SQL transaction, or a commit error that is swallowed, changes nothing they see; crash points are not enumerated anywhere.",
 ["database/transaction.go","database/transaction_coalescing.go","database/balance.go","transaction_execution.go","transaction_batch_processing.go"],
 [("BeginTx/Commit/Rollback around balances, transaction and outbox","database/transaction.go")],
 (),["wire protocol statements","committed rows"])
p("P04","Concurrent postings lose no update",
 "Postings that run at the same time on shared balances have the combined effect of running them one after another, each in full or not at all; no balance ever returns to or is overwritten from an older version. This holds even if the distributed locks expire or are lost.",
 ["schedules","fault_sequences"],"every interleaving of concurrent postings over shared balances, with the Redis locks working, expired, or flushed in the middle",
 "A lost update needs a particular interleaving of two read-modify-write cycles, often together with a lock that expired; the few concurrent tests need live servers and sample one schedule.",
 ["database/balance.go","transaction.go","transaction_execution.go","internal/lock/lock.go"],
 [("per-balance distributed lock","internal/lock"),("optimistic version check in the UPDATE","database/balance.go updateBalance")],
 [("balances.version","strictly increasing version of a balance","database/balance.go")],["balance row versions at every commit"])
p("P05","A reference is posted at most once",
 "However many times and however concurrently requests with the same reference are submitted, synchronously, queued, or in bulk, at most one of them is recorded and moves money. A duplicate refused on the synchronous path is answered with a client-visible error; a queued one that is acknowledged because it raced has no effect.",
 ["schedules","histories","inputs"],"every number, interleaving and mixture of entry points of submissions that share a reference",
 "Tests submit a duplicate after the first one finished; the check-then-insert race and the mixture of entry points are not exercised.",
 ["transaction.go","transaction_execution.go","transaction_queue.go","database/transaction_queries.go","database/transaction.go"],
 [("existence check before posting","transaction.go validateTxn"),("unique index on reference","sql/")],
 (),["transactions table per reference","API responses"])
p("P06","No balance is overdrawn without permission",
 "A posting that was not allowed to overdraw never leaves its source with less than zero available funds (balance minus pending debits), and one with an overdraft limit never takes it below minus that limit. A posting refused for insufficient funds changes no balance, and one that is within the available funds is not refused for that reason.",
 ["inputs","schedules","histories"],"every amount (including beyond 64 bits), starting balance, existing holds, overdraft flag and limit, alone or racing other debits of the same source",
 "Unit tests check some boundary amounts of the comparison on one struct; races between debits and holds, and the coalesced, queued and inflight routes to the same check, are not covered.",
 ["model/transaction.go","model/balance.go","transaction_execution.go","transaction_batch_processing.go","transaction_coalescing.go"],
 [("canProcessTransaction","model/transaction.go"),("balances loaded under the lock","transaction_execution.go")],
 (),["source balance at every commit"])
p("P07","An inflight hold settles exactly, once",
 "The amounts committed out of an inflight transaction plus the amount voided never exceed what was held; a void releases exactly what has not been committed, and once everything is committed or voided no further commit or void succeeds. Source and destination move by exactly the committed amount, and the pending totals return to where they were before the hold.",
 ["histories","schedules","inputs"],"every sequence and interleaving of full and partial commits and voids, by amount or precise amount, on any hold",
 "Tests run one commit or one void against a mock; over-commit requires several partial commits racing or following each other in the real store.",
 ["transaction_inflight.go","database/transaction_inflight.go","model/balance.go","transaction_bulk.go"],
 [("lock on the inflight transaction","transaction_inflight.go"),("remaining amount from committed children","database/transaction_inflight.go")],
 (),["children of each inflight transaction","balances"])
p("P08","Queued inflight actions take effect exactly once",
 "A commit or void that is accepted for asynchronous execution (one by one or for a whole batch) takes effect exactly once in spite of duplicate requests, duplicate deliveries, retries and temporary database failures, and an amount carried by the request is honoured. A second action on the same hold while one is pending is refused or has no effect.",
 ["schedules","histories","fault_sequences"],"every ordering of requests, deliveries, redeliveries and transient faults",
 "Tests stop at 'the task was enqueued' or run the handler once against a mock.",
 ["queue.go","transaction_inflight.go","transaction_bulk.go","cmd/workers.go","api/transactions.go"],
 [("task id per inflight transaction","queue.go"),("idempotent processing of the action","transaction_inflight.go")],
 (),["queue contents","children of each inflight transaction"])
p("P09","A refund reverses exactly once",
 "Refunding an applied transaction moves exactly its amount back from its destination to its source, and restores both balances; a transaction is refunded at most once however many refund requests arrive, at once or later. A transaction that has moved nothing (queued, held or rejected) cannot be refunded.",
 ["schedules","histories","inputs"],"every order and interleaving of refunds, single or in bulk, on transactions in every status",
 "Tests check the shape of one refund built from a mock; double refunds need concurrency or a prior refund in the real store.",
 ["transaction_refunds.go","database/transaction_refunds.go","transaction_bulk.go"],
 [("lock refund:<id>","transaction_refunds.go"),("already-refunded check","database/transaction_refunds.go"),("derived reference","transaction_refunds.go")],
 (),["balances","transactions by parent"])
p("P10","A queued transaction gets exactly one outcome",
 "Every transaction (identified by its reference) acknowledged as queued, and if the service crashes every one recorded as queued, ends with exactly one outcome: it is posted once, or it is rejected once. Neither retries, duplicate deliveries, worker crashes nor the recovery of stuck transactions can apply it twice, both apply and reject it, or lose it.",
 ["schedules","histories","crash_points","fault_sequences"],"every delivery order, redelivery, transient error and crash point between enqueue and acknowledgement, with and without recovery",
 "Tests call the queue handler once against mocks; redelivery after a partial failure and the recovery sweep racing with a live delivery are not exercised.",
 ["transaction_queue.go","queue.go","queue_recovery.go","cmd/workers.go","transaction_rejection.go"],
 [("queue copy reference derived from the original","transaction_queue.go"),("unique reference","sql/"),("recovery of stuck transactions","queue_recovery.go")],
 (),["children of each queued transaction","balances"])
p("P11","Rejections move nothing and say why",
 "A rejected transaction is recorded with status REJECTED and its reason, moves no money and holds none. A permanent refusal such as insufficient funds is not retried into a posting, and a rejected transaction cannot later be committed, voided or refunded.",
 ["histories","inputs","schedules"],"every cause of rejection and every later action on the rejected transaction",
 "Tests reject one transaction against a mock datasource and look at the returned struct.",
 ["transaction_rejection.go","cmd/workers.go","transaction_inflight.go","transaction_refunds.go"],
 [("RejectTransaction","transaction_rejection.go")],(),["rejected rows","balances"])
p("P12","An atomic bulk succeeds or fails as a whole",
 "When an atomic batch of transactions fails at any member, for whatever reason, every balance ends where it was before the batch and no member stays applied or held; when it succeeds every member is applied (or held, for inflight). A non-atomic batch keeps exactly the members that succeeded, and the reported outcome is the true one.",
 ["inputs","histories","fault_sequences"],"every batch composition, failing position, failure cause, inflight, queue and asynchronous flags",
 "Tests cover one failing member with mocks; the compensation of the members already posted is not evaluated against a store.",
 ["transaction_bulk.go","transaction_refunds.go","api/transactions.go"],
 [("rollback by refund or void","transaction_bulk.go")],(),["balances before and after","children by batch"])
p("P13","Splitting a transaction conserves its amount",
 "The legs of a transaction with several sources or destinations add up exactly, in the smallest unit, to the transaction's amount; every leg is attributed to the identifier it was configured for with its fixed, percentage or remaining share. Distributions that cannot cover the amount exactly (over or under it, or more than one remainder) are refused before anything moves.",
 ["inputs"],"every amount, precision and combination of fixed, percentage and remainder distributions",
 "Tests try some distributions; rounding residues depend on amount, precision and shares together, and on map iteration order.",
 ["model/transaction.go","transaction_queue.go"],
 [("SplitTransactionPrecise","model/transaction.go"),("CalculateDistributionsPrecise","model/transaction.go")],(),["legs returned and posted"])
p("P14","Amounts are exact at any size and precision",
 "The stored precise amount is exactly amount times precision, rounded once, for every representable amount and precision, and a precise amount given by the caller is stored unchanged at any size. Sums kept in balances are exact integers: no posting, reading, serialisation or comparison loses or invents a unit.",
 ["inputs"],"every decimal amount, precise amount (to hundreds of bits), precision and rate",
 "Tests use small amounts where floating point is exact; the failures live beyond 2^53 and 2^63 and at awkward decimals.",
 ["model/transaction.go","model/balance.go","model/model.go","database/balance.go","database/transaction.go"],
 [("decimal/big.Int arithmetic","model/transaction.go ApplyPrecision")],(),["model functions","stored numerics","API JSON"])
p("P15","Coalesced processing equals one-by-one processing",
 "When workers process queued transactions in batches, the transactions applied, held and rejected, the flags and amounts of each record, and all balances are what processing each of them individually in some order would have produced. No member of a batch is skipped, applied twice, or judged against funds other members already used.",
 ["schedules","histories","inputs"],"every set of queued transactions over shared balances, batch size, scope and mid-batch failure",
 "Tests check batch selection with mocks; equivalence with the sequential system over a real store is never computed.",
 ["transaction_coalescing.go","transaction_batch_processing.go","database/transaction_coalescing.go","model/transaction_preview.go","model/clone.go"],
 [("batch application with fallback to individual processing","transaction_batch_processing.go")],(),["balances and transactions tables"])
p("P16","A recorded transaction never changes",
 "Once recorded, the amount, parties, currency, precision, reference, status, hash and creation time of a transaction never change; later facts are recorded as further transactions. Only its metadata and its place in the hash chain can be added, and balance snapshots and journal entries are likewise never altered.",
 ["histories","schedules"],"every API call, worker and background job that can touch recorded rows",
 "A test sees only the rows it asks for after a call; immutability is a statement about every row over the whole history.",
 ["sql/","database/transaction.go","database/metadata.go","database/chain.go"],
 [("prevent_transaction_update trigger","sql/")],(),["row changes at every commit"])
p("P17","The hash chain reveals any tampering",
 "Chained transactions are numbered consecutively and each links to its predecessor; verification of an untouched ledger succeeds, at any chaining batch size, with concurrent chaining and insertion. Altering a sealed field of a chained row (its identifier, parties, amount, precise amount, currency, status, reference or creation time) or its links, or removing, inserting or reordering rows anywhere in the chain, makes verification fail.",
 ["histories","schedules","inputs"],"every recorded ledger, every chaining schedule and every single-row modification, deletion, insertion or swap",
 "Tests tamper with one or two fields of a mocked row; which fields and which positions (first, last, boundary of a page) are protected is a universally quantified claim.",
 ["database/chain.go","model/chain.go","chain_worker.go","cmd/verify_chain.go"],
 [("chain link hash","model/chain.go"),("VerifyChain","database/chain.go")],
 [("chain_state","tip of the chain","sql/")],["verification report"])
p("P18","Historical balances match the history",
 "The balance reported for a past moment equals the effect of exactly the transactions effective at or before that moment, whether computed from the transactions or from snapshots. Taking snapshots never changes an answer.",
 ["histories","inputs"],"every history with or without backdated effective dates, every query time and every set of snapshots",
 "Tests mock the query results, so the query itself is never evaluated.",
 ["database/balance.go","balance.go","sql/"],
 [("GetBalanceAtTime with snapshots","database/balance.go"),("take_daily_balance_snapshots_batched","sql/")],(),["API answer versus replay"])
p("P19","Dry runs change nothing and predict the outcome",
 "A dry run of a transaction, bulk, refund, commit or void writes nothing to the database and leaves no task, hook call or moved money. With nothing else going on, when it predicts success the same call made for real succeeds with the predicted status, precise amount and balances, and when it predicts failure the call fails. Members that run in no fixed order (queued legs and batch members, items of a bulk commit or void) are each predicted as if alone. Which error code is given first is not claimed.",
 ["inputs","histories"],"every request that the real endpoints accept or refuse, in every ledger state",
 "Tests compare a few fields of a few requests against mocks.",
 ["transaction_dryrun.go","transaction_dryrun_bulk.go","transaction_dryrun_inflight.go","model/transaction_preview.go","api/transactions.go"],
 [("shared preview arithmetic","model/transaction_preview.go")],(),["database write log","response versus later outcome"])
p("P20","Fund lineage conserves every provider's money",
 "For a balance that tracks fund lineage, money received under a provider is attributed to that provider, money spent is drawn from the recorded providers in the configured order (first in, last in, or proportional) and never beyond what a provider has left. The parts drawn add up exactly to the amount covered, and the aggregate equals the sum over providers.",
 ["histories","inputs","schedules"],"every sequence of provider credits and debits, allocation strategy, amount and interleaving of lineage work",
 "Tests check the allocation function on small vectors; conservation over histories through the outbox is not evaluated.",
 ["lineage.go","lineage_credit.go","lineage_debit.go","lineage_allocation.go","lineage_shadow.go","lineage_processing.go","database/lineage.go"],
 [("shadow and aggregate balances","lineage_shadow.go"),("allocation","lineage_allocation.go")],(),["shadow balances","allocation results"])
p("P21","Lineage work is neither lost nor repeated",
 "Every posting that affects lineage leaves exactly one task, written with the posting; a task is worked on by one worker at a time and its effect is applied once in spite of failures and retries. A task that keeps failing stops after a bounded number of attempts and is marked failed.",
 ["schedules","crash_points","fault_sequences"],"every crash point and transient failure during lineage work with any number of workers",
 "Tests drive claim and mark functions with a mock; concurrent claims and re-execution after a partial failure are not exercised.",
 ["lineage_outbox.go","lineage_worker.go","lineage_processing.go","database/lineage.go"],
 [("outbox row in the posting's transaction","database/transaction.go"),("claim with SKIP LOCKED and lease","database/lineage.go")],(),["lineage_outbox rows","shadow transactions"])
p("P22","Locks exclude and only their holder releases them",
 "At most one client holds a lock on a key at a time, and only its holder can release or extend it. Locking several keys takes all or none whatever the order they are given in, and never deadlocks.",
 ["schedules","inputs","fault_sequences"],"every interleaving of clients, expiries, releases, extensions and overlapping key sets",
 "Tests acquire and release sequentially, or mock Redis answers.",
 ["internal/lock/lock.go"],
 [("SET NX with owner value, compare-and-delete","internal/lock/lock.go"),("sorted key order and rollback","internal/lock/lock.go")],(),["lock call history"])
p("P23","No request passes without the right credentials",
 "With security enabled, every registered route except the root, health and metrics ones answers 401 to missing, wrong, revoked or expired credentials and 403 to a key whose scopes do not grant that action on that resource, with no effect on the store. The master key passes everywhere and a key with the right scope is not refused.",
 ["inputs","programs"],"every registered route and method, every kind of credential and every scope",
 "Tests try a few routes and scopes; a route mapped to the wrong resource or registered outside the middleware is invisible to them.",
 ["api/api.go","api/middleware/auth.go","api/middleware/scope.go"],
 [("auth middleware on the whole router","api/middleware/auth.go"),("scope table","api/middleware/scope.go")],(),["HTTP status for route x method x credential","row changes"])
p("P24","API keys stay within their owner and lifetime",
 "A caller using an API key can list, create and revoke only keys of its own owner and cannot grant scopes it lacks; a revoked or expired key never authenticates again. The secret is shown once at creation and is never stored or returned afterwards in usable form.",
 ["histories","inputs"],"every sequence of create, use, list, revoke and expire by different owners",
 "Tests use one owner at a time and a mocked store.",
 ["apikey.go","api/apikeys.go","database/api_key.go","model/api_key.go","api/middleware/auth.go"],
 [("hashed key storage","database/api_key.go"),("owner checks","api/apikeys.go")],(),["api_keys rows","HTTP responses"])
p("P25","Tokenised identity data is hidden and recoverable",
 "Tokenising a field of an identity replaces it by a token that does not reveal the original value, keeps the promised format, and detokenising returns exactly the original, for any text. Fields that were not tokenised are untouched, tokenising twice is refused, and a token made under another key is not silently accepted.",
 ["inputs","histories"],"every field, text value (including Unicode, very long and empty) and sequence of tokenise and detokenise operations",
 "Tests use a few ASCII names.",
 ["internal/tokenization/tokenization.go","identity.go","api/identity.go","model/identity.go"],
 [("AES-GCM and format preserving tokens","internal/tokenization")],(),["stored identity rows","API responses"])
p("P26","Filters select exactly the matching records",
 "A filtered or advanced listing returns exactly the records that satisfy all (or any, as asked) of its conditions, in the requested order, once each across pages, and the reported count agrees. No filter value or field name can change the meaning of the query or reach data outside it.",
 ["inputs"],"every combination of fields, operators, values, logical mode, sorting and paging, including hostile strings",
 "Tests compare generated SQL text or a few requests; the selected set is never compared with an independent evaluation.",
 ["internal/filter/","database/transaction_filters.go","database/balance.go","database/ledger.go","database/identity.go","database/account.go","api/filter_helper.go"],
 [("parameterised SQL builder","internal/filter/sql_builder.go"),("field whitelist","internal/filter/validation.go")],(),["rows returned versus in-memory evaluation"])
p("P27","Webhooks are delivered intact and signed",
 "Every notification queued for the configured webhook is delivered with the event name and the data as they were, retried while the receiver fails, and not repeated after a success. When a secret is configured each delivery carries a signature and timestamp by which the receiver can verify exactly the bytes it received.",
 ["fault_sequences","histories","inputs"],"every event and payload, every sequence of receiver answers",
 "Tests deliver once to a mock receiver.",
 ["webhooks.go","cmd/workers.go","queue.go"],
 [("asynq retries","webhooks.go"),("HMAC-SHA256 over timestamp and body","webhooks.go")],(),["receiver log"])
p("P28","Balance monitors fire exactly when their condition holds",
 "After a posting changes a balance, each monitor on it notifies if and only if its condition holds for the new value of the monitored field, for every operator and any size of threshold. Changed and deleted monitors take effect for the next posting.",
 ["inputs","histories"],"every field, operator, threshold and balance value; every sequence of create, update and delete",
 "Tests try a few comparisons of small numbers.",
 ["model/balance.go","balance.go","database/balance.go","api/balance.go"],
 [("CheckCondition","model/balance.go"),("checkBalanceMonitors","balance.go")],(),["webhook queue after postings"])
p("P29","Transaction hooks run as registered",
 "Every active hook of the right kind runs before or after each posting with that posting's data, in spite of other hooks failing; inactive, deleted and wrong-kind hooks never run. A failing hook is retried at most as configured and never changes the outcome of the posting or leaves it half done.",
 ["histories","fault_sequences","inputs"],"every registry state and every sequence of hook answers, timeouts and failures",
 "Tests run one hook against one mock.",
 ["internal/hooks/","blnk.go","transaction_execution.go","api/hooks.go"],
 [("hook manager","internal/hooks/manager.go")],(),["hook receiver log"])
p("P30","Reconciliation accounts for every external record",
 "When a reconciliation run completes, every external record is counted either matched or unmatched, never both and never neither, and the recorded totals equal the recorded matches. A pair is reported as matched only if it satisfies the matching rules asked for, and a record for which a satisfying transaction exists is not reported unmatched; a dry run records no matches.",
 ["inputs","schedules","histories"],"every set of external records, internal transactions, rules (criteria, operators, drifts), strategy and batch boundary",
 "Tests evaluate single criteria; counting under the concurrent matching and page boundaries of a whole run are not evaluated.",
 ["reconciliation.go","database/reconciliation.go","database/transaction_criteria.go","database/transaction_grouping.go"],
 [("strategies and matching rules","reconciliation.go")],(),["reconciliations, matches rows"])
p("P31","Metadata updates keep what they do not mention",
 "Updating the metadata of any entity replaces the keys given and keeps all others, on exactly that entity, and nothing but its metadata changes. Updating a transaction reaches the transaction and its related records, and an unknown entity is reported as such.",
 ["inputs","histories"],"every entity kind and state, every pair of existing and new metadata",
 "Tests mock the datasource and see the merged map of one example.",
 ["metadata.go","database/metadata.go","api/metadata.go"],
 [("read-merge-write and jsonb concatenation","database/metadata.go")],(),["row changes"])
p("P32","One source's queued work stays in its queue",
 "Transactions queued for the same source go to the same worker queue unless the pair is being contended, in which case they go to the hot lane and return when the contention ends. Beyond the configured backlog new work is refused with an overload answer before anything is recorded.",
 ["inputs","histories","schedules"],"every source, number of queues, contention history and backlog",
 "Tests try a few identifiers and one threshold.",
 ["queue.go","queue_backpressure.go","internal/hotpairs/"],
 [("hash routing","queue.go"),("hot pair tracker","internal/hotpairs")],(),["queue names and depth"])
p("P33","Failures are reported as what they are",
 "A request that fails because of the caller's input is answered with a 4xx and one that fails because of the service with a 5xx, with a stable error code, and never with a success status. Malformed, oversized or hostile input never crashes the service or leaks internal details such as SQL text.",
 ["inputs","fault_sequences"],"every route, malformed body, unknown identifier and injected database failure",
 "Tests cover a few messages for a few routes.",
 ["api/errors.go","internal/apierror/","api/","database/"],
 [("error classification","api/errors.go"),("recovery middleware","api/api.go")],(),["HTTP responses"])
p("P34","Secrets never reach logs or telemetry",
 "Values of sensitive keys (passwords, secrets, tokens, keys, authorisation headers, connection credentials) are replaced before log records or error reports leave the process, at any nesting depth and in any letter case. Non-sensitive values are left as they are.",
 ["inputs"],"every nested structure of keys and values and every carrier (field, message, header, URL)",
 "Tests try a list of keys at one depth.",
 ["internal/monitoringexporter/redact.go","internal/monitoringexporter/logs.go"],
 [("redaction","internal/monitoringexporter/redact.go")],(),["exported records"])
p("P35","Uploaded external data is stored as given, or refused",
 "Every record of an uploaded CSV or JSON file is stored exactly once with the values of its row under the upload's identifier, whatever the order of the columns, and a malformed file is refused or its bad rows reported. The stored count is the reported one.",
 ["inputs"],"every file of any size, column order, quoting, encoding and malformed row",
 "Tests upload one small well-formed file.",
 ["reconciliation.go","internal/files/","api/reconciliation_api.go"],
 [("file type detection and parsing","reconciliation.go")],(),["external_transactions rows"])
p("P36","The service is free of data races",
 "No two goroutines of the service access the same memory without synchronisation, one of them writing, under any concurrent mix of API requests, queue workers, lineage, recovery, chaining and reconciliation work.",
 ["schedules"],"every interleaving of the service's goroutines under concurrent mixed load",
 "The tests are not run with the race detector in the baseline and almost all of them are sequential.",
 ["blnk.go","queue.go","reconciliation.go","transaction_bulk.go","internal/cache/","internal/hotpairs/","internal/hooks/"],
 [("channels, mutexes, copies","throughout")],(),["race detector reports"])
p("P37","Reads after a write see it",
 "Once a write has been acknowledged, every later read of the same entity or listing through the API reflects it or something newer; a cached answer never outlives the change that made it wrong, and answers for one entity or query are never served for another.",
 ["histories","schedules","inputs"],"every sequence of writes and reads of accounts, balances, transactions, ledgers, identities, monitors and uploads",
 "Tests read once after a write with a mocked cache.",
 ["internal/cache/","database/transaction_queries.go","database/balance.go","database/account.go","database/reconciliation.go"],
 [("cache keys and invalidation","database/")],(),["read results versus committed rows"])
p("P38","Scheduled and expiring work happens when due",
 "A transaction scheduled for a time is not applied before it, and is applied once after it; an inflight transaction with an expiry is voided once after it, unless it was settled before, and not earlier. Neither survives a restart as lost or doubled.",
 ["histories","schedules","inputs"],"every schedule and expiry time relative to now, other actions on the transaction and queue restarts",
 "Tests look at the enqueued task's options only.",
 ["queue.go","transaction_queue.go","transaction_inflight.go","cmd/workers.go"],
 [("delayed tasks","queue.go")],(),["queue task due times","transactions"])
p("P39","The schema migrates up and down without loss",
 "Applying all migrations to an empty database gives a schema on which every query of the service runs; applying them again changes nothing, and migrations applied on a populated ledger keep every balance, transaction and reference as they were.",
 ["histories","programs"],"every prefix of the migration sequence with data present",
 "Tests never run the migrations on data.",
 ["sql/","cmd/migrate.go"],
 [("sql-migrate","cmd/migrate.go")],(),["schema and rows"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
