#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)
import json,os
P=[]
def p(id,title,statement,over,text,why,files,symbols):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=files[0] if len(files)==1 else ', '.join(files)) for x in symbols])))
S="internal/service/deckard_service.go";Q="internal/queue/queue.go";H="internal/queue/queue_housekeeper.go"
MC="internal/queue/cache/memory_cache.go";MS="internal/queue/storage/memory_storage.go"
RC="internal/queue/cache/redis_cache.go";RS="internal/queue/cache/redis_cache_scripts.go";MG="internal/queue/storage/mongo_storage.go"

p("C01","Score given to an added message is always a legal priority",
 "Whatever score a client puts in an add request (negative, huge, infinite or not-a-number included), the stored priority is a number between 0 and 2^53. A requested score inside that range, other than 0, is kept exactly; below it becomes 0, above it becomes 2^53; a requested 0 (the default) becomes the current time in milliseconds.",
 ["inputs"],"every 64-bit float a client can send and every clock reading",
 "Tests sample a dozen scores; nothing covers the whole float range, its infinities or NaN, or clock values.",
 ["internal/queue/score/score.go",S,"internal/dtime/deckard_time.go"],["score.GetAddScore","score.GetScoreByDefaultAlgorithm","Deckard.Add"])
p("C02","Pull score thresholds: 0 is no filter, everything else is clamped",
 "For a pull request, a minimum (or maximum) score of 0 means no lower (upper) threshold; any other value yields a threshold equal to that value clamped to the range from 0 to 2^53. A deprecated positive score filter with no maximum score behaves as a maximum score of current time in milliseconds minus the filter.",
 ["inputs"],"every float sent as minimum or maximum score and every score filter",
 "Unit tests check a handful of values of two functions, and nothing at the request level.",
 ["internal/queue/score/score.go",S],["score.GetPullMinScore","score.GetPullMaxScore","Deckard.Pull"])
p("C03","Score written by ack and nack follows the documented rule",
 "A non-zero score in an ack or nack request is the message's new score, capped to the range from 0 to 2^53, whether or not a lock is requested. With score 0 and no lock, an ack sets current time in milliseconds minus the requested subtraction, capped to that range, and a nack sets 0; with score 0 and a lock the score is left to be decided at unlock time (current time for an ack, 0 for a nack).",
 ["inputs"],"every score, score subtraction and lock duration of an ack or nack request, and every clock value",
 "Service tests use mocks and a few scores; no test sends out-of-range scores or combines a score with every lock value end to end.",
 [S,Q,MC],["Deckard.Ack","Deckard.Nack","Queue.Nack","Queue.Ack"])
p("C04","Queue name splits into prefix and suffix at the first separator",
 "For every queue name, if it contains the separator '::' the prefix is everything before its first occurrence and the suffix everything after it, so prefix + '::' + suffix is the name again; otherwise the prefix is the whole name and the suffix is empty.",
 ["inputs"],"every string used as a queue name (empty, repeated or overlapping separators included)",
 "Tests check three names; overlapping colons, leading and trailing separators are not covered.",
 ["internal/queue/message/message.go","internal/queue/pool/pool.go"],["message.GetQueueParts","message.GetQueuePrefix"])
p("C05","Time conversions lose nothing above one millisecond",
 "Converting milliseconds to a time and back gives the same milliseconds for every representable instant, and converting a time to milliseconds gives its whole milliseconds since the epoch. Rounding a time to millisecond precision changes it by less than one millisecond and is idempotent.",
 ["inputs"],"every millisecond value and every instant representable in 64-bit nanoseconds, before and after the epoch",
 "The tests convert one or two instants; negative values and sub-millisecond remainders are not covered.",
 ["internal/dtime/deckard_time.go"],["dtime.MsToTime","dtime.TimeToMs","dtime.MsPrecision","dtime.NowMs"])
p("C06","Pull request: bounded amount and a faithful response",
 "Whatever amount a client asks for, between 1 and 1000 messages are requested from the queue (at most 1000, at least 1), with the client's queue name and deadline unchanged. The response holds exactly the messages the queue returned, in the same order, each with its id, queue, score, breakpoint, payloads, metadata and counters unchanged; an error is reported as an error and an empty result as an empty list.",
 ["inputs"],"every pull request and every list of messages the queue can return, of any length",
 "Tests use lists of one or two messages and a few amounts.",
 [S],["Deckard.Pull","getMessageDiagnostic"])
p("C07","Add request: every message is stored and queued as sent, in order",
 "An add request hands every message of the request, in order and exactly once, to storage and then to the cache, with its id, queue, payloads, description, metadata and timeless flag unchanged and its queue prefix and suffix derived from its queue name. Its expiry is the current time plus its time to live, capped to the longest representable duration (plus 100 years when timeless), never earlier than the current time for a non-negative time to live. If storage fails nothing is queued and the client gets an error; the counts in the response are those storage reported.",
 ["inputs"],"every add request: any number of messages, any field values, any time to live, any storage or cache failure",
 "Tests send one or two messages with fixed fields and one TTL.",
 [S],["Deckard.Add"])
p("C08","In-memory cache: a message is in at most one pool, once",
 "After any history of operations on the in-memory cache, for every queue each message id appears at most once across the available, processing and lock pools of that queue, and every pool is ordered by score.",
 ["histories","inputs"],"every sequence of cache operations with any queues, ids and scores",
 "Tests run fixed short scenarios; the invariant must be preserved from every reachable state by every operation.",
 [MC],["MemoryCache.Insert","MemoryCache.PullMessages","MemoryCache.LockMessage","MemoryCache.UnlockMessages","MemoryCache.TimeoutMessages","MemoryCache.MakeAvailable","MemoryCache.Remove"])
p("C09","In-memory pull returns the lowest-score eligible messages, once",
 "A pull from the in-memory cache returns the n available messages with the lowest scores among those within the score thresholds, in non-decreasing score order, or all of them when fewer are eligible, wherever ineligible messages lie in the order. Each returned message leaves the available pool and enters the processing pool with a deadline of now plus the requested acknowledgement time (five minutes when none is requested); every other message stays where it was.",
 ["inputs","histories"],"every content of the pools, every n, thresholds and deadline",
 "Tests pull from pools of a few messages; interleavings of eligible and ineligible messages and deadlines are barely sampled.",
 [MC],["MemoryCache.PullMessages","insertEntry","removeEntry"])
p("C10","Only a message being processed can be acknowledged or locked (memory)",
 "In the in-memory cache, making a message available or locking it succeeds exactly when the message is in the processing pool of its queue; it then leaves that pool and is in the available pool with the given score, or in the requested lock pool until now plus the requested lock time. Otherwise nothing changes and the caller is told false or an error.",
 ["inputs","histories"],"every state of the cache and every message, lock duration and lock type",
 "Tests cover a few states with one or two messages.",
 [MC],["MemoryCache.MakeAvailable","MemoryCache.LockMessage"])
p("C11","Timeouts: every overdue message comes back, no other (memory)",
 "Processing timeouts of a queue in the in-memory cache moves exactly the messages whose deadline has passed back to the available pool with score 0, reports exactly their ids, and leaves every other message of every queue untouched, however many are overdue at once.",
 ["inputs","histories"],"every content of the processing pool and every clock value",
 "Tests time out one message; several overdue messages at once, or deadlines compared in the wrong unit, are not seen.",
 [MC],["MemoryCache.TimeoutMessages","MemoryCache.PullMessages"])
p("C12","Unlock releases exactly the due messages of the queue asked for (memory)",
 "Unlocking a queue in the in-memory cache moves exactly the messages of that queue and lock type whose lock time has passed to the available pool of the queue, reports exactly their ids and leaves all others alone. A message locked without a score comes back with current time as score after an ack lock and with 0 after a nack lock; a message locked with a score keeps it.",
 ["inputs","histories"],"every content of the lock pools of every queue and every clock value",
 "Tests unlock one message in one queue.",
 [MC],["MemoryCache.UnlockMessages","MemoryCache.LockMessage"])
p("C13","Queueing a message again never duplicates or moves it (memory)",
 "Inserting messages into the in-memory cache adds to the available pool exactly those whose id was in no pool of the queue, with their score, reports exactly their ids in order, and changes nothing else. A message repeated within one batch is queued once, with the last score given. If any message belongs to another queue, nothing at all is inserted and an error is returned.",
 ["inputs","histories"],"every cache state and every batch of messages, duplicates included",
 "Tests insert small batches into empty or nearly empty pools.",
 [MC],["MemoryCache.Insert"])
p("C14","Removal takes the given ids out of every pool and nothing else (memory)",
 "Removing ids of a queue from the in-memory cache takes them out of all four pools of that queue, leaves every other id and every other queue untouched, and reports the number of entries removed.",
 ["inputs","histories"],"every cache state and every list of ids",
 "Tests remove a few ids from one pool.",
 [MC],["MemoryCache.Remove","MemoryCache.removeFromSlice"])
p("C15","In-memory storage identifies messages by queue and id",
 "In the in-memory storage, inserting a message whose queue and id are not stored adds it with a fresh internal id larger than all earlier ones; inserting one that is stored updates its description, expiry and payloads and keeps its score, counters, internal id and last usage. Messages with different queue or id never affect each other, whatever characters queue and id contain, and the counts returned are the numbers added and updated.",
 ["inputs","histories"],"every storage content and every batch of messages, any strings as queue and id",
 "Tests use a few plain names; colliding queue/id combinations and long histories are not sampled.",
 [MS],["MemoryStorage.Insert","getKey"])
p("C16","In-memory find and count return exactly what the filter selects",
 "For the in-memory storage, count returns the number of stored messages matching the filter, and find returns matching, unexpired (or, with an expiry filter, expired by then) messages only, ordered as requested, all of them when no limit applies and exactly the limit, lowest first, otherwise. Neither changes the stored messages.",
 ["inputs"],"every storage content and every combination of filter, sort and limit",
 "Tests use handfuls of messages and a few filter combinations.",
 [MS],["MemoryStorage.Find","MemoryStorage.Count","matchesInternalFilter"])
p("C17","Ack and nack counters are exact (memory)",
 "In the in-memory storage, each ack of a stored message increases its ack and consecutive-ack counters and usage count by one, adds the subtraction to its total and resets consecutive nacks; each nack increases its nack and consecutive-nack counters by one and resets consecutive acks. Score and lock become those of the request, all other messages are unchanged, and for a message not stored nothing changes and zero is reported.",
 ["inputs","histories"],"every storage content, message and history of acks and nacks",
 "Tests check short fixed ack/nack sequences.",
 [MS],["MemoryStorage.Ack","MemoryStorage.Nack","setDiagnosticsStruct"])
p("C18","Storage removal deletes exactly the given ids of the given queue (memory)",
 "Removing ids of a queue from the in-memory storage deletes exactly the stored messages of that queue with one of those ids, keeps every other message unchanged, and reports how many were deleted.",
 ["inputs"],"every storage content and every queue and list of ids, duplicates included",
 "Tests delete from a handful of messages.",
 [MS],["MemoryStorage.Remove"])
p("C19","Pull never delivers a message that storage does not have",
 "A pull delivers only messages returned by storage for ids the cache just handed out for that queue, ordered by score; ids storage does not return are looked up once more, and those still missing are removed from the cache, audited as missing and not delivered. No id handed out by the cache is dropped silently: each is delivered, or cleaned up as missing, unless an error is returned.",
 ["inputs","fault_sequences"],"every list of ids from the cache, every answer of storage on both lookups, every failure",
 "Mock tests script two or three ids and single failures.",
 [Q],["Queue.Pull","Queue.getFromStorage","notFoundIds"])
p("C20","State changes reach storage before the cache, and failures stop there",
 "Ack, nack and remove change storage first and the cache only when storage succeeded; when storage fails the cache is not touched, nothing is audited and the error is returned. The cache operation acts on the same queue and id, locks the message exactly when a lock time was requested and otherwise makes it available, and the result reported is the cache's.",
 ["inputs","fault_sequences","crash_points"],"every message and every failure point of storage or cache during ack, nack and remove",
 "Mock tests cover one failure at a time with fixed messages.",
 [Q],["Queue.Ack","Queue.Nack","Queue.Remove"])
p("C21","Cache recovery resumes, never skips a message and then finishes",
 "Recovery reads storage in internal-id order after the saved position up to the end position saved when it started, queues every message read with a score capped to the range from 0 to 2^53, and only then advances the saved position to the last one read; on any failure to read or queue them the position is not advanced. It is marked finished only when a batch came back smaller than the batch size or storage was empty, and a finished recovery does nothing.",
 ["fault_sequences","crash_points","inputs"],"every batch content and length, every failure or crash between the steps",
 "Tests run recovery over small storages without failing between steps.",
 [H],["RecoveryMessagesPool","tryToStartRecovery","Queue.AddMessagesToCacheWithAuditReason"])
p("C22","Expiry cleaning removes only expired messages and waits for recovery",
 "The expiry cleaner does nothing while a recovery is running or its state cannot be read. Otherwise it removes from storage and cache exactly the messages storage reports as expired by the given date, each from its own queue, and no other message.",
 ["inputs","fault_sequences"],"every set of expired messages over any queues, every failure",
 "Tests use a few messages in one or two queues.",
 [H],["RemoveTTLMessages","Queue.Remove"])
p("C23","Queue size limit removes exactly the excess, soonest-expiring first",
 "For a queue with a positive maximum, when it holds more messages than the maximum, exactly the excess number of messages, those expiring first, is removed from storage and cache; a queue at or under its maximum or without a maximum loses nothing. Nothing is removed while a recovery is running or its state cannot be read.",
 ["inputs","fault_sequences"],"every count, maximum, configuration list and failure",
 "Tests use a few fixed counts.",
 [H],["RemoveExceedingMessages","Queue.removeExceedingMessagesFromQueue"])
p("C24","Queue configuration edits take effect and reads return what is stored",
 "An edit with a maximum of 0 (or no configuration) changes nothing; any other edit that differs from the known configuration is written to storage and the next read sees it. Reads return the stored configuration for the queue asked for, or an empty one carrying the queue name when none is stored, and storage failures are returned as errors and not remembered. This also holds when edits and reads of the same queue overlap: once an edit has been answered no read started later returns what was stored before it.",
 ["inputs","histories","schedules"],"every queue, maximum and order or overlap of edits and reads, every storage failure",
 "Tests cover single edit and read sequences with mocks.",
 ["internal/queue/queue_configuration_service.go",MS,S],["DefaultQueueConfigurationService.EditQueueConfiguration","DefaultQueueConfigurationService.GetQueueConfiguration","MemoryStorage.EditQueueConfiguration"])
p("C25","Only an in-memory instance can be flushed",
 "A flush request on an instance backed by persistent data deletes nothing, touches neither cache nor storage and answers with success false. On an in-memory instance it empties both.",
 ["inputs","configurations"],"every flush request in every configuration of the instance",
 "One test per mode; it cannot show that no path reaches the data.",
 [S,Q,MC,MS],["Deckard.Flush","Queue.Flush","MemoryCache.Flush","MemoryStorage.Flush"])
p("C26","In-memory engines touch shared state only under their lock",
 "Every operation of the in-memory cache and storage reads and writes the shared collections only while holding the engine's lock (exclusively for writes), never acquires it twice, and has released it on every way out, errors included. So concurrent operations behave as if executed one after another, and none can block the instance forever.",
 ["schedules","inputs"],"every interleaving of operations and every path through each operation",
 "Tests are sequential or race by luck; a leaked lock on an error path is never reached.",
 [MC,MS],["MemoryCache","MemoryStorage"])
p("C27","Redis keys of different queues and pools never collide",
 "For every non-empty queue name (storage refuses empty ones) the Redis keys of its pools are distinct from each other and from the keys of every other queue, all keys of one queue share one hash slot tag, and the queue name recovered from a pool key is the original name. Names that would break the slot tag are refused before anything is written.",
 ["inputs"],"every queue name, including ones that end like a pool suffix or contain braces or colons",
 "Tests use ordinary names only.",
 [RC],["RedisCache.activePool","RedisCache.processingPool","RedisCache.lockPool","RedisCache.ListQueues"])
p("C28","Redis operations address the pools and arguments they mean to",
 "Each Redis-backed cache operation runs the script or command for that operation with the keys of the caller's queue in the positions the script expects, scores and times in milliseconds, and passes every id exactly once in order; its result is decoded without loss, and no run carries more arguments than its script can take. The default deadline of five minutes is used exactly when none is given.",
 ["inputs"],"every queue, id list, score, threshold and duration",
 "The Redis tests need a server and sample a few calls; the mapping of keys and arguments must be right for all inputs.",
 [RC,RS],["RedisCache.PullMessages","RedisCache.LockMessage","RedisCache.UnlockMessages","RedisCache.MakeAvailable","RedisCache.Insert","RedisCache.Remove","RedisCache.TimeoutMessages"])
p("C29","Mongo queries select exactly the addressed messages",
 "Ack, nack, removal, find and count against MongoDB always filter on the caller's queue and on exactly the ids given, with the limits, sort order and bounds requested; removal in chunks covers every id exactly once. A filter never silently drops a requested restriction.",
 ["inputs"],"every filter, id list of any length and sort",
 "The Mongo tests need a server and use small id lists.",
 [MG],["MongoStorage.Find","MongoStorage.Remove","MongoStorage.Ack","MongoStorage.Nack","getMongoMessage"])
p("C30","Every state change is audited once, with the right signal",
 "An ack, nack or removal that completes without an error produces exactly one audit entry for each message id it was asked for; a timeout, an unlock, an insertion into the cache and the cleanup of messages missing in storage produce exactly one for each message the cache reported as timed out, unlocked, inserted, or that was cleaned up. The entry carries the id, the queue, the signal of that change and the reason given. An operation that fails produces no entry, and no other entry is produced.",
 ["inputs","fault_sequences"],"every operation, id list and failure",
 "Mock tests check a few entries for one or two messages.",
 [Q,H,"internal/audit/audit.go"],["Queue.Ack","Queue.Nack","Queue.Remove","Queue.TimeoutMessages","Queue.AddMessagesToCacheWithAuditReason","unlockMessages","Queue.Pull"])
p("C31","Configuration: key wins over aliases in order, else the default",
 "For every configuration entry, the value read is the one configured under its main key when that differs from the default, else the first alias in order whose configured value differs from the default, else the default. A non-empty duration text that cannot be parsed counts as not configured, and setting an entry makes every later read return it.",
 ["configurations","inputs"],"every combination of main key, any number of aliases, and values of any type",
 "Tests cover particular keys with one or two aliases.",
 ["internal/config/viper_config.go","internal/config/config.go"],["getWithFallback","ViperConfigKey.Get","ViperConfigKey.GetDuration","ViperConfigKey.GetBool","ViperConfigKey.GetInt","ViperConfigKey.Set"])
p("C32","Shutdown runs in order and waits for running work",
 "Shutdown first marks itself as ongoing, then stops the request server gracefully and waits for critical background work, only then cancels the running work, waits for what remains and at last reports itself finished. Housekeeping tasks stop starting work on further queues as soon as shutdown is ongoing.",
 ["schedules","fault_sequences"],"every moment at which shutdown is triggered and every number of queues still to process",
 "No test stops an instance in the middle of work or checks the order of the steps.",
 ["internal/shutdown/shutdown.go",H],["shutdown.PerformShutdown","shutdown.Ongoing","ProcessTimeoutMessages","unlockMessages","RemoveTTLMessages","RemoveExceedingMessages"])
p("C33","Gauges of a queue drop to zero when the queue disappears",
 "When queue gauges are refreshed, every queue in the new readings reports its new value and every queue reported before but absent now reports zero, so no stale value stays visible.",
 ["histories","inputs"],"every sequence of refreshed readings over any queue names",
 "No test refreshes the readings with a queue missing.",
 ["internal/metrics/metrics_map.go"],["QueueMetricsMap.UpdateOldestElementMap","QueueMetricsMap.UpdateTotalElementsMap"])
p("C34","TLS is served as configured or startup fails",
 "When a certificate and key are configured the server uses exactly those pairs, the configured client authentication mode and the configured client authorities; a mismatch in number (a certificate without a key or a key without a certificate included), an unreadable file or an unknown mode makes startup fail instead of serving without them. TLS is off only when neither a certificate nor a key is configured.",
 ["configurations"],"every combination of certificate, key and client settings",
 "Tests use one valid certificate set and a few invalid ones.",
 [S],["loadTLSCredentials","loadClientCertPool","getClientAuthType"])
p("C35","Requests by id, counts and removals address exactly what was asked",
 "Looking up a message by id, counting and removing pass exactly the client's queue and ids on, refuse an empty id or queue on lookup, report not found when nothing matches, and return the stored id, queue, description, score, breakpoint, payloads and metadata, and the counts, unchanged. A removal without ids does nothing.",
 ["inputs"],"every request and every answer or failure of the layers below",
 "Tests use one message and one queue.",
 [S,Q],["Deckard.GetById","Deckard.Count","Deckard.Remove","Queue.Count","Queue.GetStorageMessages"])
p("C36","Every stored audit entry is sent once, unchanged, also at shutdown",
 "With auditing enabled, an entry given to the auditor is handed to the sender exactly once with its fields unchanged, the prefix and suffix of its queue name and the time of storing. The sender puts every entry it receives into exactly one request, in the order received (an entry that cannot be encoded is left out without affecting the others), and ends only when its context is cancelled, after it has taken and sent every entry that was waiting; entries may still be stored while it stops. With auditing disabled nothing is sent.",
 ["histories","schedules"],"every number of entries and batch boundary, and every moment of the shutdown",
 "Tests send one or two batches; a lost or doubled entry shows only at a batch boundary or in the shutdown window.",
 ["internal/audit/audit.go"],["AuditorImpl.Store","AuditorImpl.StartSender","AuditorImpl.send"])
p("C37","Housekeeping visits every queue that has waiting messages",
 "Each run of the unlock task asks the cache to release the due messages of every queue it lists as having messages locked by an ack, as ack locks, and of every queue listed as having messages locked by a nack, as nack locks; each run of the timeout task does so for every queue listed as having messages being processed. A failure on one queue does not keep the others from being visited; only a shutdown, a cancelled context or a failed listing ends a run early, and no queue is visited with the wrong kind of lock.",
 ["inputs","fault_sequences"],"every list of queues and every pattern of failing cache calls",
 "Tests run one or two queues without failures in between.",
 [H],["ProcessLockPool","unlockMessages","ProcessTimeoutMessages"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
