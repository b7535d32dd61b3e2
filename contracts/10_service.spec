// ---- internal/service (C01, C02, C03, C06, C07, C25, C35)
// The queue below the service is an interface: its contracts record the call
// (arguments and answer) in ghost variables and promise nothing else.

ghost var qpN int
ghost var qpQueue string
ghost var qpAmount int
ghost var qpMin *float
ghost var qpMax *float
ghost var qpDeadline int
ghost var qpRes *[]message.Message
ghost var qpErr error

iface queue.DeckardQueue.Pull(recv, ctx, queue, n, minScore, maxScore, ackDeadlineMs)(msgs, err)
  requires [C06] "between 1 and 1000" n >= 1 && n <= 1000
  modifies qpN, qpQueue, qpAmount, qpMin, qpMax, qpDeadline, qpRes, qpErr
  ensures qpN == old(qpN) + 1
  ensures qpQueue == queue
  ensures qpAmount == n
  ensures qpMin == minScore
  ensures qpMax == maxScore
  ensures qpDeadline == ackDeadlineMs
  ensures qpRes == msgs
  ensures qpErr == err
  ensures msgs != nil ==> len(*msgs) >= 0

extern oteltrace.SpanFromContext(ctx)(span)
iface oteltrace.Span.SpanContext(recv)(sc)
extern oteltrace.SpanContext.HasTraceID(sc)(b)
iface oteltrace.Span.SetAttributes(recv, kv)

func service.addSpanAttributes(ctx, attributes)
  modifies nothing
  prop [C06,C07,C35,C03,C02]

func service.getMessageDiagnostic(d) (r)
  modifies nothing
  ensures [C06] "acks" r != nil && fresh(r) && r.Acks == (d == nil || d.Acks == nil ? 0 : *d.Acks)
  ensures [C06] "nacks" r.Nacks == (d == nil || d.Nacks == nil ? 0 : *d.Nacks)
  ensures [C06] "consecutive acks" r.ConsecutiveAcks == (d == nil || d.ConsecutiveAcks == nil ? 0 : *d.ConsecutiveAcks)
  ensures [C06] "consecutive nacks" r.ConsecutiveNacks == (d == nil || d.ConsecutiveNacks == nil ? 0 : *d.ConsecutiveNacks)

pure pullMax(max float, filter int, now int) float = max == 0.0 && filter > 0 ? tofloat(now / 1000000 - filter) : max

func service.Deckard.Pull(d, ctx, request) (res, err)
  modifies clk, reads, qpN, qpQueue, qpAmount, qpMin, qpMax, qpDeadline, qpRes, qpErr, request.MaxScore
  ensures [C06] "asks once" qpN == old(qpN) + 1
  ensures [C06] "queue" qpQueue == request.Queue
  ensures [C06] "amount" qpAmount == (request.Amount <= 0 ? 1 : (request.Amount > 1000 ? 1000 : request.Amount))
  ensures [C06] "deadline" qpDeadline == request.AckDeadlineMs
  // thresholds: the deprecated filter counts as a maximum only when there is none
  ensures [C02] "no lower threshold" request.MinScore == 0.0 ==> qpMin == nil
  ensures [C02] "lower threshold" request.MinScore != 0.0 ==> qpMin != nil && (!isnan(request.MinScore) ==> *qpMin == clampS(request.MinScore)) && legal(*qpMin)
  ensures [C02] "no upper threshold" let maxs = pullMax(old(request.MaxScore), request.ScoreFilter, clk) ; maxs == 0.0 ==> qpMax == nil
  ensures [C02] "upper threshold" let maxs = pullMax(old(request.MaxScore), request.ScoreFilter, clk) ; maxs != 0.0 ==> qpMax != nil && (!isnan(maxs) ==> *qpMax == clampS(maxs)) && legal(*qpMax)
  ensures [C02] "asked once" qpN == old(qpN) + 1
  ensures [C06] "error reported" (err != nil) == (qpErr != nil)
  ensures [C06] "no message without answer" qpErr == nil && qpRes == nil ==> res != nil && len(res.Messages) == 0
  ensures [C06] "as many as returned" qpErr == nil && qpRes != nil ==> res != nil && len(res.Messages) == len(*qpRes)
  ensures [C06] "a list" qpErr == nil ==> res.Messages != nil
  ensures [C06] "same messages in order" qpErr == nil && qpRes != nil ==> forall i : int { res.Messages[i] } :: 0 <= i && i < len(*qpRes) ==> res.Messages[i] != nil && res.Messages[i].Id == (*qpRes)[i].ID && res.Messages[i].Queue == (*qpRes)[i].Queue && res.Messages[i].Score == (*qpRes)[i].Score && res.Messages[i].Breakpoint == (*qpRes)[i].Breakpoint && res.Messages[i].Payload == (*qpRes)[i].Payload && res.Messages[i].StringPayload == (*qpRes)[i].StringPayload && res.Messages[i].Metadata == (*qpRes)[i].Metadata
  ensures [C06] "counters" qpErr == nil && qpRes != nil ==> forall i : int { res.Messages[i] } :: 0 <= i && i < len(*qpRes) ==> res.Messages[i].Diagnostics != nil && let dg = (*qpRes)[i].Diagnostics ; res.Messages[i].Diagnostics.Acks == (dg == nil || dg.Acks == nil ? 0 : *dg.Acks) && res.Messages[i].Diagnostics.Nacks == (dg == nil || dg.Nacks == nil ? 0 : *dg.Nacks) && res.Messages[i].Diagnostics.ConsecutiveAcks == (dg == nil || dg.ConsecutiveAcks == nil ? 0 : *dg.ConsecutiveAcks) && res.Messages[i].Diagnostics.ConsecutiveNacks == (dg == nil || dg.ConsecutiveNacks == nil ? 0 : *dg.ConsecutiveNacks)
  loop 1 invariant qpErr == nil && qpRes != nil && iter <= len(*qpRes) && len(res.Messages) == iter && (iter > 0 ==> res.Messages != nil)
  loop 1 invariant [C06] forall i : int { res.Messages[i] } :: 0 <= i && i < iter ==> res.Messages[i] != nil && res.Messages[i].Id == (*qpRes)[i].ID && res.Messages[i].Queue == (*qpRes)[i].Queue && res.Messages[i].Score == (*qpRes)[i].Score && res.Messages[i].Breakpoint == (*qpRes)[i].Breakpoint && res.Messages[i].Payload == (*qpRes)[i].Payload && res.Messages[i].StringPayload == (*qpRes)[i].StringPayload && res.Messages[i].Metadata == (*qpRes)[i].Metadata
  loop 1 invariant [C06] forall i : int { res.Messages[i] } :: 0 <= i && i < iter ==> res.Messages[i].Diagnostics != nil && let dg = (*qpRes)[i].Diagnostics ; res.Messages[i].Diagnostics.Acks == (dg == nil || dg.Acks == nil ? 0 : *dg.Acks) && res.Messages[i].Diagnostics.Nacks == (dg == nil || dg.Nacks == nil ? 0 : *dg.Nacks) && res.Messages[i].Diagnostics.ConsecutiveAcks == (dg == nil || dg.ConsecutiveAcks == nil ? 0 : *dg.ConsecutiveAcks) && res.Messages[i].Diagnostics.ConsecutiveNacks == (dg == nil || dg.ConsecutiveNacks == nil ? 0 : *dg.ConsecutiveNacks)

// ---- add (C07, C01)
ghost var asN int
ghost var asLen int
ghost var asMsg array[int]*message.Message
ghost var asErr error
ghost var asIns int
ghost var asUpd int
ghost var acN int
ghost var acLen int
ghost var acMsg array[int]*message.Message
ghost var acErr error

iface queue.DeckardQueue.AddMessagesToStorage(recv, ctx, messages)(inserted, updated, err)
  modifies asN, asLen, asMsg, asErr, asIns, asUpd, message.Message.InternalId
  ensures asN == old(asN) + 1 && asLen == len(messages) && asErr == err && asIns == inserted && asUpd == updated
  ensures forall i : int { asMsg[i] } :: 0 <= i && i < len(messages) ==> asMsg[i] == messages[i]

iface queue.DeckardQueue.AddMessagesToCache(recv, ctx, messages)(n, err)
  modifies acN, acLen, acMsg, acErr
  ensures acN == old(acN) + 1 && acLen == len(messages) && acErr == err
  ensures forall i : int { acMsg[i] } :: 0 <= i && i < len(messages) ==> acMsg[i] == messages[i]

// 100 years are 36524 or 36525 days; a day or two of slack for the calendar and the location
pure DAY() int = 86400000000000
pure capMin(m int) int = m > 153722867 ? 153722867 : (m < -153722867 ? -153722867 : m)
pure ttlNs(m int) int = capMin(m) * 60000000000

func service.ttlDuration(minutes) (d)
  modifies nothing
  ensures [C07] "capped" d == ttlNs(minutes)

pure sent(m *message.Message, r *deckard.AddMessage) bool = m != nil && m.ID == r.Id && m.Queue == r.Queue && m.Payload == r.Payload && m.StringPayload == r.StringPayload && m.Description == r.Description && m.Metadata == r.Metadata && m.Timeless == r.Timeless
pure parts(m *message.Message, r *deckard.AddMessage) bool = m.QueuePrefix == qprefix(r.Queue) && m.QueueSuffix == qsuffix(r.Queue)
pure expires(m *message.Message, r *deckard.AddMessage, lo int, hi int) bool = let e = ns(m.ExpiryDate) - ttlNs(r.TtlMinutes) ; r.Timeless ? (lo + 36522 * DAY() <= e && e <= hi + 36527 * DAY()) : (lo <= e && e <= hi)
pure addScore0(s float, r float) bool = (r != 0.0 && legal(r) ==> s == r) && (r < 0.0 ==> s == 0.0) && (r > MAXS() && !isnan(r) ==> s == MAXS())
pure addScore(s float, r float, lo int, hi int) bool = legal(s) && addScore0(s, r) && (r == 0.0 ==> real(lo / 1000000) <= s && s <= real(hi / 1000000))

func service.Deckard.Add(d, ctx, request) (res, err)
  requires forall i : int { request.Messages[i] } :: 0 <= i && i < len(request.Messages) ==> request.Messages[i] != nil
  requires clk >= 0 && clk < 9000000000000000000
  modifies clk, reads, asN, asLen, asMsg, asErr, asIns, asUpd, acN, acLen, acMsg, acErr, message.Message.InternalId
  ensures [C07] "stored once" asN == old(asN) + 1
  ensures [C07,C01] "every message" asLen == len(request.Messages)
  ensures [C07] "stored as sent, in order" forall i : int { asMsg[i] } :: 0 <= i && i < len(request.Messages) ==> sent(asMsg[i], request.Messages[i])
  ensures [C07] "queue parts" forall i : int { asMsg[i] } :: 0 <= i && i < len(request.Messages) ==> parts(asMsg[i], request.Messages[i])
  ensures [C07] "expiry" forall i : int { asMsg[i] } :: 0 <= i && i < len(request.Messages) ==> expires(asMsg[i], request.Messages[i], old(clk), clk)
  ensures [C07] "storage failure stops" asErr != nil ==> acN == old(acN) && err != nil
  ensures [C07] "then cached" asErr == nil ==> acN == old(acN) + 1 && acLen == len(request.Messages)
  ensures [C07] "cached as stored, in order" asErr == nil ==> forall i : int { acMsg[i] } :: 0 <= i && i < len(request.Messages) ==> acMsg[i] == asMsg[i]
  ensures [C07] "cache failure reported" asErr == nil && acErr != nil ==> err != nil
  ensures [C07] "counts of storage" asErr == nil && acErr == nil ==> err == nil && res != nil && res.CreatedCount == asIns && res.UpdatedCount == asUpd
  ensures [C01] "legal score" forall i : int { asMsg[i] } :: 0 <= i && i < len(request.Messages) ==> asMsg[i] != nil && addScore(asMsg[i].Score, request.Messages[i].Score, old(clk), clk)
  loop 1 invariant clk >= old(clk) && clk < 9000000000000000000 && len(messages) == len(request.Messages) && iter <= len(messages)
  loop 1 invariant forall j : int { messages[j] } :: 0 <= j && j < iter ==> messages[j] != nil
  loop 1 invariant [C07] "as sent" forall j : int { messages[j] } :: 0 <= j && j < iter ==> sent(messages[j], request.Messages[j])
  loop 1 invariant [C07] "parts" forall j : int { messages[j] } :: 0 <= j && j < iter ==> parts(messages[j], request.Messages[j])
  loop 1 invariant [C07] "expiry" forall j : int { messages[j] } :: 0 <= j && j < iter ==> expires(messages[j], request.Messages[j], old(clk), clk)
  loop 1 invariant [C01] "legal" forall j : int { messages[j] } :: 0 <= j && j < iter ==> legal(messages[j].Score)
  loop 1 invariant [C01] "scores" forall j : int { messages[j] } :: 0 <= j && j < iter ==> addScore0(messages[j].Score, request.Messages[j].Score)
  loop 1 invariant [C01] "default" forall j : int { messages[j] } :: 0 <= j && j < iter ==> request.Messages[j].Score == 0.0 ==> real(old(clk) / 1000000) <= messages[j].Score && messages[j].Score <= real(clk / 1000000)

// ---- ack, nack (C03)
ghost var qaN int
ghost var qaNack bool
ghost var qaId string
ghost var qaQueue string
ghost var qaScore float
ghost var qaLock int
ghost var qaSub float
ghost var qaBreak string
ghost var qaReason string
ghost var qaOk bool
ghost var qaErr error

iface queue.DeckardQueue.Ack(recv, ctx, m, reason)(ok, err)
  requires [C03] "a message" m != nil
  modifies qaN, qaNack, qaId, qaQueue, qaScore, qaLock, qaSub, qaBreak, qaReason, qaOk, qaErr
  ensures qaN == old(qaN) + 1 && !qaNack && qaId == m.ID && qaQueue == m.Queue && qaScore == m.Score && qaLock == m.LockMs && qaSub == m.LastScoreSubtract && qaBreak == m.Breakpoint && qaReason == reason && qaOk == ok && qaErr == err

iface queue.DeckardQueue.Nack(recv, ctx, m, timestamp, reason)(ok, err)
  requires [C03] "a message" m != nil
  modifies qaN, qaNack, qaId, qaQueue, qaScore, qaLock, qaSub, qaBreak, qaReason, qaOk, qaErr
  ensures qaN == old(qaN) + 1 && qaNack && qaId == m.ID && qaQueue == m.Queue && qaScore == m.Score && qaLock == m.LockMs && qaSub == m.LastScoreSubtract && qaBreak == m.Breakpoint && qaReason == reason && qaOk == ok && qaErr == err

ghost var qrN int
ghost var qrQueue string
ghost var qrLen int
ghost var qrIds array[int]string
ghost var qrCache int
ghost var qrStorage int
ghost var qrErr error

iface queue.DeckardQueue.Remove(recv, ctx, queue, reason, ids)(cacheRemoved, storageRemoved, err)
  modifies qrN, qrQueue, qrLen, qrIds, qrCache, qrStorage, qrErr
  ensures qrN == old(qrN) + 1 && qrQueue == queue && qrLen == len(ids) && qrCache == cacheRemoved && qrStorage == storageRemoved && qrErr == err
  ensures forall i : int { qrIds[i] } :: 0 <= i && i < len(ids) ==> qrIds[i] == ids[i]

// milliseconds since the epoch less the subtraction, capped: what the clock allows between lo and hi
pure subScore(s float, sub float, lo int, hi int) bool = legal(s) && (!isnan(sub) ==> clampS(real(lo / 1000000) - sub) <= s && s <= clampS(real(hi / 1000000) - sub))

func service.Deckard.Ack(d, ctx, request) (res, err)
  requires clk >= 0 && clk < 9000000000000000000
  modifies clk, reads, qaN, qaNack, qaId, qaQueue, qaScore, qaLock, qaSub, qaBreak, qaReason, qaOk, qaErr, qrN, qrQueue, qrLen, qrIds, qrCache, qrStorage, qrErr
  ensures [C03] "acks once" qaN == old(qaN) + 1 && !qaNack
  ensures [C03] "the message" qaId == request.Id && qaQueue == request.Queue && qaSub == request.ScoreSubtract && qaBreak == request.Breakpoint && qaReason == request.Reason && qaLock == request.LockMs
  ensures [C03] "requested score kept" request.Score != 0.0 && legal(request.Score) ==> qaScore == request.Score
  ensures [C03] "requested score capped" request.Score != 0.0 && !isnan(request.Score) ==> qaScore == clampS(request.Score)
  ensures [C03] "legal unless decided at unlock" legal(qaScore) || request.Score == 0.0 && request.LockMs > 0 && qaScore == -1.0
  ensures [C03] "score by the clock" request.Score == 0.0 && request.LockMs <= 0 ==> subScore(qaScore, request.ScoreSubtract, old(clk), clk)
  ensures [C03] "left to the unlock" request.Score == 0.0 && request.LockMs > 0 ==> qaScore == -1.0
  ensures [C03] "error reported" qaErr != nil ==> err != nil && qrN == old(qrN)
  ensures [C03] "result" err == nil ==> res != nil && (!request.RemoveMessage ==> res.Success == qaOk)
  ensures [C03] "removal only when asked" !request.RemoveMessage ==> qrN == old(qrN)
  ensures [C03] "removal of the message" qaErr == nil && request.RemoveMessage ==> qrN == old(qrN) + 1 && qrQueue == request.Queue && qrLen == 1 && qrIds[0] == request.Id

func service.Deckard.Nack(d, ctx, request) (res, err)
  requires clk >= 0 && clk < 9000000000000000000
  modifies clk, reads, qaN, qaNack, qaId, qaQueue, qaScore, qaLock, qaSub, qaBreak, qaReason, qaOk, qaErr, qrN, qrQueue, qrLen, qrIds, qrCache, qrStorage, qrErr
  ensures [C03] "nacks once" qaN == old(qaN) + 1 && qaNack
  ensures [C03] "the message" qaId == request.Id && qaQueue == request.Queue && qaSub == request.ScoreSubtract && qaBreak == request.Breakpoint && qaReason == request.Reason && qaLock == request.LockMs
  ensures [C03] "requested score capped" request.Score != 0.0 && !isnan(request.Score) ==> qaScore == clampS(request.Score)
  ensures [C03] "legal unless decided at unlock" legal(qaScore) || request.Score == 0.0 && request.LockMs > 0 && qaScore == -1.0
  ensures [C03] "lowest score" request.Score == 0.0 && request.LockMs <= 0 ==> qaScore == 0.0
  ensures [C03] "left to the unlock" request.Score == 0.0 && request.LockMs > 0 ==> qaScore == -1.0
  ensures [C03] "error reported" qaErr != nil ==> err != nil && qrN == old(qrN)
  ensures [C03] "result" err == nil ==> res != nil && (!request.RemoveMessage ==> res.Success == qaOk)
  ensures [C03] "removal only when asked" !request.RemoveMessage ==> qrN == old(qrN)
  ensures [C03] "removal of the message" qaErr == nil && request.RemoveMessage ==> qrN == old(qrN) + 1 && qrQueue == request.Queue && qrLen == 1 && qrIds[0] == request.Id

// ---- lookup, count, removal (C35)
func service.Deckard.Remove(d, ctx, request) (res, err)
  modifies qrN, qrQueue, qrLen, qrIds, qrCache, qrStorage, qrErr
  ensures [C35] "nothing to remove" len(request.Ids) == 0 ==> qrN == old(qrN) && err == nil && res != nil && res.CacheRemoved == 0 && res.StorageRemoved == 0
  ensures [C35,C03] "removes once" len(request.Ids) > 0 ==> qrN == old(qrN) + 1 && qrQueue == request.Queue && qrLen == len(request.Ids)
  ensures [C35,C03] "exactly the ids" len(request.Ids) > 0 ==> forall i : int { qrIds[i] } :: 0 <= i && i < len(request.Ids) ==> qrIds[i] == request.Ids[i]
  ensures [C35] "error reported" len(request.Ids) > 0 ==> (err != nil) == (qrErr != nil)
  ensures [C35] "counts" len(request.Ids) > 0 && qrErr == nil ==> res != nil && res.CacheRemoved == qrCache && res.StorageRemoved == qrStorage

ghost var qcN int
ghost var qcQueue string
ghost var qcPlain bool
ghost var qcRes int
ghost var qcErr error

// no restriction besides the queue and (when given) the ids
pure onlyQueue(f *storage.InternalFilter) bool = f.InternalIdBreakpointGt == "" && f.InternalIdBreakpointLte == "" && f.QueuePrefix == "" && f.ExpiryDate == nil

iface queue.DeckardQueue.Count(recv, ctx, opts)(n, err)
  requires [C35] "a filter" opts != nil && opts.InternalFilter != nil
  modifies qcN, qcQueue, qcPlain, qcRes, qcErr
  ensures qcN == old(qcN) + 1 && qcQueue == opts.InternalFilter.Queue && qcPlain == (onlyQueue(opts.InternalFilter) && opts.InternalFilter.Ids == nil && opts.Limit == 0) && qcRes == n && qcErr == err

func service.Deckard.Count(d, ctx, request) (res, err)
  modifies qcN, qcQueue, qcPlain, qcRes, qcErr
  ensures [C35] "counts once" qcN == old(qcN) + 1
  ensures [C35] "the whole queue" qcQueue == request.Queue && qcPlain
  ensures [C35] "error reported" (err != nil) == (qcErr != nil)
  ensures [C35] "count" qcErr == nil ==> res != nil && res.Count == qcRes

ghost var qgN int
ghost var qgQueue string
ghost var qgIds *[]string
ghost var qgPlain bool
ghost var qgLimit int
ghost var qgLen int
ghost var qgErr error
ghost var qgFirst *message.Message

iface queue.DeckardQueue.GetStorageMessages(recv, ctx, opts)(msgs, err)
  requires [C35] "a filter" opts != nil && opts.InternalFilter != nil
  modifies qgN, qgQueue, qgIds, qgPlain, qgLimit, qgLen, qgErr, qgFirst
  ensures qgN == old(qgN) + 1 && qgQueue == opts.InternalFilter.Queue && qgIds == opts.InternalFilter.Ids && qgPlain == (onlyQueue(opts.InternalFilter) && opts.Projection == nil) && qgLimit == opts.Limit && qgLen == len(msgs) && qgErr == err
  ensures len(msgs) > 0 ==> qgFirst == addr(msgs[0])

extern anypb.Any.String(x)(s)

func service.convertAnyDataToString(anyData) (r)
  modifies nothing
  ensures r != nil
  prop [C35]

func service.Deckard.GetById(d, ctx, request) (res, err)
  modifies qgN, qgQueue, qgIds, qgPlain, qgLimit, qgLen, qgErr, qgFirst
  ensures [C35] "refuses an empty id or queue" request.Id == "" || request.Queue == "" ==> err != nil && qgN == old(qgN)
  ensures [C35] "looks up once" request.Id != "" && request.Queue != "" ==> qgN == old(qgN) + 1
  ensures [C35] "that queue and id" request.Id != "" && request.Queue != "" ==> qgQueue == request.Queue && qgIds != nil && len(*qgIds) == 1 && (*qgIds)[0] == request.Id && qgPlain && qgLimit >= 0
  ensures [C35] "error reported" request.Id != "" && request.Queue != "" ==> (err != nil) == (qgErr != nil)
  ensures [C35] "found or not" request.Id != "" && request.Queue != "" && qgErr == nil ==> res != nil && res.Found == (qgLen == 1)
  ensures [C35] "stored fields" request.Id != "" && request.Queue != "" && qgErr == nil && qgLen == 1 ==> res.Message != nil && res.Message.Id == qgFirst.ID && res.Message.Queue == qgFirst.Queue && res.Message.Description == qgFirst.Description && res.Message.Score == qgFirst.Score && res.Message.Breakpoint == qgFirst.Breakpoint && res.Message.Payload == qgFirst.Payload && res.Message.StringPayload == qgFirst.StringPayload && res.Message.Metadata == qgFirst.Metadata

// ---- flush (C25)
ghost var qfN int
ghost var qfOk bool
ghost var qfErr error

iface queue.DeckardQueue.Flush(recv, ctx)(ok, err)
  modifies qfN, qfOk, qfErr
  ensures qfN == old(qfN) + 1 && qfOk == ok && qfErr == err

func service.Deckard.Flush(d, ctx, request) (res, err)
  modifies qfN, qfOk, qfErr
  ensures [C25] "refused on persistent data" !d.memoryInstance ==> qfN == old(qfN) && res != nil && !res.Success
  ensures [C25] "flushes an in-memory instance" d.memoryInstance ==> qfN == old(qfN) + 1
  ensures [C25] "result" d.memoryInstance && qfErr == nil ==> err == nil && res != nil && res.Success == qfOk
  ensures [C25] "error reported" d.memoryInstance && qfErr != nil ==> err != nil

func service.NewDeckardInstance(qpool, configurations, memory) (d)
  ensures [C25] "remembers the kind of instance" d != nil && d.memoryInstance == memory && d.queue == qpool

func service.NewMemoryDeckardService(qpool, configurations) (d)
  ensures [C25] "in-memory" d != nil && d.memoryInstance

func service.NewDeckardService(qpool, configurations) (d)
  ensures [C25] "persistent" d != nil && !d.memoryInstance
