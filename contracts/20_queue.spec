// ---- internal/queue: the queue over storage, cache and auditor
// (C19, C20, C30 and the housekeeper: C21, C22, C23, C32)
// Storage, cache and auditor are interfaces here. Their contracts record every
// call in ghost variables; tick numbers the calls in the order they happen.

ghost var tick int

// -- auditor
ghost var auN int
ghost var auId array[int]string
ghost var auQueue array[int]string
ghost var auSig array[int]string
ghost var auReason array[int]string
ghost var auLock array[int]int
ghost var auBreak array[int]string

iface audit.Auditor.Store(recv, ctx, e)
  modifies tick, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  ensures tick == old(tick) + 1 && auN == old(auN) + 1
  ensures auId == store(old(auId), old(auN), e.ID)
  ensures auQueue == store(old(auQueue), old(auN), e.Queue)
  ensures auSig == store(old(auSig), old(auN), e.Signal)
  ensures auReason == store(old(auReason), old(auN), e.Reason)
  ensures auLock == store(old(auLock), old(auN), e.LockMs)
  ensures auBreak == store(old(auBreak), old(auN), e.Breakpoint)

pure audited(i int, id string, q string, sig string, reason string) bool = auId[i] == id && auQueue[i] == q && auSig[i] == sig && auReason[i] == reason
pure auKept(n int, id array[int]string, q array[int]string, s array[int]string, r array[int]string) bool = forall i : int { auId[i] } :: i < n ==> auId[i] == id[i] && auQueue[i] == q[i] && auSig[i] == s[i] && auReason[i] == r[i]

// -- storage
ghost var saN int
ghost var saAt int
ghost var saNack bool
ghost var saMsg *message.Message
ghost var saErr error

iface storage.Storage.Ack(recv, ctx, m)(n, err)
  modifies tick, saN, saAt, saNack, saMsg, saErr
  ensures tick == old(tick) + 1 && saN == old(saN) + 1 && saAt == tick && !saNack && saMsg == m && saErr == err

iface storage.Storage.Nack(recv, ctx, m)(n, err)
  modifies tick, saN, saAt, saNack, saMsg, saErr
  ensures tick == old(tick) + 1 && saN == old(saN) + 1 && saAt == tick && saNack && saMsg == m && saErr == err

ghost var srN int
ghost var srAt int
ghost var srQueue string
ghost var srIds array[int]string
ghost var srLen int
ghost var srRes int
ghost var srErr error
// srHas[q][id]: storage was asked to remove id of queue q
ghost var srHas array[string]array[string]bool
// removals that failed, in storage or cache
ghost var rmFail int

iface storage.Storage.Remove(recv, ctx, queue, ids)(n, err)
  modifies tick, srN, srAt, srQueue, srIds, srLen, srRes, srErr, srHas, rmFail
  ensures [C23] rmFail == old(rmFail) + (err == nil ? 0 : 1)
  ensures tick == old(tick) + 1 && srN == old(srN) + 1 && srAt == tick && srQueue == queue && srLen == len(ids) && srRes == n && srErr == err
  ensures forall i : int { srIds[i] } { ids[i] } :: 0 <= i && i < len(ids) ==> srIds[i] == ids[i]
  ensures [C22,C23] forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> srHas[queue][ids[i]]
  ensures [C22,C23] forall id : string { srHas[queue][id] } :: srHas[queue][id] ==> old(srHas)[queue][id] || (exists i : int { ids[i] } :: 0 <= i && i < len(ids) && ids[i] == id)
  ensures [C22,C23] forall id : string { old(srHas)[queue][id] } :: old(srHas)[queue][id] ==> srHas[queue][id]
  ensures [C22,C23] forall q : string { srHas[q] } :: q != queue ==> srHas[q] == old(srHas)[q]

// -- cache
ghost var cmN int
ghost var cmAt int
ghost var cmLock bool
ghost var cmNack bool
ghost var cmMsg *message.Message
ghost var cmScore float
ghost var cmOk bool
ghost var cmErr error

iface cache.Cache.MakeAvailable(recv, ctx, m)(ok, err)
  modifies tick, cmN, cmAt, cmLock, cmNack, cmMsg, cmScore, cmOk, cmErr
  ensures tick == old(tick) + 1 && cmN == old(cmN) + 1 && cmAt == tick && !cmLock && cmMsg == m && cmOk == ok && cmErr == err
  ensures m != nil ==> cmScore == m.Score

iface cache.Cache.LockMessage(recv, ctx, m, lockType)(ok, err)
  requires [C20] "a lock type" lockType == "lock_nack" || lockType == "lock_ack"
  modifies tick, cmN, cmAt, cmLock, cmNack, cmMsg, cmScore, cmOk, cmErr
  ensures tick == old(tick) + 1 && cmN == old(cmN) + 1 && cmAt == tick && cmLock && cmMsg == m && cmOk == ok && cmErr == err
  ensures cmNack == (lockType == "lock_nack")
  ensures m != nil ==> cmScore == m.Score

ghost var crN int
ghost var crAt int
ghost var crQueue string
ghost var crIds array[int]string
ghost var crLen int
ghost var crRes int
ghost var crErr error
ghost var crHas array[string]array[string]bool

iface cache.Cache.Remove(recv, ctx, queue, ids)(n, err)
  modifies tick, crN, crAt, crQueue, crIds, crLen, crRes, crErr, crHas, rmFail
  ensures [C23] rmFail == old(rmFail) + (err == nil ? 0 : 1)
  ensures tick == old(tick) + 1 && crN == old(crN) + 1 && crAt == tick && crQueue == queue && crLen == len(ids) && crRes == n && crErr == err
  ensures forall i : int { crIds[i] } { ids[i] } :: 0 <= i && i < len(ids) ==> crIds[i] == ids[i]
  ensures [C22,C23] forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> crHas[queue][ids[i]]
  ensures [C22,C23] forall id : string { crHas[queue][id] } :: crHas[queue][id] ==> old(crHas)[queue][id] || (exists i : int { ids[i] } :: 0 <= i && i < len(ids) && ids[i] == id)
  ensures [C22,C23] forall id : string { old(crHas)[queue][id] } :: old(crHas)[queue][id] ==> crHas[queue][id]
  ensures [C22,C23] forall q : string { crHas[q] } :: q != queue ==> crHas[q] == old(crHas)[q]

// -- ack, nack, remove (C20, C30)
pure okMsg(m *message.Message) bool = m != nil && m.Queue != "" && m.ID != ""

func queue.Queue.Ack(pool, ctx, msg, reason) (ok, err)
  modifies tick, saN, saAt, saNack, saMsg, saErr, cmN, cmAt, cmLock, cmNack, cmMsg, cmScore, cmOk, cmErr, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  ensures [C20] "nothing without queue and id" !okMsg(msg) ==> saN == old(saN) && cmN == old(cmN) && auN == old(auN) && !ok
  ensures [C20] "storage acked" okMsg(msg) ==> saN == old(saN) + 1 && saMsg == msg && !saNack
  ensures [C20] "storage failure stops there" okMsg(msg) && saErr != nil ==> cmN == old(cmN) && auN == old(auN) && err != nil && !ok
  ensures [C20] "then the cache, once" okMsg(msg) && saErr == nil ==> cmN == old(cmN) + 1 && cmAt > saAt && cmMsg == msg && cmScore == old(msg.Score)
  ensures [C20] "locks exactly when asked" okMsg(msg) && saErr == nil ==> cmLock == (msg.LockMs > 0) && (cmLock ==> !cmNack)
  ensures [C20] "cache result" okMsg(msg) && saErr == nil && cmErr == nil ==> err == nil && ok == cmOk
  ensures [C20] "cache failure reported" okMsg(msg) && saErr == nil && cmErr != nil ==> err != nil && !ok && auN == old(auN)
  ensures [C30] "audited once" okMsg(msg) && saErr == nil && cmErr == nil ==> auN == old(auN) + 1 && audited(old(auN), msg.ID, msg.Queue, "ACK", reason) && auLock[old(auN)] == (msg.LockMs > 0 ? msg.LockMs : 0)
  ensures [C30] "not audited otherwise" !okMsg(msg) || saErr != nil || cmErr != nil ==> auN == old(auN)
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))

func queue.Queue.Nack(pool, ctx, msg, timestamp, reason) (ok, err)
  modifies tick, saN, saAt, saNack, saMsg, saErr, cmN, cmAt, cmLock, cmNack, cmMsg, cmScore, cmOk, cmErr, auN, auId, auQueue, auSig, auReason, auLock, auBreak, msg.Score
  ensures [C20] "nothing without queue and id" !okMsg(msg) ==> saN == old(saN) && cmN == old(cmN) && auN == old(auN) && !ok
  ensures [C20] "storage nacked" okMsg(msg) ==> saN == old(saN) + 1 && saMsg == msg && saNack
  ensures [C20] "storage failure stops there" okMsg(msg) && saErr != nil ==> cmN == old(cmN) && auN == old(auN) && err != nil && !ok
  ensures [C20] "then the cache, once" okMsg(msg) && saErr == nil ==> cmN == old(cmN) + 1 && cmAt > saAt && cmMsg == msg
  ensures [C20,C03] "the requested score" okMsg(msg) && saErr == nil ==> cmScore == (old(msg.Score) == -1.0 && msg.LockMs <= 0 ? 0.0 : old(msg.Score))
  ensures [C20] "locks exactly when asked" okMsg(msg) && saErr == nil ==> cmLock == (msg.LockMs > 0) && (cmLock ==> cmNack)
  ensures [C20] "cache result" okMsg(msg) && saErr == nil && cmErr == nil ==> err == nil && ok == cmOk
  ensures [C20] "cache failure reported" okMsg(msg) && saErr == nil && cmErr != nil ==> err != nil && !ok && auN == old(auN)
  ensures [C30] "audited once" okMsg(msg) && saErr == nil && cmErr == nil ==> auN == old(auN) + 1 && audited(old(auN), msg.ID, msg.Queue, "NACK", reason) && auLock[old(auN)] == (msg.LockMs > 0 ? msg.LockMs : 0)
  ensures [C30] "not audited otherwise" !okMsg(msg) || saErr != nil || cmErr != nil ==> auN == old(auN)
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))

func queue.Queue.Remove(pool, ctx, queue, reason, ids) (cacheRemoved, storageRemoved, err)
  requires [C32] "housekeeping removes nothing more once shutting down" reason == "TTL" || reason == "MAX_ELEMENTS" ==> !chClosed[shutdown.Started]
  modifies tick, srN, srAt, srQueue, srIds, srLen, srRes, srErr, srHas, crN, crAt, crQueue, crIds, crLen, crRes, crErr, crHas, rmFail, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  ensures [C20] "storage first, once" srN == old(srN) + 1 && srQueue == queue && srLen == len(ids)
  ensures [C20] "exactly the ids" forall i : int { srIds[i] } { ids[i] } :: 0 <= i && i < len(ids) ==> srIds[i] == ids[i]
  ensures [C20] "storage failure stops there" srErr != nil ==> err != nil && crN == old(crN) && auN == old(auN)
  ensures [C20] "then the cache, once" srErr == nil ==> crN == old(crN) + 1 && crAt > srAt && crQueue == queue && crLen == len(ids)
  ensures [C20] "exactly the ids from the cache" srErr == nil ==> forall i : int { crIds[i] } { ids[i] } :: 0 <= i && i < len(ids) ==> crIds[i] == ids[i]
  ensures [C20] "cache failure reported" srErr == nil && crErr != nil ==> err != nil && auN == old(auN)
  ensures [C20] "results" srErr == nil && crErr == nil ==> err == nil && cacheRemoved == crRes && storageRemoved == srRes
  ensures [C22,C23] forall id : string { srHas[queue][id] } :: srHas[queue][id] ==> old(srHas)[queue][id] || (exists i : int { ids[i] } :: 0 <= i && i < len(ids) && ids[i] == id)
  ensures [C22,C23] forall id : string { crHas[queue][id] } :: crHas[queue][id] ==> old(crHas)[queue][id] || (exists i : int { ids[i] } :: 0 <= i && i < len(ids) && ids[i] == id)
  ensures [C22,C23] forall q : string; id : string { srHas[q][id] } { old(srHas)[q][id] } :: old(srHas)[q][id] ==> srHas[q][id]
  ensures [C22,C23] forall q : string; id : string { crHas[q][id] } { old(crHas)[q][id] } :: old(crHas)[q][id] ==> crHas[q][id]
  ensures [C22,C23] forall q : string { srHas[q] } { crHas[q] } :: q != queue ==> srHas[q] == old(srHas)[q] && crHas[q] == old(crHas)[q]
  ensures [C22,C23] err == nil ==> (forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> srHas[queue][ids[i]] && crHas[queue][ids[i]])
  ensures [C23] rmFail >= old(rmFail) && (err == nil <==> rmFail == old(rmFail))
  ensures [C22,C23] err == nil ==> srErr == nil && crErr == nil
  ensures [C30] "each id audited once" srErr == nil && crErr == nil ==> auN == old(auN) + len(ids) && forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ids[i - old(auN)], queue, "REMOVE", reason)
  ensures [C30] "not audited on failure" srErr != nil || crErr != nil ==> auN == old(auN)
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 1 invariant auN == old(auN) + iter && iter <= len(ids)
  loop 1 invariant tick >= srAt
  loop 1 invariant [C30] forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ids[i - old(auN)], queue, "REMOVE", reason)
  loop 1 invariant [C30] auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))

// -- insertion into the cache (C30, C07)
ghost var ciN int
ghost var ciSet array[*message.Message]bool
ghost var ciTotal int
ghost var ciId array[int]string
ghost var ciQueue array[int]string
ghost var ciErr error
// the score a message had when it was handed to the cache
ghost var ciSc array[*message.Message]float

iface cache.Cache.Insert(recv, ctx, queue, messages)(insertions, err)
  requires [C30,C07] "messages of that queue only" forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> messages[i].Queue == queue
  modifies tick, ciN, ciSet, ciTotal, ciId, ciQueue, ciErr, ciSc
  ensures tick == old(tick) + 1 && ciN == old(ciN) + 1 && ciErr == err
  ensures err == nil ==> (forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> ciSet[messages[i]])
  ensures [C21] err == nil ==> (forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> ciSc[messages[i]] == messages[i].Score)
  ensures forall m : *message.Message { ciSet[m] } :: old(ciSet)[m] ==> ciSet[m]
  ensures [C21] forall m : *message.Message { ciSc[m] } :: ciSc[m] == old(ciSc)[m] || ciSc[m] == m.Score
  ensures ciTotal == old(ciTotal) + (err == nil ? len(insertions) : 0)
  ensures err == nil ==> forall i : int { ciId[i] } :: old(ciTotal) <= i && i < ciTotal ==> ciId[i] == insertions[i - old(ciTotal)] && ciQueue[i] == queue
  ensures forall i : int { ciId[i] } :: i < old(ciTotal) ==> ciId[i] == old(ciId)[i] && ciQueue[i] == old(ciQueue)[i]

func queue.Queue.AddMessagesToCacheWithAuditReason(pool, ctx, reason, messages) (n, err)
  requires forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> messages[i] != nil
  modifies tick, ciN, ciSet, ciTotal, ciId, ciQueue, ciErr, ciSc, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  ensures [C07,C21] "every message handed to the cache" err == nil ==> forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> ciSet[messages[i]]
  ensures [C21] "with its score" err == nil ==> forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> ciSc[messages[i]] == messages[i].Score
  ensures [C21] "failure reported" err != nil ==> ciErr != nil && ciN > old(ciN)
  ensures [C21] "and nothing else" err == nil ==> ciErr == nil || ciN == old(ciN)
  ensures [C30] "every insertion audited once" auN - old(auN) == ciTotal - old(ciTotal)
  ensures [C30] "with its id, queue, signal and reason" forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ciId[i - old(auN) + old(ciTotal)], ciQueue[i - old(auN) + old(ciTotal)], "INSERT_CACHE", reason)
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 1 invariant iter <= len(messages)
  loop 1 invariant forall q : string { q in membersByQueue } :: q in membersByQueue ==> fresh(membersByQueue[q])
  loop 1 invariant forall q : string { q in membersByQueue } :: q in membersByQueue ==> len(membersByQueue[q]) > 0 && off(membersByQueue[q]) == 0 && membersByQueue[q][0] != nil && membersByQueue[q][0].Queue == q
  loop 1 invariant forall q : string; k : int { membersByQueue[q][k] } :: q in membersByQueue && 0 <= k && k < len(membersByQueue[q]) ==> membersByQueue[q][k] != nil && membersByQueue[q][k].Queue == q
  loop 1 invariant [C07,C21] forall i : int { messages[i] } :: 0 <= i && i < iter ==> messages[i].Queue in membersByQueue && exists k : int :: 0 <= k && k < len(membersByQueue[messages[i].Queue]) && membersByQueue[messages[i].Queue][k] == messages[i]
  loop 2 invariant [C07,C21] forall q : string; k : int { membersByQueue[q][k] } :: visited(q) && 0 <= k && k < len(membersByQueue[q]) ==> ciSet[membersByQueue[q][k]]
  loop 2 invariant [C21] forall q : string; k : int { membersByQueue[q][k] } :: visited(q) && 0 <= k && k < len(membersByQueue[q]) ==> ciSc[membersByQueue[q][k]] == membersByQueue[q][k].Score
  loop 2 invariant [C21] ciN >= old(ciN) && (ciErr == nil || ciN == old(ciN))
  loop 2 invariant [C30] auN - old(auN) == ciTotal - old(ciTotal) && ciTotal >= old(ciTotal)
  loop 2 invariant [C30] forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ciId[i - old(auN) + old(ciTotal)], ciQueue[i - old(auN) + old(ciTotal)], "INSERT_CACHE", reason)
  loop 2 invariant [C30] auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 3 invariant [C30] auN - old(auN) == ciTotal - old(ciTotal) - len(insertions) + iter && iter <= len(insertions)
  loop 3 invariant [C30] forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ciId[i - old(auN) + old(ciTotal)], ciQueue[i - old(auN) + old(ciTotal)], "INSERT_CACHE", reason)
  loop 3 invariant [C30] auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))

// -- lookups in storage: call c of Find is recorded at index c
ghost var omLen array[ref]int
ghost var omKey array[ref]string
ghost var omDir array[ref]int
extern orderedmap.NewOrderedMap()(m)
  modifies omLen
  ensures m != nil && fresh(m) && omLen == store(old(omLen), m, 0)
extern orderedmap.OrderedMap.Set(m, k, v)(isnew)
  modifies omLen, omKey, omDir
  ensures omLen == store(old(omLen), m, old(omLen)[m] + 1) && omKey == store(old(omKey), m, k) && omDir == store(old(omDir), m, v)

ghost var fdN int
ghost var fdAt array[int]int
ghost var fdQueue array[int]string
ghost var fdPrefix array[int]string
ghost var fdGt array[int]string
ghost var fdLte array[int]string
ghost var fdExp array[int]*time.Time
ghost var fdLimit array[int]int
ghost var fdRetry array[int]bool
ghost var fdSort array[int]string
ghost var fdDir array[int]int
ghost var fdIdsLen array[int]int
ghost var fdIds array[int]array[int]string
ghost var fdLen array[int]int
ghost var fdId array[int]array[int]string
ghost var fdRq array[int]array[int]string
ghost var fdScore array[int]array[int]float
// fdHas[c][id]: call c returned id
ghost var fdHas array[int]array[string]bool
// fdPair[c][q][id]: call c returned message id of queue q; fdPtr[c][i]: where result i is
ghost var fdPair array[int]array[string]array[string]bool
ghost var fdPtr array[int]array[int]*message.Message
ghost var fdErr array[int]error
// fdSc[c]: how many counts came before lookup c; scFd[s]: how many lookups before count s
ghost var fdSc array[int]int
ghost var scN int
ghost var scFd array[int]int
ghost var scQueue array[int]string
ghost var scPrefix array[int]string
ghost var scAll array[int]bool
ghost var scRes array[int]int
ghost var scErr array[int]error
ghost var scF array[int]*storage.InternalFilter

// szHas[q], szVal[q]: the messages of prefix q were counted, last with that result
ghost var szHas array[string]bool
ghost var szVal array[string]int
ghost var szFail bool
// agAsk[q]: the message of prefix q used longest ago was looked up; agHas[q]: and found
ghost var agAsk array[string]bool
ghost var agHas array[string]bool
ghost var agErr array[string]bool
iface storage.Storage.Count(recv, ctx, o, co)(res, err)
  requires o != nil
  modifies tick, scN, scFd, scQueue, scPrefix, scAll, scRes, scErr, scF, szHas, szVal, szFail
  ensures scF == store(old(scF), old(scN), o.InternalFilter)
  ensures [C33] (f != nil && f.Queue == "" && f.Ids == nil && f.ExpiryDate == nil && f.InternalIdBreakpointGt == "" && f.InternalIdBreakpointLte == "") && err == nil ? szHas == store(old(szHas), f.QueuePrefix, true) && szVal == store(old(szVal), f.QueuePrefix, res) : szHas == old(szHas) && szVal == old(szVal)
  ensures szFail == (old(szFail) || err != nil)
  def f = o.InternalFilter
  ensures tick == old(tick) + 1 && scN == old(scN) + 1 && scFd == store(old(scFd), old(scN), fdN)
  ensures scQueue == store(old(scQueue), old(scN), f == nil ? "" : f.Queue) && scPrefix == store(old(scPrefix), old(scN), f == nil ? "" : f.QueuePrefix)
  ensures scAll == store(old(scAll), old(scN), f == nil || f.Ids == nil && f.ExpiryDate == nil && f.InternalIdBreakpointGt == "" && f.InternalIdBreakpointLte == "")
  ensures scRes == store(old(scRes), old(scN), res) && scErr == store(old(scErr), old(scN), err)
  ensures err == nil ==> res >= 0

iface storage.Storage.Find(recv, ctx, o)(res, err)
  requires o != nil
  ensures [C33] f != nil && f.Queue == "" && f.Ids == nil && f.ExpiryDate == nil && f.InternalIdBreakpointGt == "" && f.InternalIdBreakpointLte == "" && o.Limit == 1 && o.Sort != nil && omLen[o.Sort] == 1 && omKey[o.Sort] == "last_usage" && omDir[o.Sort] == 1 ? agAsk == store(old(agAsk), f.QueuePrefix, true) && agErr == store(old(agErr), f.QueuePrefix, err != nil) && agHas == store(old(agHas), f.QueuePrefix, old(agHas)[f.QueuePrefix] || err == nil && len(res) > 0 && res[0].LastUsage != nil) : agAsk == old(agAsk) && agErr == old(agErr) && agHas == old(agHas)
  ensures [C33] "no more than the limit (C16)" o.Limit > 0 ==> len(res) <= o.Limit
  requires [C32] "no further queue is measured once shutting down" o.Sort != nil && omKey[o.Sort] == "last_usage" ==> !chClosed[shutdown.Started]
  modifies tick, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas
  def n = old(fdN)
  def f = o.InternalFilter
  ensures tick == old(tick) + 1 && fdN == n + 1 && fdAt == store(old(fdAt), n, tick) && fdErr == store(old(fdErr), n, err)
  ensures [C23] fdSc == store(old(fdSc), n, scN)
  ensures fdQueue == store(old(fdQueue), n, f == nil ? "" : f.Queue) && fdPrefix == store(old(fdPrefix), n, f == nil ? "" : f.QueuePrefix)
  ensures fdGt == store(old(fdGt), n, f == nil ? "" : f.InternalIdBreakpointGt) && fdLte == store(old(fdLte), n, f == nil ? "" : f.InternalIdBreakpointLte)
  ensures fdExp == store(old(fdExp), n, f == nil ? nil : f.ExpiryDate) && fdLimit == store(old(fdLimit), n, o.Limit) && fdRetry == store(old(fdRetry), n, o.Retry)
  ensures fdSort == store(old(fdSort), n, o.Sort != nil && omLen[o.Sort] == 1 ? omKey[o.Sort] : "") && fdDir == store(old(fdDir), n, o.Sort != nil && omLen[o.Sort] == 1 ? omDir[o.Sort] : 0)
  ensures fdIdsLen == store(old(fdIdsLen), n, f != nil && f.Ids != nil ? len(*f.Ids) : -1)
  ensures f != nil && f.Ids != nil ==> (forall i : int { fdIds[n][i] } { (*f.Ids)[i] } :: 0 <= i && i < len(*f.Ids) ==> fdIds[n][i] == (*f.Ids)[i])
  ensures forall c : int { fdIds[c] } :: c != n ==> fdIds[c] == old(fdIds)[c]
  ensures fdLen == store(old(fdLen), n, len(res)) && fresh(res)
  ensures forall i : int { res[i] } { fdId[n][i] } :: 0 <= i && i < len(res) ==> fdId[n][i] == res[i].ID && fdRq[n][i] == res[i].Queue && fdScore[n][i] == res[i].Score && !isnan(res[i].Score)
  // what storage does with the sort it is given (C16)
  ensures o.Sort != nil && omLen[o.Sort] == 1 && omKey[o.Sort] == "score" && omDir[o.Sort] == 1 ==> (forall i : int; j : int { res[i], res[j] } :: 0 <= i && i < j && j < len(res) ==> res[i].Score <= res[j].Score)
  ensures forall i : int { res[i] } :: 0 <= i && i < len(res) ==> fdHas[n][res[i].ID]
  ensures forall id : string { fdHas[n][id] } :: fdHas[n][id] ==> (exists i : int { res[i] } :: 0 <= i && i < len(res) && res[i].ID == id)
  ensures [C22,C23] forall i : int { res[i] } :: 0 <= i && i < len(res) ==> fdPair[n][res[i].Queue][res[i].ID]
  ensures [C22,C23] forall q : string; id : string { fdPair[n][q][id] } :: fdPair[n][q][id] ==> (exists i : int { res[i] } :: 0 <= i && i < len(res) && res[i].ID == id && res[i].Queue == q)
  ensures [C21] forall i : int { res[i] } { fdPtr[n][i] } :: 0 <= i && i < len(res) ==> fdPtr[n][i] == &res[i]
  ensures [C22,C23] forall c : int { fdPair[c] } :: c != n ==> fdPair[c] == old(fdPair)[c]
  ensures [C21] forall c : int { fdPtr[c] } :: c != n ==> fdPtr[c] == old(fdPtr)[c]
  ensures forall c : int { fdId[c] } { fdRq[c] } { fdScore[c] } { fdHas[c] } :: c != n ==> fdId[c] == old(fdId)[c] && fdRq[c] == old(fdRq)[c] && fdScore[c] == old(fdScore)[c] && fdHas[c] == old(fdHas)[c]


// -- pull (C19)
ghost var cpN int
ghost var cpQueue string
ghost var cpCount int
ghost var cpMin *float
ghost var cpMax *float
ghost var cpDeadline int
ghost var cpLen int
ghost var cpIds array[int]string
ghost var cpErr error

iface cache.Cache.PullMessages(recv, ctx, queue, n, minScore, maxScore, ackDeadlineMs)(ids, err)
  modifies tick, cpN, cpQueue, cpCount, cpMin, cpMax, cpDeadline, cpLen, cpIds, cpErr
  ensures tick == old(tick) + 1 && cpN == old(cpN) + 1 && cpQueue == queue && cpCount == n && cpMin == minScore && cpMax == maxScore && cpDeadline == ackDeadlineMs && cpLen == len(ids) && cpErr == err && fresh(ids)
  ensures forall i : int { cpIds[i] } { ids[i] } :: 0 <= i && i < len(ids) ==> cpIds[i] == ids[i]

func queue.notFoundIds(ids, messages)(nf)
  ensures [C19,C30] "only ids asked for and not found" forall k : int { nf[k] } :: 0 <= k && k < len(nf) ==> (exists i : int { ids[i] } :: 0 <= i && i < len(ids) && ids[i] == nf[k]) && (forall j : int { messages[j] } :: 0 <= j && j < len(messages) ==> messages[j].ID != nf[k])
  ensures [C19,C30] "every id is found or listed" forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> (exists j : int { messages[j] } :: 0 <= j && j < len(messages) && messages[j].ID == ids[i]) || (exists k : int { nf[k] } :: 0 <= k && k < len(nf) && nf[k] == ids[i])
  ensures fresh(nf)
  modifies nothing
  loop 1 invariant iter <= len(messages)
  loop 1 invariant forall j : int { messages[j] } :: 0 <= j && j < iter ==> messages[j].ID in found
  loop 1 invariant forall s : string { s in found } :: s in found ==> (exists j : int { messages[j] } :: 0 <= j && j < iter && messages[j].ID == s)
  loop 2 invariant iter <= len(ids) && fresh(notFound) && off(notFound) == 0
  loop 2 invariant forall k : int { notFound[k] } :: 0 <= k && k < len(notFound) ==> !(notFound[k] in found) && (exists i : int { ids[i] } :: 0 <= i && i < len(ids) && ids[i] == notFound[k])
  loop 2 invariant forall i : int { ids[i] } :: 0 <= i && i < iter ==> ids[i] in found || (exists k : int { notFound[k] } :: 0 <= k && k < len(notFound) && notFound[k] == ids[i])

func queue.Queue.Pull(pool, ctx, queue, n, minScore, maxScore, ackDeadlineMs)(r, err)
  modifies tick, cpN, cpQueue, cpCount, cpMin, cpMax, cpDeadline, cpLen, cpIds, cpErr, omLen, omKey, omDir, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas, crN, crAt, crQueue, crIds, crLen, crRes, crErr, crHas, rmFail, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def c1 = old(fdN)
  def c2 = old(fdN) + 1
  ensures [C19] "the cache is asked once, as the caller asked" cpN == old(cpN) + 1 && cpQueue == queue && cpCount == n && cpMin == minScore && cpMax == maxScore && cpDeadline == ackDeadlineMs
  ensures [C19] "cache failure stops there" cpErr != nil ==> err != nil && r == nil && fdN == c1 && crN == old(crN) && auN == old(auN)
  ensures [C19] "nothing handed out" cpErr == nil && cpLen == 0 ==> err == nil && r == nil && fdN == c1 && crN == old(crN) && auN == old(auN)
  ensures [C19] "the ids handed out are looked up in their queue" cpErr == nil && cpLen > 0 ==> fdN > c1 && fdQueue[c1] == queue && fdIdsLen[c1] == cpLen && fdLimit[c1] == cpLen && fdSort[c1] == "score" && fdDir[c1] == 1 && (forall i : int { cpIds[i] } :: 0 <= i && i < cpLen ==> fdIds[c1][i] == cpIds[i])
  ensures [C19] "at most one more lookup" fdN <= c1 + 2
  ensures [C19] "of the ids not returned" fdN == c1 + 2 ==> fdErr[c1] == nil && fdQueue[c2] == queue && fdRetry[c2] && fdIdsLen[c2] > 0 && fdLimit[c2] == fdIdsLen[c2] && (forall k : int { fdIds[c2][k] } :: 0 <= k && k < fdIdsLen[c2] ==> (exists i : int { cpIds[i] } :: 0 <= i && i < cpLen && cpIds[i] == fdIds[c2][k]) && !fdHas[c1][fdIds[c2][k]])
  ensures [C19] "storage failure is reported" fdN > c1 && fdErr[c1] != nil || fdN == c1 + 2 && fdErr[c2] != nil ==> err != nil && r == nil && crN == old(crN) && auN == old(auN)
  ensures [C19] "and nothing else is an error" cpErr == nil && (fdN > c1 ==> fdErr[c1] == nil) && (fdN == c1 + 2 ==> fdErr[c2] == nil) ==> err == nil
  ensures [C19] "delivers only what storage returned" err == nil && r != nil ==> (forall j : int { (*r)[j] } :: 0 <= j && j < len(*r) ==> fdHas[c1][(*r)[j].ID] || fdN == c1 + 2 && fdHas[c2][(*r)[j].ID])
  ensures [C19] "ordered by score" err == nil && r != nil ==> (forall i : int; j : int { (*r)[i], (*r)[j] } :: 0 <= i && i < j && j < len(*r) ==> (*r)[i].Score <= (*r)[j].Score)
  ensures [C19] "every id is delivered or cleaned up" err == nil ==> (forall i : int { cpIds[i] } :: 0 <= i && i < cpLen ==> r != nil && (exists j : int { (*r)[j] } :: 0 <= j && j < len(*r) && (*r)[j].ID == cpIds[i]) || crN == old(crN) + 1 && (exists k : int { crIds[k] } :: 0 <= k && k < crLen && crIds[k] == cpIds[i]))
  ensures [C19] "cleans up only what storage does not have" crN == old(crN) || crN == old(crN) + 1 && crQueue == queue && fdN == c1 + 2 && (forall k : int { crIds[k] } :: 0 <= k && k < crLen ==> !fdHas[c1][crIds[k]] && !fdHas[c2][crIds[k]])
  ensures [C19,C30] "each missing id audited once" auN - old(auN) == (crN > old(crN) ? crLen : 0) && (forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, crIds[i - old(auN)], queue, "MISSING_STORAGE", ""))
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 1 invariant auN == old(auN) + iter && iter <= len(retryNotFound)
  loop 1 invariant forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, retryNotFound[i - old(auN)], queue, "MISSING_STORAGE", "")
  loop 1 invariant auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))

// -- deadlines and locks that passed (C30)
ghost var ctN int
ghost var ctQueue string
ghost var ctLen int
ghost var ctIds array[int]string
ghost var ctErr error
// ctQ[k]: the queue of call k
ghost var ctQ array[int]string
iface cache.Cache.TimeoutMessages(recv, ctx, queue)(ids, err)
  modifies tick, ctN, ctQueue, ctLen, ctIds, ctErr, ctQ
  ensures ctQ == store(old(ctQ), old(ctN), queue)
  ensures tick == old(tick) + 1 && ctN == old(ctN) + 1 && ctQueue == queue && ctLen == len(ids) && ctErr == err
  ensures forall i : int { ids[i] } { ctIds[i] } :: 0 <= i && i < len(ids) ==> ctIds[i] == ids[i]

func queue.Queue.TimeoutMessages(pool, ctx, queue)(ids, err)
  requires [C32] "no further queue once shutting down" !chClosed[shutdown.Started]
  modifies tick, ctN, ctQueue, ctLen, ctIds, ctErr, ctQ, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  ensures [C37] "the cache is asked for that queue" ctN == old(ctN) + 1 && ctQ == store(old(ctQ), old(ctN), queue)
  ensures [C30] "the cache is asked once for that queue" ctN == old(ctN) + 1 && ctQueue == queue
  ensures [C30] "each timed out id audited once" ctErr == nil ==> err == nil && auN == old(auN) + ctLen && (forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ctIds[i - old(auN)], queue, "TIMEOUT", ""))
  ensures [C30] "none on failure" ctErr != nil ==> err != nil && auN == old(auN)
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 1 invariant auN == old(auN) + iter && iter <= len(ids)
  loop 1 invariant forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, ids[i - old(auN)], queue, "TIMEOUT", "")
  loop 1 invariant auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))

ghost var cuTotal int
ghost var cuId array[int]string
ghost var cuQueue array[int]string
ghost var cuType array[int]string
// ulN, ulQ, ulT: the calls
ghost var ulN int
ghost var ulQ array[int]string
ghost var ulT array[int]string
iface cache.Cache.UnlockMessages(recv, ctx, queue, lockType)(ids, err)
  requires [C30,C12] "a lock type" lockType == "lock_nack" || lockType == "lock_ack"
  requires [C32] "no further queue once shutting down" !chClosed[shutdown.Started]
  modifies tick, cuTotal, cuId, cuQueue, cuType, ulN, ulQ, ulT
  ensures ulN == old(ulN) + 1 && ulQ == store(old(ulQ), old(ulN), queue) && ulT == store(old(ulT), old(ulN), lockType)
  ensures tick == old(tick) + 1 && cuTotal == old(cuTotal) + (err == nil ? len(ids) : 0)
  ensures err == nil ==> (forall i : int { cuId[i] } :: old(cuTotal) <= i && i < cuTotal ==> cuId[i] == ids[i - old(cuTotal)] && cuQueue[i] == queue && cuType[i] == lockType)
  ensures forall i : int { cuId[i] } { cuQueue[i] } { cuType[i] } :: i < old(cuTotal) ==> cuId[i] == old(cuId)[i] && cuQueue[i] == old(cuQueue)[i] && cuType[i] == old(cuType)[i]

func queue.unlockMessages(ctx, pool, queues, lockType)
  requires pool != nil && (lockType == "lock_nack" || lockType == "lock_ack") && ulN >= 0
  modifies chClosed, tick, cuTotal, cuId, cuQueue, cuType, ulN, ulQ, ulT, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  ensures forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]
  ensures [C37] "every queue is visited unless shutting down" !chClosed[shutdown.Started] ==> (forall i : int { queues[i] } :: 0 <= i && i < len(queues) ==> (exists k : int { ulQ[k] } :: old(ulN) <= k && k < ulN && ulQ[k] == queues[i] && ulT[k] == lockType))
  ensures ulN >= old(ulN)
  ensures [C37] "no other is" (forall k : int { ulQ[k] } :: old(ulN) <= k && k < ulN ==> ulT[k] == lockType && (exists i : int { queues[i] } :: 0 <= i && i < len(queues) && ulQ[k] == queues[i]))
  ensures [C37] "earlier visits kept" forall k : int { ulQ[k] } { ulT[k] } :: k < old(ulN) ==> ulQ[k] == old(ulQ)[k] && ulT[k] == old(ulT)[k]
  loop 1 invariant forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]
  loop 1 invariant iter <= len(queues) && ulN >= old(ulN)
  loop 1 invariant [C37] forall i : int { queues[i] } :: 0 <= i && i < iter ==> (exists k : int { ulQ[k] } :: old(ulN) <= k && k < ulN && ulQ[k] == queues[i] && ulT[k] == lockType)
  loop 1 invariant [C37] forall k : int { ulQ[k] } :: old(ulN) <= k && k < ulN ==> ulT[k] == lockType && (exists i : int { queues[i] } :: 0 <= i && i < len(queues) && ulQ[k] == queues[i])
  loop 1 invariant [C37] forall k : int { ulQ[k] } { ulT[k] } :: k < old(ulN) ==> ulQ[k] == old(ulQ)[k] && ulT[k] == old(ulT)[k]
  ensures [C30] "every unlocked id audited once" auN - old(auN) == cuTotal - old(cuTotal) && cuTotal >= old(cuTotal)
  ensures [C30] "with its id, queue, signal and lock" forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, cuId[i - old(auN) + old(cuTotal)], cuQueue[i - old(auN) + old(cuTotal)], "UNLOCK", lockType)
  ensures [C30] "earlier entries kept" auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 1 invariant auN - old(auN) == cuTotal - old(cuTotal) && cuTotal >= old(cuTotal)
  loop 1 invariant forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, cuId[i - old(auN) + old(cuTotal)], cuQueue[i - old(auN) + old(cuTotal)], "UNLOCK", lockType)
  loop 1 invariant auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
  loop 2 invariant auN - old(auN) == cuTotal - old(cuTotal) - len(ids) + iter && iter <= len(ids) && cuTotal - len(ids) >= old(cuTotal)
  loop 2 invariant forall i : int { auId[i] } :: old(auN) <= i && i < auN ==> audited(i, cuId[i - old(auN) + old(cuTotal)], cuQueue[i - old(auN) + old(cuTotal)], "UNLOCK", lockType)
  loop 2 invariant auKept(old(auN), old(auId), old(auQueue), old(auSig), old(auReason))
