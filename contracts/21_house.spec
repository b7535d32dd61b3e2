// ---- internal/queue: the housekeeper (C21, C22, C23)
ghost var kv array[string]string
ghost var cgFail int
ghost var csFail int
// sidOf[m]: the internal id of m as text
ghost var sidOf array[*message.Message]string
iface storage.Storage.GetStringInternalId(recv, ctx, m)(r)
  ensures r == sidOf[m]

iface cache.Cache.Get(recv, ctx, k)(v, err)
  modifies tick, cgFail
  ensures tick == old(tick) + 1 && cgFail == old(cgFail) + (err == nil ? 0 : 1)
  ensures err == nil ==> v == kv[k]

pure queuedAll(c int, fl array[int]int, fp array[int]array[int]*message.Message, fs array[int]array[int]float, cs array[*message.Message]bool, cc array[*message.Message]float) bool = forall i : int { fp[c][i] } :: 0 <= i && i < fl[c] ==> cs[fp[c][i]] && cc[fp[c][i]] == clampS(fs[c][i])

iface cache.Cache.Set(recv, ctx, k, v)(err)
  // a crash may come right after this call
  requires [C21] "the position moves only over messages already queued" k == cache.RECOVERY_STORAGE_BREAKPOINT_KEY ==> fdN > 0 && fdErr[fdN - 1] == nil && (fdDir[fdN - 1] == 1 || fdLen[fdN - 1] == 0) && queuedAll(fdN - 1, fdLen, fdPtr, fdScore, ciSet, ciSc)
  requires [C21] "to the last message read" k == cache.RECOVERY_STORAGE_BREAKPOINT_KEY && v != cache.RECOVERY_FINISHED ==> fdLen[fdN - 1] > 0 && v == sidOf[fdPtr[fdN - 1][fdLen[fdN - 1] - 1]]
  requires [C21] "finished only after a short batch" k == cache.RECOVERY_STORAGE_BREAKPOINT_KEY && v == cache.RECOVERY_FINISHED ==> fdLen[fdN - 1] < fdLimit[fdN - 1] || v == sidOf[fdPtr[fdN - 1][fdLen[fdN - 1] - 1]]
  modifies tick, kv, csFail
  ensures tick == old(tick) + 1 && csFail == old(csFail) + (err == nil ? 0 : 1)
  ensures err == nil ==> kv == store(old(kv), k, v)
  ensures err != nil ==> kv == old(kv) || kv == store(old(kv), k, v)

func queue.RecoveryMessagesPool(ctx, pool)(metrify)
  requires pool != nil
  modifies clk, reads, tick, kv, csFail, cgFail, omLen, omKey, omDir, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas, ciN, ciSet, ciTotal, ciId, ciQueue, ciErr, ciSc, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def BP = cache.RECOVERY_STORAGE_BREAKPOINT_KEY
  def pos = kv[cache.RECOVERY_STORAGE_BREAKPOINT_KEY]
  def run = kv[cache.RECOVERY_RUNNING]
  def c0 = fdN
  requires fdN >= 0
  ensures [C21] "a finished recovery does nothing" pos == cache.RECOVERY_FINISHED ==> fdN == c0 && ciN == old(ciN) && kv == old(kv)
  ensures [C21] "at most the two lookups" fdN >= c0 && fdN <= c0 + 2
  ensures [C21] "every lookup is the start or the next batch" forall c : int { fdGt[c] } :: c0 <= c && c < fdN ==> fdQueue[c] == "" && fdPrefix[c] == "" && fdIdsLen[c] == -1 && fdExp[c] == nil && fdSort[c] == "_id" && (fdDir[c] == 1 && fdGt[c] == pos && fdLte[c] == kv[cache.RECOVERY_BREAKPOINT_KEY] || c == c0 && pos == "" && run != "true" && fdDir[c] == -1 && fdLimit[c] == 1 && fdGt[c] == "" && fdLte[c] == "")
  ensures [C21] "the end position is set at the start only" kv[cache.RECOVERY_BREAKPOINT_KEY] == old(kv)[cache.RECOVERY_BREAKPOINT_KEY] || pos == "" && run != "true" && fdN > c0 && fdErr[c0] == nil && fdDir[c0] == -1 && fdLen[c0] > 0 && kv[cache.RECOVERY_BREAKPOINT_KEY] == sidOf[fdPtr[c0][0]]
  ensures [C21] "a failed lookup moves nothing" fdN > c0 && fdErr[fdN - 1] != nil ==> kv[BP] == pos && ciN == old(ciN)
  ensures [C21] "a failed insertion moves nothing" ciN > old(ciN) && ciErr != nil ==> kv[BP] == pos
  ensures [C21] "the position moves over the batch or to the end" kv[BP] != pos ==> fdN > c0 && fdErr[fdN - 1] == nil && queuedAll(fdN - 1, fdLen, fdPtr, fdScore, ciSet, ciSc)
  ensures [C21] "and does so when nothing fails" pos != cache.RECOVERY_FINISHED && cgFail == old(cgFail) && csFail == old(csFail) && (ciN > old(ciN) ==> ciErr == nil) && (forall c : int { fdErr[c] } :: c0 <= c && c < fdN ==> fdErr[c] == nil) ==> fdN > c0 && kv[BP] == (fdLen[fdN - 1] < fdLimit[fdN - 1] ? cache.RECOVERY_FINISHED : sidOf[fdPtr[fdN - 1][fdLen[fdN - 1] - 1]])
  loop 1 invariant iter <= len(messages)
  loop 1 invariant fresh(addMessages) && len(addMessages) == len(messages)
  loop 1 invariant forall i : int { addMessages[i] } { messages[i] } :: 0 <= i && i < iter ==> addMessages[i] == &messages[i] && messages[i].Score == clampS(fdScore[fdN - 1][i])
  loop 1 invariant forall i : int { messages[i] } :: iter <= i && i < len(messages) ==> messages[i].Score == fdScore[fdN - 1][i]
  loop 1 invariant forall m : *message.Message { m.Score } :: !fresh(m) ==> m.Score == old(m.Score)

// -- expiry cleaning (C22)
func queue.RemoveTTLMessages(ctx, pool, filterDate)(metrify, err)
  requires pool != nil && filterDate != nil
  modifies tick, cgFail, chClosed, omLen, omKey, omDir, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas, srN, srAt, srQueue, srIds, srLen, srRes, srErr, srHas, crN, crAt, crQueue, crIds, crLen, crRes, crErr, crHas, rmFail, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def c = old(fdN)
  ensures [C22] "waits for recovery" cgFail > old(cgFail) || kv[cache.RECOVERY_RUNNING] == "true" ==> fdN == c && srN == old(srN) && crN == old(crN) && srHas == old(srHas) && crHas == old(crHas) && auN == old(auN)
  ensures [C22] "one lookup, of the messages expired by the date" cgFail == old(cgFail) && kv[cache.RECOVERY_RUNNING] != "true" ==> fdN == c + 1 && fdExp[c] == filterDate && fdQueue[c] == "" && fdPrefix[c] == "" && fdIdsLen[c] == -1 && fdGt[c] == "" && fdLte[c] == "" && fdSort[c] == "expiry_date" && fdDir[c] == 1
  ensures [C22] "a failed lookup removes nothing" fdN > c && fdErr[c] != nil ==> err != nil && srN == old(srN) && crN == old(crN)
  ensures [C22] "a failure is reported" err == nil && fdN > c ==> fdErr[c] == nil
  ensures [C22] "removes only those from storage" forall q : string; id : string { srHas[q][id] } :: srHas[q][id] ==> old(srHas)[q][id] || fdN > c && fdPair[c][q][id]
  ensures [C22] "removes only those from the cache" forall q : string; id : string { crHas[q][id] } :: crHas[q][id] ==> old(crHas)[q][id] || fdN > c && fdPair[c][q][id]
  ensures [C22] "removes all of them unless shutting down" err == nil && !chClosed[shutdown.Started] && fdN > c ==> (forall q : string; id : string { fdPair[c][q][id] } :: fdPair[c][q][id] ==> srHas[q][id] && crHas[q][id])
  loop 1 invariant iter <= len(messages)
  loop 1 invariant forall q : string { q in messageMap } :: q in messageMap ==> fresh(messageMap[q]) && off(messageMap[q]) == 0
  loop 1 invariant forall q : string; p : string { q in messageMap, p in messageMap } :: q in messageMap && p in messageMap && q != p ==> arr(messageMap[q]) != arr(messageMap[p])
  loop 1 invariant forall q : string; k : int { messageMap[q][k] } :: q in messageMap && 0 <= k && k < len(messageMap[q]) ==> fdPair[fdN - 1][q][messageMap[q][k]]
  loop 1 invariant forall i : int { messages[i] } :: 0 <= i && i < iter ==> messages[i].Queue in messageMap && (exists k : int :: 0 <= k && k < len(messageMap[messages[i].Queue]) && messageMap[messages[i].Queue][k] == messages[i].ID)
  loop 2 invariant forall q : string; id : string { srHas[q][id] } :: srHas[q][id] ==> old(srHas)[q][id] || fdPair[fdN - 1][q][id]
  loop 2 invariant forall q : string; id : string { crHas[q][id] } :: crHas[q][id] ==> old(crHas)[q][id] || fdPair[fdN - 1][q][id]
  loop 2 invariant forall q : string; k : int { messageMap[q][k] } :: visited(q) && 0 <= k && k < len(messageMap[q]) ==> srHas[q][messageMap[q][k]] && crHas[q][messageMap[q][k]]

// -- queue size limit (C23)
ghost var lcLen int
ghost var lcQueue array[int]string
ghost var lcMax array[int]int
ghost var lcErr error
iface storage.Storage.ListQueueConfigurations(recv, ctx)(cs, err)
  modifies tick, lcLen, lcQueue, lcMax, lcErr
  ensures tick == old(tick) + 1 && lcErr == err && lcLen == len(cs)
  ensures forall i : int { cs[i] } { lcQueue[i] } { lcMax[i] } :: 0 <= i && i < len(cs) ==> lcQueue[i] == (cs[i] == nil ? "" : cs[i].Queue) && lcMax[i] == (cs[i] == nil ? 0 : cs[i].MaxElements)

func queue.Queue.removeExceedingMessagesFromQueue(pool, ctx, cfg)(err)
  requires [C32] "no further queue once shutting down" !chClosed[shutdown.Started]
  modifies tick, omLen, omKey, omDir, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas, scN, scFd, scQueue, scPrefix, scAll, scRes, scErr, scF, szHas, szVal, szFail, srN, srAt, srQueue, srIds, srLen, srRes, srErr, srHas, crN, crAt, crQueue, crIds, crLen, crRes, crErr, crHas, rmFail, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def c = old(fdN)
  def s = old(scN)
  def limited = cfg != nil && cfg.MaxElements > 0 && cfg.Queue != ""
  def q = cfg.Queue
  def max = cfg.MaxElements
  ensures [C23] "no limit, nothing done" !limited ==> fdN == c && scN == s && srHas == old(srHas) && crHas == old(crHas) && rmFail == old(rmFail)
  ensures [C23] "every message of the queue is counted" limited ==> scN == s + 1 && scQueue[s] == q && scPrefix[s] == "" && scAll[s] && scFd[s] == c
  ensures [C23] "within the limit, nothing done" limited && (scErr[s] != nil || scRes[s] <= max) ==> fdN == c && srHas == old(srHas) && crHas == old(crHas)
  ensures [C23] "the excess, soonest expiring first" limited && scErr[s] == nil && scRes[s] > max ==> fdN == c + 1 && fdSc[c] == s + 1 && fdQueue[c] == q && fdPrefix[c] == "" && fdLimit[c] == scRes[s] - max && fdSort[c] == "expiry_date" && fdDir[c] == 1 && fdIdsLen[c] == -1 && fdGt[c] == "" && fdLte[c] == "" && fdExp[c] == nil
  ensures [C23] "only those leave storage" forall p : string; id : string { srHas[p][id] } :: srHas[p][id] ==> old(srHas)[p][id] || fdN > c && p == q && fdHas[c][id]
  ensures [C23] "only those leave the cache" forall p : string; id : string { crHas[p][id] } :: crHas[p][id] ==> old(crHas)[p][id] || fdN > c && p == q && fdHas[c][id]
  ensures [C23] "all of them leave" fdN > c && fdErr[c] == nil && rmFail == old(rmFail) ==> (forall id : string { fdHas[c][id] } :: fdHas[c][id] ==> srHas[q][id] && crHas[q][id])
  ensures [C23] rmFail >= old(rmFail)
  ensures [C23] forall p : string; id : string { old(srHas)[p][id] } { srHas[p][id] } :: old(srHas)[p][id] ==> srHas[p][id]
  ensures [C23] forall p : string; id : string { old(crHas)[p][id] } { crHas[p][id] } :: old(crHas)[p][id] ==> crHas[p][id]
  ensures [C23] "earlier lookups kept" forall k : int { fdHas[k] } { fdQueue[k] } { fdLimit[k] } { fdSc[k] } { fdErr[k] } :: k < c ==> fdHas[k] == old(fdHas)[k] && fdQueue[k] == old(fdQueue)[k] && fdLimit[k] == old(fdLimit)[k] && fdSc[k] == old(fdSc)[k] && fdErr[k] == old(fdErr)[k] && fdSort[k] == old(fdSort)[k] && fdDir[k] == old(fdDir)[k]
  ensures [C23] "earlier counts kept" forall k : int { scQueue[k] } { scRes[k] } { scErr[k] } { scFd[k] } { scAll[k] } :: k < s ==> scQueue[k] == old(scQueue)[k] && scRes[k] == old(scRes)[k] && scErr[k] == old(scErr)[k] && scFd[k] == old(scFd)[k] && scAll[k] == old(scAll)[k]
  loop 1 invariant iter <= len(messages) && fresh(ids) && len(ids) == len(messages)
  loop 1 invariant forall i : int { ids[i] } { messages[i] } :: 0 <= i && i < iter ==> ids[i] == messages[i].ID

pure excess(k int, q string, max int, fq array[int]string, fl array[int]int, fs array[int]string, fd array[int]int, fsc array[int]int, cr array[int]int) bool = fq[k] == q && max > 0 && fl[k] > 0 && fl[k] == cr[fsc[k] - 1] - max && fs[k] == "expiry_date" && fd[k] == 1
pure counted(s int, q string, sq array[int]string, sa array[int]bool) bool = sq[s] == q && sa[s]

func queue.RemoveExceedingMessages(ctx, pool)(metrify, err)
  requires pool != nil
  requires fdN >= 0 && scN >= 0
  modifies cgFail, chClosed, lcLen, lcQueue, lcMax, lcErr, tick, omLen, omKey, omDir, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas, scN, scFd, scQueue, scPrefix, scAll, scRes, scErr, scF, szHas, szVal, szFail, srN, srAt, srQueue, srIds, srLen, srRes, srErr, srHas, crN, crAt, crQueue, crIds, crLen, crRes, crErr, crHas, rmFail, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def c0 = old(fdN)
  def s0 = old(scN)
  ensures [C23] "waits for recovery" (cgFail > old(cgFail) || kv[cache.RECOVERY_RUNNING] == "true") ==> fdN == c0 && scN == s0 && srHas == old(srHas) && crHas == old(crHas)
  ensures [C23] "needs the configurations" !(cgFail > old(cgFail) || kv[cache.RECOVERY_RUNNING] == "true") && lcErr != nil ==> fdN == c0 && scN == s0 && srHas == old(srHas) && crHas == old(crHas)
  ensures [C23] "every lookup is for the excess over a configured maximum" forall k : int { fdQueue[k] } { fdHas[k] } :: c0 <= k && k < fdN ==> scErr[fdSc[k] - 1] == nil && scQueue[fdSc[k] - 1] == fdQueue[k] && scAll[fdSc[k] - 1] && (exists i : int { lcQueue[i] } :: 0 <= i && i < lcLen && excess(k, lcQueue[i], lcMax[i], fdQueue, fdLimit, fdSort, fdDir, fdSc, scRes))
  ensures [C23] "only those leave storage" forall p : string; id : string { srHas[p][id] } :: srHas[p][id] ==> old(srHas)[p][id] || (exists k : int { fdHas[k] } :: c0 <= k && k < fdN && fdQueue[k] == p && fdHas[k][id])
  ensures [C23] "only those leave the cache" forall p : string; id : string { crHas[p][id] } :: crHas[p][id] ==> old(crHas)[p][id] || (exists k : int { fdHas[k] } :: c0 <= k && k < fdN && fdQueue[k] == p && fdHas[k][id])
  ensures [C23] "all of them leave" rmFail == old(rmFail) ==> (forall k : int; id : string { fdHas[k][id] } :: c0 <= k && k < fdN && fdErr[k] == nil && fdHas[k][id] ==> srHas[fdQueue[k]][id] && crHas[fdQueue[k]][id])
  ensures [C23] "every limited queue is checked" !(cgFail > old(cgFail) || kv[cache.RECOVERY_RUNNING] == "true") && lcErr == nil && !chClosed[shutdown.Started] ==> (forall i : int { lcQueue[i] } :: 0 <= i && i < lcLen && lcMax[i] > 0 && lcQueue[i] != "" ==> (exists s : int { scQueue[s] } :: s0 <= s && s < scN && counted(s, lcQueue[i], scQueue, scAll) && (scErr[s] != nil || scRes[s] <= lcMax[i] || c0 <= scFd[s] && scFd[s] < fdN && excess(scFd[s], lcQueue[i], lcMax[i], fdQueue, fdLimit, fdSort, fdDir, fdSc, scRes))))
  loop 1 invariant iter <= len(configurations)
  loop 1 invariant [C23] fdN >= c0 && scN >= s0 && rmFail >= old(rmFail)
  loop 1 invariant [C23] forall k : int { fdQueue[k] } { fdHas[k] } :: c0 <= k && k < fdN ==> fdSc[k] <= scN && fdSc[k] > s0 && scErr[fdSc[k] - 1] == nil && scQueue[fdSc[k] - 1] == fdQueue[k] && scAll[fdSc[k] - 1] && (exists i : int { lcQueue[i] } :: 0 <= i && i < lcLen && excess(k, lcQueue[i], lcMax[i], fdQueue, fdLimit, fdSort, fdDir, fdSc, scRes))
  loop 1 invariant [C23] forall p : string; id : string { srHas[p][id] } :: srHas[p][id] ==> old(srHas)[p][id] || (exists k : int { fdHas[k] } :: c0 <= k && k < fdN && fdQueue[k] == p && fdHas[k][id])
  loop 1 invariant [C23] forall p : string; id : string { crHas[p][id] } :: crHas[p][id] ==> old(crHas)[p][id] || (exists k : int { fdHas[k] } :: c0 <= k && k < fdN && fdQueue[k] == p && fdHas[k][id])
  loop 1 invariant [C23] rmFail == old(rmFail) ==> (forall k : int; id : string { fdHas[k][id] } :: c0 <= k && k < fdN && fdErr[k] == nil && fdHas[k][id] ==> srHas[fdQueue[k]][id] && crHas[fdQueue[k]][id])
  loop 1 invariant [C23] forall i : int { lcQueue[i] } :: 0 <= i && i < iter && lcMax[i] > 0 && lcQueue[i] != "" ==> (exists s : int { scQueue[s] } :: s0 <= s && s < scN && counted(s, lcQueue[i], scQueue, scAll) && (scErr[s] != nil || scRes[s] <= lcMax[i] || c0 <= scFd[s] && scFd[s] < fdN && excess(scFd[s], lcQueue[i], lcMax[i], fdQueue, fdLimit, fdSort, fdDir, fdSc, scRes)))
