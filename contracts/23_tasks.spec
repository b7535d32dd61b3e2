// ---- the other housekeeping tasks: unlock, timeout, gauges (C32, C33, C37)
// what the cache listed: pool and names
ghost var lqN int
ghost var lqPool array[int]string
ghost var lqAll array[int]bool
ghost var lqErr array[int]error
ghost var lqLen array[int]int
ghost var lqName array[int]array[int]string
iface cache.Cache.ListQueues(recv, ctx, pattern, poolType)(names, err)
  modifies tick, lqN, lqPool, lqAll, lqErr, lqLen, lqName
  ensures lqN == old(lqN) + 1 && lqPool == store(old(lqPool), old(lqN), poolType) && lqAll == store(old(lqAll), old(lqN), pattern == "*")
  ensures lqErr == store(old(lqErr), old(lqN), err) && lqLen == store(old(lqLen), old(lqN), len(names))
  ensures forall i : int { names[i] } { lqName[old(lqN)][i] } :: 0 <= i && i < len(names) ==> names[i] == lqName[old(lqN)][i]
  ensures forall k : int { lqName[k] } :: k != old(lqN) ==> lqName[k] == old(lqName)[k]

// the work of this run was cancelled
ghost var cancelled bool
iface context.Context.Err(c)(err)
  modifies cancelled
  ensures cancelled == (old(cancelled) || err == context.Canceled)

pure visited2(q string, t string, a int, b int, uq array[int]string, ut array[int]string) bool = exists k : int { uq[k] } :: a <= k && k < b && uq[k] == q && ut[k] == t

func queue.ProcessLockPool(ctx, queue)
  requires queue != nil && ulN >= 0
  modifies chClosed, tick, lqN, lqPool, lqAll, lqErr, lqLen, lqName, cuTotal, cuId, cuQueue, cuType, ulN, ulQ, ulT, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def l = lqN
  def u = ulN
  ensures [C37] "queues with ack locks are listed" lqN > l && lqPool[l] == pool.LOCK_ACK_POOL && lqAll[l]
  ensures [C37] "and so are those with nack locks" lqErr[l] == nil && !chClosed[shutdown.Started] ==> lqN == l + 2 && lqPool[l + 1] == pool.LOCK_NACK_POOL && lqAll[l + 1]
  ensures [C37] "every queue with ack locks is visited" lqErr[l] == nil && !chClosed[shutdown.Started] ==> (forall i : int { lqName[l][i] } :: 0 <= i && i < lqLen[l] ==> visited2(lqName[l][i], "lock_ack", u, ulN, ulQ, ulT))
  ensures [C37] "every queue with nack locks is visited" lqErr[l] == nil && lqN == l + 2 && lqErr[l + 1] == nil && !chClosed[shutdown.Started] ==> (forall i : int { lqName[l + 1][i] } :: 0 <= i && i < lqLen[l + 1] ==> visited2(lqName[l + 1][i], "lock_nack", u, ulN, ulQ, ulT))
  ensures [C32] forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]

func queue.ProcessTimeoutMessages(ctx, queue)(err)
  requires queue != nil && ctN >= 0
  modifies clk, reads, chClosed, cancelled, tick, lqN, lqPool, lqAll, lqErr, lqLen, lqName, ctN, ctQueue, ctLen, ctIds, ctErr, ctQ, auN, auId, auQueue, auSig, auReason, auLock, auBreak
  def l = lqN
  def u = ctN
  ensures [C37] "queues with messages being processed are listed" lqN == l + 1 && lqPool[l] == pool.PROCESSING_POOL && lqAll[l]
  ensures [C37] "a failed listing is reported" lqErr[l] != nil ==> err != nil && ctN == u
  ensures [C37] "every queue is visited unless stopped" lqErr[l] == nil && !chClosed[shutdown.Started] && !cancelled ==> (forall i : int { lqName[l][i] } :: 0 <= i && i < lqLen[l] ==> (exists k : int { ctQ[k] } :: u <= k && k < ctN && ctQ[k] == lqName[l][i]))
  ensures [C32] forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]
  loop 1 invariant [C37] iter <= len(queues) && ctN >= u
  loop 1 invariant forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]
  loop 1 invariant [C37] forall i : int { queues[i] } { lqName[l][i] } :: 0 <= i && i < iter ==> (exists k : int { ctQ[k] } :: u <= k && k < ctN && ctQ[k] == queues[i])

// -- gauges (C33)
func metrics.mergeData(currentData, newData)(r)
  modifies newData[*]
  ensures [C33] "no reading, no gauge" newData == nil ==> r != nil && fresh(r) && (forall q : string { q in r } :: !(q in r))
  ensures [C33] "new readings and earlier names" newData != nil ==> r == newData && (forall q : string { q in r } :: (q in r) == (old(dom(newData))[q] || old(dom(currentData))[q]))
  ensures [C33] "new value, or zero" newData != nil ==> (forall q : string { r[q] } :: q in r ==> r[q] == (old(dom(newData))[q] ? old(vals(newData))[q] : 0))
  loop 1 invariant forall q : string { q in newData } :: (q in newData) == (old(dom(newData))[q] || visited(q))
  loop 1 invariant forall q : string { newData[q] } :: q in newData ==> newData[q] == (old(dom(newData))[q] ? old(vals(newData))[q] : 0)
  loop 1 invariant forall q : string { visited(q) } :: visited(q) ==> old(dom(currentData))[q]

func metrics.QueueMetricsMap.UpdateOldestElementMap(m, data)
  requires m != nil
  modifies m.OldestElement, data[*]
  ensures [C33] "the new readings" data != nil ==> m.OldestElement == data && (forall q : string { q in m.OldestElement } :: (q in m.OldestElement) == (old(dom(data))[q] || old(dom(m.OldestElement))[q]))
  ensures [C33] "new value, or zero" data != nil ==> (forall q : string { m.OldestElement[q] } :: q in m.OldestElement ==> m.OldestElement[q] == (old(dom(data))[q] ? old(vals(data))[q] : 0))

func metrics.QueueMetricsMap.UpdateTotalElementsMap(m, data)
  requires m != nil
  modifies m.TotalElements, data[*]
  ensures [C33] "the new readings" data != nil ==> m.TotalElements == data && (forall q : string { q in m.TotalElements } :: (q in m.TotalElements) == (old(dom(data))[q] || old(dom(m.TotalElements))[q]))
  ensures [C33] "new value, or zero" data != nil ==> (forall q : string { m.TotalElements[q] } :: q in m.TotalElements ==> m.TotalElements[q] == (old(dom(data))[q] ? old(vals(data))[q] : 0))

// what a reader of the gauges sees: name and value of every observation
ghost var optName array[metric.ObserveOption]string
ghost var obHas array[string]bool
ghost var obVal array[string]int
extern attribute.String(k, v)(r)
  ensures r.Key == k && r.Value.v == boxof(v, string)
extern attribute.NewSet(kvs)(r)
  ensures len(r.kvs) == len(kvs) && (forall i : int { r.kvs[i] } :: 0 <= i && i < len(kvs) ==> r.kvs[i].Key == kvs[i].Key && r.kvs[i].Value.v == kvs[i].Value.v)
extern metric.WithAttributeSet(s)(r)
  ensures r != nil
  ensures len(s.kvs) == 1 && s.kvs[0].Key == "queue" && typeis(s.kvs[0].Value.v, string) ==> optName[r] == as(s.kvs[0].Value.v, string)
iface metric.Int64Observer.Observe(recv, v, opts)
  requires [C33] "named" len(opts) == 1
  modifies obHas, obVal
  ensures obHas == store(old(obHas), optName[opts[0]], true) && obVal == store(old(obVal), optName[opts[0]], v)

func metrics.metrify(obs, data)(err)
  requires data != nil && obs != nil
  requires forall q : string { obHas[q] } :: !obHas[q]
  modifies obHas, obVal
  ensures [C33] "every queue reports its value, and no other" forall q : string { obHas[q] } { q in *data } :: obHas[q] == (q in *data) && (obHas[q] ==> obVal[q] == (*data)[q])
  loop 1 invariant forall q : string { obHas[q] } { visited(q) } :: obHas[q] == visited(q) && (obHas[q] ==> obVal[q] == (*data)[q])
  loop 1 invariant forall q : string { visited(q) } :: visited(q) ==> q in *data

func metrics.metrifyOldestMessages(obs)(err)
  requires obs != nil && metrics.MetricsMap != nil
  requires forall q : string { obHas[q] } :: !obHas[q]
  modifies obHas, obVal
  ensures [C33] "the oldest-message gauge shows the last readings" forall q : string { obHas[q] } { q in metrics.MetricsMap.OldestElement } :: obHas[q] == (q in metrics.MetricsMap.OldestElement) && (obHas[q] ==> obVal[q] == metrics.MetricsMap.OldestElement[q])

func metrics.metrifyTotalElements(obs)(err)
  requires obs != nil && metrics.MetricsMap != nil
  requires forall q : string { obHas[q] } :: !obHas[q]
  modifies obHas, obVal
  ensures [C33] "the size gauge shows the last readings" forall q : string { obHas[q] } { q in metrics.MetricsMap.TotalElements } :: obHas[q] == (q in metrics.MetricsMap.TotalElements) && (obHas[q] ==> obVal[q] == metrics.MetricsMap.TotalElements[q])

func queue.Queue.Count(pool, ctx, opts)(r, err)
  requires pool != nil
  modifies tick, scN, scFd, scQueue, scPrefix, scAll, scRes, scErr, scF, szHas, szVal, szFail
  def s = scN
  ensures "asks storage once" scN == s + 1
  ensures [C35] "with the filter it was given" scF == store(old(scF), s, opts == nil ? nil : opts.InternalFilter)
  def f = opts.InternalFilter
  ensures [C33] "the count of the prefix it was given" opts != nil && f != nil && f.Queue == "" && f.Ids == nil && f.ExpiryDate == nil && f.InternalIdBreakpointGt == "" && f.InternalIdBreakpointLte == "" ==> (err == nil ? szHas == store(old(szHas), f.QueuePrefix, true) && szVal == store(old(szVal), f.QueuePrefix, r) : szHas == old(szHas) && szVal == old(szVal))
  ensures [C33] szFail == (old(szFail) || err != nil)
  ensures [C33,C35] "the number storage gave" scErr[s] == nil ==> err == nil && r == scRes[s]
  ensures [C33,C35] "failure is reported" scErr[s] != nil ==> err != nil && r == 0

func queue.Queue.GetStorageMessages(pool, ctx, o)(r, err)
  requires pool != nil && o != nil
  requires [C32] o.Sort == nil
  modifies tick, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas
  def c = fdN
  def f = o.InternalFilter
  ensures [C35] "asks storage once" fdN == c + 1
  ensures [C35] "for what it was asked" fdQueue[c] == (f == nil ? "" : f.Queue) && fdPrefix[c] == (f == nil ? "" : f.QueuePrefix) && fdLimit[c] == o.Limit && fdIdsLen[c] == (f != nil && f.Ids != nil ? len(*f.Ids) : -1)
  ensures [C35] "with the ids it was asked for" f != nil && f.Ids != nil ==> (forall i : int { fdIds[c][i] } { (*f.Ids)[i] } :: 0 <= i && i < len(*f.Ids) ==> fdIds[c][i] == (*f.Ids)[i])
  ensures [C35] "the messages storage gave" fdErr[c] == nil ==> err == nil && len(r) == fdLen[c] && (forall i : int { r[i] } :: 0 <= i && i < len(r) ==> r[i].ID == fdId[c][i] && r[i].Queue == fdRq[c][i])
  ensures [C35] "failure is reported" fdErr[c] != nil ==> err != nil

ghost var lpN int
ghost var lpErr error
ghost var lpLen int
ghost var lpName array[int]string
iface storage.Storage.ListQueuePrefixes(recv, ctx)(names, err)
  modifies tick, lpN, lpErr, lpLen, lpName
  ensures lpN == old(lpN) + 1 && lpErr == err && lpLen == len(names)
  ensures forall i : int { names[i] } { lpName[i] } :: 0 <= i && i < len(names) ==> names[i] == lpName[i]

func queue.ComputeMetrics(ctx, pool)
  requires pool != nil && metrics.MetricsMap != nil 
  modifies chClosed, lpN, lpErr, lpLen, lpName, metrics.MetricsMap.OldestElement, metrics.MetricsMap.TotalElements, tick, omLen, omKey, omDir, fdN, fdAt, fdQueue, fdPrefix, fdGt, fdLte, fdExp, fdLimit, fdRetry, fdSort, fdDir, fdIdsLen, fdIds, fdLen, fdId, fdRq, fdScore, fdHas, fdPair, fdPtr, fdSc, fdErr, agAsk, agErr, agHas, scN, scFd, scQueue, scPrefix, scAll, scRes, scErr, scF, szHas, szVal, szFail
  def T0 = metrics.MetricsMap.TotalElements
  def O0 = metrics.MetricsMap.OldestElement
  ensures [C33] "a failed listing changes no gauge" lpErr != nil ==> metrics.MetricsMap.TotalElements == T0 && metrics.MetricsMap.OldestElement == O0
  ensures [C33] "no gauge disappears" lpErr == nil ==> (forall q : string { q in metrics.MetricsMap.TotalElements } { old(dom(metrics.MetricsMap.TotalElements))[q] } :: old(dom(metrics.MetricsMap.TotalElements))[q] ==> q in metrics.MetricsMap.TotalElements)
  ensures [C33] "a size is the one counted now, or zero" lpErr == nil ==> (forall q : string { q in metrics.MetricsMap.TotalElements } { metrics.MetricsMap.TotalElements[q] } :: q in metrics.MetricsMap.TotalElements ==> (szHas[q] ? metrics.MetricsMap.TotalElements[q] == szVal[q] : old(dom(metrics.MetricsMap.TotalElements))[q] && metrics.MetricsMap.TotalElements[q] == 0))
  ensures [C33] "every size counted is shown" lpErr == nil ==> (forall q : string { szHas[q] } :: szHas[q] ==> q in metrics.MetricsMap.TotalElements)
  ensures [C33] "an age is of the message looked up now, or zero" lpErr == nil ==> (forall q : string { q in metrics.MetricsMap.OldestElement } :: q in metrics.MetricsMap.OldestElement ==> agHas[q] || old(dom(metrics.MetricsMap.OldestElement))[q] && metrics.MetricsMap.OldestElement[q] == 0)
  ensures [C33] "every age found is shown" lpErr == nil ==> (forall q : string { agHas[q] } :: agHas[q] ==> q in metrics.MetricsMap.OldestElement)
  ensures [C33] "every queue listed is measured unless shutting down" lpErr == nil && !chClosed[shutdown.Started] ==> (forall i : int { lpName[i] } :: 0 <= i && i < lpLen ==> agAsk[lpName[i]] && (agErr[lpName[i]] || szHas[lpName[i]] || szFail))
  requires [C33] forall q : string { szHas[q] } { agHas[q] } :: !szHas[q] && !agHas[q]
  loop 1 invariant iter <= len(queues)
  loop 1 invariant forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]
  loop 1 invariant [C33] omLen[sort] == 1 && omKey[sort] == "last_usage" && omDir[sort] == 1
  loop 1 invariant [C33] forall q : string { q in totalElements } { szHas[q] } :: (q in totalElements) == szHas[q]
  loop 1 invariant [C33] forall q : string { totalElements[q] } :: q in totalElements ==> totalElements[q] == szVal[q]
  loop 1 invariant [C33] forall q : string { q in oldestElement } { agHas[q] } :: (q in oldestElement) == agHas[q]
  loop 1 invariant [C33] forall i : int { queues[i] } { lpName[i] } :: 0 <= i && i < iter ==> agAsk[queues[i]] && (agErr[queues[i]] || szHas[queues[i]] || szFail)
