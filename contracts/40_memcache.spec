// ---- container/list, as the in-memory cache uses it (C08..C14)
// lown[e]: the list holding e; lrk[e]: where e stands in it; lat[l][id]: the
// element of l whose entry has that id; llen[l]: the length; eown[v]: the last
// element made for entry v; insN/insId/insPos: every entry ever put in a list.
ghost var lown array[*list.Element]*list.List
ghost var lrk array[*list.Element]real
ghost var llen array[*list.List]int
ghost var lat array[*list.List]array[string]*list.Element
ghost var eown array[*cache.MemoryMessageEntry]*list.Element
ghost var insN int
ghost var insId array[int]string
ghost var insPos array[string]int
// where a list was stored last
ghost var lq array[*list.List]string
ghost var lm array[*list.List]ref
extern mapset.list.List(m, k, v)
  modifies lq, lm
  ensures lq == store(old(lq), v, k) && lm == store(old(lm), v, ref(m))

pure ent(e *list.Element) *cache.MemoryMessageEntry = as(e.Value, *cache.MemoryMessageEntry)
pure wfE() bool = forall e : *list.Element { lown[e] } :: lown[e] != nil ==> e != nil && allocated(e) && allocated(lown[e]) && typeis(e.Value, *cache.MemoryMessageEntry) && ent(e) != nil && allocated(ent(e)) && eown[ent(e)] == e && lat[lown[e]][ent(e).id] == e && !isnan(ent(e).score) && !isnan(ent(e).lockUntil) && llen[lown[e]] > 0
pure wfL() bool = forall l : *list.List ; k : string { lat[l][k] } :: lat[l][k] != nil ==> l != nil && lown[lat[l][k]] == l && ent(lat[l][k]).id == k
pure wfR() bool = forall e, f : *list.Element { lown[e], lown[f] } :: lown[e] != nil && lown[e] == lown[f] && e != f ==> lrk[e] < lrk[f] || lrk[f] < lrk[e]
pure sortedL() bool = forall e, f : *list.Element { lown[e], lown[f] } :: lown[e] != nil && lown[e] == lown[f] && lrk[e] < lrk[f] ==> ent(e).score <= ent(f).score
// no list outgrows the memory
pure wfB() bool = forall l : *list.List { llen[l] } :: 0 <= llen[l] && llen[l] < 1152921504606846976
pure wf0() bool = lown[nil] == nil && wfB() && wfE() && wfL() && wfR()
pure free(d *cache.MemoryMessageEntry) bool = d != nil && (lown[eown[d]] == nil || ent(eown[d]) != d)

extern list.New()(r)
  modifies llen, fresh(*list.List)
  ensures r != nil && fresh(r) && llen == store(old(llen), r, 0)
extern list.List.Len(l)(n)
  ensures n == llen[l] && n >= 0
extern list.List.Front(l)(r)
  ensures (r == nil) == (llen[l] <= 0)
  ensures r != nil ==> lown[r] == l && (forall f : *list.Element { lown[f] } :: lown[f] == l && f != r ==> lrk[r] < lrk[f])
extern list.Element.Next(e)(r)
  ensures lown[e] == nil ==> r == nil
  ensures r != nil ==> lown[r] == lown[e] && lown[r] != nil && lrk[e] < lrk[r]
  ensures forall f : *list.Element { lown[f] } :: lown[e] != nil && lown[f] == lown[e] && lrk[e] < lrk[f] ==> r != nil && (f == r || lrk[r] < lrk[f])
extern list.List.Remove(l, e)(v)
  requires "an entry" e != nil && typeis(e.Value, *cache.MemoryMessageEntry) && (lown[e] == l ==> lat[l][ent(e).id] == e)
  modifies lown, lat, llen
  ensures v == e.Value
  ensures old(lown)[e] == l ==> lown == store(old(lown), e, nil) && lat == store(old(lat), l, store(old(lat)[l], ent(e).id, nil)) && llen == store(old(llen), l, old(llen)[l] - 1)
  ensures old(lown)[e] != l ==> lown == old(lown) && lat == old(lat) && llen == old(llen)
  ensures forall f : *list.Element { lown[f] } :: lown[f] == l && l != nil ==> llen[l] > 0
  ensures old(lown)[e] == l ==> llen[l] >= 0
extern list.List.PushBack(l, v)(r)
  requires "an entry not in the list" typeis(v, *cache.MemoryMessageEntry) && as(v, *cache.MemoryMessageEntry) != nil && lat[l][as(v, *cache.MemoryMessageEntry).id] == nil
  modifies lown, lat, lrk, llen, eown, insN, insId, insPos, fresh(*list.Element)
  def d = as(v, *cache.MemoryMessageEntry)
  ensures r != nil && fresh(r) && r.Value == v
  ensures lown == store(old(lown), r, l) && lat == store(old(lat), l, store(old(lat)[l], d.id, r)) && llen == store(old(llen), l, old(llen)[l] + 1) && llen[l] > 0 && llen[l] < 1152921504606846976
  ensures lrk == store(old(lrk), r, lrk[r]) && eown == store(old(eown), d, r)
  ensures forall f : *list.Element { lown[f] } :: lown[f] == l && f != r ==> lrk[f] < lrk[r]
  ensures insN == old(insN) + 1 && insId == store(old(insId), old(insN), d.id) && insPos == store(old(insPos), d.id, old(insN))
extern list.List.InsertBefore(l, v, mark)(r)
  requires "an entry not in the list" typeis(v, *cache.MemoryMessageEntry) && as(v, *cache.MemoryMessageEntry) != nil && lat[l][as(v, *cache.MemoryMessageEntry).id] == nil
  requires "before one of the list" mark != nil && lown[mark] == l
  modifies lown, lat, lrk, llen, eown, insN, insId, insPos, fresh(*list.Element)
  def d = as(v, *cache.MemoryMessageEntry)
  ensures r != nil && fresh(r) && r.Value == v
  ensures lown == store(old(lown), r, l) && lat == store(old(lat), l, store(old(lat)[l], d.id, r)) && llen == store(old(llen), l, old(llen)[l] + 1) && llen[l] > 0 && llen[l] < 1152921504606846976
  ensures lrk == store(old(lrk), r, lrk[r]) && eown == store(old(eown), d, r) && lrk[r] < lrk[mark]
  ensures forall f : *list.Element { lown[f] } :: lown[f] == l && f != r && lrk[f] < lrk[mark] ==> lrk[f] < lrk[r]
  ensures insN == old(insN) + 1 && insId == store(old(insId), old(insN), d.id) && insPos == store(old(insPos), d.id, old(insN))

// ---- helpers of the in-memory cache
func cache.removeEntry(d, l)(r, ok)
  prop [C08,C09,C10,C11,C12,C13]
  requires d != nil && wf0()
  modifies lown, lat, llen
  def e = lat[l][d.id]
  ensures "the same list" r == l
  ensures "found when there" ok == (e != nil)
  ensures "taken out" ok ==> lown == store(old(lown), e, nil) && lat == store(old(lat), l, store(old(lat)[l], d.id, nil)) && llen == store(old(llen), l, old(llen)[l] - 1)
  ensures "or untouched" !ok ==> lown == old(lown) && lat == old(lat) && llen == old(llen)
  ensures wf0()
  loop 1 invariant q != nil ==> lown[q] == l
  loop 1 invariant forall f : *list.Element { lown[f] } :: lown[f] == l && (q == nil || lrk[f] < lrk[q]) ==> ent(f).id != d.id

func cache.insertEntry(d, l)(r, isNew)
  prop [C08,C09,C10,C11,C12,C13]
  requires wf0() && sortedL() && free(d) && allocated(d) && !isnan(d.score) && !isnan(d.lockUntil)
  modifies lown, lat, lrk, llen, eown, insN, insId, insPos, fresh(*list.List), fresh(*list.Element)
  ensures "the list, made when there was none" r != nil && (l != nil ? r == l : fresh(r))
  def e0 = lat[l][d.id]
  ensures "one element for it" let e = eown[d] ; e != nil && fresh(e) && ent(e) == d && typeis(e.Value, *cache.MemoryMessageEntry) && eown == store(old(eown), d, e) && lat == store(old(lat), r, store(old(lat)[r], d.id, e)) && lown == store(store(old(lown), e0, nil), e, r) && lrk == store(old(lrk), e, lrk[e])
  ensures llen == store(old(llen), r, llen[r]) && llen[r] > 0
  ensures "recorded" insN == old(insN) + 1 && insId == store(old(insId), old(insN), d.id) && insPos == store(old(insPos), d.id, old(insN))
  ensures "still sorted" wf0() && sortedL()
  loop 1 invariant q != nil ==> lown[q] == listData
  loop 1 invariant forall f : *list.Element { lown[f] } :: lown[f] == listData && (q == nil || lrk[f] < lrk[q]) ==> ent(f).score < d.score

ghost var rmIds array[string]bool
func cache.MemoryCache.removeFromSlice(c, ctx, data, ids)(removed, r, err)
  prop [C08,C14]
  requires wf0() && sortedL() && (forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> rmIds[ids[i]])
  modifies lown, lat, llen
  ensures err == nil && r == data
  ensures lat == store(old(lat), data, lat[data]) && llen == store(old(llen), data, llen[data])
  ensures "counts what it removes" data != nil ==> removed == old(llen)[data] - llen[data]
  ensures data == nil ==> removed == 0 && lat == old(lat) && llen == old(llen)
  ensures "removes every id given" forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> lat[data][ids[i]] == nil
  ensures "and no other" forall k : string { lat[data][k] } { old(lat)[data][k] } :: lat[data][k] == old(lat)[data][k] || rmIds[k] && lat[data][k] == nil
  ensures forall e : *list.Element { lown[e] } :: lown[e] == old(lown)[e] || old(lown)[e] == data && lown[e] == nil
  ensures wf0() && sortedL()
  loop 1 invariant iter <= len(ids) && count == old(llen)[data] - llen[data]
  loop 1 invariant lown[nil] == nil && wfB()
  loop 1 invariant wfE()
  loop 1 invariant wfL()
  loop 1 invariant wfR() && sortedL()
  loop 1 invariant lat == store(old(lat), data, lat[data]) && llen == store(old(llen), data, llen[data])
  loop 1 invariant forall i : int { ids[i] } :: 0 <= i && i < iter ==> lat[data][ids[i]] == nil
  loop 1 invariant forall k : string { lat[data][k] } { old(lat)[data][k] } :: lat[data][k] == old(lat)[data][k] || rmIds[k] && lat[data][k] == nil
  loop 1 invariant forall e : *list.Element { lown[e] } :: lown[e] == old(lown)[e] || old(lown)[e] == data && lown[e] == nil
  loop 2 invariant q != nil ==> lown[q] == data
  loop 2 invariant forall f : *list.Element { lown[f] } :: lown[f] == data && (q == nil || lrk[f] < lrk[q]) ==> ent(f).id != id

// ---- the cache: four pools per queue
pure okMap(m map[string]*list.List) bool = m != nil && (forall q : string { m[q] } :: m[q] != nil ==> lq[m[q]] == q && lm[m[q]] == ref(m) && allocated(m[q]))
pure shape(c *cache.MemoryCache) bool = c != nil && c.lock != nil && okMap(c.queues) && okMap(c.processingQueues) && okMap(c.lockAckQueues) && okMap(c.lockNackQueues)
pure fourMaps(c *cache.MemoryCache) bool = c.queues != c.processingQueues && c.queues != c.lockAckQueues && c.queues != c.lockNackQueues && c.processingQueues != c.lockAckQueues && c.processingQueues != c.lockNackQueues && c.lockAckQueues != c.lockNackQueues
pure inA(c *cache.MemoryCache, q string, k string) bool = lat[c.queues[q]][k] != nil
pure inP(c *cache.MemoryCache, q string, k string) bool = lat[c.processingQueues[q]][k] != nil
pure inK(c *cache.MemoryCache, q string, k string) bool = lat[c.lockAckQueues[q]][k] != nil
pure inN(c *cache.MemoryCache, q string, k string) bool = lat[c.lockNackQueues[q]][k] != nil
pure once(c *cache.MemoryCache) bool = forall q : string ; k : string { lat[c.queues[q]][k] } { lat[c.processingQueues[q]][k] } { lat[c.lockAckQueues[q]][k] } { lat[c.lockNackQueues[q]][k] } :: (inA(c, q, k) ==> !inP(c, q, k) && !inK(c, q, k) && !inN(c, q, k)) && (inP(c, q, k) ==> !inK(c, q, k) && !inN(c, q, k)) && (inK(c, q, k) ==> !inN(c, q, k))
pure inv(c *cache.MemoryCache) bool = wf0() && sortedL() && shape(c) && fourMaps(c) && once(c)
// every (queue, id) other than (q, id) is where it was
pure othersKept(c *cache.MemoryCache, q string, id string) bool = forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: p != q || k != id ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) && lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
pure allKept(c *cache.MemoryCache) bool = forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) && lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])

func cache.NewMemoryCache()(c)
  requires wf0() && sortedL()
  ensures [C08] "starts well formed" inv(c)
  ensures [C08] "starts empty" forall p : string { c.queues[p] } { c.processingQueues[p] } { c.lockAckQueues[p] } { c.lockNackQueues[p] } :: c.queues[p] == nil && c.processingQueues[p] == nil && c.lockAckQueues[p] == nil && c.lockNackQueues[p] == nil

func cache.MemoryCache.Flush(c, ctx)
  requires inv(c)
  modifies c.queues, c.processingQueues, c.lockAckQueues, c.lockNackQueues, c.keys
  ensures [C08] "stays well formed" inv(c)
  ensures [C08] "is empty" forall p : string { c.queues[p] } { c.processingQueues[p] } { c.lockAckQueues[p] } { c.lockNackQueues[p] } :: c.queues[p] == nil && c.processingQueues[p] == nil && c.lockAckQueues[p] == nil && c.lockNackQueues[p] == nil

func cache.MemoryCache.MakeAvailable(c, ctx, m)(ok, err)
  requires inv(c) && m != nil && !isnan(m.Score)
  modifies lown, lat, lrk, llen, eown, insN, insId, insPos, lq, lm, c.queues[*], c.processingQueues[*], fresh(*list.List), fresh(*list.Element)
  def was = m.Queue != "" && lat[c.processingQueues[m.Queue]][m.ID] != nil
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C10] "succeeds exactly when it is being processed" ok == was && (ok ==> err == nil)
  ensures [C10] "told when the queue is missing" m.Queue == "" ==> err != nil
  ensures [C10] err != nil ==> m.Queue == ""
  ensures [C10] "leaves the processing pool" ok ==> !inP(c, m.Queue, m.ID)
  ensures [C10] "is available with the score" ok ==> inA(c, m.Queue, m.ID) && ent(lat[c.queues[m.Queue]][m.ID]).score == m.Score
  ensures [C10] "otherwise nothing changes" !ok ==> allKept(c)
  ensures [C10] "nothing else changes" othersKept(c, m.Queue, m.ID)

pure ln(l *list.List) int = l == nil ? 0 : llen[l]
func cache.MemoryCache.Remove(c, ctx, queue, ids)(removed, err)
  requires inv(c) && (forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> rmIds[ids[i]])
  modifies lown, lat, llen, lq, lm, c.queues[*], c.processingQueues[*], c.lockAckQueues[*], c.lockNackQueues[*]
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C14] err == nil
  ensures [C14] "no pool of the queue holds a given id" forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> !inA(c, queue, ids[i]) && !inP(c, queue, ids[i]) && !inK(c, queue, ids[i]) && !inN(c, queue, ids[i])
  ensures [C14] "everything else stays" forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: p != queue || !rmIds[k] ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) && lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  ensures [C14] "reports how many entries went" removed == old(ln(c.queues[queue]) + ln(c.processingQueues[queue]) + ln(c.lockAckQueues[queue]) + ln(c.lockNackQueues[queue])) - (ln(c.queues[queue]) + ln(c.processingQueues[queue]) + ln(c.lockAckQueues[queue]) + ln(c.lockNackQueues[queue]))

func cache.MemoryCache.LockMessage(c, ctx, m, t)(ok, err)
  requires inv(c) && m != nil && !isnan(m.Score) && (t == "lock_ack" || t == "lock_nack")
  modifies clk, reads, lown, lat, lrk, llen, eown, insN, insId, insPos, lq, lm, c.processingQueues[*], c.lockAckQueues[*], c.lockNackQueues[*], fresh(*list.List), fresh(*list.Element)
  def was = m.Queue != "" && m.LockMs > 0 && lat[c.processingQueues[m.Queue]][m.ID] != nil
  def lo = clk
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C10] "succeeds exactly when it is being processed" ok == was && (ok ==> err == nil)
  ensures [C10] "told when queue or lock time is missing" (err != nil) == (m.Queue == "" || m.LockMs <= 0)
  ensures [C10] "leaves the processing pool" ok ==> !inP(c, m.Queue, m.ID)
  ensures [C10] "is in the ack lock pool" ok && t == "lock_ack" ==> inK(c, m.Queue, m.ID) && (let e = ent(lat[c.lockAckQueues[m.Queue]][m.ID]) ; e.score == m.Score && e.lockUntil == tofloat(clk / 1000000) + tofloat(m.LockMs))
  ensures [C10] "is in the nack lock pool" ok && t == "lock_nack" ==> inN(c, m.Queue, m.ID) && (let e = ent(lat[c.lockNackQueues[m.Queue]][m.ID]) ; e.score == m.Score && e.lockUntil == tofloat(clk / 1000000) + tofloat(m.LockMs))
  ensures [C10] "locked from a moment of the call" clk >= lo
  ensures [C10] "otherwise nothing changes" !ok ==> allKept(c)
  ensures [C10] "nothing else changes" othersKept(c, m.Queue, m.ID)

func cache.MemoryCache.isPresentOnPool(c, ctx, p, queue, id)(r)
  prop [C08,C10,C13]
  requires wf0()
  ensures r == (p != nil && lat[(*p)[queue]][id] != nil)
  loop 1 invariant q != nil ==> lown[q] == data
  loop 1 invariant forall f : *list.Element { lown[f] } :: lown[f] == data && (q == nil || lrk[f] < lrk[q]) ==> ent(f).id != id

func cache.MemoryCache.IsProcessing(c, ctx, queue, id)(r, err)
  requires inv(c)
  ensures [C10] "in the processing pool of that queue" err == nil && r == inP(c, queue, id)

func cache.MemoryCache.isPresentOnAnyPool(c, ctx, queue, id)(r)
  prop [C08,C13]
  requires wf0() && shape(c)
  ensures r == (inA(c, queue, id) || inP(c, queue, id) || inK(c, queue, id) || inN(c, queue, id))

func cache.MemoryCache.UnlockMessages(c, ctx, queue, t)(msgs, err)
  requires inv(c) && (t == "lock_ack" || t == "lock_nack")
  modifies clk, reads, lown, lat, lrk, llen, eown, insN, insId, insPos, lq, lm, c.queues[*], cache.MemoryMessageEntry.score, fresh(*list.List), fresh(*list.Element)
  def L = t == "lock_ack" ? c.lockAckQueues[queue] : c.lockNackQueues[queue]
  def n0 = insN
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C12] err == nil
  def lo = clk
  ensures [C12] "those that stay are not due yet" forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] != nil ==> lat[L][k] == old(lat)[L][k] && ent(lat[L][k]).lockUntil > tofloat(lo / 1000000)
  ensures [C12] "those that leave are due and available" forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> inA(c, queue, k) && ent(old(lat)[L][k]).lockUntil <= tofloat(clk / 1000000)
  ensures [C12] "with the score they were locked with, or the default" forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> (let s = ent(lat[c.queues[queue]][k]).score ; let s0 = old(ent(lat[L][k]).score) ; s0 != -1.0 ? s == s0 : (t == "lock_nack" ? s == 0.0 : real(lo / 1000000) <= s && s <= real(clk / 1000000)))
  ensures [C12] "nothing else moves" forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: p != queue || old(lat)[L][k] == nil || lat[L][k] != nil ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) && lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  ensures [C12] "the other lock pool and those being processed stay" forall p : string ; k : string { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && (t == "lock_nack" ==> lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k])) && (t == "lock_ack" ==> lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k]))
  ensures [C12] "scores of the others stay" forall e : *list.Element { lown[e] } :: old(lown)[e] != nil && lown[e] == old(lown)[e] ==> ent(e).score == old(ent(e).score)
  ensures [C12] "reports the ids" len(msgs) == insN - n0 && (forall i : int { msgs[i] } :: 0 <= i && i < len(msgs) ==> msgs[i] == insId[n0 + i] && old(lat)[L][msgs[i]] != nil && lat[L][msgs[i]] == nil)
  ensures [C12] "of all that leave" forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> n0 <= insPos[k] && insPos[k] < insN && msgs[insPos[k] - n0] == k
  loop 1 invariant wf0()
  loop 1 invariant sortedL()
  loop 1 invariant shape(c)
  loop 1 invariant once(c)
  loop 1 invariant list == L && L != nil
  loop 1 invariant next != nil ==> lown[next] == L
  loop 1 invariant [C12] forall e : *list.Element { lown[e] } :: lown[e] == L ==> old(lown)[e] == L
  loop 1 invariant [C12] forall e : *list.Element { lown[e] } :: lown[e] == L && (next == nil || lrk[e] < lrk[next]) ==> tofloat(nowMs) < ent(e).lockUntil
  loop 1 invariant [C12] forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] != nil ==> lat[L][k] == old(lat)[L][k]
  loop 1 invariant [C12] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> (let d = ent(old(lat)[L][k]) ; inA(c, queue, k) && ent(lat[c.queues[queue]][k]) == d && d.lockUntil <= tofloat(nowMs) && d.score == (old(ent(lat[L][k]).score) != -1.0 ? old(ent(lat[L][k]).score) : defaultScore))
  loop 1 invariant [C12] forall p : string ; k : string { lat[c.queues[p]][k] } :: p != queue || old(lat)[L][k] == nil || lat[L][k] != nil ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k])
  loop 1 invariant [C12] forall p : string ; k : string { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && (t == "lock_nack" || p != queue ==> lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k])) && (t == "lock_ack" || p != queue ==> lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k]))
  loop 1 invariant [C12] forall e : *list.Element { lown[e] } :: old(lown)[e] != nil && lown[e] == old(lown)[e] ==> ent(e).score == old(ent(e).score)
  loop 1 invariant [C12] len(unlockedMessages) == insN - n0 && (forall i : int { unlockedMessages[i] } :: 0 <= i && i < len(unlockedMessages) ==> unlockedMessages[i] == insId[n0 + i] && old(lat)[L][unlockedMessages[i]] != nil && lat[L][unlockedMessages[i]] == nil)
  loop 1 invariant [C12] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> n0 <= insPos[k] && insPos[k] < insN && unlockedMessages[insPos[k] - n0] == k

func cache.MemoryCache.TimeoutMessages(c, ctx, queue)(ids, err)
  requires inv(c)
  modifies clk, reads, lown, lat, lrk, llen, eown, insN, insId, insPos, lq, lm, c.queues[*], c.processingQueues[*], cache.MemoryMessageEntry.score, fresh(*list.List), fresh(*list.Element)
  def L = c.processingQueues[queue]
  def n0 = insN
  def lo = clk
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C11] err == nil
  ensures [C11] "those that stay are not overdue" forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] != nil ==> lat[L][k] == old(lat)[L][k] && ent(lat[L][k]).score > tofloat(lo / 1000000)
  ensures [C11] "those that leave are overdue and available with score 0" forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> inA(c, queue, k) && ent(lat[c.queues[queue]][k]).score == 0.0 && old(ent(lat[L][k]).score) <= tofloat(clk / 1000000)
  ensures [C11] "nothing else moves" forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: (p != queue || old(lat)[L][k] == nil || lat[L][k] != nil) ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) && lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  ensures [C11] "locked messages stay locked" forall p : string ; k : string { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  ensures [C11] "scores of the others stay" forall e : *list.Element { lown[e] } :: old(lown)[e] != nil && lown[e] == old(lown)[e] ==> ent(e).score == old(ent(e).score)
  ensures [C11] "reports the ids" len(ids) == insN - n0 && (forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> ids[i] == insId[n0 + i] && old(lat)[L][ids[i]] != nil && lat[L][ids[i]] == nil)
  ensures [C11] "of all that leave" forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> n0 <= insPos[k] && insPos[k] < insN && ids[insPos[k] - n0] == k
  loop 1 invariant wf0()
  loop 1 invariant sortedL()
  loop 1 invariant shape(c)
  loop 1 invariant once(c)
  loop 1 invariant L != nil && c.processingQueues[queue] == L
  loop 1 invariant next != nil ==> lown[next] == L
  loop 1 invariant [C11] forall e : *list.Element { lown[e] } :: lown[e] == L ==> old(lown)[e] == L
  loop 1 invariant [C11] forall e : *list.Element { lown[e] } :: lown[e] == L && (next == nil || lrk[e] < lrk[next]) ==> tofloat(timeoutTime) < ent(e).score
  loop 1 invariant [C11] forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] != nil ==> lat[L][k] == old(lat)[L][k]
  loop 1 invariant [C11] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> inA(c, queue, k) && ent(lat[c.queues[queue]][k]) == ent(old(lat)[L][k]) && ent(lat[c.queues[queue]][k]).score == 0.0 && old(ent(lat[L][k]).score) <= tofloat(timeoutTime)
  loop 1 invariant [C11] forall p : string ; k : string { lat[c.queues[p]][k] } :: p != queue || old(lat)[L][k] == nil || lat[L][k] != nil ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k])
  loop 1 invariant forall p : string { c.processingQueues[p] } :: c.processingQueues[p] == old(c.processingQueues[p])
  loop 1 invariant [C11] forall p : string ; k : string { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: (p != queue ==> lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k])) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  loop 1 invariant [C11] forall e : *list.Element { lown[e] } :: old(lown)[e] != nil && lown[e] == old(lown)[e] ==> ent(e).score == old(ent(e).score)
  loop 1 invariant [C11] len(result) == insN - n0 && (forall i : int { result[i] } :: 0 <= i && i < len(result) ==> result[i] == insId[n0 + i] && old(lat)[L][result[i]] != nil && lat[L][result[i]] == nil)
  loop 1 invariant [C11] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> n0 <= insPos[k] && insPos[k] < insN && result[insPos[k] - n0] == k

// dl(t, w): w milliseconds after the clock reading t (both axioms are about
// floating-point addition; the second follows from the lemma and the first)
pure dl(t int, w int) float
axiom [C09] forall t, w : int { dl(t, w) } :: dl(t, w) == tofloat(t / 1000000) + tofloat(w)
axiom [C09] forall t, u, w : int { dl(t, w), dl(u, w) } :: 0 <= t && t <= u && u < 9000000000000000000 && w >= -9223372036854775808 && w <= 9223372036854775807 ==> dl(t, w) <= dl(u, w)
lemma laterdeadline: [C09] forall t, u, w : int :: 0 <= t && t <= u && u < 9000000000000000000 && w >= -9223372036854775808 && w <= 9223372036854775807 ==> tofloat(t / 1000000) + tofloat(w) <= tofloat(u / 1000000) + tofloat(w)

// eligible: within the thresholds
pure within(s float, lo *float, hi *float) bool = (lo == nil || *lo <= s) && (hi == nil || s <= *hi)
func cache.MemoryCache.PullMessages(c, ctx, queue, n, minScore, maxScore, ack)(ids, err)
  requires inv(c) && n >= 0 && (minScore == nil || !isnan(*minScore)) && (maxScore == nil || !isnan(*maxScore)) && cache.DefaultTimeoutMs == 300000
  requires clk >= 0 && clk < 9000000000000000000
  modifies clk, reads, lown, lat, lrk, llen, eown, insN, insId, insPos, lq, lm, c.queues[*], c.processingQueues[*], fresh(*list.List), fresh(*list.Element)
  def L = c.queues[queue]
  def n0 = insN
  def lo = clk
  def wait = ack == 0 ? 300000 : ack
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C09] err == nil
  ensures [C09] "no more than asked for" len(ids) <= n && len(ids) == insN - n0
  ensures [C09] "each was available and eligible, each once" forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> old(lat)[L][ids[i]] != nil && lat[L][ids[i]] == nil && within(ent(old(lat)[L][ids[i]]).score, minScore, maxScore) && ids[i] == insId[n0 + i] && insPos[ids[i]] == n0 + i
  ensures [C09] "in order of score" forall i, j : int { ids[i], ids[j] } :: 0 <= i && i < j && j < len(ids) ==> ent(old(lat)[L][ids[i]]).score <= ent(old(lat)[L][ids[j]]).score
  ensures [C09] "those that stay are not eligible, or enough with a lower score were taken" forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] != nil && within(ent(lat[L][k]).score, minScore, maxScore) ==> len(ids) == n && (forall i : int { ids[i] } :: 0 <= i && i < len(ids) ==> ent(old(lat)[L][ids[i]]).score <= ent(lat[L][k]).score)
  ensures [C09] "only those returned leave" forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] == old(lat)[L][k] || lat[L][k] == nil && n0 <= insPos[k] && insPos[k] < insN && ids[insPos[k] - n0] == k
  ensures [C09] "and are being processed until the deadline" forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> inP(c, queue, k) && (let s = ent(lat[c.processingQueues[queue]][k]).score ; dl(lo, wait) <= s && s <= dl(clk, wait))
  ensures [C09] "nothing else moves" forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: (p != queue || old(lat)[L][k] == nil || lat[L][k] != nil) ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) && lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  loop 1 invariant wf0()
  loop 1 invariant sortedL()
  loop 1 invariant shape(c)
  loop 1 invariant once(c)
  loop 1 invariant [C09] clk >= lo
  loop 1 invariant L != nil && len(result) <= n && len(result) == insN - n0
  loop 1 invariant next != nil ==> lown[next] == L
  loop 1 invariant forall p : string { c.queues[p] } :: c.queues[p] == old(c.queues[p])
  loop 1 invariant [C09] forall e : *list.Element { lown[e] } :: lown[e] == L ==> old(lown)[e] == L
  loop 1 invariant [C09] forall e : *list.Element { lown[e] } :: lown[e] == L && (next == nil || lrk[e] < lrk[next]) ==> !within(ent(e).score, minScore, maxScore)
  loop 1 invariant [C09] forall k : string { lat[L][k] } { old(lat)[L][k] } :: lat[L][k] == old(lat)[L][k] || lat[L][k] == nil && n0 <= insPos[k] && insPos[k] < insN && insId[insPos[k]] == k && inP(c, queue, k)
  loop 1 invariant [C09] dl(lo, wait) <= dl(clk, wait)
  loop 1 invariant [C09] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil ==> dl(lo, wait) <= ent(lat[c.processingQueues[queue]][k]).score && ent(lat[c.processingQueues[queue]][k]).score <= dl(clk, wait)
  loop 1 invariant [C09] forall i : int { result[i] } :: 0 <= i && i < len(result) ==> result[i] == insId[n0 + i]
  loop 1 invariant [C09] forall i : int { insId[i] } :: n0 <= i && i < insN ==> old(lat)[L][insId[i]] != nil && lat[L][insId[i]] == nil
  loop 1 invariant [C09] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil && minScore != nil ==> *minScore <= ent(old(lat)[L][k]).score
  loop 1 invariant [C09] forall k : string { lat[L][k] } { old(lat)[L][k] } :: old(lat)[L][k] != nil && lat[L][k] == nil && maxScore != nil ==> ent(old(lat)[L][k]).score <= *maxScore
  loop 1 invariant [C09] forall i : int { insId[i] } :: n0 <= i && i < insN ==> insPos[insId[i]] == i
  loop 1 invariant [C09] forall i : int { insId[i] } :: n0 <= i && i < insN && next != nil ==> lrk[old(lat)[L][insId[i]]] < lrk[next]
  loop 1 invariant [C09] forall i : int { insId[i] } :: n0 <= i && i < insN && next != nil ==> ent(old(lat)[L][insId[i]]).score <= ent(next).score
  loop 1 invariant [C09] forall i, j : int { insId[i], insId[j] } :: n0 <= i && i < j && j < insN ==> ent(old(lat)[L][insId[i]]).score <= ent(old(lat)[L][insId[j]]).score
  loop 1 invariant [C09] forall p : string ; k : string { lat[c.processingQueues[p]][k] } :: p != queue || old(lat)[L][k] == nil || lat[L][k] != nil ==> lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k])
  loop 1 invariant [C09] forall p : string ; k : string { lat[c.queues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: (p != queue ==> lat[c.queues[p]][k] == old(lat[c.queues[p]][k])) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])

// cnt(b, i): how many of b[0..i-1] hold; nth(b, j): the position of the j-th that holds
pure cnt(b array[int]bool, i int) int
pure nth(b array[int]bool, j int) int
axiom [C13] forall b : array[int]bool ; i : int { cnt(b, i + 1) } :: cnt(b, 0) == 0 && (i >= 0 ==> cnt(b, i + 1) == cnt(b, i) + (b[i] ? 1 : 0))
axiom [C13] forall b : array[int]bool ; i, j : int { cnt(b, i), cnt(b, j) } :: cnt(b, 0) == 0 && (0 <= i && i <= j ==> cnt(b, i) <= cnt(b, j))
axiom [C13] forall b : array[int]bool ; i : int { nth(b, cnt(b, i)) } :: i >= 0 && b[i] ==> nth(b, cnt(b, i)) == i
// isNew[i]: the i-th message of the batch is in no pool of the queue
ghost var isNew array[int]bool
func cache.MemoryCache.Insert(c, ctx, queue, msgs)(ids, err)
  requires inv(c) && (forall k : string { insPos[k] } :: insPos[k] < insN)
  requires forall i : int { msgs[i] } :: 0 <= i && i < len(msgs) ==> msgs[i] != nil && !isnan(msgs[i].Score)
  requires [C13] forall i : int { isNew[i] } { msgs[i] } :: 0 <= i && i < len(msgs) ==> isNew[i] == !(inA(c, queue, msgs[i].ID) || inP(c, queue, msgs[i].ID) || inK(c, queue, msgs[i].ID) || inN(c, queue, msgs[i].ID))
  modifies lown, lat, lrk, llen, eown, insN, insId, insPos, lq, lm, c.queues[*], fresh(*list.List), fresh(*list.Element)
  def n0 = insN
  ensures [C08] "each id in one pool, pools sorted" inv(c)
  ensures [C13] "fails only for a message of another queue" err != nil ==> (exists i : int { msgs[i] } :: 0 <= i && i < len(msgs) && msgs[i].Queue != queue)
  ensures [C13] "and then always" err == nil ==> (forall i : int { msgs[i] } :: 0 <= i && i < len(msgs) ==> msgs[i].Queue == queue)
  ensures [C13] "inserting nothing" err != nil ==> allKept(c) && len(ids) == 0
  ensures [C13] "reports the new ids in order" err == nil ==> len(ids) == cnt(isNew, len(msgs)) && (forall i : int { msgs[i] } { isNew[i] } :: 0 <= i && i < len(msgs) && isNew[i] ==> cnt(isNew, i) >= 0 && cnt(isNew, i) < len(ids) && ids[cnt(isNew, i)] == msgs[i].ID)
  ensures [C13] "the new ones become available" err == nil ==> (forall i : int { msgs[i] } { isNew[i] } :: 0 <= i && i < len(msgs) && isNew[i] ==> inA(c, queue, msgs[i].ID))
  ensures [C13] "with the last score given" err == nil ==> (forall i : int { msgs[i] } { isNew[i] } :: 0 <= i && i < len(msgs) && isNew[i] && (forall j : int { msgs[j] } :: i < j && j < len(msgs) ==> msgs[j].ID != msgs[i].ID) ==> ent(lat[c.queues[queue]][msgs[i].ID]).score == msgs[i].Score)
  ensures [C13] "nothing else becomes available" forall p : string ; k : string { lat[c.queues[p]][k] } :: lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) || p == queue && n0 <= insPos[k] && insPos[k] < insN && ids[insPos[k] - n0] == k && err == nil
  ensures [C13] "and nothing moves" forall p : string ; k : string { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
  ensures [C13] "what was available stays so" forall k : string { lat[c.queues[queue]][k] } :: old(lat[c.queues[queue]][k]) != nil ==> lat[c.queues[queue]][k] == old(lat[c.queues[queue]][k])
  loop 1 invariant iter <= len(msgs)
  loop 1 invariant forall i : int { msgs[i] } :: 0 <= i && i < iter ==> msgs[i].Queue == queue
  loop 2 invariant iter <= len(msgs)
  loop 2 invariant forall j : int { insertions[j] } :: 0 <= j && j < len(insertions) ==> insertions[j] != nil && !isnan(insertions[j].Score) && insertions[j].Queue == queue && !(inA(c, queue, insertions[j].ID) || inP(c, queue, insertions[j].ID) || inK(c, queue, insertions[j].ID) || inN(c, queue, insertions[j].ID))
  loop 2 invariant [C13] len(insertions) == cnt(isNew, iter) && len(insertIds) == cnt(isNew, iter) && cnt(isNew, 0) == 0
  loop 2 invariant [C13] forall i : int { msgs[i] } { isNew[i] } :: 0 <= i && i < iter && isNew[i] ==> cnt(isNew, i) >= 0 && cnt(isNew, i) < len(insertions) && insertions[cnt(isNew, i)] == msgs[i] && insertIds[cnt(isNew, i)] == msgs[i].ID
  loop 2 invariant [C13] forall j : int { insertions[j] } { insertIds[j] } :: 0 <= j && j < len(insertions) ==> (let i = nth(isNew, j) ; 0 <= i && i < iter && isNew[i] && cnt(isNew, i) == j && insertions[j] == msgs[i] && insertIds[j] == insertions[j].ID)
  loop 3 invariant wf0()
  loop 3 invariant sortedL()
  loop 3 invariant shape(c)
  loop 3 invariant once(c)
  loop 3 invariant iter <= len(insertions) && insN == n0 + iter
  loop 3 invariant forall k : string { insPos[k] } :: insPos[k] < insN
  loop 3 invariant [C13] forall j : int { insertions[j] } { insId[n0 + j] } :: 0 <= j && j < iter ==> insId[n0 + j] == insertions[j].ID && insPos[insertions[j].ID] >= n0 + j
  loop 3 invariant [C13] forall k : string { insPos[k] } :: insPos[k] >= n0 ==> insertions[insPos[k] - n0].ID == k && inA(c, queue, k) && ent(lat[c.queues[queue]][k]).score == insertions[insPos[k] - n0].Score
  loop 3 invariant [C13] forall p : string ; k : string { lat[c.queues[p]][k] } :: lat[c.queues[p]][k] == old(lat[c.queues[p]][k]) || p == queue && n0 <= insPos[k] && old(lat[c.queues[p]][k]) == nil
  loop 3 invariant forall p : string ; k : string { lat[c.processingQueues[p]][k] } { lat[c.lockAckQueues[p]][k] } { lat[c.lockNackQueues[p]][k] } :: lat[c.processingQueues[p]][k] == old(lat[c.processingQueues[p]][k]) && lat[c.lockAckQueues[p]][k] == old(lat[c.lockAckQueues[p]][k]) && lat[c.lockNackQueues[p]][k] == old(lat[c.lockNackQueues[p]][k])
