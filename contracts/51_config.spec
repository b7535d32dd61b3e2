// ---- C24: queue configurations. Other goroutines may act between any two
// steps: each step below first lets them (rely), then does its own work.
// stMax[q]: the maximum stored for q (0: none); pend[q]: edits of q that may
// have reached the storage and whose end is not announced; mine[q]: those of
// this goroutine; lcHas, lcVal: the local cache.
ghost var svc *queue.DefaultQueueConfigurationService
ghost var stMax array[string]int
ghost var pend array[string]int
ghost var mine array[string]int
ghost var lcHas array[string]bool
ghost var lcVal array[string]*configuration.QueueConfiguration
ghost var lkd bool
ghost var eLock int
ghost var gone array[string]bool
// the last look into the cache, the last load and edit of the storage
ghost var gHit bool
ghost var gKey string
ghost var gVal *configuration.QueueConfiguration
ghost var gMax int
ghost var ldN int
ghost var ldQueue string
ghost var ldErr error
ghost var ldMax int
ghost var edN int
ghost var edCfg *configuration.QueueConfiguration
ghost var edErr error
ghost var setN int

pure cfgInv() bool = (forall q : string { lcHas[q] } :: lcHas[q] ==> lcVal[q] != nil && allocated(lcVal[q]) && lcVal[q].Queue == q && (lcVal[q].MaxElements == stMax[q] || pend[q] > 0)) && (forall q : string { pend[q] } { mine[q] } :: 0 <= mine[q] && mine[q] <= pend[q])
// what other goroutines may do while this one does not hold the lock, and while it does
pure relyU(oSt array[string]int, oPend array[string]int, oE int) bool = svc.edits >= oE && (forall q : string { stMax[q] } { pend[q] } :: (stMax[q] == oSt[q] || pend[q] > mine[q] || svc.edits > oE) && (oPend[q] > mine[q] ==> pend[q] > mine[q] || svc.edits > oE))
pure relyL(oSt array[string]int, oPend array[string]int, oE int) bool = svc.edits == oE && (forall q : string { stMax[q] } { pend[q] } :: (stMax[q] == oSt[q] || pend[q] > mine[q]) && pend[q] >= oPend[q])

extern [C24] sync.Mutex.Lock(m)
  requires [C24] "not acquired twice" !lkd
  modifies lkd, eLock, gone, stMax, pend, lcHas, lcVal, queue.DefaultQueueConfigurationService.edits
  ensures "fewer than 2^62 edits" svc.edits < 4611686018427387904
  ensures lkd && cfgInv() && relyU(old(stMax), old(pend), old(svc.edits)) && eLock == svc.edits && (forall q : string { gone[q] } :: !gone[q])
extern [C24] sync.Mutex.Unlock(m)
  requires [C24] "held" lkd
  requires [C24] "the count of edits never goes back" svc.edits >= eLock
  requires [C24] "what is cached is what is stored" forall q : string { lcHas[q] } :: lcHas[q] ==> lcVal[q].MaxElements == stMax[q] || pend[q] - ((gone[q] && svc.edits > eLock) ? mine[q] : 0) > 0
  modifies lkd, mine, stMax, pend, lcHas, lcVal, queue.DefaultQueueConfigurationService.edits
  def e = svc.edits
  ensures !lkd && cfgInv() && svc.edits >= old(svc.edits)
  ensures forall q : string { mine[q] } :: mine[q] == ((old(gone)[q] && old(svc.edits) > old(eLock)) ? 0 : old(mine)[q])
  ensures forall q : string { stMax[q] } :: stMax[q] == old(stMax)[q] || pend[q] > mine[q] || svc.edits > old(svc.edits)

extern [C24] gocache.New(d, c)(r)
  ensures r != nil && fresh(r)
extern [C24] gocache.cache.Get(c, k)(v, ok)
  modifies stMax, pend, lcHas, lcVal, queue.DefaultQueueConfigurationService.edits, gHit, gKey, gVal, gMax
  ensures cfgInv()
  ensures old(lkd) ? (relyL(old(stMax), old(pend), old(svc.edits)) && lcHas == old(lcHas) && lcVal == old(lcVal)) : relyU(old(stMax), old(pend), old(svc.edits))
  ensures ok == lcHas[k] && (ok ? typeis(v, *configuration.QueueConfiguration) && as(v, *configuration.QueueConfiguration) == lcVal[k] : v == nil)
  ensures gHit == ok && gKey == k && gVal == lcVal[k] && (ok ==> gMax == lcVal[k].MaxElements)
extern [C24] gocache.cache.Set(c, k, v, d)
  requires [C24] "only under the lock" lkd
  requires [C24] "a configuration of the queue" typeis(v, *configuration.QueueConfiguration) && as(v, *configuration.QueueConfiguration) != nil && as(v, *configuration.QueueConfiguration).Queue == k
  requires [C24] "no outdated configuration is cached" as(v, *configuration.QueueConfiguration).MaxElements == stMax[k] || pend[k] > mine[k]
  modifies lcHas, lcVal, setN
  ensures lcHas == store(old(lcHas), k, true) && lcVal == store(old(lcVal), k, as(v, *configuration.QueueConfiguration)) && setN == old(setN) + 1
extern [C24] gocache.cache.Delete(c, k)
  modifies lcHas, gone
  ensures lcHas == store(old(lcHas), k, false) && gone == store(old(gone), k, lkd)

iface [C24] storage.Storage.GetQueueConfiguration(recv, ctx, queue)(c, err)
  modifies stMax, pend, lcHas, lcVal, queue.DefaultQueueConfigurationService.edits, ldN, ldQueue, ldErr, ldMax, fresh(*configuration.QueueConfiguration)
  ensures cfgInv()
  ensures old(lkd) ? (relyL(old(stMax), old(pend), old(svc.edits)) && lcHas == old(lcHas) && lcVal == old(lcVal)) : relyU(old(stMax), old(pend), old(svc.edits))
  ensures "the storage returns what is stored" err == nil ==> (c == nil ? stMax[queue] == 0 : c.MaxElements == stMax[queue] && c.Queue == queue && allocated(c))
  ensures ldN == old(ldN) + 1 && ldQueue == queue && ldErr == err && ldMax == (c == nil ? 0 : c.MaxElements)
iface [C24] storage.Storage.EditQueueConfiguration(recv, ctx, cfg)(err)
  requires cfg != nil && cfg.MaxElements != 0
  modifies stMax, pend, mine, lcHas, lcVal, queue.DefaultQueueConfigurationService.edits, edN, edCfg, edErr
  def k = cfg.Queue
  ensures cfgInv() && svc.edits >= old(svc.edits)
  ensures lkd ==> svc.edits == old(svc.edits) && lcHas == old(lcHas) && lcVal == old(lcVal)
  ensures mine == store(old(mine), k, old(mine)[k] + 1)
  ensures forall q : string { stMax[q] } { pend[q] } :: q != k ==> (stMax[q] == old(stMax)[q] || pend[q] > mine[q] || svc.edits > old(svc.edits))
  ensures forall q : string { pend[q] } :: old(pend)[q] > old(mine)[q] ==> pend[q] > mine[q] || svc.edits > old(svc.edits)
  ensures err == nil ==> stMax[k] == (cfg.MaxElements < 0 ? 0 : cfg.MaxElements)
  ensures edN == old(edN) + 1 && edCfg == cfg && edErr == err

func [C24] queue.NewQueueConfigurationService(ctx, s)(r)
  modifies *
  ensures [C24] r != nil && r.storage == s && r.localCache != nil && r.edits == 0
func [C24] queue.DefaultQueueConfigurationService.EditQueueConfiguration(self, ctx, cfg)(err)
  requires self == svc && self != nil && !lkd && cfgInv() && (forall q : string { mine[q] } :: mine[q] == 0)
  modifies *
  ensures [C24] "no maximum: nothing" cfg == nil || old(cfg.MaxElements) == 0 ==> err == nil && edN == old(edN)
  ensures [C24] "written once unless it is the known one" cfg != nil && old(cfg.MaxElements) != 0 ==> edN == old(edN) + 1 && edCfg == cfg && err == edErr || edN == old(edN) && err == nil && gHit && gKey == cfg.Queue && gMax == old(cfg.MaxElements)
  ensures [C24] "the end of every edit is announced: reads started later see it" forall q : string { mine[q] } :: mine[q] == 0
  ensures [C24] "nothing remembered" setN == old(setN)
  ensures [C24] "released" !lkd
func [C24] queue.DefaultQueueConfigurationService.GetQueueConfiguration(self, ctx, queue)(c, err)
  requires self == svc && self != nil && !lkd && cfgInv() && (forall q : string { mine[q] } :: mine[q] == 0)
  modifies *
  ensures [C24] "the known or the stored one" err == nil ==> c != nil && c.Queue == queue && (gHit && gKey == queue && c == gVal || ldN > old(ldN) && ldQueue == queue && ldErr == nil && c.MaxElements == ldMax)
  ensures [C24] "failures are returned, not remembered" err != nil ==> c == nil && setN == old(setN)
  ensures [C24] "no failure is hidden" ldN > old(ldN) && ldErr != nil ==> err != nil
  ensures [C24] "nothing is written" edN == old(edN) && (forall q : string { mine[q] } :: mine[q] == 0)
  ensures [C24] "released" !lkd

// ---- the handlers
ghost var qcN int
ghost var qcQueue string
ghost var qcMax int
ghost var qcErr error
ghost var qgN int
ghost var qgQueue string
ghost var qgRes *configuration.QueueConfiguration
ghost var qgErr error
iface [C24] queue.QueueConfigurationService.EditQueueConfiguration(recv, ctx, cfg)(err)
  requires cfg != nil
  modifies qcN, qcQueue, qcMax, qcErr
  ensures qcN == old(qcN) + 1 && qcQueue == cfg.Queue && qcMax == cfg.MaxElements && qcErr == err
iface [C24] queue.QueueConfigurationService.GetQueueConfiguration(recv, ctx, queue)(c, err)
  modifies qgN, qgQueue, qgRes, qgErr, fresh(*configuration.QueueConfiguration)
  ensures err == nil ==> c != nil
  ensures qgN == old(qgN) + 1 && qgQueue == queue && qgRes == c && qgErr == err
func [C24] service.Deckard.EditQueue(self, ctx, request)(resp, err)
  requires self != nil && request != nil
  modifies *
  ensures [C24] "no configuration: nothing" request.Configuration == nil ==> qcN == old(qcN) && err == nil && resp != nil && !resp.Success
  ensures [C24] "passed on" request.Configuration != nil ==> qcN == old(qcN) + 1 && qcQueue == request.Queue && qcMax == request.Configuration.MaxElements
  ensures [C24] "failures are returned" request.Configuration != nil ==> (err != nil) == (qcErr != nil)
  ensures [C24] "answered" err == nil ==> resp != nil && resp.Queue == request.Queue && (request.Configuration != nil ==> resp.Success)
func [C24] service.Deckard.GetQueue(self, ctx, request)(resp, err)
  requires self != nil && request != nil
  modifies *
  ensures [C24] "asked once" qgN == old(qgN) + 1 && qgQueue == request.Queue
  ensures [C24] "failures are returned" (err != nil) == (qgErr != nil)
  ensures [C24] "what is stored" err == nil ==> resp != nil && resp.Queue == qgRes.Queue && resp.Configuration != nil && resp.Configuration.MaxElements == qgRes.MaxElements

// ---- the in-memory storage
func [C24] storage.MemoryStorage.EditQueueConfiguration(self, ctx, configuration)(err)
  requires configuration != nil && self.configurations != nil
  modifies *
  def m = self.configurations
  def k = configuration.Queue
  ensures [C24] err == nil
  ensures [C24] "no maximum: nothing" old(configuration.MaxElements) == 0 ==> (forall q : string { m[q] } :: m[q] == old(m[q]))
  ensures [C24] "stored, no limit for a negative one" old(configuration.MaxElements) != 0 ==> k in m && m[k] != nil && m[k].Queue == k && m[k].MaxElements == max(0, old(configuration.MaxElements))
  ensures [C24] "other queues keep theirs" forall q : string { m[q] } :: q != k ==> m[q] == old(m[q]) && (q in m) == old(q in m)
func [C24] storage.MemoryStorage.GetQueueConfiguration(self, ctx, queue)(c, err)
  modifies *
  def m = self.configurations
  ensures [C24] err == nil && c == (m[queue])
  ensures [C24] "nothing changes" self.configurations == m && (forall q : string { m[q] } :: m[q] == old(m[q]) && (q in m) == old(q in m))
