// ---- C26: the in-memory engines touch shared state only under their lock
// held[m]: how this goroutine holds the mutex m (0 not, 1 shared, 2 exclusive);
// heldW, heldR: how many it holds exclusively / at all. shared[m]: the message
// m is in a storage; sharedCfg likewise.
ghost var held array[ref]int
ghost var heldW int
ghost var heldR int
// how often the mutex was acquired
ghost var acq array[ref]int
ghost var shared array[*message.Message]bool
ghost var sharedDiag array[*message.MessageDiagnostics]bool
ghost var sharedCfg array[*configuration.QueueConfiguration]bool

extern [C26] sync.Mutex.Lock(m)
  requires [C26] "not acquired twice" held[m] == 0
  modifies held, heldW, heldR, acq
  ensures acq == store(old(acq), m, old(acq)[m] + 1)
  ensures held == store(old(held), m, 2) && heldW == old(heldW) + 1 && heldR == old(heldR) + 1
extern [C26] sync.Mutex.Unlock(m)
  requires [C26] "held exclusively" held[m] == 2
  modifies held, heldW, heldR
  ensures held == store(old(held), m, 0) && heldW == old(heldW) - 1 && heldR == old(heldR) - 1
extern [C26] sync.RWMutex.Lock(m)
  requires [C26] "not acquired twice" held[m] == 0
  modifies held, heldW, heldR, acq
  ensures acq == store(old(acq), m, old(acq)[m] + 1)
  ensures held == store(old(held), m, 2) && heldW == old(heldW) + 1 && heldR == old(heldR) + 1
extern [C26] sync.RWMutex.Unlock(m)
  requires [C26] "held exclusively" held[m] == 2
  modifies held, heldW, heldR
  ensures held == store(old(held), m, 0) && heldW == old(heldW) - 1 && heldR == old(heldR) - 1
extern [C26] sync.RWMutex.RLock(m)
  requires [C26] "not acquired twice" held[m] == 0
  modifies held, heldR, acq
  ensures acq == store(old(acq), m, old(acq)[m] + 1)
  ensures held == store(old(held), m, 1) && heldR == old(heldR) + 1
extern [C26] sync.RWMutex.RUnlock(m)
  requires [C26] "held" held[m] == 1
  modifies held, heldR
  ensures held == store(old(held), m, 0) && heldR == old(heldR) - 1

guard [C26] cache.MemoryCache.queues(x) read fresh(x) || held[x.lock] == 2 write fresh(x) || held[x.lock] == 2
guard [C26] cache.MemoryCache.processingQueues(x) read fresh(x) || held[x.lock] == 2 write fresh(x) || held[x.lock] == 2
guard [C26] cache.MemoryCache.lockAckQueues(x) read fresh(x) || held[x.lock] == 2 write fresh(x) || held[x.lock] == 2
guard [C26] cache.MemoryCache.lockNackQueues(x) read fresh(x) || held[x.lock] == 2 write fresh(x) || held[x.lock] == 2
guard [C26] cache.MemoryCache.keys(x) read fresh(x) || held[x.lock] == 2 write fresh(x) || held[x.lock] == 2
guard [C26] cache.MemoryCache.lock(x) read true write fresh(x)
guard [C26] cache.MemoryMessageEntry.*(x) read fresh(x) || heldW > 0 write fresh(x) || heldW > 0
guard [C26] storage.MemoryStorage.docs(x) read fresh(x) || held[x.lock] >= 1 write fresh(x) || held[x.lock] == 2
guard [C26] storage.MemoryStorage.configurations(x) read fresh(x) || held[x.lock] >= 1 write fresh(x) || held[x.lock] == 2
guard [C26] storage.MemoryStorage.internalCounter(x) read fresh(x) || held[x.lock] >= 1 write fresh(x) || held[x.lock] == 2
guard [C26] storage.MemoryStorage.lock(x) read true write fresh(x)
guard [C26] map list.List(m) read heldW > 0 write heldW > 0
guard [C26] map message.Message(m) read heldR > 0 write heldW > 0
guard [C26] map configuration.QueueConfiguration(m) read heldR > 0 write heldW > 0
guard [C26] message.Message.*(x) read fresh(x) || !shared[x] || heldR > 0 write fresh(x) || !shared[x] || heldW > 0
guard [C26] message.MessageDiagnostics.*(x) read fresh(x) || !sharedDiag[x] || heldR > 0 write fresh(x) || !sharedDiag[x] || heldW > 0
guard [C26] configuration.QueueConfiguration.*(x) read true write !sharedCfg[x]

extern [C26] mapset.list.List(m, k, v)
extern [C26] mapset.message.Message(m, k, v)
  modifies shared, sharedDiag
  ensures shared == store(old(shared), v, true) && (forall d : *message.MessageDiagnostics { sharedDiag[d] } :: sharedDiag[d] == (old(sharedDiag)[d] || d == v.Diagnostics && d != nil))
extern [C26] mapset.configuration.QueueConfiguration(m, k, v)
  modifies sharedCfg
  ensures sharedCfg == store(old(sharedCfg), v, true)

extern [C26] list.New()(r)
  ensures r != nil && fresh(r)
extern [C26] list.List.Len(l)(n)
  requires [C26] "under the lock" heldW > 0
  ensures n >= 0
extern [C26] list.List.Front(l)(r)
  requires [C26] "under the lock" heldW > 0
extern [C26] list.Element.Next(e)(r)
  requires [C26] "under the lock" heldW > 0
extern [C26] list.List.Remove(l, e)(v)
  requires [C26] "under the lock" heldW > 0
extern [C26] list.List.PushBack(l, v)(r)
  requires [C26] "under the lock" heldW > 0
  modifies fresh(*list.Element)
extern [C26] list.List.InsertBefore(l, v, mark)(r)
  requires [C26] "under the lock" heldW > 0
  modifies fresh(*list.Element)

// ---- every operation of the MemoryCache
func [C26] cache.MemoryCache.*(self)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] cache.MemoryCache.MakeAvailable(self, p0, message)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's message" !shared[message]
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] cache.MemoryCache.LockMessage(self, p0, message, lockType)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's message" !shared[message]
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] cache.MemoryCache.Insert(self, ctx, queue, messages)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's messages" forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> messages[i] != nil && !shared[messages[i]]
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
// ---- every operation of the MemoryStorage
func [C26] storage.MemoryStorage.*(self)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] storage.MemoryStorage.EditQueueConfiguration(self, p0, configuration)
  requires "the caller's configuration" !sharedCfg[configuration]
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] storage.MemoryStorage.Insert(self, p0, messages)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's messages" forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> messages[i] != nil && allocated(messages[i]) && !shared[messages[i]]
  modifies *
  loop 1 invariant [C26] "released between two messages" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  loop 1 invariant [C26] acq[self.lock] <= old(acq)[self.lock] + iter && iter <= len(messages)
  loop 1 invariant [C26] "the caller's messages stay his own" forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> messages[i] != nil && !fresh(messages[i]) && !shared[messages[i]]
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section per message" acq[self.lock] <= old(acq)[self.lock] + len(messages)
func [C26] storage.MemoryStorage.GetStringInternalId(self, p0, message)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's message" !shared[message]
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] storage.MemoryStorage.Ack(self, p0, msg)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's message" !shared[msg]
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
func [C26] storage.MemoryStorage.Nack(self, p0, msg)
  requires "not held" held[self.lock] == 0 && heldW >= 0 && heldR >= 0
  requires "the caller's message" !shared[msg]
  modifies *
  ensures [C26] "released" held[self.lock] == 0 && heldW == old(heldW) && heldR == old(heldR)
  ensures [C26] "in one critical section" acq[self.lock] <= old(acq)[self.lock] + 1
