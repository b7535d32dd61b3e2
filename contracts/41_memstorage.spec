// ---- the in-memory storage (C15..C18)
// cv: a counter, 0 when absent
pure cv(p *int64) int = p == nil ? 0 : *p
pure dA(d *message.MessageDiagnostics) int = d == nil ? 0 : cv(d.Acks)
pure dN(d *message.MessageDiagnostics) int = d == nil ? 0 : cv(d.Nacks)
pure dCA(d *message.MessageDiagnostics) int = d == nil ? 0 : cv(d.ConsecutiveAcks)
pure dCN(d *message.MessageDiagnostics) int = d == nil ? 0 : cv(d.ConsecutiveNacks)
// no counter of a is a counter of b
pure apart1(p *int64, b *message.MessageDiagnostics) bool = p == nil || p != b.Acks && p != b.Nacks && p != b.ConsecutiveAcks && p != b.ConsecutiveNacks
pure apart(a *message.MessageDiagnostics, b *message.MessageDiagnostics) bool = a == nil || b == nil || a != b && apart1(a.Acks, b) && apart1(a.Nacks, b) && apart1(a.ConsecutiveAcks, b) && apart1(a.ConsecutiveNacks, b)
pure ne(p *int64, q *int64) bool = p == nil || p != q
pure wfD(d *message.MessageDiagnostics) bool = d == nil || allocated(d) && (d.Acks == nil || allocated(d.Acks)) && (d.Nacks == nil || allocated(d.Nacks)) && (d.ConsecutiveAcks == nil || allocated(d.ConsecutiveAcks)) && (d.ConsecutiveNacks == nil || allocated(d.ConsecutiveNacks)) && ne(d.Acks, d.Nacks) && ne(d.Acks, d.ConsecutiveAcks) && ne(d.Acks, d.ConsecutiveNacks) && ne(d.Nacks, d.ConsecutiveAcks) && ne(d.Nacks, d.ConsecutiveNacks) && ne(d.ConsecutiveAcks, d.ConsecutiveNacks)
// every stored message is filed under its queue and id and has its own counters
pure wfK(s *storage.MemoryStorage) bool = s.docs != nil && (forall q, i : string { s.docs[key(q, i)] } { key(q, i) in s.docs } :: key(q, i) in s.docs ==> s.docs[key(q, i)] != nil && allocated(s.docs[key(q, i)]) && s.docs[key(q, i)].Queue == q && s.docs[key(q, i)].ID == i && wfD(s.docs[key(q, i)].Diagnostics))
pure wfA(s *storage.MemoryStorage) bool = forall q, i, q2, i2 : string { s.docs[key(q, i)], s.docs[key(q2, i2)] } :: key(q, i) in s.docs && key(q2, i2) in s.docs && (q != q2 || i != i2) ==> apart(s.docs[key(q, i)].Diagnostics, s.docs[key(q2, i2)].Diagnostics)
pure wfI(s *storage.MemoryStorage) bool = forall q, i : string { s.docs[key(q, i)] } :: key(q, i) in s.docs ==> typeis(s.docs[key(q, i)].InternalId, int64) && 0 < as(s.docs[key(q, i)].InternalId, int64) && as(s.docs[key(q, i)].InternalId, int64) <= s.internalCounter
pure wfU(s *storage.MemoryStorage) bool = forall q, i, q2, i2 : string { s.docs[key(q, i)], s.docs[key(q2, i2)] } :: key(q, i) in s.docs && key(q2, i2) in s.docs && (q != q2 || i != i2) ==> s.docs[key(q, i)].InternalId != s.docs[key(q2, i2)].InternalId
pure wfS(s *storage.MemoryStorage) bool = wfK(s) && wfA(s) && wfI(s) && wfU(s) && s.internalCounter >= 0
pure small(d *message.MessageDiagnostics) bool = dA(d) < 4611686018427387904 && dN(d) < 4611686018427387904 && dCA(d) < 4611686018427387904 && dCN(d) < 4611686018427387904

func storage.MemoryStorage.Ack(self, ctx, msg)(n, err)
  requires msg != nil && wfS(self)
  requires "the caller's message is its own" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> self.docs[key(q, i)] != msg
  requires "counters stay below 2^62" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> small(self.docs[key(q, i)].Diagnostics) && self.docs[key(q, i)].UsageCount < 4611686018427387904
  modifies *
  def has = key(msg.Queue, msg.ID) in self.docs
  def d = self.docs[key(msg.Queue, msg.ID)]
  ensures [C17] "reported" err == nil && n == (has ? 1 : 0)
  ensures [C17] "counted" has ==> dA(d.Diagnostics) == old(dA(d.Diagnostics)) + 1 && dCA(d.Diagnostics) == old(dCA(d.Diagnostics)) + 1 && dCN(d.Diagnostics) == 0 && dN(d.Diagnostics) == old(dN(d.Diagnostics)) && d.UsageCount == old(d.UsageCount) + 1
  ensures [C17] "the subtraction" has ==> d.TotalScoreSubtract == old(d.TotalScoreSubtract) + msg.LastScoreSubtract && d.LastScoreSubtract == msg.LastScoreSubtract
  ensures [C17] "as requested" has ==> d.Score == msg.Score && d.LockMs == msg.LockMs && d.Breakpoint == msg.Breakpoint && d.LastUsage == msg.LastUsage
  ensures [C17] "the rest of it is unchanged" has ==> d.ID == old(d.ID) && d.Queue == old(d.Queue) && d.InternalId == old(d.InternalId) && d.Description == old(d.Description) && d.ExpiryDate == old(d.ExpiryDate) && d.Timeless == old(d.Timeless) && d.StringPayload == old(d.StringPayload) && d.Metadata == old(d.Metadata) && d.Payload == old(d.Payload) && d.QueuePrefix == old(d.QueuePrefix) && d.QueueSuffix == old(d.QueueSuffix)
  ensures [C15,C16,C17,C18] "the same messages are stored" forall q, i : string { key(q, i) in self.docs } { self.docs[key(q, i)] } :: (key(q, i) in self.docs) == old(key(q, i) in self.docs) && self.docs[key(q, i)] == old(self.docs[key(q, i)])
  ensures [C17] "other messages are unchanged" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && (q != msg.Queue || i != msg.ID) ==> (let e = self.docs[key(q, i)] ; dA(e.Diagnostics) == old(dA(e.Diagnostics)) && dN(e.Diagnostics) == old(dN(e.Diagnostics)) && dCA(e.Diagnostics) == old(dCA(e.Diagnostics)) && dCN(e.Diagnostics) == old(dCN(e.Diagnostics)) && e.Diagnostics == old(e.Diagnostics) && e.UsageCount == old(e.UsageCount) && e.TotalScoreSubtract == old(e.TotalScoreSubtract) && e.LastScoreSubtract == old(e.LastScoreSubtract) && e.Score == old(e.Score) && e.LockMs == old(e.LockMs) && e.Breakpoint == old(e.Breakpoint) && e.LastUsage == old(e.LastUsage) && e.ID == old(e.ID) && e.Queue == old(e.Queue) && e.InternalId == old(e.InternalId) && e.Description == old(e.Description) && e.ExpiryDate == old(e.ExpiryDate) && e.Timeless == old(e.Timeless) && e.Metadata == old(e.Metadata) && e.Payload == old(e.Payload) && e.QueuePrefix == old(e.QueuePrefix) && e.QueueSuffix == old(e.QueueSuffix) && e.StringPayload == old(e.StringPayload))
  ensures [C15,C16,C17,C18] "well-formed" wfS(self)

func storage.MemoryStorage.Nack(self, ctx, msg)(n, err)
  requires msg != nil && wfS(self)
  requires "the caller's message is its own" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> self.docs[key(q, i)] != msg
  requires "counters stay below 2^62" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> small(self.docs[key(q, i)].Diagnostics) && self.docs[key(q, i)].UsageCount < 4611686018427387904
  modifies *
  def has = key(msg.Queue, msg.ID) in self.docs
  def d = self.docs[key(msg.Queue, msg.ID)]
  ensures [C17] "reported" err == nil && n == (has ? 1 : 0)
  ensures [C17] "counted" has ==> dN(d.Diagnostics) == old(dN(d.Diagnostics)) + 1 && dCN(d.Diagnostics) == old(dCN(d.Diagnostics)) + 1 && dCA(d.Diagnostics) == 0 && dA(d.Diagnostics) == old(dA(d.Diagnostics))
  ensures [C17] "as requested" has ==> d.Score == msg.Score && d.LockMs == msg.LockMs
  ensures [C17] "the rest of it is unchanged" has ==> d.UsageCount == old(d.UsageCount) && d.TotalScoreSubtract == old(d.TotalScoreSubtract) && d.LastScoreSubtract == old(d.LastScoreSubtract) && d.Breakpoint == old(d.Breakpoint) && d.LastUsage == old(d.LastUsage) && d.ID == old(d.ID) && d.Queue == old(d.Queue) && d.InternalId == old(d.InternalId) && d.Description == old(d.Description) && d.ExpiryDate == old(d.ExpiryDate) && d.Timeless == old(d.Timeless) && d.StringPayload == old(d.StringPayload) && d.Metadata == old(d.Metadata) && d.Payload == old(d.Payload) && d.QueuePrefix == old(d.QueuePrefix) && d.QueueSuffix == old(d.QueueSuffix)
  ensures [C15,C16,C17,C18] "the same messages are stored" forall q, i : string { key(q, i) in self.docs } { self.docs[key(q, i)] } :: (key(q, i) in self.docs) == old(key(q, i) in self.docs) && self.docs[key(q, i)] == old(self.docs[key(q, i)])
  ensures [C17] "other messages are unchanged" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && (q != msg.Queue || i != msg.ID) ==> (let e = self.docs[key(q, i)] ; dA(e.Diagnostics) == old(dA(e.Diagnostics)) && dN(e.Diagnostics) == old(dN(e.Diagnostics)) && dCA(e.Diagnostics) == old(dCA(e.Diagnostics)) && dCN(e.Diagnostics) == old(dCN(e.Diagnostics)) && e.Diagnostics == old(e.Diagnostics) && e.UsageCount == old(e.UsageCount) && e.TotalScoreSubtract == old(e.TotalScoreSubtract) && e.LastScoreSubtract == old(e.LastScoreSubtract) && e.Score == old(e.Score) && e.LockMs == old(e.LockMs) && e.Breakpoint == old(e.Breakpoint) && e.LastUsage == old(e.LastUsage) && e.ID == old(e.ID) && e.Queue == old(e.Queue) && e.InternalId == old(e.InternalId) && e.Description == old(e.Description) && e.ExpiryDate == old(e.ExpiryDate) && e.Timeless == old(e.Timeless) && e.Metadata == old(e.Metadata) && e.Payload == old(e.Payload) && e.QueuePrefix == old(e.QueuePrefix) && e.QueueSuffix == old(e.QueueSuffix) && e.StringPayload == old(e.StringPayload))
  ensures [C15,C16,C17,C18] "well-formed" wfS(self)

func storage.MemoryStorage.Remove(self, ctx, queue, ids)(n, err)
  requires wfS(self)
  modifies *
  ensures [C18] err == nil
  ensures [C18] "exactly the given ids of the queue are gone" forall q, i : string { key(q, i) in self.docs } :: (key(q, i) in self.docs) == (old(key(q, i) in self.docs) && !(q == queue && (exists j : int { ids[j] } :: 0 <= j && j < len(ids) && ids[j] == i)))
  ensures [C18] "the others stay" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> self.docs[key(q, i)] == old(self.docs[key(q, i)])
  ensures [C18] "and are unchanged" forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> (let e = self.docs[key(q, i)] ; dA(e.Diagnostics) == old(dA(e.Diagnostics)) && dN(e.Diagnostics) == old(dN(e.Diagnostics)) && dCA(e.Diagnostics) == old(dCA(e.Diagnostics)) && dCN(e.Diagnostics) == old(dCN(e.Diagnostics)) && e.Diagnostics == old(e.Diagnostics) && e.UsageCount == old(e.UsageCount) && e.TotalScoreSubtract == old(e.TotalScoreSubtract) && e.LastScoreSubtract == old(e.LastScoreSubtract) && e.Score == old(e.Score) && e.LockMs == old(e.LockMs) && e.Breakpoint == old(e.Breakpoint) && e.LastUsage == old(e.LastUsage) && e.ID == old(e.ID) && e.Queue == old(e.Queue) && e.InternalId == old(e.InternalId) && e.Description == old(e.Description) && e.ExpiryDate == old(e.ExpiryDate) && e.Timeless == old(e.Timeless) && e.Metadata == old(e.Metadata) && e.Payload == old(e.Payload) && e.QueuePrefix == old(e.QueuePrefix) && e.QueueSuffix == old(e.QueueSuffix) && e.StringPayload == old(e.StringPayload))
  ensures [C18] "reports how many" n == old(len(self.docs)) - len(self.docs)
  ensures [C15,C16,C17,C18] "well-formed" wfS(self)
  loop 1 invariant self.docs == old(self.docs) && count == old(len(self.docs)) - len(self.docs) && count >= 0
  loop 1 invariant forall q, i : string { key(q, i) in self.docs } { self.docs[key(q, i)] } :: (key(q, i) in self.docs) == (old(key(q, i) in self.docs) && !(visited(key(q, i)) && q == queue && (exists j : int { ids[j] } :: 0 <= j && j < len(ids) && ids[j] == i)))
  loop 1 invariant forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs ==> self.docs[key(q, i)] == old(self.docs[key(q, i)])
  loop 1 invariant forall q, i : string { visited(key(q, i)) } :: visited(key(q, i)) ==> old(key(q, i) in self.docs)
  loop 2 invariant forall j : int { ids[j] } :: 0 <= j && j < iter ==> ids[j] != message.ID

func storage.MemoryStorage.Insert(self, ctx, messages)(ins, upd, err)
  requires wfS(self) && self.internalCounter < 4611686018427387904 && len(messages) < 4611686018427387904
  requires forall j : int { messages[j] } :: 0 <= j && j < len(messages) ==> messages[j] != nil && allocated(messages[j]) && wfD(messages[j].Diagnostics)
  requires "the caller's messages are its own" forall q, i : string ; j : int { self.docs[key(q, i)], messages[j] } :: key(q, i) in self.docs && 0 <= j && j < len(messages) ==> self.docs[key(q, i)] != messages[j] && apart(self.docs[key(q, i)].Diagnostics, messages[j].Diagnostics)
  modifies *
  def c0 = self.internalCounter
  def l0 = len(self.docs)
  ensures [C15] "reported" err == nil ==> ins + upd == len(messages) && ins == self.internalCounter - c0 && len(self.docs) == l0 + ins
  ensures [C15] "an invalid one is refused" (err != nil) == (exists j : int { messages[j] } :: 0 <= j && j < len(messages) && (messages[j].Queue == "" || messages[j].ID == ""))
  ensures [C15] "stored" err == nil ==> (forall q, i : string { key(q, i) in self.docs } { self.docs[key(q, i)] } :: (key(q, i) in self.docs) == (old(key(q, i) in self.docs) || (exists j : int { messages[j] } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i)))
  ensures [C15] "the stored ones stay" err == nil ==> (forall q, i : string { self.docs[key(q, i)] } { key(q, i) in self.docs } :: old(key(q, i) in self.docs) ==> self.docs[key(q, i)] == old(self.docs[key(q, i)]))
  ensures [C15] "and keep score, counters, internal id and last usage" err == nil ==> (forall q, i : string { self.docs[key(q, i)] } :: old(key(q, i) in self.docs) ==> (let e = self.docs[key(q, i)] ; e.Score == old(e.Score) && e.InternalId == old(e.InternalId) && e.LastUsage == old(e.LastUsage) && e.Diagnostics == old(e.Diagnostics) && dA(e.Diagnostics) == old(dA(e.Diagnostics)) && dN(e.Diagnostics) == old(dN(e.Diagnostics)) && dCA(e.Diagnostics) == old(dCA(e.Diagnostics)) && dCN(e.Diagnostics) == old(dCN(e.Diagnostics)) && e.UsageCount == old(e.UsageCount) && e.TotalScoreSubtract == old(e.TotalScoreSubtract) && e.LastScoreSubtract == old(e.LastScoreSubtract) && e.LockMs == old(e.LockMs) && e.Breakpoint == old(e.Breakpoint) && e.ID == old(e.ID) && e.Queue == old(e.Queue) && e.QueuePrefix == old(e.QueuePrefix) && e.QueueSuffix == old(e.QueueSuffix)))
  ensures [C15] "those not given are unchanged" err == nil ==> (forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && !(exists j : int { messages[j] } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i) ==> (let e = self.docs[key(q, i)] ; e.Description == old(e.Description) && e.ExpiryDate == old(e.ExpiryDate) && e.StringPayload == old(e.StringPayload) && e.Metadata == old(e.Metadata) && e.Payload == old(e.Payload)))
  ensures [C15] "the given ones get the content last given" err == nil ==> (forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && (exists j : int { messages[j] } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i) ==> (let e = self.docs[key(q, i)] ; exists j : int { messages[j] } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i && (forall l : int { messages[l] } :: j < l && l < len(messages) ==> messages[l].Queue != q || messages[l].ID != i) && e.Description == messages[j].Description && e.ExpiryDate == messages[j].ExpiryDate && e.StringPayload == messages[j].StringPayload && e.Metadata == messages[j].Metadata && e.Payload == messages[j].Payload))
  ensures [C15] "new ones get a larger internal id" err == nil ==> (forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && !old(key(q, i) in self.docs) ==> as(self.docs[key(q, i)].InternalId, int64) > old(self.internalCounter) && self.docs[key(q, i)].LastUsage != nil)
  ensures [C15] "and start as given" err == nil ==> (forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && !old(key(q, i) in self.docs) ==> (let e = self.docs[key(q, i)] ; exists j : int { messages[j] } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i && (forall l : int { messages[l] } :: 0 <= l && l < j ==> messages[l].Queue != q || messages[l].ID != i) && e.Score == messages[j].Score && e.UsageCount == messages[j].UsageCount && e.TotalScoreSubtract == messages[j].TotalScoreSubtract && e.LastScoreSubtract == messages[j].LastScoreSubtract && e.LockMs == messages[j].LockMs && e.Breakpoint == messages[j].Breakpoint && e.QueuePrefix == messages[j].QueuePrefix && e.QueueSuffix == messages[j].QueueSuffix && e.Timeless == messages[j].Timeless && dA(e.Diagnostics) == dA(messages[j].Diagnostics) && dN(e.Diagnostics) == dN(messages[j].Diagnostics) && dCA(e.Diagnostics) == dCA(messages[j].Diagnostics) && dCN(e.Diagnostics) == dCN(messages[j].Diagnostics)))
  ensures [C15] "one that fails loses nothing" forall q, i : string { self.docs[key(q, i)] } :: old(key(q, i) in self.docs) ==> key(q, i) in self.docs && self.docs[key(q, i)] == old(self.docs[key(q, i)])
  ensures [C15,C16,C17,C18] "well-formed" wfS(self)
  loop 1 invariant wfS(self) && self.docs == old(self.docs) && self.lock == old(self.lock)
  loop 1 invariant self.internalCounter == c0 + inserted && len(self.docs) == l0 + inserted && inserted >= 0 && modified >= 0 && inserted + modified == iter && iter <= len(messages)
  loop 1 invariant forall j : int { messages[j] } :: 0 <= j && j < len(messages) ==> wfD(messages[j].Diagnostics) && messages[j].Queue == old(messages[j].Queue) && messages[j].ID == old(messages[j].ID)
  loop 1 invariant forall j : int { messages[j] } :: 0 <= j && j < iter ==> messages[j].Queue != "" && messages[j].ID != ""
  loop 1 invariant forall q, i : string ; j : int { self.docs[key(q, i)], messages[j] } :: key(q, i) in self.docs && 0 <= j && j < len(messages) ==> self.docs[key(q, i)] != messages[j] && apart(self.docs[key(q, i)].Diagnostics, messages[j].Diagnostics)
  loop 1 invariant [C15] forall q, i : string { key(q, i) in self.docs } { self.docs[key(q, i)] } :: (key(q, i) in self.docs) == (old(key(q, i) in self.docs) || (exists j : int { messages[j] } :: 0 <= j && j < iter && messages[j].Queue == q && messages[j].ID == i))
  loop 1 invariant [C15] forall q, i : string { self.docs[key(q, i)] } { key(q, i) in self.docs } :: old(key(q, i) in self.docs) ==> self.docs[key(q, i)] == old(self.docs[key(q, i)])
  loop 1 invariant [C15] forall q, i : string { self.docs[key(q, i)] } :: old(key(q, i) in self.docs) ==> (let e = self.docs[key(q, i)] ; e.Score == old(e.Score) && e.InternalId == old(e.InternalId) && e.LastUsage == old(e.LastUsage) && e.Diagnostics == old(e.Diagnostics) && dA(e.Diagnostics) == old(dA(e.Diagnostics)) && dN(e.Diagnostics) == old(dN(e.Diagnostics)) && dCA(e.Diagnostics) == old(dCA(e.Diagnostics)) && dCN(e.Diagnostics) == old(dCN(e.Diagnostics)) && e.UsageCount == old(e.UsageCount) && e.TotalScoreSubtract == old(e.TotalScoreSubtract) && e.LastScoreSubtract == old(e.LastScoreSubtract) && e.LockMs == old(e.LockMs) && e.Breakpoint == old(e.Breakpoint) && e.ID == old(e.ID) && e.Queue == old(e.Queue) && e.QueuePrefix == old(e.QueuePrefix) && e.QueueSuffix == old(e.QueueSuffix))
  loop 1 invariant [C15] forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && !(exists j : int { messages[j] } :: 0 <= j && j < iter && messages[j].Queue == q && messages[j].ID == i) ==> (let e = self.docs[key(q, i)] ; e.Description == old(e.Description) && e.ExpiryDate == old(e.ExpiryDate) && e.StringPayload == old(e.StringPayload) && e.Metadata == old(e.Metadata) && e.Payload == old(e.Payload))
  loop 1 invariant [C15] forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && (exists j : int { messages[j] } :: 0 <= j && j < iter && messages[j].Queue == q && messages[j].ID == i) ==> (let e = self.docs[key(q, i)] ; exists j : int { messages[j] } :: 0 <= j && j < iter && messages[j].Queue == q && messages[j].ID == i && (forall l : int { messages[l] } :: j < l && l < iter ==> messages[l].Queue != q || messages[l].ID != i) && e.Description == messages[j].Description && e.ExpiryDate == messages[j].ExpiryDate && e.StringPayload == messages[j].StringPayload && e.Metadata == messages[j].Metadata && e.Payload == messages[j].Payload)
  loop 1 invariant [C15] forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && !old(key(q, i) in self.docs) ==> as(self.docs[key(q, i)].InternalId, int64) > old(self.internalCounter) && self.docs[key(q, i)].LastUsage != nil
  loop 1 invariant [C15] forall q, i : string { self.docs[key(q, i)] } :: key(q, i) in self.docs && !old(key(q, i) in self.docs) ==> (let e = self.docs[key(q, i)] ; exists j : int { messages[j] } :: 0 <= j && j < iter && messages[j].Queue == q && messages[j].ID == i && (forall l : int { messages[l] } :: 0 <= l && l < j ==> messages[l].Queue != q || messages[l].ID != i) && e.Score == messages[j].Score && e.UsageCount == messages[j].UsageCount && e.TotalScoreSubtract == messages[j].TotalScoreSubtract && e.LastScoreSubtract == messages[j].LastScoreSubtract && e.LockMs == messages[j].LockMs && e.Breakpoint == messages[j].Breakpoint && e.QueuePrefix == messages[j].QueuePrefix && e.QueueSuffix == messages[j].QueueSuffix && e.Timeless == messages[j].Timeless && dA(e.Diagnostics) == dA(messages[j].Diagnostics) && dN(e.Diagnostics) == dN(messages[j].Diagnostics) && dCA(e.Diagnostics) == dCA(messages[j].Diagnostics) && dCN(e.Diagnostics) == dCN(messages[j].Diagnostics))

// ---- find and count (C16)
pure parseVal(s string) int
pure parseBad(s string) bool
extern [C16] strconv.ParseInt(s, base, bits)(n, err)
  requires base == 10 && bits == 64
  ensures n == parseVal(s)
  ensures (err != nil) == parseBad(s)
  ensures n >= -9223372036854775808 && n <= 9223372036854775807
// idIn: the id is one of the filter's
pure idIn(id string, f *storage.InternalFilter) bool
pure defIds(f *storage.InternalFilter) bool = f != nil && f.Ids != nil ==> (forall id : string { idIn(id, f) } :: idIn(id, f) == (exists j : int { (*f.Ids)[j] } :: 0 <= j && j < len(*f.Ids) && (*f.Ids)[j] == id))
pure matchIds(id string, f *storage.InternalFilter) bool = f.Ids == nil || len(*f.Ids) == 0 || idIn(id, f)
pure matchF(m *message.Message, f *storage.InternalFilter) bool = f == nil || (f.Queue == "" || m.Queue == f.Queue) && (f.QueuePrefix == "" || m.QueuePrefix == f.QueuePrefix) && matchIds(m.ID, f) && (f.InternalIdBreakpointGt == "" || as(m.InternalId, int64) > parseVal(f.InternalIdBreakpointGt)) && (f.InternalIdBreakpointLte == "" || as(m.InternalId, int64) <= parseVal(f.InternalIdBreakpointLte)) && (f.ExpiryDate == nil || ns(m.ExpiryDate) <= ns(*f.ExpiryDate))
pure readable(f *storage.InternalFilter) bool = f == nil || (f.InternalIdBreakpointGt == "" || !parseBad(f.InternalIdBreakpointGt)) && (f.InternalIdBreakpointLte == "" || !parseBad(f.InternalIdBreakpointLte))

func storage.matchesInternalFilter(message, filter)(r, err)
  prop [C16]
  requires message != nil && typeis(message.InternalId, int64)
  requires "idIn is what the filter lists" defIds(filter)
  ensures "selects what the filter says" err == nil ==> r == matchF(message, filter)
  ensures "fails only for an unreadable bound" err != nil ==> !readable(filter)
  ensures "an unreadable bound selects nothing" !readable(filter) ==> err != nil || !r
  loop 1 invariant iter <= len(*filter.Ids) && !contains && (forall j : int { (*filter.Ids)[j] } :: 0 <= j && j < iter ==> (*filter.Ids)[j] != message.ID)

// mm[m]: the message matches; card(S, V, P): how many keys k of S have P[V[k]]
ghost var mm array[*message.Message]bool
pure card(s array[ref]bool, v array[ref]*message.Message, p array[*message.Message]bool) int
axiom [C16] forall s : array[ref]bool ; v : array[ref]*message.Message ; p : array[*message.Message]bool ; k : ref { card(store(s, k, true), v, p) } :: card(store(s, k, true), v, p) == card(s, v, p) + (!s[k] && p[v[k]] ? 1 : 0)
axiom [C16] forall s : array[ref]bool ; v : array[ref]*message.Message ; p : array[*message.Message]bool { card(s, v, p) } :: card(s, v, p) >= 0 && ((forall k : ref { s[k] } :: !s[k]) ==> card(s, v, p) == 0)
axiom [C16] forall s, t : array[ref]bool ; v : array[ref]*message.Message ; p : array[*message.Message]bool { card(s, v, p), card(t, v, p) } :: (forall k : ref { s[k] } { t[k] } :: s[k] == t[k]) ==> card(s, v, p) == card(t, v, p)
func storage.MemoryStorage.Count(self, ctx, findOpts, countOpts)(n, err)
  requires wfS(self)
  requires "idIn is what the filter lists" findOpts != nil ==> defIds(findOpts.InternalFilter)
  requires "mm is the set of matching messages" forall m : *message.Message { mm[m] } :: m != nil && typeis(m.InternalId, int64) ==> mm[m] == (findOpts == nil || matchF(m, findOpts.InternalFilter))
  ensures [C16] "exactly the matching messages" err == nil ==> n == card(dom(self.docs), vals(self.docs), mm)
  loop 1 invariant count == card(visitedset(), vals(self.docs), mm) && count >= 0 && count <= iter
  loop 1 invariant forall k : ref { visitedset()[k] } :: visitedset()[k] ==> dom(self.docs)[k]

// -- the order asked for: sort key k of o is omKeyAt(o, k) of omSize(o), in direction omDirAt(o, k)
pure omSize(o *orderedmap.OrderedMap) int
pure omKeyAt(o *orderedmap.OrderedMap, k int) string
pure omDirOf(o *orderedmap.OrderedMap, key string) int
extern [C16] orderedmap.OrderedMap.Keys(o)(l)
  modifies fresh([]string)
  ensures len(l) == omSize(o) && (forall i : int { l[i] } :: 0 <= i && i < len(l) ==> l[i] == omKeyAt(o, i))
extern [C16] orderedmap.OrderedMap.Get(o, k)(v, ok)
  ensures v == omDirOf(o, k)
pure c3(a int, b int) int = a < b ? -1 : (a == b ? 0 : 1)
pure f3(a float, b float) int = a < b ? -1 : (a > b ? 1 : 0)
pure byKey(key string, ea int, eb int, na bool, nb bool, ua int, ub int, sa float, sb float, ia int, ib int) int = key == "expiry_date" ? c3(ea, eb) : (key == "last_usage" ? (na || nb ? ((na ? 0 : 1) - (nb ? 0 : 1)) : c3(ua, ub)) : (key == "score" ? f3(sa, sb) : (key == "_id" ? c3(ia, ib) : 0)))
pure ltF(o *orderedmap.OrderedMap, k int, ea int, eb int, na bool, nb bool, ua int, ub int, sa float, sb float, ia int, ib int) bool
axiom [C16] forall o : *orderedmap.OrderedMap ; k, ea, eb : int ; na, nb : bool ; ua, ub : int ; sa, sb : float ; ia, ib : int { ltF(o, k, ea, eb, na, nb, ua, ub, sa, sb, ia, ib) } :: k >= omSize(o) ==> ltF(o, k, ea, eb, na, nb, ua, ub, sa, sb, ia, ib) == (ia < ib)
axiom [C16] forall o : *orderedmap.OrderedMap ; k, ea, eb : int ; na, nb : bool ; ua, ub : int ; sa, sb : float ; ia, ib : int { ltF(o, k, ea, eb, na, nb, ua, ub, sa, sb, ia, ib), omKeyAt(o, k) } :: 0 <= k && k < omSize(o) ==> ltF(o, k, ea, eb, na, nb, ua, ub, sa, sb, ia, ib) == (let c = byKey(omKeyAt(o, k), ea, eb, na, nb, ua, ub, sa, sb, ia, ib) ; c == 0 ? ltF(o, k + 1, ea, eb, na, nb, ua, ub, sa, sb, ia, ib) : (omDirOf(o, omKeyAt(o, k)) == -1 ? c > 0 : c < 0))
pure ltM(o *orderedmap.OrderedMap, k int, a *message.Message, b *message.Message) bool = ltF(o, k, ns(a.ExpiryDate), ns(b.ExpiryDate), a.LastUsage == nil, b.LastUsage == nil, a.LastUsage == nil ? 0 : ns(*a.LastUsage), b.LastUsage == nil ? 0 : ns(*b.LastUsage), a.Score, b.Score, as(a.InternalId, int64), as(b.InternalId, int64))
func storage.comesBefore(order, first, second)(r)
  prop [C16]
  requires order != nil && first != nil && second != nil && typeis(first.InternalId, int64) && typeis(second.InternalId, int64)
  ensures [C16] r == ltM(order, 0, first, second)
  loop 1 invariant iter <= omSize(order) && ltM(order, iter, first, second) == ltM(order, 0, first, second)

pure sameM(m *message.Message, d *message.Message) bool = m.Score == d.Score && m.UsageCount == d.UsageCount && m.TotalScoreSubtract == d.TotalScoreSubtract && m.LastScoreSubtract == d.LastScoreSubtract && m.LockMs == d.LockMs && m.Breakpoint == d.Breakpoint && m.QueuePrefix == d.QueuePrefix && m.QueueSuffix == d.QueueSuffix && m.Timeless == d.Timeless && m.ID == d.ID && m.Queue == d.Queue && m.InternalId == d.InternalId && m.Description == d.Description && m.ExpiryDate == d.ExpiryDate && m.StringPayload == d.StringPayload && m.Metadata == d.Metadata && m.Payload == d.Payload && m.LastUsage == d.LastUsage && dA(m.Diagnostics) == dA(d.Diagnostics) && dN(m.Diagnostics) == dN(d.Diagnostics) && dCA(m.Diagnostics) == dCA(d.Diagnostics) && dCN(m.Diagnostics) == dCN(d.Diagnostics)

func storage.copyMessage(value)(r)
  prop [C15,C16]
  requires value != nil && wfD(value.Diagnostics)
  modifies fresh(*message.MessageDiagnostics), fresh(*int64)
  ensures "a copy" sameM(r, value)
  ensures "with counters of its own" (r.Diagnostics == nil) == (value.Diagnostics == nil)
  ensures r.Diagnostics != nil ==> fresh(r.Diagnostics) && wfD(r.Diagnostics) && (r.Diagnostics.Acks == nil || fresh(r.Diagnostics.Acks)) && (r.Diagnostics.Nacks == nil || fresh(r.Diagnostics.Nacks)) && (r.Diagnostics.ConsecutiveAcks == nil || fresh(r.Diagnostics.ConsecutiveAcks)) && (r.Diagnostics.ConsecutiveNacks == nil || fresh(r.Diagnostics.ConsecutiveNacks))

func storage.MemoryStorage.Find(self, ctx, fo)(messages, err)
  requires wfS(self)
  requires "idIn is what the filter lists" fo != nil ==> defIds(fo.InternalFilter)
  modifies clk, reads, fresh(*message.MessageDiagnostics), fresh([]message.Message), fresh(*int64), fresh([]string)
  ensures [C16] "only stored, matching, unexpired messages, as stored" err == nil ==> (forall j : int { elt(messages, j) } :: 0 <= j && j < len(messages) ==> key(messages[j].Queue, messages[j].ID) in self.docs && sameM(messages[j], self.docs[key(messages[j].Queue, messages[j].ID)]) && (fo == nil || matchF(self.docs[key(messages[j].Queue, messages[j].ID)], fo.InternalFilter)) && ((fo != nil && fo.InternalFilter != nil && fo.InternalFilter.ExpiryDate != nil) || messages[j].Timeless || ns(messages[j].ExpiryDate) >= old(clk)))
  ensures [C16] "none twice" forall j, l : int { elt(messages, j), elt(messages, l) } :: 0 <= j && j < l && l < len(messages) ==> messages[j].Queue != messages[l].Queue || messages[j].ID != messages[l].ID
  ensures [C16] "all of them when no limit applies" err == nil && (fo == nil || fo.Limit <= 0 || len(messages) < fo.Limit) ==> (forall q, i : string { self.docs[key(q, i)] } { key(q, i) in self.docs } :: key(q, i) in self.docs && (fo == nil || matchF(self.docs[key(q, i)], fo.InternalFilter)) && ((fo != nil && fo.InternalFilter != nil && fo.InternalFilter.ExpiryDate != nil) || self.docs[key(q, i)].Timeless || ns(self.docs[key(q, i)].ExpiryDate) > clk) ==> (exists j : int { elt(messages, j) } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i))
  ensures [C16] "never more than the limit" err == nil && fo != nil && fo.Limit > 0 ==> len(messages) <= fo.Limit
  ensures [C16] "in the order asked for" err == nil && fo != nil && fo.Sort != nil ==> (forall j, l : int { elt(messages, j), elt(messages, l) } :: 0 <= j && j < l && l < len(messages) ==> !ltM(fo.Sort, 0, messages[l], messages[j]))
  ensures [C16] "the lowest first" err == nil && fo != nil && fo.Sort != nil ==> (forall q, i : string { self.docs[key(q, i)] } { key(q, i) in self.docs } :: key(q, i) in self.docs && (fo == nil || matchF(self.docs[key(q, i)], fo.InternalFilter)) && ((fo != nil && fo.InternalFilter != nil && fo.InternalFilter.ExpiryDate != nil) || self.docs[key(q, i)].Timeless || ns(self.docs[key(q, i)].ExpiryDate) > clk) && !(exists j : int { elt(messages, j) } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i) ==> (forall j : int { elt(messages, j) } :: 0 <= j && j < len(messages) ==> !ltM(fo.Sort, 0, self.docs[key(q, i)], messages[j])))
  loop 1 invariant clk >= old(clk)
  loop 1 invariant forall j : int { elt(messages, j) } :: 0 <= j && j < len(messages) ==> visited(key(messages[j].Queue, messages[j].ID)) && key(messages[j].Queue, messages[j].ID) in self.docs && sameM(messages[j], self.docs[key(messages[j].Queue, messages[j].ID)]) && (fo == nil || matchF(self.docs[key(messages[j].Queue, messages[j].ID)], fo.InternalFilter)) && ((fo != nil && fo.InternalFilter != nil && fo.InternalFilter.ExpiryDate != nil) || messages[j].Timeless || ns(messages[j].ExpiryDate) >= old(clk))
  loop 1 invariant forall q, i : string { self.docs[key(q, i)] } { visited(key(q, i)) } :: visited(key(q, i)) && key(q, i) in self.docs && (fo == nil || matchF(self.docs[key(q, i)], fo.InternalFilter)) && ((fo != nil && fo.InternalFilter != nil && fo.InternalFilter.ExpiryDate != nil) || self.docs[key(q, i)].Timeless || ns(self.docs[key(q, i)].ExpiryDate) > clk) ==> (exists j : int { elt(messages, j) } :: 0 <= j && j < len(messages) && messages[j].Queue == q && messages[j].ID == i)
  loop 1 invariant forall j, l : int { elt(messages, j), elt(messages, l) } :: 0 <= j && j < l && l < len(messages) ==> messages[j].Queue != messages[l].Queue || messages[j].ID != messages[l].ID
