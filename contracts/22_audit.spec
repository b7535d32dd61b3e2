// ---- internal/audit: from Store to the request sent (C36)
// entries handed to the sender through the channel
ghost var snN int
ghost var snChan array[int]ref
ghost var snId array[int]string
ghost var snQueue array[int]string
ghost var snPrefix array[int]string
ghost var snSuffix array[int]string
ghost var snSig array[int]string
ghost var snReason array[int]string
ghost var snBreak array[int]string
ghost var snLock array[int]int
ghost var snTime array[int]int
extern chan.send.audit.Entry(c, v)
  requires [C36] "to the open channel of the auditor" c != nil
  modifies snN, snChan, snId, snQueue, snPrefix, snSuffix, snSig, snReason, snBreak, snLock, snTime
  ensures snN == old(snN) + 1 && snChan == store(old(snChan), old(snN), c)
  ensures snId == store(old(snId), old(snN), v.ID) && snQueue == store(old(snQueue), old(snN), v.Queue) && snPrefix == store(old(snPrefix), old(snN), v.QueuePrefix) && snSuffix == store(old(snSuffix), old(snN), v.QueueSuffix)
  ensures snSig == store(old(snSig), old(snN), v.Signal) && snReason == store(old(snReason), old(snN), v.Reason) && snBreak == store(old(snBreak), old(snN), v.Breakpoint) && snLock == store(old(snLock), old(snN), v.LockMs) && snTime == store(old(snTime), old(snN), ns(v.Timestamp))

func audit.AuditorImpl.Store(a, ctx, e)
  requires a != nil && (a.enabled ==> a.entries != nil) && snN >= 0
  modifies clk, reads, snN, snChan, snId, snQueue, snPrefix, snSuffix, snSig, snReason, snBreak, snLock, snTime
  def n = snN
  ensures [C36] "disabled, nothing" !a.enabled ==> snN == n
  ensures [C36] "handed on once" a.enabled ==> snN == n + 1 && snChan[n] == a.entries
  ensures [C36] "unchanged" a.enabled ==> snId[n] == e.ID && snQueue[n] == e.Queue && snSig[n] == e.Signal && snReason[n] == e.Reason && snBreak[n] == e.Breakpoint && snLock[n] == e.LockMs
  ensures [C36] "with the queue's prefix and suffix" a.enabled ==> snPrefix[n] == qprefix(e.Queue) && (snSuffix[n] == qsuffix(e.Queue) || qsuffix(e.Queue) == "")
  ensures [C36] "and the time of storing" a.enabled ==> snTime[n] >= old(clk) && snTime[n] <= clk

// entries received by the sender
ghost var rcN int
ghost var rcId array[int]string
ghost var rcQueue array[int]string
ghost var rcSig array[int]string
ghost var rcReason array[int]string
ghost var rcEmpty bool
extern chan.recv.audit.Entry(c, v)
  modifies rcN, rcId, rcQueue, rcSig, rcReason, rcEmpty
  ensures rcN == old(rcN) + 1 && !rcEmpty && rcId == store(old(rcId), old(rcN), v.ID) && rcQueue == store(old(rcQueue), old(rcN), v.Queue) && rcSig == store(old(rcSig), old(rcN), v.Signal) && rcReason == store(old(rcReason), old(rcN), v.Reason)
extern chan.none.audit.Entry(c)
  modifies rcEmpty
  ensures rcEmpty

// entries encoded into the request under way, and requests
ghost var mjN int
ghost var mjId array[int]string
ghost var mjQueue array[int]string
ghost var mjSig array[int]string
ghost var mjReason array[int]string
ghost var blN int
ghost var blUpto int
extern json.Marshal(v)(b, err)
  requires [C36] "an entry is encoded" typeis(v, audit.Entry)
  modifies mjN, mjId, mjQueue, mjSig, mjReason
  ensures mjN == old(mjN) + 1 && mjId == store(old(mjId), old(mjN), as(v, audit.Entry).ID) && mjQueue == store(old(mjQueue), old(mjN), as(v, audit.Entry).Queue) && mjSig == store(old(mjSig), old(mjN), as(v, audit.Entry).Signal) && mjReason == store(old(mjReason), old(mjN), as(v, audit.Entry).Reason)
extern dyn.esapi.Bulk(body, o)(r, err)
  modifies blN, blUpto
  ensures blN == old(blN) + 1 && blUpto == mjN
  ensures err == nil ==> r != nil

pure asStored(i int, id string, q string, g string, r string, a array[int]string, b array[int]string, c array[int]string, d array[int]string) bool = a[i] == id && b[i] == q && c[i] == g && d[i] == r

func audit.AuditorImpl.send(a, ctx, entries)
  requires a != nil && a.api != nil && a.api.Bulk != nil
  modifies clk, reads, mjN, mjId, mjQueue, mjSig, mjReason, blN, blUpto
  def m = mjN
  ensures [C36] "nothing, no request" len(entries) == 0 ==> mjN == m && blN == old(blN) && blUpto == old(blUpto)
  ensures [C36] "every entry once" mjN == m + len(entries)
  ensures [C36] "in order" forall i : int { mjId[i] } :: m <= i && i < mjN ==> asStored(i, entries[i - m].ID, entries[i - m].Queue, entries[i - m].Signal, entries[i - m].Reason, mjId, mjQueue, mjSig, mjReason)
  ensures [C36] "in one request" len(entries) > 0 ==> blN == old(blN) + 1 && blUpto == mjN
  ensures [C36] "earlier entries kept" forall i : int { mjId[i] } { mjQueue[i] } { mjSig[i] } { mjReason[i] } :: i < m ==> asStored(i, old(mjId)[i], old(mjQueue)[i], old(mjSig)[i], old(mjReason)[i], mjId, mjQueue, mjSig, mjReason)
  loop 1 invariant [C36] mjN == m + iter && iter <= len(entries) && blN == old(blN)
  loop 1 invariant [C36] forall i : int { mjId[i] } :: m <= i && i < mjN ==> asStored(i, entries[i - m].ID, entries[i - m].Queue, entries[i - m].Signal, entries[i - m].Reason, mjId, mjQueue, mjSig, mjReason)
  loop 1 invariant [C36] forall i : int { mjId[i] } { mjQueue[i] } { mjSig[i] } { mjReason[i] } :: i < m ==> asStored(i, old(mjId)[i], old(mjQueue)[i], old(mjSig)[i], old(mjReason)[i], mjId, mjQueue, mjSig, mjReason)

ghost var doneCh ref
iface context.Context.Done(c)(r)
  ensures r == doneCh

func audit.AuditorImpl.StartSender(a, ctx)
  requires a != nil && a.waitGroup != nil && a.entries != nil && (a.enabled ==> a.api != nil && a.api.Bulk != nil)
  requires rcN == 0 && mjN == 0 && audit.maxEntriesSize > 0 && audit.maxEntriesSize <= 1000000
  requires forall w : ref { wgN[w] } :: wgN[w] == 0
  modifies a.senderStarted, chClosed, wgN, wgLast, clk, reads, rcN, rcId, rcQueue, rcSig, rcReason, rcEmpty, mjN, mjId, mjQueue, mjSig, mjReason, blN, blUpto
  ensures [C36] "ends only when cancelled" a.enabled ==> chClosed[doneCh]
  ensures [C36] "takes everything that was waiting" a.enabled ==> rcEmpty
  ensures [C36] "every entry taken was sent, once" mjN == rcN && (mjN > 0 ==> blUpto == mjN)
  ensures [C36] "as stored, in order" forall i : int { mjId[i] } :: 0 <= i && i < mjN ==> asStored(i, rcId[i], rcQueue[i], rcSig[i], rcReason[i], mjId, mjQueue, mjSig, mjReason)
  ensures [C32,C36] "leaves no group open" forall w : ref { wgN[w] } :: wgN[w] == 0
  loop 1 invariant [C36] rcN == mjN + len(entriesToSend) && mjN >= 0 && (mjN > 0 ==> blUpto == mjN)
  loop 1 invariant [C36] forall i : int { mjId[i] } :: 0 <= i && i < mjN ==> asStored(i, rcId[i], rcQueue[i], rcSig[i], rcReason[i], mjId, mjQueue, mjSig, mjReason)
  loop 1 invariant [C36] forall k : int { entriesToSend[k] } :: 0 <= k && k < len(entriesToSend) ==> entriesToSend[k].ID == rcId[mjN + k] && entriesToSend[k].Queue == rcQueue[mjN + k] && entriesToSend[k].Signal == rcSig[mjN + k] && entriesToSend[k].Reason == rcReason[mjN + k]
  loop 1 invariant [C36] fresh(entriesToSend)
  loop 2 invariant [C36] rcN == mjN + len(entriesToSend) && mjN >= 0 && (mjN > 0 ==> blUpto == mjN)
  loop 2 invariant [C36] forall i : int { mjId[i] } :: 0 <= i && i < mjN ==> asStored(i, rcId[i], rcQueue[i], rcSig[i], rcReason[i], mjId, mjQueue, mjSig, mjReason)
  loop 2 invariant [C36] forall k : int { entriesToSend[k] } :: 0 <= k && k < len(entriesToSend) ==> entriesToSend[k].ID == rcId[mjN + k] && entriesToSend[k].Queue == rcQueue[mjN + k] && entriesToSend[k].Signal == rcSig[mjN + k] && entriesToSend[k].Reason == rcReason[mjN + k]
  loop 2 invariant [C36] fresh(entriesToSend) && chClosed[doneCh]
