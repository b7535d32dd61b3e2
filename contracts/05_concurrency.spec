// ---- channels, wait groups, shutdown (C32)
// chClosed[c]: channel c is closed, as far as this goroutine has seen: every
// receive or select may find channels closed by others meanwhile, and close()
// below records the ones closed here.
ghost var chClosed array[ref]bool
extern chan.close(c)
  requires [C32,C36] "only the shutdown channels are ever closed" c == shutdown.Started || c == shutdown.Finished
  requires [C32] "finished only after everything else" c == shutdown.Finished ==> gsDone && cwDone && ctxDone && bgDone
  modifies chClosed
  ensures chClosed == store(old(chClosed), c, true)

func shutdown.Ongoing()(r)
  modifies chClosed
  ensures r == chClosed[shutdown.Started]
  ensures forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]

// what has been done by the shutdown under way
ghost var gsDone bool
ghost var cwDone bool
ghost var ctxDone bool
ghost var bgDone bool
extern grpc.Server.GracefulStop(s)
  requires [C32] "marked as ongoing first" chClosed[shutdown.Started]
  modifies gsDone
  ensures gsDone

// wgN[w]: what this goroutine added to w; wgLast: the last group it added to
ghost var wgN array[ref]int
ghost var wgLast ref
extern sync.WaitGroup.Add(w, n)
  modifies wgN, wgLast, chClosed
  ensures wgN == store(old(wgN), w, old(wgN)[w] + n) && wgLast == w
  // a shutdown may have started meanwhile
  ensures forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]
extern sync.WaitGroup.Done(w)
  modifies wgN
  ensures wgN == store(old(wgN), w, old(wgN)[w] - 1)
extern sync.WaitGroup.Wait(w)
  requires [C32] "critical work is awaited once the server has stopped" w == shutdown.CriticalWaitGroup ==> chClosed[shutdown.Started] && gsDone
  requires [C32] "the rest is awaited once the running work is cancelled" w == shutdown.WaitGroup ==> ctxDone
  modifies cwDone, bgDone
  ensures cwDone == (old(cwDone) || w == shutdown.CriticalWaitGroup)
  ensures bgDone == (old(bgDone) || w == shutdown.WaitGroup)

extern dyn.context.CancelFunc()
  requires [C32] "running work is cancelled once critical work is done" chClosed[shutdown.Started] && gsDone && cwDone
  modifies ctxDone
  ensures ctxDone

func shutdown.PerformShutdown(ctx, cancel, server)
  requires cancel != nil && shutdown.CriticalWaitGroup != shutdown.WaitGroup
  requires shutdown.Started != shutdown.Finished && shutdown.Started != nil && shutdown.Finished != nil
  requires !cwDone && !ctxDone && !bgDone && gsDone == (server == nil)
  modifies chClosed, gsDone, cwDone, ctxDone, bgDone, dtrace.tracerProvider
  ensures [C32] "everything is done" chClosed[shutdown.Started] && gsDone && cwDone && ctxDone && bgDone && chClosed[shutdown.Finished]

// -- the scheduler of the housekeeping tasks
// wgWant: the wait group the task was given (a ghost parameter)
ghost var wgWant ref
extern time.After(d)(c)
  ensures c != nil
extern dyn.main.executeTask()(r)
  requires [C32] "work runs inside its wait group" wgLast == wgWant && wgN[wgWant] > 0
  requires [C32] "and starts only when no shutdown was ongoing after joining it" !chClosed[shutdown.Started]
  modifies chClosed
  ensures forall c : ref { chClosed[c] } { old(chClosed)[c] } :: old(chClosed)[c] ==> chClosed[c]

func main.scheduleTask(taskName, lock, taskWaitGroup, duration, fn)
  requires taskWaitGroup != nil && fn != nil && wgWant == taskWaitGroup && shutdown.Started != nil
  requires forall w : ref { wgN[w] } :: wgN[w] == 0
  modifies chClosed, wgN, wgLast, clk, reads
  ensures [C32] "ends only in a shutdown" chClosed[shutdown.Started]
  ensures [C32] "leaves no group open" forall w : ref { wgN[w] } :: wgN[w] == 0
  loop 1 invariant forall w : ref { wgN[w] } :: wgN[w] == 0

extern go.main.scheduleTask(taskName, lock, taskWaitGroup, duration, fn)
  requires [C32] "recovery is critical work" taskName == "recovery" ==> taskWaitGroup == shutdown.CriticalWaitGroup
  requires [C32] "every task is awaited" taskWaitGroup == shutdown.CriticalWaitGroup || taskWaitGroup == shutdown.WaitGroup

func main.startHouseKeeperJobs(pool)
  requires pool != nil
