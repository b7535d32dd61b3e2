// ---- internal/queue/cache/redis_cache.go: what the operations ask of Redis (C28)
// one run of a script: which script, on which keys, with which arguments, and what it answered
ghost var rsN int
ghost var rsCmd array[int]ref
ghost var rsScr array[int]ref
ghost var rsTot int            // arguments so far, all runs together
ghost var rsAll array[int]any
ghost var rsSum int            // sum of the numbers answered since the last partition
ghost var rsOut int            // strings answered so far
ghost var rsOutS array[int]string
pure rsNK(c ref) int
pure rsKey(c ref, i int) string
pure rsNA(c ref) int
pure cmInt(c ref) int
pure cmIntErr(c ref) error
pure cmErr(c ref) error
pure cmVal(c ref) any
pure cmLen(c ref) int
pure cmElt(c ref, i int) any
pure sprintany(x any) string
extern redis.Script.Run(s, ctx, client, keys, args)(cmd)
  requires [C28] "what the scripts may unpack (Lua)" len(args) <= 7990
  requires [C28] "a script" s != nil
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS
  ensures fresh(cmd) && cmd != nil && rsN == old(rsN) + 1 && rsCmd == store(old(rsCmd), old(rsN), ref(cmd)) && rsScr == store(old(rsScr), old(rsN), ref(s))
  ensures rsNK(ref(cmd)) == len(keys) && (forall i : int { rsKey(ref(cmd), i) } { keys[i] } :: 0 <= i && i < len(keys) ==> rsKey(ref(cmd), i) == keys[i])
  ensures cmErr(ref(cmd)) == bErr(ref(addr(cmd.baseCmd)))
  ensures rsNA(ref(cmd)) == len(args) && rsTot == old(rsTot) + len(args)
  ensures forall i : int { args[i] } :: 0 <= i && i < len(args) ==> rsAll[old(rsTot) + i] == args[i]
  ensures forall i : int { rsAll[i] } :: old(rsTot) <= i && i < rsTot ==> rsAll[i] == args[i - old(rsTot)]
  ensures forall i : int { rsAll[i] } { old(rsAll)[i] } :: i < old(rsTot) ==> rsAll[i] == old(rsAll)[i]
  ensures rsSum == wrap64(old(rsSum) + cmInt(ref(cmd)))
  ensures cmLen(ref(cmd)) >= 0 && rsOut == old(rsOut) + cmLen(ref(cmd))
  ensures forall i : int { rsOutS[i] } :: old(rsOut) <= i && i < rsOut ==> rsOutS[i] == sprintany(cmElt(ref(cmd), i - old(rsOut)))
  ensures forall i : int { cmElt(ref(cmd), i) } :: 0 <= i && i < cmLen(ref(cmd)) ==> rsOutS[old(rsOut) + i] == sprintany(cmElt(ref(cmd), i))
  ensures forall i : int { rsOutS[i] } { old(rsOutS)[i] } :: i < old(rsOut) ==> rsOutS[i] == old(rsOutS)[i]
// the answer: an error, a list, or something else (no element then)
extern redis.Cmd.Int64(c)(v, err)
  ensures v == cmInt(ref(c)) && err == cmIntErr(ref(c))
pure bErr(b ref) error
extern redis.baseCmd.Err(b)(err)
  ensures err == bErr(ref(b))
extern redis.Cmd.Val(c)(v)
  ensures v == cmVal(ref(c))
extern redis.Cmd.Result(c)(v, err)
  ensures v == cmVal(ref(c)) && err == cmErr(ref(c))
  ensures typeis(v, []any) ==> (let l = as(v, []any) ; len(l) == cmLen(ref(c)) && (forall i : int { l[i] } :: 0 <= i && i < len(l) ==> l[i] == cmElt(ref(c), i)))
  ensures !typeis(v, []any) ==> cmLen(ref(c)) == 0

// the ranges of a partition, received one by one
ghost var gpCh ref
ghost var gpLow int
ghost var gpN int
ghost var gpK int
extern gopart.Partition(n, k)(c)
  modifies gpCh, gpLow, gpN, gpK, rsSum
  ensures fresh(c) && c != nil && gpCh == ref(c) && gpLow == 0 && gpN == (k > 0 ? n : 0) && gpK == k && rsSum == 0
extern chan.recv2.gopart.IdxRange(c, v, ok)
  requires [C28] "the partition just made" ref(c) == gpCh
  modifies gpLow
  ensures ok == (gpN > old(gpLow))
  ensures ok ==> v.Low == old(gpLow) && v.High == min(gpN, old(gpLow) + gpK) && gpLow == v.High
  ensures !ok ==> gpLow == old(gpLow)

func cache.resultToIds(v)(r)
  modifies nothing
  ensures [C28] "a list, element by element" typeis(v, []any) ==> r != nil && len(r) == len(as(v, []any)) && (forall i : int { r[i] } :: 0 <= i && i < len(r) ==> r[i] == sprintany(as(v, []any)[i]))
  ensures [C28] "anything else is none" !typeis(v, []any) ==> r == nil
  loop 1 invariant len(ids) == len(keys) && fresh(ids) && off(ids) == 0 && iter <= len(keys)
  loop 1 invariant forall i : int { ids[i] } :: 0 <= i && i < iter ==> ids[i] == sprintany(keys[i])

func cache.parseResult(cmd)(r, err)
  requires cmd != nil
  modifies nothing
  ensures [C28] "an error is reported" cmErr(ref(cmd)) != nil ==> err != nil
  ensures [C28] "an empty answer is none" cmErr(ref(cmd)) == nil && cmVal(ref(cmd)) == boxof("", string) ==> err == nil
  ensures [C28] "a list is answered" cmErr(ref(cmd)) == nil && typeis(cmVal(ref(cmd)), []any) ==> err == nil
  ensures [C28] "as it was answered" err == nil ==> len(r) == cmLen(ref(cmd)) && (forall i : int { r[i] } { cmElt(ref(cmd), i) } :: 0 <= i && i < len(r) ==> r[i] == sprintany(cmElt(ref(cmd), i)))

// -- the operations
pure isRun(c *cache.RedisCache, op string, s ref) bool = s == ref(c.scripts[op])
pure hasKey(c ref, k string) bool = rsKey(c, 0) == k || rsKey(c, 1) == k || rsKey(c, 2) == k || rsKey(c, 3) == k || rsKey(c, 4) == k || rsKey(c, 5) == k
pure scriptsOf(c *cache.RedisCache) bool = c.scripts["remove"] != nil && c.scripts["pull"] != nil && c.scripts["move"] != nil && c.scripts["lock"] != nil && c.scripts["add"] != nil && c.scripts["move_primary_pool"] != nil && c.scripts["unlock_elements"] != nil

func cache.RedisCache.Remove(c, ctx, q, ids)(removed, err)
  requires scriptsOf(c)
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, gpCh, gpLow, gpN, gpK, clk, reads
  def n0 = rsN
  def t0 = rsTot
  ensures [C28] "refused without a trace" !noBrace(q) ==> err != nil && removed == 0 && rsN == n0
  ensures [C28] "the removal script on every pool of the queue" rsN >= n0 && (forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> isRun(c, "remove", rsScr[n]) && rsNK(rsCmd[n]) == 6 && hasKey(rsCmd[n], rkey(c, q)) && hasKey(rsCmd[n], rkey(c, q) + ":tmp") && hasKey(rsCmd[n], rkey(c, q) + ":lock_ack") && hasKey(rsCmd[n], rkey(c, q) + ":lock_nack") && hasKey(rsCmd[n], rkey(c, q) + ":lock_ack:score") && hasKey(rsCmd[n], rkey(c, q) + ":lock_nack:score"))
  ensures [C28] "every id once, in order" err == nil ==> rsTot == t0 + len(ids) && (forall i : int { ids[i] } { rsAll[t0 + i] } :: 0 <= i && i < len(ids) ==> rsAll[t0 + i] == boxof(ids[i], string))
  ensures [C28] "no other id" rsTot <= t0 + len(ids) && (forall i : int { rsAll[i] } :: t0 <= i && i < rsTot ==> rsAll[i] == boxof(ids[i - t0], string))
  ensures [C28] "counts every removal" noBrace(q) ==> removed == rsSum
  ensures [C28] "a failure is reported" err == nil ==> (forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> cmIntErr(rsCmd[n]) == nil)
  loop 1 invariant len(idList) == len(ids) && fresh(idList) && off(idList) == 0 && iter <= len(ids) && rsN == n0 && rsTot == t0
  loop 1 invariant forall i : int { idList[i] } :: 0 <= i && i < iter ==> idList[i] == boxof(ids[i], string)
  loop 2 invariant gpN == len(ids) && gpK > 0 && 0 <= gpLow && gpLow <= gpN && len(idList) == len(ids) && rsN >= n0 && rsTot == t0 + gpLow && total == rsSum
  loop 2 invariant forall i : int { idList[i] } :: 0 <= i && i < len(ids) ==> idList[i] == boxof(ids[i], string)
  loop 2 invariant forall i : int { rsAll[i] } :: t0 <= i && i < rsTot ==> rsAll[i] == boxof(ids[i - t0], string)
  loop 2 invariant forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> cmIntErr(rsCmd[n]) == nil
  loop 2 invariant forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> isRun(c, "remove", rsScr[n]) && rsNK(rsCmd[n]) == 6 && hasKey(rsCmd[n], rkey(c, q)) && hasKey(rsCmd[n], rkey(c, q) + ":tmp") && hasKey(rsCmd[n], rkey(c, q) + ":lock_ack") && hasKey(rsCmd[n], rkey(c, q) + ":lock_nack") && hasKey(rsCmd[n], rkey(c, q) + ":lock_ack:score") && hasKey(rsCmd[n], rkey(c, q) + ":lock_nack:score")

func cache.RedisCache.MakeAvailable(c, ctx, m)(ok, err)
  requires scriptsOf(c) && m != nil
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, clk, reads
  def n0 = rsN
  def t0 = rsTot
  def q = m.Queue
  def refused = m.Queue == "" || !noBrace(m.Queue)
  ensures [C28] "refused without a trace" refused ==> err != nil && !ok && rsN == n0
  ensures [C28] "moves from processing to available" !refused ==> rsN == n0 + 1 && isRun(c, "move", rsScr[n0]) && rsNK(rsCmd[n0]) == 2 && rsKey(rsCmd[n0], 0) == rkey(c, q) && rsKey(rsCmd[n0], 1) == rkey(c, q) + ":tmp"
  ensures [C28] "that message with its score" !refused ==> rsTot == t0 + 2 && rsAll[t0] == boxof(old(m.Score), float) && rsAll[t0 + 1] == boxof(old(m.ID), string)
  ensures [C28] "failure reported" !refused ==> (err == nil) == (cmErr(rsCmd[n0]) == nil)
  ensures [C28] "the answer decoded" !refused && err == nil ==> ok == (typeis(cmVal(rsCmd[n0]), int64) && as(cmVal(rsCmd[n0]), int64) == 1)

func cache.RedisCache.LockMessage(c, ctx, m, lt)(ok, err)
  requires scriptsOf(c) && m != nil
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, clk, reads
  def n0 = rsN
  def t0 = rsTot
  def q = m.Queue
  def lo = clk
  def refused = m.Queue == "" || !noBrace(m.Queue) || m.LockMs <= 0
  ensures [C28] "refused without a trace" refused ==> err != nil && !ok && rsN == n0
  ensures [C28] "moves from processing to the lock pool" !refused ==> rsN == n0 + 1 && isRun(c, "lock", rsScr[n0]) && rsNK(rsCmd[n0]) == 3 && rsKey(rsCmd[n0], 0) == rkey(c, q) + ":tmp" && rsKey(rsCmd[n0], 1) == rkey(c, q) + ":" + lt && rsKey(rsCmd[n0], 2) == rkey(c, q) + ":" + lt + ":score"
  ensures [C28] "that message with its score" !refused ==> rsTot == t0 + 3 && rsAll[t0 + 1] == boxof(old(m.ID), string) && rsAll[t0 + 2] == boxof(old(m.Score), float)
  ensures [C28] "until the lock ends, in milliseconds" !refused && old(m.LockMs) < 4611686018427387904 ==> (let a = as(rsAll[t0], int64) ; typeis(rsAll[t0], int64) && tdiv(lo, 1000000) + old(m.LockMs) <= a && a <= tdiv(clk, 1000000) + old(m.LockMs))
  ensures [C28] "failure reported" !refused ==> (err == nil) == (cmErr(rsCmd[n0]) == nil)
  ensures [C28] "the answer decoded" !refused && err == nil ==> ok == (typeis(cmVal(rsCmd[n0]), int64) && as(cmVal(rsCmd[n0]), int64) == 1)

pure redisDecoded(ids []string, cmd ref) bool = len(ids) == cmLen(cmd) && (forall i : int { ids[i] } { cmElt(cmd, i) } :: 0 <= i && i < len(ids) ==> ids[i] == sprintany(cmElt(cmd, i)))

func cache.RedisCache.UnlockMessages(c, ctx, q, lt)(ids, err)
  requires scriptsOf(c)
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, clk, reads
  def n0 = rsN
  def t0 = rsTot
  def lo = clk
  ensures [C28] "refused without a trace" !noBrace(q) ==> err != nil && rsN == n0
  ensures [C28] "moves from the lock pool to available" noBrace(q) ==> rsN == n0 + 1 && isRun(c, "unlock_elements", rsScr[n0]) && rsNK(rsCmd[n0]) == 3 && rsKey(rsCmd[n0], 0) == rkey(c, q) + ":" + lt && rsKey(rsCmd[n0], 1) == rkey(c, q) && rsKey(rsCmd[n0], 2) == rkey(c, q) + ":" + lt + ":score"
  ensures [C28] "those whose lock has ended" noBrace(q) ==> rsTot == t0 + 3 && typeis(rsAll[t0], int) && as(rsAll[t0], int) > 0 && typeis(rsAll[t0 + 1], int64) && tdiv(lo, 1000000) <= as(rsAll[t0 + 1], int64) && as(rsAll[t0 + 1], int64) <= tdiv(clk, 1000000)
  ensures [C28] "the default score: lowest, or the time for an ack" noBrace(q) ==> typeis(rsAll[t0 + 2], float) && (lt == "lock_ack" ? real(tdiv(lo, 1000000)) <= as(rsAll[t0 + 2], float) && as(rsAll[t0 + 2], float) <= real(tdiv(clk, 1000000)) : as(rsAll[t0 + 2], float) == 0.0)
  ensures [C28] "failure reported" noBrace(q) && cmErr(rsCmd[n0]) != nil ==> err != nil
  ensures [C28] "a list is answered" noBrace(q) && cmErr(rsCmd[n0]) == nil && (cmVal(rsCmd[n0]) == boxof("", string) || typeis(cmVal(rsCmd[n0]), []any)) ==> err == nil
  ensures [C28] "the answer decoded" noBrace(q) && err == nil ==> redisDecoded(ids, rsCmd[n0])

func cache.RedisCache.TimeoutMessages(c, ctx, q)(ids, err)
  requires scriptsOf(c)
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, clk, reads
  def n0 = rsN
  def t0 = rsTot
  def lo = clk
  ensures [C28] "refused without a trace" !noBrace(q) ==> err != nil && rsN == n0
  ensures [C28] "moves from processing to available" noBrace(q) ==> rsN == n0 + 1 && isRun(c, "move_primary_pool", rsScr[n0]) && rsNK(rsCmd[n0]) == 2 && rsKey(rsCmd[n0], 0) == rkey(c, q) && rsKey(rsCmd[n0], 1) == rkey(c, q) + ":tmp"
  ensures [C28] "those past their deadline, with the lowest score" noBrace(q) ==> rsTot == t0 + 3 && typeis(rsAll[t0], int64) && tdiv(lo, 1000000) <= as(rsAll[t0], int64) && as(rsAll[t0], int64) <= tdiv(clk, 1000000) && typeis(rsAll[t0 + 1], float) && as(rsAll[t0 + 1], float) == 0.0 && typeis(rsAll[t0 + 2], int) && as(rsAll[t0 + 2], int) > 0
  ensures [C28] "failure reported" noBrace(q) && cmErr(rsCmd[n0]) != nil ==> err != nil
  ensures [C28] "a list is answered" noBrace(q) && cmErr(rsCmd[n0]) == nil && (cmVal(rsCmd[n0]) == boxof("", string) || typeis(cmVal(rsCmd[n0]), []any)) ==> err == nil
  ensures [C28] "the answer decoded" noBrace(q) && err == nil ==> redisDecoded(ids, rsCmd[n0])

func cache.RedisCache.PullMessages(c, ctx, q, n, minScore, maxScore, ack)(ids, err)
  requires scriptsOf(c) && cache.DefaultTimeoutMs == 300000
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, clk, reads
  def n0 = rsN
  def t0 = rsTot
  def lo = clk
  def wait = ack == 0 ? 300000 : ack
  ensures [C28] "refused without a trace" !noBrace(q) ==> err != nil && rsN == n0
  ensures [C28] "moves from available to processing" noBrace(q) ==> rsN == n0 + 1 && isRun(c, "pull", rsScr[n0]) && rsNK(rsCmd[n0]) == 2 && rsKey(rsCmd[n0], 0) == rkey(c, q) && rsKey(rsCmd[n0], 1) == rkey(c, q) + ":tmp"
  ensures [C28] "the number asked for" noBrace(q) ==> rsTot == t0 + 4 && rsAll[t0] == boxof(n, int64)
  ensures [C28] "until the deadline, in milliseconds; five minutes when none is given" noBrace(q) && 0 <= ack && ack < 4611686018427387904 ==> typeis(rsAll[t0 + 1], int64) && tdiv(lo, 1000000) + wait <= as(rsAll[t0 + 1], int64) && as(rsAll[t0 + 1], int64) <= tdiv(clk, 1000000) + wait
  ensures [C28] "from the lowest score" noBrace(q) ==> rsAll[t0 + 2] == (minScore == nil ? boxof("-inf", string) : boxof(old(*minScore), float))
  ensures [C28] "to the highest score" noBrace(q) ==> rsAll[t0 + 3] == (maxScore == nil ? boxof("+inf", string) : boxof(old(*maxScore), float))
  ensures [C28] "failure reported" noBrace(q) && cmErr(rsCmd[n0]) != nil ==> err != nil
  ensures [C28] "a list is answered" noBrace(q) && cmErr(rsCmd[n0]) == nil && (cmVal(rsCmd[n0]) == boxof("", string) || typeis(cmVal(rsCmd[n0]), []any)) ==> err == nil
  ensures [C28] "the answer decoded" noBrace(q) && err == nil ==> redisDecoded(ids, rsCmd[n0])

func cache.RedisCache.Insert(c, ctx, q, ms)(ids, err)
  requires scriptsOf(c) && (forall i : int { ms[i] } :: 0 <= i && i < len(ms) ==> ms[i] != nil)
  modifies rsN, rsCmd, rsScr, rsTot, rsAll, rsSum, rsOut, rsOutS, gpCh, gpLow, gpN, gpK, clk, reads
  def n0 = rsN
  def t0 = rsTot
  def o0 = rsOut
  ensures [C28] "refused without a trace" !noBrace(q) ==> err != nil && rsN == n0
  ensures [C28] "a message of another queue refuses all" forall i : int { ms[i] } :: 0 <= i && i < len(ms) && ms[i].Queue != q ==> err != nil && rsN == n0
  ensures [C28] "the insertion script into the available pool, looking in every pool" rsN >= n0 && (forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> isRun(c, "add", rsScr[n]) && rsNK(rsCmd[n]) == 4 && rsKey(rsCmd[n], 0) == rkey(c, q) && hasKey4(rsCmd[n], rkey(c, q) + ":tmp") && hasKey4(rsCmd[n], rkey(c, q) + ":lock_ack") && hasKey4(rsCmd[n], rkey(c, q) + ":lock_nack"))
  ensures [C28] "every message once, in order" err == nil ==> rsTot == t0 + 2 * len(ms)
  ensures [C28] "its score and its id" rsTot <= t0 + 2 * len(ms) && (forall i : int { ms[i] } :: 0 <= i && i < len(ms) && t0 + 2 * i < rsTot ==> rsAll[t0 + 2 * i] == boxof(ms[i].Score, float) && rsAll[t0 + 2 * i + 1] == boxof(ms[i].ID, string))
  ensures [C28] "a failure is reported" err == nil ==> (forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> cmErr(rsCmd[n]) == nil)
  ensures [C28] "what was inserted, as answered" err == nil ==> len(ids) == rsOut - o0 && (forall i : int { ids[i] } { rsOutS[o0 + i] } :: 0 <= i && i < len(ids) ==> ids[i] == rsOutS[o0 + i])
  loop 1 invariant iter <= len(ms) && rsN == n0 && rsTot == t0 && rsOut == o0
  loop 1 invariant forall i : int { ms[i] } :: 0 <= i && i < iter ==> ms[i].Queue == q
  loop 2 invariant gpN == len(ms) && gpK > 0 && 0 <= gpLow && gpLow <= gpN && rsN >= n0 && rsTot == t0 + 2 * gpLow && rsOut >= o0
  loop 2 invariant fresh(insertions) && off(insertions) == 0 && len(insertions) == rsOut - o0
  loop 2 invariant forall i : int { insertions[i] } { rsOutS[o0 + i] } :: 0 <= i && i < len(insertions) ==> insertions[i] == rsOutS[o0 + i]
  loop 2 invariant forall i : int { ms[i] } :: 0 <= i && i < gpLow ==> rsAll[t0 + 2 * i] == boxof(ms[i].Score, float) && rsAll[t0 + 2 * i + 1] == boxof(ms[i].ID, string)
  loop 2 invariant forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> cmErr(rsCmd[n]) == nil
  loop 2 invariant forall n : int { rsCmd[n] } :: n0 <= n && n < rsN ==> isRun(c, "add", rsScr[n]) && rsNK(rsCmd[n]) == 4 && rsKey(rsCmd[n], 0) == rkey(c, q) && hasKey4(rsCmd[n], rkey(c, q) + ":tmp") && hasKey4(rsCmd[n], rkey(c, q) + ":lock_ack") && hasKey4(rsCmd[n], rkey(c, q) + ":lock_nack")
  loop 3 invariant iter <= len(partition) && len(args) == 2 * len(partition) && fresh(args) && off(args) == 0 && index == 2 * iter
  loop 3 invariant forall i : int { partition[i] } :: 0 <= i && i < iter ==> args[2 * i] == boxof(partition[i].Score, float) && args[2 * i + 1] == boxof(partition[i].ID, string)
pure hasKey4(c ref, k string) bool = rsKey(c, 1) == k || rsKey(c, 2) == k || rsKey(c, 3) == k

// one lookup of a score
ghost var zsN int
ghost var zsKey string
ghost var zsId string
ghost var zsErr error
iface cache.RedisClient.ZScore(recv, ctx, key, member)(cmd)
  modifies zsN, zsKey, zsId, zsErr
  ensures cmd != nil && zsN == old(zsN) + 1 && zsKey == key && zsId == member && zsErr == bErr(ref(addr(cmd.baseCmd)))
func cache.RedisCache.containsElement(c, ctx, k, id)(ok, err)
  requires c.Client != nil
  modifies zsN, zsKey, zsId, zsErr
  ensures [C28] "looks up that member of that pool" zsN == old(zsN) + 1 && zsKey == k && zsId == id
  ensures [C28] "there when the lookup finds it" ok == (zsErr == nil)
func cache.RedisCache.IsProcessing(c, ctx, q, id)(ok, err)
  requires c.Client != nil
  modifies zsN, zsKey, zsId, zsErr, clk, reads
  ensures [C28] "refused without a trace" !noBrace(q) ==> err != nil && !ok && zsN == old(zsN)
  ensures [C28] "looks into the processing pool" noBrace(q) ==> zsN == old(zsN) + 1 && zsKey == rkey(c, q) + ":tmp" && zsId == id && ok == (zsErr == nil)

// -- the scripts are the ones their names say
pure scText(s ref) string
extern redis.NewScript(src)(s)
  ensures s != nil && fresh(s) && scText(ref(s)) == src
func cache.NewRedisCache(ctx)(c, err)
  modifies *
  ensures [C28] "every script at hand" err == nil ==> c != nil && scriptsOf(c)
  ensures [C28] "under its name" err == nil ==> scText(ref(c.scripts["remove"])) == cache.removeElementScript && scText(ref(c.scripts["pull"])) == cache.pullElementsScript && scText(ref(c.scripts["move"])) == cache.moveElementScript && scText(ref(c.scripts["lock"])) == cache.lockElementScript && scText(ref(c.scripts["add"])) == cache.addElementsScript && scText(ref(c.scripts["move_primary_pool"])) == cache.moveFilteredElementsScript && scText(ref(c.scripts["unlock_elements"])) == cache.unlockElementsScript
