// ---- internal/queue/cache/redis_cache.go: names of the Redis keys (C27)
pure rpfx(k string) string = k == "" ? "deckard_v1" : k
pure noBrace(q string) bool = !contains(q, "{") && !contains(q, "}")
pure rkey(c *cache.RedisCache, q string) string = rpfx(c.keyPrefix) + ":queue:" + "{" + q + "}"

func cache.RedisCache.configuredPrefix(c)(r)
  modifies nothing
  ensures [C27,C28] "the configured prefix or the default" r == rpfx(c.keyPrefix)
func cache.RedisCache.fullPrefix(c)(r)
  modifies nothing
  ensures r == rpfx(c.keyPrefix)
func cache.RedisCache.poolPrefix(c)(r)
  modifies nothing
  ensures [C27,C28] "pool prefix" r == rpfx(c.keyPrefix) + ":queue:"
func cache.RedisCache.generalCacheKey(c, k)(r)
  modifies nothing
  ensures [C27,C28] "key of an entry that is no pool" r == rpfx(c.keyPrefix) + ":{" + k + "}"
func cache.RedisCache.activePool(c, q)(r)
  modifies nothing
  ensures [C27,C28] "active pool" r == rkey(c, q)
func cache.RedisCache.processingPool(c, q)(r)
  modifies nothing
  ensures [C27,C28] "processing pool" r == rkey(c, q) + ":tmp"
func cache.RedisCache.lockPool(c, q, t)(r)
  modifies nothing
  ensures [C27,C28] "lock pool" r == rkey(c, q) + ":" + t
func cache.RedisCache.lockPoolScore(c, q, t)(r)
  modifies nothing
  ensures [C27,C28] "scores of a lock pool" r == rkey(c, q) + ":" + t + ":score"
func cache.RedisCache.validateQueueName(c, q)(err)
  modifies nothing
  ensures [C27,C28] "refuses names that break the slot tag" (err == nil) == noBrace(q)

// the keys of different queues and pools differ, whatever the names
pure pk(p string, q string, x string) string = p + ":queue:{" + q + "}" + x
pure suffix(x string) bool = x == "" || x == ":tmp" || x == ":lock_ack" || x == ":lock_nack" || x == ":lock_ack:score" || x == ":lock_nack:score"
lemma distinct: [C27] forall p, q, r, x, y : string :: noBrace(q) && noBrace(r) && suffix(x) && suffix(y) && pk(p, q, x) == pk(p, r, y) ==> q == r && x == y
lemma nopool: [C27] forall p, q, x, k : string :: pk(p, q, x) != p + ":{" + k + "}"
// Redis hashes what stands between the first opening brace and the next closing one
pure after(k string) string = substr(k, indexof(k, "{") + 1, len(k) - indexof(k, "{") - 1)
pure slottag(k string) string = substr(after(k), 0, indexof(after(k), "}"))
lemma owntag: [C27] forall p, q, x : string :: noBrace(p) && noBrace(q) ==> slottag(pk(p, q, x)) == q
lemma oneslot: [C27] forall b, x : string :: contains(b, "{") && contains(after(b), "}") ==> slottag(b + x) == slottag(b)

// -- the name recovered from a key
pure repat(r *regexp.Regexp) string // text of a compiled pattern
pure striponce(suf string, s string, r string) bool = (suffixof("}" + suf, s) ==> r == substr(s, 0, len(s) - len(suf))) && (!suffixof(suf, s) ==> r == s)
extern regexp.Regexp.ReplaceAllString(re, s, repl)(r)
  ensures repl == "$1" && repat(re) == "(.+):tmp$" ==> striponce(":tmp", s, r)
  ensures repl == "$1" && repat(re) == "(.+):lock_ack$" ==> striponce(":lock_ack", s, r)
  ensures repl == "$1" && repat(re) == "(.+):lock_nack$" ==> striponce(":lock_nack", s, r)

func cache.unwrapClusterHashTag(s)(r)
  opt strings
  modifies nothing
  ensures [C27] "takes the tag off" forall q : string { "{" + q + "}" } :: s == "{" + q + "}" ==> r == q

func cache.RedisCache.parseQueueKey(c, k, re)(r)
  opt strings
  modifies nothing
  def p = rpfx(c.keyPrefix)
  ensures [C27] "the name the active key was made of" re == nil ==> forall q : string { pk(p, q, "") } :: k == pk(p, q, "") ==> r == q
  ensures [C27] "the name the processing key was made of" re != nil && repat(re) == "(.+):tmp$" ==> forall q : string { pk(p, q, ":tmp") } :: k == pk(p, q, ":tmp") ==> r == q
  ensures [C27] "the name the ack lock key was made of" re != nil && repat(re) == "(.+):lock_ack$" ==> forall q : string { pk(p, q, ":lock_ack") } :: k == pk(p, q, ":lock_ack") ==> r == q
  ensures [C27] "the name the nack lock key was made of" re != nil && repat(re) == "(.+):lock_nack$" ==> forall q : string { pk(p, q, ":lock_nack") } :: k == pk(p, q, ":lock_nack") ==> r == q

// -- listing
pure poolsuf(s string) bool = suffixof(":tmp", s) || suffixof(":lock_ack", s) || suffixof(":lock_nack", s) || suffixof(":lock_ack:score", s) || suffixof(":lock_nack:score", s)
func cache.uniqStrings(v)(r)
  modifies nothing
  ensures fresh(r) && off(r) == 0
  ensures [C27] "every value kept" forall i : int { v[i] } :: 0 <= i && i < len(v) ==> exists j : int { r[j] } :: 0 <= j && j < len(r) && r[j] == v[i]
  ensures [C27] "nothing added" forall j : int { r[j] } :: 0 <= j && j < len(r) ==> exists i : int { v[i] } :: 0 <= i && i < len(v) && v[i] == r[j]
  ensures [C27] "once" forall i, j : int { r[i], r[j] } :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j]
  loop 1 invariant iter <= len(v) && fresh(result) && off(result) == 0
  loop 1 invariant forall j : int { result[j] } :: 0 <= j && j < len(result) ==> result[j] in seen
  loop 1 invariant forall s : string { s in seen } :: s in seen ==> exists j : int { result[j] } :: 0 <= j && j < len(result) && result[j] == s
  loop 1 invariant forall s : string { s in seen } :: s in seen ==> exists i : int { v[i] } :: 0 <= i && i < iter && v[i] == s
  loop 1 invariant forall i : int { v[i] } :: 0 <= i && i < iter ==> v[i] in seen
  loop 1 invariant forall i, j : int { result[i], result[j] } :: 0 <= i && i < j && j < len(result) ==> result[i] != result[j]

func cache.filterQueueSuffix(v)(r)
  modifies nothing
  ensures fresh(r) && off(r) == 0
  ensures [C27] "keeps what is no other pool" forall i : int { suffixof(":tmp", v[i]) } :: 0 <= i && i < len(v) && !poolsuf(v[i]) ==> exists j : int { r[j] } :: 0 <= j && j < len(r) && r[j] == v[i]
  ensures [C27] "drops what is" forall j : int { r[j] } :: 0 <= j && j < len(r) ==> !poolsuf(r[j])
  ensures [C27] "nothing added" forall j : int { r[j] } :: 0 <= j && j < len(r) ==> exists i : int { v[i] } :: 0 <= i && i < len(v) && v[i] == r[j]
  loop 1 invariant iter <= len(v) && fresh(result) && off(result) == 0
  loop 1 invariant forall i : int { suffixof(":tmp", v[i]) } :: 0 <= i && i < iter && !poolsuf(v[i]) ==> exists j : int { result[j] } :: 0 <= j && j < len(result) && result[j] == v[i]
  loop 1 invariant forall j : int { result[j] } :: 0 <= j && j < len(result) ==> !poolsuf(result[j])
  loop 1 invariant forall j : int { result[j] } :: 0 <= j && j < len(result) ==> exists i : int { v[i] } :: 0 <= i && i < iter && v[i] == result[j]

// one SCAN call: which keys it returned and where to go on
ghost var scN int
ghost var scCmd array[int]ref
ghost var scCur array[int]int
ghost var scPat array[int]string
pure skLen(c ref) int
pure skKey(c ref, i int) string
pure skNext(c ref) int
pure skErr(c ref) error
// every key returned matches the pattern: Redis
pure globm(pat string, k string) bool
iface redis.Cmdable.Scan(recv, ctx, cursor, match, count)(cmd)
  modifies scN, scCmd, scCur, scPat
  ensures cmd != nil && scN == old(scN) + 1 && scCmd == store(old(scCmd), old(scN), ref(cmd)) && scCur == store(old(scCur), old(scN), cursor) && scPat == store(old(scPat), old(scN), match)
  ensures forall i : int { skKey(ref(cmd), i) } :: 0 <= i && i < skLen(ref(cmd)) ==> globm(match, skKey(ref(cmd), i))
extern redis.ScanCmd.Result(cmd)(ks, cur, err)
  ensures err == skErr(ref(cmd)) && cur == skNext(ref(cmd)) && len(ks) == skLen(ref(cmd))
  ensures forall i : int { ks[i] } { skKey(ref(cmd), i) } :: 0 <= i && i < len(ks) ==> ks[i] == skKey(ref(cmd), i)

func cache.scanKeys(ctx, client, pattern)(r, err)
  requires client != nil
  modifies scN, scCmd, scCur, scPat
  ensures err == nil ==> fresh(r) && off(r) == 0
  ensures scN > old(scN)
  ensures [C27] "asked for the pattern" forall n : int { scPat[n] } :: old(scN) <= n && n < scN ==> scPat[n] == pattern
  ensures [C27] "the whole iteration" scCur[old(scN)] == 0 && (err == nil ==> skNext(scCmd[scN - 1]) == 0) && (forall n : int { scCur[n] } :: old(scN) < n && n < scN ==> scCur[n] == skNext(scCmd[n - 1]))
  ensures [C27] "failure reported" err == nil ==> (forall n : int { scCmd[n] } :: old(scN) <= n && n < scN ==> skErr(scCmd[n]) == nil)
  ensures [C27] "every key of every page" err == nil ==> (forall n, i : int { skKey(scCmd[n], i) } :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) ==> exists j : int { r[j] } :: 0 <= j && j < len(r) && r[j] == skKey(scCmd[n], i))
  ensures [C27] "nothing else" err == nil ==> (forall j : int { r[j] } :: 0 <= j && j < len(r) ==> exists n, i : int :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) && r[j] == skKey(scCmd[n], i))
  ensures [C27] forall n, i : int { skKey(scCmd[n], i) } :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) ==> globm(pattern, skKey(scCmd[n], i))
  loop 1 invariant fresh(keys) && off(keys) == 0 && scN >= old(scN) && (scN == old(scN) ==> cursor == 0 && len(keys) == 0)
  loop 1 invariant scN > old(scN) ==> scCur[old(scN)] == 0 && cursor == skNext(scCmd[scN - 1])
  loop 1 invariant forall n : int { scPat[n] } :: old(scN) <= n && n < scN ==> scPat[n] == pattern
  loop 1 invariant forall n : int { scCur[n] } :: old(scN) < n && n < scN ==> scCur[n] == skNext(scCmd[n - 1])
  loop 1 invariant forall n : int { scCmd[n] } :: old(scN) <= n && n < scN ==> skErr(scCmd[n]) == nil
  loop 1 invariant forall n, i : int { skKey(scCmd[n], i) } :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) ==> exists j : int { keys[j] } :: 0 <= j && j < len(keys) && keys[j] == skKey(scCmd[n], i)
  loop 1 invariant forall j : int { keys[j] } :: 0 <= j && j < len(keys) ==> exists n, i : int :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) && keys[j] == skKey(scCmd[n], i)
  loop 1 invariant forall n, i : int { skKey(scCmd[n], i) } :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) ==> globm(pattern, skKey(scCmd[n], i))

pure anypool(t string) bool = t == "primary_pool" || t == "processing_pool" || t == "lock_ack_pool" || t == "lock_nack_pool"
// the key of a queue in the pool of a type (a definition)
pure K(p string, q string, t string) string
axiom [C27] forall p, q, t : string { K(p, q, t) } :: (t == "primary_pool" ==> K(p, q, t) == pk(p, q, "")) && (t == "processing_pool" ==> K(p, q, t) == pk(p, q, ":tmp")) && (t == "lock_ack_pool" ==> K(p, q, t) == pk(p, q, ":lock_ack")) && (t == "lock_nack_pool" ==> K(p, q, t) == pk(p, q, ":lock_nack"))
lemma activekept: [C27] forall p, q : string { pk(p, q, "") } :: !poolsuf(pk(p, q, ""))
// a key matched by the pattern of all queues of a pool is a key of that pool (Redis)
pure mid(p string, t string, k string) string
axiom [C27] forall p, t, k : string { globm(K(p, "*", t), k) } :: anypool(t) && globm(K(p, "*", t), k) ==> k == K(p, mid(p, t, k), t)

// (one Redis node; a cluster is listed node by node with scanKeys too)
func cache.RedisCache.ListQueues(c, ctx, pattern, t)(r, err)
  requires anypool(t) && !c.clusterMode && c.Client != nil
  modifies scN, scCmd, scCur, scPat, clk, reads
  def p = rpfx(c.keyPrefix)
  ensures [C27] "looks for the keys of that pool" scN > old(scN) && (forall n : int { scPat[n] } :: old(scN) <= n && n < scN ==> scPat[n] == K(p, pattern, t))
  ensures [C27] "every queue with such a key is listed by its name" err == nil ==> (forall n, i : int; q : string { skKey(scCmd[n], i), K(p, q, t) } :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) && skKey(scCmd[n], i) == K(p, q, t) ==> exists j : int { r[j] } :: 0 <= j && j < len(r) && r[j] == q)
  ensures [C27] "nothing else" err == nil && pattern == "*" ==> (forall j : int { r[j] } :: 0 <= j && j < len(r) ==> exists n, i : int :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) && skKey(scCmd[n], i) == K(p, r[j], t))
  ensures [C27] "once" err == nil ==> (forall i, j : int { r[i], r[j] } :: 0 <= i && i < j && j < len(r) ==> r[i] != r[j])
  loop 1 invariant iter <= len(data) && fresh(data) && off(data) == 0
  loop 1 invariant forall n, i : int; q : string { skKey(scCmd[n], i), K(p, q, t) } :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) && skKey(scCmd[n], i) == K(p, q, t) ==> exists j : int { data[j] } :: 0 <= j && j < len(data) && data[j] == (j < iter ? q : K(p, q, t))
  loop 1 invariant pattern == "*" ==> forall j : int { data[j] } :: 0 <= j && j < len(data) ==> exists n, i : int :: old(scN) <= n && n < scN && 0 <= i && i < skLen(scCmd[n]) && skKey(scCmd[n], i) == (j < iter ? K(p, data[j], t) : data[j])

// -- a name that would break the tag is refused before its messages are stored
ghost var stN int
ghost var stMsg array[int]*message.Message
ghost var stLen int
ghost var stErr error
ghost var stIns int
ghost var stUpd int
iface storage.Storage.Insert(recv, ctx, messages)(ins, upd, err)
  modifies stN, stMsg, stLen, stErr, stIns, stUpd, message.Message.InternalId
  ensures stN == old(stN) + 1 && stLen == len(messages) && stErr == err && stIns == ins && stUpd == upd
  ensures forall i : int { stMsg[i] } { messages[i] } :: 0 <= i && i < len(messages) ==> stMsg[i] == messages[i]
iface cache.QueueNameValidator.ValidateQueueName(recv, q)(err)
  ensures typeis(recv, *cache.RedisCache) ==> (err == nil) == noBrace(q)
func cache.RedisCache.ValidateQueueName(c, q)(err)
  modifies nothing
  ensures [C27,C28] "refuses names that break the slot tag" (err == nil) == noBrace(q)

func queue.Queue.AddMessagesToStorage(pool, ctx, messages)(ins, upd, err)
  requires forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> messages[i] != nil
  modifies stN, stMsg, stLen, stErr, stIns, stUpd, message.Message.InternalId
  ensures [C27] "refused before anything is stored" forall i : int { messages[i] } :: 0 <= i && i < len(messages) && typeis(pool.cache, *cache.RedisCache) && !noBrace(messages[i].Queue) ==> err != nil && stN == old(stN)
  ensures [C27,C07] "or stored as given, once" stN == old(stN) ? err != nil : stN == old(stN) + 1 && stLen == len(messages) && err == stErr && ins == stIns && upd == stUpd && (forall i : int { messages[i] } :: 0 <= i && i < len(messages) ==> stMsg[i] == messages[i])
  ensures [C27,C07] "a cache that takes every name refuses none" typeis(pool.cache, *cache.MemoryCache) ==> stN == old(stN) + 1
  loop 1 invariant iter <= len(messages) && stN == old(stN)
  loop 1 invariant typeis(pool.cache, *cache.RedisCache) ==> forall q : string { q in queues } :: queues[q] ==> noBrace(q)
  loop 1 invariant typeis(pool.cache, *cache.RedisCache) ==> forall i : int { messages[i] } :: 0 <= i && i < iter ==> noBrace(messages[i].Queue)
