// ---- internal/dtime (C05)
func dtime.TimeToMs(t) (ms)
  ensures [C05] "whole milliseconds since the epoch" okNs(ns(*t)) ==> ms == tdiv(ns(*t), 1000000)
  ensures okNs(ns(*t)) ==> ms == tdiv(ns(*t), 1000000)

func dtime.MsToTime(msInt) (t)
  ensures [C05] "exactly that millisecond" ns(t) == msInt * 1000000
  ensures ns(t) == msInt * 1000000

func dtime.MsPrecision(t) (r)
  ensures [C05] "changes less than a millisecond" okNs(ns(*t)) ==> ns(r) - ns(*t) < 1000000 && ns(*t) - ns(r) < 1000000
  ensures [C05] "is a whole number of milliseconds" okNs(ns(*t)) ==> ns(r) == 1000000 * tdiv(ns(*t), 1000000)

func dtime.NowMs() (ms)
  modifies clk, reads
  ensures [C05] "now in whole milliseconds" ms == clk / 1000000
  ensures ms == clk / 1000000 && ms >= 0
  ensures reads == old(reads) + 1
  ensures clk >= old(clk) && clk >= 0 && clk < 9000000000000000000

// the round trip and idempotence, over the contracts above
lemma roundtrip: [C05] forall m : int64 :: okNs(m * 1000000) ==> tdiv(m * 1000000, 1000000) == m
lemma idempotent: [C05] forall n : int :: okNs(n) ==> okNs(1000000 * tdiv(n, 1000000)) && 1000000 * tdiv(1000000 * tdiv(n, 1000000), 1000000) == 1000000 * tdiv(n, 1000000)

// ---- internal/queue/score (C01, C02)
pure MAXS() float = 9007199254740992.0
pure legal(s float) bool = 0.0 <= s && s <= MAXS()
pure clampS(s float) float = s < 0.0 ? 0.0 : (s > MAXS() ? MAXS() : s)

func score.GetScoreByDefaultAlgorithm() (s)
  modifies clk, reads
  ensures [C01,C03,C12] "now in milliseconds" s == real(clk / 1000000)
  ensures s == real(clk / 1000000) && s >= 0.0
  ensures reads == old(reads) + 1
  ensures clk >= old(clk) && clk >= 0 && clk < 9000000000000000000

func score.GetAddScore(r) (s)
  modifies clk, reads
  ensures [C01,C03] "legal" legal(s)
  ensures [C01,C03] "kept" r != 0.0 && legal(r) ==> s == r
  ensures [C01,C03] "below" r < 0.0 ==> s == 0.0
  ensures [C01,C03] "above" r > MAXS() && !isnan(r) ==> s == MAXS()
  ensures [C01,C03] "default" r == 0.0 ==> s == real(clk / 1000000)
  ensures clk >= old(clk) && (clk == old(clk) || clk >= 0 && clk < 9000000000000000000)

func score.GetPullMinScore(s) (p)
  ensures [C02] "no filter" s == 0.0 ==> p == nil
  ensures [C02] "clamped" s != 0.0 ==> p != nil && (!isnan(s) ==> *p == clampS(s)) && legal(*p)
  modifies nothing

func score.GetPullMaxScore(s) (p)
  ensures [C02] "no filter" s == 0.0 ==> p == nil
  ensures [C02] "clamped" s != 0.0 ==> p != nil && (!isnan(s) ==> *p == clampS(s)) && legal(*p)
  modifies nothing

func score.IsUndefined(s) (b)
  ensures b == (s == -1.0)

// ---- message (C04)
pure SEP() string = "::"
pure qprefix(q string) string = contains(q, SEP()) ? substr(q, 0, indexof(q, SEP())) : q
pure qsuffix(q string) string = contains(q, SEP()) ? substr(q, indexof(q, SEP()) + 2, len(q) - indexof(q, SEP()) - 2) : ""

func message.GetQueueParts(queue) (prefix, suffix)
  opt strings
  ensures [C04] "prefix" prefix == qprefix(queue)
  ensures [C04] "suffix" suffix == qsuffix(queue)
  ensures [C07,C36] prefix == qprefix(queue) && suffix == qsuffix(queue)
  ensures [C04] "rejoined" contains(queue, SEP()) ==> prefix ++ SEP() ++ suffix == queue
  ensures [C04] "first occurrence" contains(queue, SEP()) ==> !contains(prefix ++ ":", SEP())

func message.Message.GetQueueParts(q) (prefix, suffix)
  opt strings
  ensures [C04] "prefix" prefix == qprefix(q.Queue)
  ensures [C04] "suffix" suffix == qsuffix(q.Queue)

func message.GetQueuePrefix(queue) (prefix)
  opt strings
  ensures [C04] "prefix" prefix == qprefix(queue)
