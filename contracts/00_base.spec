// Clock: every reading of the process clock is some instant not before the
// previous reading (ghost clk: the last instant read, in nanoseconds).
ghost var clk int
ghost var reads int

pure ns(t time.Time) int = t
pure tdiv(a int, b int) int = a >= 0 ? a / b : -((-a) / b)
// instants whose nanosecond count fits 64 bits: the ones Time.UnixNano defines
pure okNs(n int) bool = n >= -9223372036854775808 && n <= 9223372036854775807

// the replaceable provider behind dtime.Now (time.Now unless a test mocks it)
extern dyn.dtime.Now() (t)
  modifies clk, reads
  ensures clk == ns(t)
  ensures reads == old(reads) + 1
  ensures clk >= old(clk) && clk >= 0 && clk < 9000000000000000000

func dtime.Now() (t)
  modifies clk, reads
  ensures clk == ns(t)
  ensures reads == old(reads) + 1
  ensures clk >= old(clk) && clk >= 0 && clk < 9000000000000000000
