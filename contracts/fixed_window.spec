package common/limiter/fixed_window

// counter is the number of requests granted since lastTime, the start of the current window
monitor FixedWindowLimiter(l) lock mutex guards counter, lastTime
  moninv[never above the limit] 0 <= l.counter && l.counter <= (if l.limit > 0 then l.limit else 0)
  moninv l.lastTime <= now

func NewFixedWindowLimiter(limit, window) (l)
  property C15
  flag publishes
  allocates FixedWindowLimiter
  ensures fresh(l) && l.limit == limit && l.window == window && l.counter == 0 && l.lastTime == now

func FixedWindowLimiter.TryAcquire(l) (r)
  property C15
  flag atomic
  requires l != nil
  let over := clampdur(now - old(l.lastTime)) > l.window
  let n := if over then 0 else old(l.counter)
  ensures[grant exactly below the limit] r <==> n < l.limit
  ensures[count] l.counter == (if r then n + 1 else n)
  ensures[window] l.lastTime == (if over then now else old(l.lastTime))
