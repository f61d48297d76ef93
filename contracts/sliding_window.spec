package common/limiter/sliding_window

// ghost history: the slots in which requests were granted and how many in each; slots that had expired at time "at" may be forgotten
ghostfield SlidingWindowLimiter.slots : set[int]
ghostfield SlidingWindowLimiter.hist : fn[int]int
ghostfield SlidingWindowLimiter.at : int

def cur(l, t) := (t / l.smallWindow) * l.smallWindow
def start(l, t) := cur(l, t) - l.smallWindow * (l.smallWindows - 1)
def top(l) := if l.limit > 0 then l.limit else 0
def config(l) := l.smallWindow > 0 && l.smallWindows >= 1 && l.smallWindow * l.smallWindows == l.window && l.smallWindow * (l.smallWindows - 1) == l.window - l.smallWindow && 0 < l.window && l.window <= 9223372036854775807

monitor SlidingWindowLimiter(l) lock mutex guards counters, slots, hist, at
  modifies l.counters[*]
  moninv config(l) && l.counters != nil && finite(domof(l.counters)) && finite(l.slots)
  moninv[only expired slots are forgotten] forall k :: {domof(l.counters)[k]} {l.counters[k]} {l.slots[k]} {l.hist[k]} k >= start(l, l.at) ==> (k in l.counters <==> l.slots[k]) && (l.slots[k] ==> l.counters[k] == l.hist[k])
  moninv[counts] forall k :: {domof(l.counters)[k]} {l.counters[k]} k in l.counters ==> l.counters[k] >= 1 && k <= now
  moninv[never above the limit] msum(domof(l.counters), mapof(l.counters), start(l, l.at)) <= top(l)
  moninv l.at <= now

func NewSlidingWindowLimiter(limit, window, smallWindow) (l, err)
  property C17
  flag publishes
  requires smallWindow > 0 && window > 0
  allocates SlidingWindowLimiter, map[int64]int
  ghostset l.slots := constfn(false)
  ghostset l.at := now
  ensures[refused] (window % smallWindow != 0) <==> err != nil
  ensures err == nil ==> l != nil && fresh(l) && config(l) && l.limit == limit && l.window == window && l.smallWindow == smallWindow && l.counters != nil && fresh(l.counters) && len(l.counters) == 0
  ensures err != nil ==> l == nil

func SlidingWindowLimiter.TryAcquire(l) (r)
  property C17
  flag atomic
  requires l != nil
  let c := cur(l, now)
  let s := start(l, now)
  let n := msum(old(l.slots), old(l.hist), s)
  releaseset l.hist := if n < l.limit then old(l.hist)[c := (if old(l.slots)[c] then old(l.hist)[c] else 0) + 1] else old(l.hist)
  releaseset l.slots := if n < l.limit then old(l.slots)[c := true] else old(l.slots)
  releaseset l.at := now
  ensures[grant exactly below the limit] r <==> n < l.limit
  ensures[at most the limit in the window] r ==> msum(l.slots, l.hist, s) <= l.limit
  loop 0
    invariant[kept] forall k :: {domof(l.counters)[k]} {l.counters[k]} (k in l.counters <==> (dom0[k] && !(visited[k] && k < startSmallWindow))) && (k in l.counters ==> l.counters[k] == old(l.counters[k]))
    invariant[count] count == msum(visited, old(mapof(l.counters)), startSmallWindow)
    invariant 0 <= count && count <= top(l)
