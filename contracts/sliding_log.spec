package common/limiter/sliding_log

// ghost history: the slots in which requests were granted and how many in each; slots that had expired at time "at" may be forgotten
ghostfield SlidingLogLimiter.slots : set[int]
ghostfield SlidingLogLimiter.hist : fn[int]int
ghostfield SlidingLogLimiter.at : int

def cur(l, t) := (t / l.smallWindow) * l.smallWindow
def start(l, i, t) := cur(l, t) - l.strategies[i].window + l.smallWindow
def top(l) := if l.strategies[0].limit > 0 then l.strategies[0].limit else 0
// rules: whole numbers of slots, smaller windows have smaller limits
def rule(l, i) := l.strategies[i] != nil && 0 < l.strategies[i].window && l.strategies[i].smallWindows >= 1 && l.smallWindow * l.strategies[i].smallWindows == l.strategies[i].window
def config(l) := l.smallWindow > 0 && len(l.strategies) >= 1 && (forall i :: {l.strategies[i]} 0 <= i && i < len(l.strategies) ==> rule(l, i)) && (forall i, j :: {l.strategies[i], l.strategies[j]} 0 <= i && i < j && j < len(l.strategies) ==> l.strategies[i].window >= l.strategies[j].window && l.strategies[i].limit > l.strategies[j].limit)

monitor SlidingLogLimiter(l) lock mutex guards counters, slots, hist, at
  modifies l.counters[*]
  moninv config(l) && l.counters != nil && finite(domof(l.counters)) && finite(l.slots)
  moninv[only expired slots are forgotten] forall k :: {domof(l.counters)[k]} {l.counters[k]} {l.slots[k]} {l.hist[k]} k >= start(l, 0, l.at) ==> (k in l.counters <==> l.slots[k]) && (l.slots[k] ==> l.counters[k] == l.hist[k])
  moninv[counts] forall k :: {domof(l.counters)[k]} {l.counters[k]} k in l.counters ==> l.counters[k] >= 1 && k <= now
  moninv[never above the largest limit] msum(domof(l.counters), mapof(l.counters), start(l, 0, l.at)) <= top(l)
  moninv l.at <= now

func NewSlidingLogLimiterStrategy(limit, window) (s)
  property C18
  allocates SlidingLogLimiterStrategy
  ensures s != nil && fresh(s) && s.limit == limit && s.window == window

// "strategies" below is the caller's slice
def multiple(s, w) := s.window % w == 0
func NewSlidingLogLimiter(smallWindow, strategies) (l, err)
  property C18
  flag publishes
  requires smallWindow > 0
  requires forall i :: {strategies[i]} 0 <= i && i < len(strategies) ==> allocated(strategies[i]) && strategies[i] != nil && 0 < strategies[i].window && strategies[i].window <= 9223372036854775807
  allocates SlidingLogLimiter, SlidingLogLimiterStrategy, []*SlidingLogLimiterStrategy, map[int64]int
  ghostset l.slots := constfn(false)
  ghostset l.at := now
  ensures[every given rule is kept] err == nil ==> l != nil && fresh(l) && l.smallWindow == smallWindow && len(l.strategies) == len(strategies) && (forall i :: {strategies[i]} 0 <= i && i < len(strategies) ==> (exists j :: {l.strategies[j]} 0 <= j && j < len(strategies) && l.strategies[j].limit == strategies[i].limit && l.strategies[j].window == strategies[i].window))
  ensures[no other rule is enforced] err == nil ==> (forall j :: {l.strategies[j]} 0 <= j && j < len(strategies) ==> fresh(l.strategies[j]) && (exists i :: {strategies[i]} 0 <= i && i < len(strategies) && l.strategies[j].limit == strategies[i].limit && l.strategies[j].window == strategies[i].window))
  ensures[valid rules only] err == nil ==> config(l)
  ensures[refused for a reason] err != nil ==> l == nil && (len(strategies) == 0 || (exists i :: {strategies[i]} 0 <= i && i < len(strategies) && !multiple(strategies[i], smallWindow)) || (exists i, j :: {strategies[i], strategies[j]} 0 <= i && i < len(strategies) && 0 <= j && j < len(strategies) && i != j && (strategies[i].window > strategies[j].window && strategies[i].limit <= strategies[j].limit || strategies[i].window == strategies[j].window && strategies[i].limit == strategies[j].limit)))
  loop 0
    invariant len(copied) == len(strategies) && fresh(copied)
    invariant forall i :: {copied[i]} 0 <= i && i < idx ==> copied[i] != nil && fresh(copied[i]) && copied[i].limit == strategies[i].limit && copied[i].window == strategies[i].window
    invariant forall i, j :: {copied[i], copied[j]} 0 <= i && i < j && j < idx ==> copied[i] != copied[j]
  loop 1
    invariant[positive] forall i :: {strategies[i]} 0 <= i && i < len(strategies) ==> strategies[i] != nil && 0 < strategies[i].window && strategies[i].window <= 9223372036854775807
    invariant[divided] forall i :: {strategies[i]} 0 <= i && i < idx ==> strategies[i].smallWindows >= 1 && smallWindow * strategies[i].smallWindows == strategies[i].window
    invariant[falling] forall i, j :: {strategies[i], strategies[j]} 0 <= i && i < j && j < idx ==> strategies[i].limit > strategies[j].limit

// a request is granted exactly when every rule has room in its own window
func SlidingLogLimiter.TryAcquire(l) (err)
  property C18
  flag atomic
  requires l != nil
  allocates []int64, []int, ViolationStrategyError
  let c := cur(l, now)
  let ok := forall i :: {l.strategies[i]} 0 <= i && i < len(l.strategies) ==> msum(old(l.slots), old(l.hist), start(l, i, now)) < l.strategies[i].limit
  releaseset l.hist := if ok then old(l.hist)[c := (if old(l.slots)[c] then old(l.hist)[c] else 0) + 1] else old(l.hist)
  releaseset l.slots := if ok then old(l.slots)[c := true] else old(l.slots)
  releaseset l.at := now
  ensures[granted exactly when every rule has room] err == nil <==> ok
  ensures[at most the limit in every window] err == nil ==> (forall i :: {l.strategies[i]} 0 <= i && i < len(l.strategies) ==> msum(l.slots, l.hist, start(l, i, now)) <= l.strategies[i].limit)
  ensures[the error names a full rule] err != nil ==> typeis(err, "*ViolationStrategyError") && (exists i :: {l.strategies[i]} 0 <= i && i < len(l.strategies) && msum(old(l.slots), old(l.hist), start(l, i, now)) >= l.strategies[i].limit && unboxas("*ViolationStrategyError", err).Limit == l.strategies[i].limit && unboxas("*ViolationStrategyError", err).Window == l.strategies[i].window)
  loop 0
    invariant len(startSmallWindows) == len(l.strategies) && fresh(startSmallWindows)
    invariant forall i :: {startSmallWindows[i]} 0 <= i && i < idx ==> startSmallWindows[i] == start(l, i, now)
  loop 1
    invariant len(counts) == len(l.strategies) && fresh(counts)
    invariant[kept] forall k :: {domof(l.counters)[k]} {l.counters[k]} (k in l.counters <==> (dom0[k] && !(visited[k] && k < start(l, 0, now)))) && (k in l.counters ==> l.counters[k] == old(l.counters[k]))
    invariant[counts] forall i :: {counts[i]} 0 <= i && i < len(counts) ==> counts[i] == msum(visited, old(mapof(l.counters)), startSmallWindows[i]) && 0 <= counts[i] && counts[i] <= top(l)
  loop 2
    invariant len(counts) == len(l.strategies) && fresh(counts)
    invariant[counts] forall i :: {counts[i]} 0 <= i && i < len(counts) ==> counts[i] == msum(visited, old(mapof(l.counters)), startSmallWindows[i]) - (if i >= idx && smallWindow >= startSmallWindows[i] then counter else 0) && 0 <= counts[i] && counts[i] <= top(l)
  loop 3
    invariant forall j :: {counts[j]} {l.strategies[j]} 0 <= j && j < idx ==> counts[j] < l.strategies[j].limit
