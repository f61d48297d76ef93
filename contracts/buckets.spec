package common/limiter/leaky_bucket

monitor LeakyBucketLimiter(l) lock mutex guards currentLevel, lastTime
  moninv[level] 0 <= l.currentLevel && l.currentLevel <= (if l.peakLevel > 0 then l.peakLevel else 0)
  moninv l.lastTime <= now

func NewLeakyBucketLimiter(peakLevel, currentVelocity) (l)
  property C16
  flag publishes
  allocates LeakyBucketLimiter
  ensures fresh(l) && l.peakLevel == peakLevel && l.currentVelocity == currentVelocity && l.currentLevel == 0 && l.lastTime == now

func LeakyBucketLimiter.TryAcquire(l) (r)
  property C16
  flag atomic
  requires l != nil && 0 <= l.currentVelocity && l.currentVelocity <= 268435456
  let gap := clampdur(now - old(l.lastTime))
  let drained := old(l.currentLevel) - (gap / 1000000000) * l.currentVelocity
  let level := if gap < 1000000000 then old(l.currentLevel) else if drained > 0 then drained else 0
  ensures[grant exactly under the peak] r <==> level < l.peakLevel
  ensures[level] l.currentLevel == (if r then level + 1 else level)
  ensures[last drain] l.lastTime == (if gap < 1000000000 then old(l.lastTime) else now)

package common/limiter/token_bucket

monitor TokenBucketLimiter(l) lock mutex guards currentTokens, lastTime
  moninv[tokens] 0 <= l.currentTokens && l.currentTokens <= l.capacity
  moninv l.lastTime <= now

func NewTokenBucketLimiter(capacity, rate) (l)
  property C16
  flag publishes
  requires capacity >= 0
  allocates TokenBucketLimiter
  ensures fresh(l) && l.capacity == capacity && l.rate == rate && l.currentTokens == 0 && l.lastTime == now

func TokenBucketLimiter.TryAcquire(l) (r)
  property C16
  flag atomic
  requires l != nil && 0 <= l.rate && l.rate <= 268435456 && l.capacity <= 4611686018427387904
  let gap := clampdur(now - old(l.lastTime))
  let filled := old(l.currentTokens) + (gap / 1000000000) * l.rate
  let tokens := if gap < 1000000000 then old(l.currentTokens) else if filled < l.capacity then filled else l.capacity
  ensures[grant exactly with a token] r <==> tokens > 0
  ensures[tokens] l.currentTokens == (if r then tokens - 1 else tokens)
  ensures[last refill] l.lastTime == (if gap < 1000000000 then old(l.lastTime) else now)
