package common/timer/timingwheel
import list.spec
import heap.spec

callbacks func(*common/timer/timingwheel.Timer)()
callbacks func()()
ghostglobal handed : fn[int]int
ghostglobal spawned : fn[int]int
ghostglobal removals : int
ghostglobal ran : fn[int]int
// buckets taken from the queue, sent to and received by the wheel, and flushed; the last due time the wheel moved to
ghostglobal taken : fn[int]int
ghostglobal sent : fn[int]int
ghostglobal received : fn[int]int
ghostglobal flushes : fn[int]int
ghostglobal reached : int
chaninv *bucket b := b.expiration <= big()

immutable bucket.timers
// the bucket a timer is filed in; changed only under the lock of that bucket
volatile Timer.b heldby bucket

def inlist(l, e) := e != nil && e.list == l
// a bucket is a list of distinct timers that know where they are
monitor bucket(b) lock mutex guards timers
  modifies b.timers.root, b.timers.len, b.timers.seq, all common/container/list.Element[*Timer].next where e :: e.list == b.timers, all common/container/list.Element[*Timer].prev where e :: e.list == b.timers, all common/container/list.Element[*Timer].list where e :: e.list == b.timers, all common/container/list.Element[*Timer].pos where e :: e.list == b.timers, all Timer.b where t :: t.b != nil, all Timer.elem where t :: t.b != nil
  moninv ringwf(b.timers)
  monassume b.timers.len < 4611686018427387904
  moninv[each filed timer knows its place] forall i :: {b.timers.seq[i]} 1 <= i && i <= b.timers.len ==> b.timers.seq[i].Value != nil && allocated(b.timers.seq[i].Value) && cast("*bucket", b.timers.seq[i].Value.b) == b && b.timers.seq[i].Value.elem == b.timers.seq[i]
  moninv[filed timers are in the list] forall t: *Timer :: {t.b} allocated(t) && cast("*bucket", t.b) == b ==> t.elem != nil && allocated(t.elem) && t.elem.list == b.timers && t.elem.Value == t

func newBucket() (b)
  property C20
  flag publishes
  closed Timer.b
  allocates bucket, common/container/list.List[*Timer]
  ensures fresh(b) && b.expiration == 0 - 1 && b.timers.len == 0

func bucket.add(b, t)
  property C20
  flag atomic
  flag nonblocking
  requires b != nil && t != nil && t.b == nil
  modifies t.b, t.elem
  closed common/container/list.Element[*Timer].list, Timer.b
  allocates common/container/list.Element[*Timer]
  ensures[filed once] cast("*bucket", t.b) == b && t.elem != nil && t.elem.list == b.timers && t.elem.Value == t && b.timers.len == old(b.timers.len) + 1

func bucket.remove(b, t) (ok)
  property C20
  flag atomic
  flag nonblocking
  requires b != nil && t != nil
  modifies ghost removals
  ghostset removals := old(removals) + (if ok then 1 else 0)
  ensures removals == old(removals) + (if ok then 1 else 0)
  ensures[exactly when it was filed here] ok <==> old(cast("*bucket", t.b)) == b
  ensures[then it is out] ok ==> t.b == nil && t.elem == nil && b.timers.len == old(b.timers.len) - 1
  ensures[otherwise nothing] !ok ==> b.timers.len == old(b.timers.len) && b.timers.seq == old(b.timers.seq)

func Timer.Stop(t) (stop)
  property C20
  requires t != nil
  modifies ghost removals, t.b, all Timer.b where x :: x.b != nil
  allocates Timer
  ensures[success exactly when this call took it out] removals == old(removals) + (if stop then 1 else 0)
  ensures[in no bucket when it returns] t.b == nil
  loop 0
    invariant removals == old(removals) + (if stop then 1 else 0)
    invariant b == cast("*bucket", t.b) && (stop ==> t.b == nil)

func bucket.setExpiration(b, expiration) (changed)
  property C20
  requires b != nil
  modifies b.expiration
  ensures b.expiration == expiration && (changed <==> old(b.expiration) != expiration)

def flushed(b, t, p) := old(cast("*bucket", t.b)) == b && old(t.elem.pos) < p
func bucket.flush(b, addOrRun)
  property C20
  flag atomic
  requires b != nil && addOrRun != nil
  requires[the wheel has moved to the due time] reached == b.expiration
  closed Timer.b
  modifies b.expiration, ghost handed, ghost flushes
  ghostset flushes := old(flushes)[ref(b) := old(flushes)[ref(b)] + 1]
  ensures flushes == old(flushes)[ref(b) := old(flushes)[ref(b)] + 1]
  ensures[every filed timer handed over once] forall t: *Timer :: {handed[t]} handed[t] == old(handed)[t] + (if old(allocated(t) && cast("*bucket", t.b) == b) then 1 else 0)
  ensures[then the bucket is empty and unqueued] b.timers.len == 0 && b.expiration == 0 - 1 && (forall t: *Timer :: {t.b} old(allocated(t)) ==> cast("*bucket", t.b) != b)
  loop 0
    let p := if elem == nil then b.timers.len + 1 else elem.pos
    invariant elem != nil ==> elem.list == b.timers
    invariant[kept in step] forall t: *Timer :: {t.b} {t.elem} if allocated(t) && flushed(b, t, p) then cast("*bucket", t.b) != b else t.b == old(t.b) && t.elem == old(t.elem)
    invariant forall t: *Timer :: {handed[t]} handed[t] == old(handed)[t] + (if allocated(t) && flushed(b, t, p) then 1 else 0)
    decreases b.timers.len + 1 - p

// ---- the queue of buckets
ghostglobal pushes : fn[int]int
volatile delayQueue.sleeping

monitor delayQueue(q) lock mutex guards h
  modifies q.h.h, q.h.h[*]
  moninv heapinv(q.h)
  moninv forall x: *bucket :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) > 0 ==> x != nil && allocated(x)
  moninv forall k :: {q.h.h[k]} 0 <= k && k < len(q.h.h) ==> cnt(seqof(q.h.h), len(q.h.h), q.h.h[k]) >= 1

// trusted: the order compares the buckets' expiries, which do not change while a bucket is queued
trusted func common/timer/timingwheel.newDelayQueue() (q)
  allocates delayQueue, common/container/heap.Heap[*bucket], []*bucket
  ensures fresh(q) && heapinv(q.h) && len(q.h.h) == 0

func delayQueue.push(q, b)
  property C20
  flag atomic
  flag opaque
  flag nonblocking
  requires q != nil && b != nil
  modifies ghost pushes
  allocates []*bucket
  ghostset pushes := old(pushes)[ref(b) := old(pushes)[ref(b)] + 1]
  ensures[visible: counted] pushes == old(pushes)[ref(b) := old(pushes)[ref(b)] + 1]
  ensures[queued once] forall x: *bucket :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) == cnt(old(seqof(q.h.h)), old(len(q.h.h)), x) + (if x == b then 1 else 0)

func delayQueue.take(q, ctx, nowF) (b)
  property C20
  flag atomic
  flag opaque
  requires q != nil && ctx != nil && nowF != nil
  allocates time.Timer
  modifies ghost taken
  ghostset taken := if b == nil then old(taken) else old(taken)[ref(b) := old(taken)[ref(b)] + 1]
  ensures[visible: counted] taken == (if b == nil then old(taken) else old(taken)[ref(b) := old(taken)[ref(b)] + 1]) && allocated(b)
  ensures[visible: due] b != nil ==> app(nowF) >= b.expiration
  ensures[the first one, once] b != nil ==> old(len(q.h.h)) > 0 && b == old(q.h.h[0]) && (forall x: *bucket :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) + (if x == b then 1 else 0) == cnt(old(seqof(q.h.h)), old(len(q.h.h)), x))
  ensures[otherwise nothing] b == nil ==> (forall x: *bucket :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) == cnt(old(seqof(q.h.h)), old(len(q.h.h)), x))

func newDelayQueue$1(e1, e2) (b)
  property C20
  requires e1 != nil && e2 != nil
  ensures b <==> e1.expiration < e2.expiration

// ---- wheels: levels[0..depth) of the root, each one tick = one turn of the level below
ghostfield TimingWheel.root : *TimingWheel
ghostfield TimingWheel.lvl : int
ghostfield TimingWheel.levels : fn[int]*TimingWheel
ghostfield TimingWheel.depth : int
immutable TimingWheel.tick, TimingWheel.wheelSize, TimingWheel.interval, TimingWheel.queue, TimingWheel.buckets, Timer.task

def big() := 4611686018427387904
def own(w) := ref(w) >= 0 && base(w.buckets) >= 0 && w.tick >= 1 && 2 <= w.wheelSize && w.wheelSize <= 262144 && w.interval == w.tick * w.wheelSize && w.interval <= big() && 0 <= w.currentTime && w.currentTime <= big() && w.queue != nil && len(w.buckets) == w.wheelSize && allocated(w.buckets) && (forall i :: {w.buckets[i]} 0 <= i && i < w.wheelSize ==> w.buckets[i] != nil && ref(w.buckets[i]) >= 0 && allocated(w.buckets[i]))
def next(w) := cast("*TimingWheel", w.overflowWheel)
def link(w, o) := o.tick == w.interval && o.wheelSize == w.wheelSize && o.queue == w.queue && o.currentTime <= w.currentTime && w.currentTime < o.currentTime + o.tick
def level(r, k, w) := w != nil && allocated(w) && w.root == r && w.lvl == k && own(w)
def above(r, k, w) := (k + 1 < r.depth ==> next(w) == r.levels[k+1] && link(w, r.levels[k+1])) && (k + 1 == r.depth ==> w.overflowWheel == nil)
def chain(w) := w != nil && w.root != nil && ref(w.root) >= 0 && allocated(w.root) && w.root.levels[w.lvl] == w && 0 <= w.lvl && w.lvl < w.root.depth && (forall k :: {w.root.levels[k]} w.lvl <= k && k < w.root.depth ==> level(w.root, k, w.root.levels[k])) && (forall k :: {w.root.levels[k].overflowWheel} w.lvl <= k && k < w.root.depth ==> above(w.root, k, w.root.levels[k]))

func truncate(time, tick) (r)
  property C20
  requires 0 <= time && tick >= 1
  ensures r == time - time % tick && r % tick == 0 && 0 <= r && r <= time && time < r + tick

func newTimingWheel(tick, wheelSize, currentTime, queue) (tw)
  property C20
  requires tick >= 1 && 2 <= wheelSize && wheelSize <= 262144 && tick * wheelSize <= big() && 0 <= currentTime && currentTime <= big() && queue != nil
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer]
  ghostset tw.root := tw
  ghostset tw.lvl := 0
  ghostset tw.depth := 1
  ghostset tw.levels := lam i :: tw
  ensures fresh(tw) && chain(tw) && tw.root == tw && tw.depth == 1 && tw.lvl == 0
  ensures[as configured] tw.tick == tick && tw.wheelSize == wheelSize && tw.queue == queue && tw.currentTime == currentTime - currentTime % tick && tw.overflowWheel == nil
  ensures[one bucket per tick] forall i :: {tw.buckets[i]} 0 <= i && i < wheelSize ==> fresh(tw.buckets[i]) && tw.buckets[i].expiration == 0 - 1
  ensures forall i, j :: {tw.buckets[i], tw.buckets[j]} 0 <= i && i < j && j < wheelSize ==> tw.buckets[i] != tw.buckets[j]
  loop 0
    invariant 0 <= i && i <= wheelSize && fresh(tw) && fresh(tw.buckets)
    invariant forall k :: {tw.buckets[k]} 0 <= k && k < i ==> tw.buckets[k] != nil && fresh(tw.buckets[k]) && tw.buckets[k].expiration == 0 - 1
    invariant forall j, k :: {tw.buckets[j], tw.buckets[k]} 0 <= j && j < k && k < i ==> tw.buckets[j] != tw.buckets[k]

func New(tick, wheelSize) (tw)
  property C20
  requires tick >= 1 && 2 <= wheelSize && wheelSize <= 262144 && tick * wheelSize <= big()
  modifies ghost now
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer], delayQueue, common/container/heap.Heap[*bucket]
  ensures fresh(tw) && chain(tw) && tw.tick == tick && tw.wheelSize == wheelSize && tw.currentTime <= now / 1000000 && now / 1000000 < tw.currentTime + tick

func TimingWheel.setOverflowWheel(tw, currentTime)
  property C20
  requires chain(tw) && tw.lvl + 1 == tw.root.depth && currentTime == tw.currentTime && tw.interval * tw.wheelSize <= big()
  let r := tw.root
  let o := next(tw)
  modifies tw.overflowWheel, r.depth, r.levels
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer]
  ghostset o.root := r
  ghostset o.lvl := old(r.depth)
  ghostset r.depth := old(r.depth) + 1
  ghostset r.levels := old(r.levels)[old(r.depth) := o]
  ensures chain(tw) && r.depth == old(r.depth) + 1 && fresh(next(tw)) && r.levels == old(r.levels)[old(r.depth) := next(tw)]

// where a timer goes: the first level whose turn covers it, the bucket of its tick there
def fits(w, x) := w.currentTime + w.tick <= x && x < w.currentTime + w.interval
def slot(w, x) := w.buckets[(x / w.tick) % w.wheelSize]
def filedat(w, t) := fits(w, t.expiration) && cast("*bucket", t.b) == slot(w, t.expiration)
def filed(tw, t) := exists k :: {tw.root.levels[k]} tw.lvl <= k && k < tw.root.depth && filedat(tw.root.levels[k], t) && (k == tw.lvl || t.expiration >= tw.currentTime + tw.interval) && cast("*bucket", t.b).expiration == t.expiration - t.expiration % tw.root.levels[k].tick

func TimingWheel.add(tw, t) (ok)
  property C20
  requires chain(tw) && t != nil && t.b == nil && t.expiration * tw.wheelSize <= big()
  let r := tw.root
  modifies t.b, t.elem, all Timer.b where x :: x.b != nil, all bucket.expiration, all TimingWheel.overflowWheel where w :: w.root == tw.root && w.lvl >= tw.lvl, r.depth, r.levels, ghost pushes
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer], common/container/list.Element[*Timer], Timer
  ensures[filed exactly when due a tick ahead] ok <==> t.expiration >= tw.currentTime + tw.tick
  ensures[in the bucket of its due tick] ok ==> filed(tw, t)
  ensures[not filed otherwise] !ok ==> t.b == nil
  ensures[no other bucket is rescheduled] forall b: *bucket :: {b.expiration} old(allocated(b)) && (!ok || b != cast("*bucket", t.b)) ==> b.expiration == old(b.expiration)
  ensures[queued when it gets a new expiry] forall b: *bucket :: {pushes[ref(b)]} old(allocated(b)) ==> pushes[ref(b)] == old(pushes)[ref(b)] + (if ok && b == cast("*bucket", t.b) && old(b.expiration) != b.expiration then 1 else 0)
  ensures chain(tw) && r.depth >= old(r.depth)
  ensures forall k :: {r.levels[k]} 0 <= k && k < old(r.depth) ==> r.levels[k] == old(r.levels)[k]

// filed in the bucket of its due tick, or its task started, never both
def scheduled(tw, t) := if t.expiration >= tw.currentTime + tw.tick then filed(tw, t) && spawned == old(spawned) else t.b == nil && spawned == old(spawned)[ref(t.task) := old(spawned)[ref(t.task)] + 1]
def deepened(r) := r.depth >= old(r.depth) && (forall k :: {r.levels[k]} 0 <= k && k < old(r.depth) ==> r.levels[k] == old(r.levels)[k])

func TimingWheel.addOrRun(tw, t)
  property C20
  requires chain(tw) && t != nil && t.b == nil && t.task != nil && t.expiration * tw.wheelSize <= big()
  let r := tw.root
  modifies t.b, t.elem, all Timer.b where x :: x.b != nil, all bucket.expiration, all TimingWheel.overflowWheel where w :: w.root == tw.root && w.lvl >= tw.lvl, r.depth, r.levels, ghost pushes, ghost spawned
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer], common/container/list.Element[*Timer], Timer
  ensures[filed or started] scheduled(tw, t)
  ensures[no other bucket is rescheduled] forall b: *bucket :: {b.expiration} old(allocated(b)) && b != cast("*bucket", t.b) ==> b.expiration == old(b.expiration)
  ensures[queued when it gets a new expiry] forall b: *bucket :: {pushes[ref(b)]} old(allocated(b)) ==> pushes[ref(b)] == old(pushes)[ref(b)] + (if b == cast("*bucket", t.b) && old(b.expiration) != b.expiration then 1 else 0)
  ensures chain(tw) && deepened(r)

func TimingWheel.advance(tw, expiration)
  property C20
  requires chain(tw) && expiration <= big()
  modifies all TimingWheel.currentTime where w :: w.root == tw.root && w.lvl >= tw.lvl, ghost reached
  ghostset reached := expiration
  ensures reached == expiration
  ensures[to the tick of the due bucket, never back] tw.currentTime == (if expiration >= old(tw.currentTime) + tw.tick then expiration - expiration % tw.tick else old(tw.currentTime))
  ensures[every level follows] chain(tw)

func TimingWheel.AfterFunc(tw, delay, f) (t)
  property C20
  requires chain(tw) && f != nil
  let r := tw.root
  modifies ghost now, all Timer.b where x :: x.b != nil, all bucket.expiration, all TimingWheel.overflowWheel where w :: w.root == tw.root && w.lvl >= tw.lvl, r.depth, r.levels, ghost pushes, ghost spawned
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer], common/container/list.Element[*Timer], Timer
  ensures[due after the delay] fresh(t) && t.task == f && t.expiration == (now + delay) / 1000000
  ensures[filed or started] scheduled(tw, t)
  ensures chain(tw) && deepened(r)

// a schedule: the next run is a function of the schedule and the instant asked about, below the year 2527
spec func nextrun(any, int) int
axiom nextrun_range : forall s : any, x :: {nextrun(s, x)} nextrun(s, x) <= 17592186044416000000
trusted func iface:common/timer/timingwheel.Scheduler.Next(s, x) (r)
  ensures r == nextrun(s, x)
def never(x) := x == 0 - 62135596800000000000

func TimingWheel.ScheduleFunc(tw, s, f) (t)
  property C20
  requires chain(tw) && f != nil && s != nil
  let r := tw.root
  modifies ghost now, all Timer.b where x :: x.b != nil, all bucket.expiration, all TimingWheel.overflowWheel where w :: w.root == tw.root && w.lvl >= tw.lvl, r.depth, r.levels, ghost pushes, ghost spawned
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer], common/container/list.Element[*Timer], Timer
  ensures[not at all when the schedule is over] never(nextrun(s, now)) ==> t == nil && spawned == old(spawned)
  ensures[at the first run of the schedule] !never(nextrun(s, now)) ==> fresh(t) && t.expiration == nextrun(s, now) / 1000000 && scheduled(tw, t)
  ensures chain(tw) && deepened(r)

// the task of a schedule: files itself for the next run, then runs f once
func TimingWheel.ScheduleFunc$1()
  property C20
  requires chain(tw) && f != nil && s != nil && t != nil && t.b == nil && t.task != nil
  let r := tw.root
  let n := nextrun(s, old(t.expiration) * 1000000)
  modifies t.expiration, t.b, t.elem, all Timer.b where x :: x.b != nil, all bucket.expiration, all TimingWheel.overflowWheel where w :: w.root == tw.root && w.lvl >= tw.lvl, r.depth, r.levels, ghost pushes, ghost spawned, ghost ran
  allocates TimingWheel, []*bucket, bucket, common/container/list.List[*Timer], common/container/list.Element[*Timer], Timer
  ensures[no further run when the schedule is over] never(n) ==> t.expiration == old(t.expiration) && t.b == nil && spawned == old(spawned)
  ensures[next run as scheduled] !never(n) ==> t.expiration == n / 1000000 && scheduled(tw, t)
  ensures[the function runs once] ran == old(ran)[ref(f) := old(ran)[ref(f)] + 1]
  ensures chain(tw) && deepened(r)

// the running wheel: every bucket taken from the queue is delivered, moved to, and flushed once
func delayQueue.channel(q, ctx, size, nowF) (c)
  property C20
  requires q != nil && ctx != nil && nowF != nil && size >= 0
  modifies ghost spawned

func delayQueue.channel$1()
  property C20
  requires q != nil && ctx != nil && nowF != nil
  modifies ghost taken, ghost sent
  allocates time.Timer
  ensures[each bucket taken is delivered] forall b: *bucket :: {sent[ref(b)]} sent[ref(b)] - old(sent)[ref(b)] == taken[ref(b)] - old(taken)[ref(b)]
  loop 0
    invariant forall b: *bucket :: {sent[ref(b)]} sent[ref(b)] - old(sent)[ref(b)] == taken[ref(b)] - old(taken)[ref(b)]

func TimingWheel.Run$1() (r)
  property C20
  modifies ghost now
  ensures r == now / 1000000

func TimingWheel.Run(tw, ctx)
  property C20
  requires chain(tw) && ctx != nil
  modifies ghost received, ghost flushes, ghost reached, ghost handed, ghost spawned, all bucket.expiration, all TimingWheel.currentTime, all Timer.b, all Timer.elem
  allocates time.Timer
  ensures[each bucket delivered is flushed] forall b: *bucket :: {flushes[ref(b)]} flushes[ref(b)] - old(flushes)[ref(b)] == received[ref(b)] - old(received)[ref(b)]
  ensures chain(tw)
  loop 0
    invariant chain(tw) && (forall b: *bucket :: {flushes[ref(b)]} flushes[ref(b)] - old(flushes)[ref(b)] == received[ref(b)] - old(received)[ref(b)])
