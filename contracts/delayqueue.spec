package common/timer/delayqueue
import heap.spec

immutable entry.value, entry.expiration
volatile DelayQueue.sleeping

// the queue is a heap of distinct entries ordered by due time
monitor DelayQueue(q) lock mutex guards h
  modifies q.h.h, q.h.h[*]
  moninv heapinv(q.h)
  moninv[ordered by due time] forall x: *entry[$T], y: *entry[$T] :: {app(q.h.lessFunc, x, y)} app(q.h.lessFunc, x, y) <==> x.expiration < y.expiration
  moninv[each entry once] forall x: *entry[$T] :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) <= 1 && (cnt(seqof(q.h.h), len(q.h.h), x) > 0 ==> x != nil && allocated(x))
  moninv forall k :: {q.h.h[k]} 0 <= k && k < len(q.h.h) ==> cnt(seqof(q.h.h), len(q.h.h), q.h.h[k]) >= 1

lemma cnt_pos(a: seq[$T], n, x: $T, k)
  flag auto
  induction n
  trigger cnt(a, n, a[k])
  requires n >= 0
  ensures cnt(a, n, x) >= 0 && (0 <= k && k < n && a[k] == x ==> cnt(a, n, x) >= 1)

func New$1(e1, e2) (b)
  property C19
  pure
  requires e1 != nil && e2 != nil
  ensures b <==> e1.expiration < e2.expiration

func New() (q)
  property C19
  flag publishes
  allocates DelayQueue[$T], common/container/heap.Heap[*entry[$T]], []*entry[$T]
  ensures fresh(q) && len(q.h.h) == 0

func DelayQueue.Push(q, value, delay)
  property C19
  flag atomic
  flag nonblocking
  requires q != nil
  allocates entry[$T], []*entry[$T]
  ensures[one new item due after the delay] exists e: *entry[$T] :: {old(allocated(e))} fresh(e) && e.value == value && e.expiration == now + delay && (forall x: *entry[$T] :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) == cnt(old(seqof(q.h.h)), old(len(q.h.h)), x) + (if x == e then 1 else 0))

def same(q) := forall x: *entry[$T] :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) == cnt(old(seqof(q.h.h)), old(len(q.h.h)), x)
def without(q, e) := forall x: *entry[$T] :: {cnt(seqof(q.h.h), len(q.h.h), x)} cnt(seqof(q.h.h), len(q.h.h), x) + (if x == e then 1 else 0) == cnt(old(seqof(q.h.h)), old(len(q.h.h)), x)
def holds(q, e) := cnt(seqof(q.h.h), len(q.h.h), e) > 0
def first(q, e) := holds(q, e) && (forall k :: {q.h.h[k]} 0 <= k && k < len(q.h.h) ==> e.expiration <= q.h.h[k].expiration)

func DelayQueue.Take(q, ctx) (v, ok)
  property C19
  flag atomic
  requires q != nil && ctx != nil
  allocates time.Timer
  let e := old(q.h.h[0])
  ensures[the first due item] ok ==> old(len(q.h.h)) > 0 && old(first(q, q.h.h[0])) && v == e.value && e.expiration <= now
  ensures[removed once] ok ==> without(q, e)
  ensures[otherwise nothing] !ok ==> same(q)

func DelayQueue.Pop(q) (v, ok)
  property C19
  flag atomic
  flag nonblocking
  requires q != nil
  let e := old(q.h.h[0])
  ensures[exactly when one is due] ok <==> old(len(q.h.h)) > 0 && e.expiration <= now
  ensures[the first due item] ok ==> old(first(q, q.h.h[0])) && v == e.value
  ensures[removed once] ok ==> without(q, e)
  ensures[otherwise nothing] !ok ==> same(q)

func DelayQueue.Peek(q) (v, ok)
  property C19
  flag atomic
  flag nonblocking
  requires q != nil
  ensures ok <==> len(q.h.h) > 0
  ensures[earliest] ok ==> first(q, q.h.h[0]) && v == q.h.h[0].value
  ensures same(q)

func DelayQueue.Empty(q) (b)
  property C19
  flag atomic
  flag nonblocking
  requires q != nil
  ensures b <==> len(q.h.h) == 0
  ensures same(q)
