package common/container/pqueue
import heap.spec

// a priority queue is a well-formed binary heap; its contents are the bag of the heap's elements
def wf(p) := p != nil && heapinv(p.h)
def els(p) := seqof(p.h.h)
def size(p) := len(p.h.h)

func New(s, less) (p)
  property C03
  requires strict(less)
  modifies s[*]
  allocates PriorityQueue[$T], common/container/heap.Heap[$T]
  ensures fresh(p) && wf(p) && p.h.lessFunc == less
  ensures[same elements] size(p) == len(s) && samebag(els(p), size(p), old(seqof(s)), len(s))

func PriorityQueue.Push(p, elem)
  property C03
  requires wf(p)
  modifies p.h.h, p.h.h[*]
  allocates []$T
  ensures wf(p) && size(p) == old(size(p)) + 1
  ensures[added] forall y: $T :: {cnt(els(p), size(p), y)} cnt(els(p), size(p), y) == cnt(old(els(p)), old(size(p)), y) + (if elem == y then 1 else 0)

func PriorityQueue.Pop(p) (r)
  property C03
  requires wf(p) && size(p) > 0
  modifies p.h.h, p.h.h[*]
  ensures[minimum] forall k :: {old(els(p))[k]} 0 <= k && k < old(size(p)) ==> !app(p.h.lessFunc, old(els(p))[k], r)
  ensures[heap] wf(p) && size(p) == old(size(p)) - 1
  ensures[rest] forall x: $T :: {cnt(els(p), size(p), x)} cnt(els(p), size(p), x) + (if x == r then 1 else 0) == cnt(old(els(p)), old(size(p)), x)

func PriorityQueue.Peek(p) (r)
  property C03
  requires wf(p) && size(p) > 0
  ensures[minimum] forall k :: {els(p)[k]} 0 <= k && k < size(p) ==> !app(p.h.lessFunc, els(p)[k], r)
  ensures r == els(p)[0]

func PriorityQueue.Len(p) (n)
  property C03
  requires wf(p)
  ensures n == size(p)

func PriorityQueue.Empty(p) (b)
  property C03
  requires wf(p)
  ensures b <==> size(p) == 0
