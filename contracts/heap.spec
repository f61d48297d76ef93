package common/container/heap

// ---- bags: cnt(a, n, x) = number of occurrences of x among a[0..n)
spec func cnt(seq[$T], int, $T) int
axiom cnt_zero: forall a: seq[$T], n, x: $T :: {cnt(a, n, x)} n <= 0 ==> cnt(a, n, x) == 0
axiom cnt_succ: forall a: seq[$T], n, m, x: $T :: {cnt(a, n, x), cnt(a, m, x)} n >= 0 && m == n + 1 ==> cnt(a, m, x) == cnt(a, n, x) + (if a[n] == x then 1 else 0)

lemma cnt_store(a: seq[$T], i, v: $T, n, x: $T)
  flag auto
  induction n
  trigger cnt(a[i := v], n, x)
  requires n >= 0 && i >= 0
  ensures cnt(a[i := v], n, x) == cnt(a, n, x) + (if i < n then (if v == x then 1 else 0) - (if a[i] == x then 1 else 0) else 0) && (n == 0 || cnt(a, n-1, x) <= cnt(a, n, x))

def strict(f) := f != nil && (forall x: $T, y: $T :: {app(f, x, y)} app(f, x, y) ==> !app(f, y, x)) && (forall x: $T, y: $T, z: $T :: {app(f, x, y), app(f, y, z)} !app(f, x, y) && !app(f, y, z) ==> !app(f, x, z))
def par(i) := (i - 1) / 2
// element i is not less than its parent
def okat(f, a, i) := !app(f, a[i], a[par(i)])
def ordered(f, a, n) := forall i :: {a[i]} 1 <= i && i < n ==> okat(f, a, i)
def samebag(a, n, b, m) := forall x: $T :: {cnt(a, n, x)} cnt(a, n, x) == cnt(b, m, x)

lemma heap_root(f: common/container/heap.LessFunc[$T], a: seq[$T], n, k)
  induction k
  trigger a[k]
  requires strict(f) && ordered(f, a, n) && 0 <= k && k < n
  ensures k > 0 ==> !app(f, a[par(k)], a[0])
  ensures !app(f, a[k], a[0])

func Heap.down(h, i0, n) (moved)
  property C03
  ghost lo : int = 0
  requires h != nil && 0 <= lo && lo <= i0 && 0 <= i0 && i0 <= n && n <= len(h.h)
  requires strict(h.lessFunc)
  let f := h.lessFunc
  let a := seqof(h.h)
  requires[heap except below i0] forall i :: {a[i]} 1 <= i && i < n && par(i) >= lo && par(i) != i0 && i != i0 ==> okat(f, a, i)
  requires[children of i0 fit its parent] forall i :: {a[i]} 1 <= i && i < n && par(i) == i0 && i0 >= 1 && par(i0) >= lo ==> !app(f, a[i], a[par(i0)])
  modifies h.h[*]
  ensures[restored] forall i :: {a[i]} 1 <= i && i < n && par(i) >= lo && (moved || i != i0) ==> okat(f, a, i)
  ensures[unmoved] !moved ==> (forall i :: {a[i]} 0 <= i ==> a[i] == old(a)[i])
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[permutation] forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
  loop 0
    invariant i0 <= i && (i < n || i == i0)
    invariant[heap but below i] forall k :: {a[k]} 1 <= k && k < n && par(k) >= lo && par(k) != i && (k != i || i > i0) && (k != i0 || i > i0) ==> okat(f, a, k)
    invariant[grandchildren] forall k :: {a[k]} 1 <= k && k < n && par(k) == i && i >= 1 && par(i) >= lo ==> !app(f, a[k], a[par(i)])
    invariant i == i0 ==> (forall k :: {a[k]} 0 <= k ==> a[k] == old(a)[k])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
    decreases n - i

func Heap.up(h, j)
  property C03
  ghost n : int = len(h.h)
  requires h != nil && 0 <= j && j < n && n <= len(h.h)
  requires strict(h.lessFunc)
  let f := h.lessFunc
  let a := seqof(h.h)
  requires[heap except at j] forall i :: {a[i]} 1 <= i && i < n && i != j ==> okat(f, a, i)
  requires[children of j fit its parent] forall i :: {a[i]} 1 <= i && i < n && par(i) == j && j >= 1 ==> !app(f, a[i], a[par(j)])
  modifies h.h[*]
  ensures[heap] ordered(f, a, n)
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[permutation] forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
  loop 0
    invariant 0 <= j && j < n
    invariant forall k :: {a[k]} 1 <= k && k < n && k != j ==> okat(f, a, k)
    invariant forall k :: {a[k]} 1 <= k && k < n && par(k) == j && j >= 1 ==> !app(f, a[k], a[par(j)])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
    decreases j

def heapinv(h) := h != nil && strict(h.lessFunc) && ordered(h.lessFunc, seqof(h.h), len(h.h))

func New(s, f) (h)
  property C03
  requires strict(f)
  modifies s[*]
  allocates Heap[$T]
  ensures fresh(h) && h.lessFunc == f && heapinv(h)
  ensures[same elements] len(h.h) == len(s) && samebag(seqof(h.h), len(h.h), old(seqof(s)), len(s))

func Heap.init(h)
  property C03
  requires h != nil && strict(h.lessFunc)
  modifies h.h[*]
  ghostarg Heap.down.lo = callee_i0
  ensures heapinv(h)
  ensures samebag(seqof(h.h), len(h.h), old(seqof(h.h)), len(h.h))
  loop 0
    invariant -1 <= idx && idx < len(h.h)
    invariant[ordered below idx] forall k :: {seqof(h.h)[k]} 1 <= k && k < len(h.h) && par(k) > idx ==> okat(h.lessFunc, seqof(h.h), k)
    invariant samebag(seqof(h.h), len(h.h), old(seqof(h.h)), len(h.h))
    decreases idx + 1

func Heap.Pop(h) (r)
  property C03
  requires heapinv(h) && len(h.h) > 0
  modifies h.h, h.h[*]
  use[k] heap_root(h.lessFunc, old(seqof(h.h)), old(len(h.h)), k)
  ensures[minimum] forall k :: {old(h.h[k])} 0 <= k && k < old(len(h.h)) ==> !app(h.lessFunc, old(h.h[k]), r)
  ensures[root] r == old(h.h[0])
  ensures[heap] heapinv(h) && len(h.h) == old(len(h.h)) - 1
  ensures[rest] forall x: $T :: {cnt(seqof(h.h), len(h.h), x)} cnt(seqof(h.h), len(h.h), x) + (if x == r then 1 else 0) == cnt(old(seqof(h.h)), old(len(h.h)), x)

func Heap.Peek(h) (r)
  property C03
  requires heapinv(h) && len(h.h) > 0
  use[k] heap_root(h.lessFunc, seqof(h.h), len(h.h), k)
  ensures[minimum] forall k :: {h.h[k]} 0 <= k && k < len(h.h) ==> !app(h.lessFunc, h.h[k], r)
  ensures r == h.h[0]

func Heap.Push(h, x)
  property C03
  requires heapinv(h)
  modifies h.h, h.h[*]
  allocates []$T
  ensures[heap] heapinv(h) && len(h.h) == old(len(h.h)) + 1
  ensures[added] forall y: $T :: {cnt(seqof(h.h), len(h.h), y)} cnt(seqof(h.h), len(h.h), y) == cnt(old(seqof(h.h)), old(len(h.h)), y) + (if x == y then 1 else 0)
  ensures base(h.h) == old(base(h.h)) || fresh(h.h)

func Heap.Len(h) (n)
  property C03
  requires h != nil
  ensures n == len(h.h)

func Heap.Empty(h) (b)
  property C03
  requires h != nil
  ensures b <==> len(h.h) == 0

func Heap.Remove(h, i) (r)
  property C03
  requires heapinv(h) && 0 <= i && i < len(h.h)
  modifies h.h, h.h[*]
  ghostarg Heap.up.n = len(h.h) - 1
  ensures[element] r == old(h.h[i])
  ensures[heap] heapinv(h) && len(h.h) == old(len(h.h)) - 1
  ensures[rest] forall x: $T :: {cnt(seqof(h.h), len(h.h), x)} cnt(seqof(h.h), len(h.h), x) + (if x == r then 1 else 0) == cnt(old(seqof(h.h)), old(len(h.h)), x)

func Heap.Fix(h, i)
  property C03
  requires h != nil && strict(h.lessFunc) && 0 <= i && i < len(h.h)
  let a := seqof(h.h)
  requires[heap except i] forall k :: {a[k]} 1 <= k && k < len(h.h) && k != i && par(k) != i ==> okat(h.lessFunc, a, k)
  requires[children of i fit its parent] forall k :: {a[k]} 1 <= k && k < len(h.h) && par(k) == i && i >= 1 ==> !app(h.lessFunc, a[k], a[par(i)])
  modifies h.h[*]
  ensures[heap] heapinv(h)
  ensures samebag(seqof(h.h), len(h.h), old(seqof(h.h)), len(h.h))
