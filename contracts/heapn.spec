package common/container/heap
import heap.spec

// ---- n-ary heap: the parent of k is (k-1)/n
def parn(i, m) := (i - 1) / m
def okatn(f, a, i, m) := !app(f, a[i], a[parn(i, m)])
def orderedn(f, a, n, m) := forall i :: {a[i]} 1 <= i && i < n ==> okatn(f, a, i, m)
def wfn(h) := h != nil && strict(h.lessFunc) && h.n >= 2 && h.n * len(h.h) + 1 <= 9223372036854775807
def heapninv(h) := wfn(h) && orderedn(h.lessFunc, seqof(h.h), len(h.h), h.n)

// the parent of a child lies strictly before it, and the children of i are m*i+1 .. m*i+m
lemma par_child(k, m, i)
  flag auto
  trigger parn(k, m), m * i
  requires m >= 2 && k >= 1 && i >= 0
  ensures 0 <= parn(k, m) && parn(k, m) < k
  ensures (parn(k, m) == i) <==> (m * i + 1 <= k && k <= m * i + m)

lemma par_below(k, m)
  trigger parn(k, m)
  requires m >= 2 && k >= 1
  ensures 0 <= parn(k, m) && parn(k, m) < k

lemma heapn_root(f: common/container/heap.LessFunc[$T], a: seq[$T], n, k, m)
  induction k
  trigger a[k]
  use par_below(k, m)
  requires strict(f) && m >= 2 && orderedn(f, a, n, m) && 0 <= k && k < n
  ensures k > 0 ==> !app(f, a[parn(k, m)], a[0])
  ensures !app(f, a[k], a[0])

func NewN(n, f) (h)
  property C04
  requires strict(f)
  panics n < 2
  allocates HeapN[$T]
  ensures fresh(h) && h.n == n && h.lessFunc == f && len(h.h) == 0
  ensures heapninv(h)

func HeapN.down(h, i0, n) (moved)
  property C04
  ghost lo : int = 0
  requires wfn(h) && 0 <= lo && lo <= i0 && 0 <= i0 && i0 <= n && n <= len(h.h)
  let f := h.lessFunc
  let a := seqof(h.h)
  let m := h.n
  requires[heap except below i0] forall i :: {a[i]} 1 <= i && i < n && parn(i, m) >= lo && parn(i, m) != i0 && i != i0 ==> okatn(f, a, i, m)
  requires[children of i0 fit its parent] forall i :: {a[i]} 1 <= i && i < n && parn(i, m) == i0 && i0 >= 1 && parn(i0, m) >= lo ==> !app(f, a[i], a[parn(i0, m)])
  modifies h.h[*]
  use[k] par_below(k, m)
  ensures[restored] forall i :: {a[i]} 1 <= i && i < n && parn(i, m) >= lo && (moved || i != i0) ==> okatn(f, a, i, m)
  ensures[unmoved] !moved ==> (forall i :: {a[i]} 0 <= i ==> a[i] == old(a)[i])
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[permutation] forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
  loop 0
    invariant i0 <= i && (i < n || i == i0)
    invariant[heap but below i] forall k :: {a[k]} 1 <= k && k < n && parn(k, m) >= lo && parn(k, m) != i && (k != i || i > i0) && (k != i0 || i > i0) ==> okatn(f, a, k, m)
    invariant[grandchildren] forall k :: {a[k]} 1 <= k && k < n && parn(k, m) == i && i >= 1 && parn(i, m) >= lo ==> !app(f, a[k], a[parn(i, m)])
    invariant i == i0 ==> (forall k :: {a[k]} 0 <= k ==> a[k] == old(a)[k])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
    decreases n - i
  loop 1
    invariant k == m * i + 1 && k <= j && j < j1 && j1 - k <= m && j < n && j1 <= n
    invariant[least child so far] forall c :: {a[c]} k <= c && c < j1 ==> !app(f, a[c], a[j])
    decreases n - j1

func HeapN.up(h, j)
  property C04
  ghost n : int = len(h.h)
  requires wfn(h) && 0 <= j && j < n && n <= len(h.h)
  let f := h.lessFunc
  let a := seqof(h.h)
  let m := h.n
  requires[heap except at j] forall i :: {a[i]} 1 <= i && i < n && i != j ==> okatn(f, a, i, m)
  requires[children of j fit its parent] forall i :: {a[i]} 1 <= i && i < n && parn(i, m) == j && j >= 1 ==> !app(f, a[i], a[parn(j, m)])
  modifies h.h[*]
  use[k] par_below(k, m)
  ensures[heap] orderedn(f, a, n, m)
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[permutation] forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
  loop 0
    invariant 0 <= j && j < n
    invariant forall k :: {a[k]} 1 <= k && k < n && k != j ==> okatn(f, a, k, m)
    invariant forall k :: {a[k]} 1 <= k && k < n && parn(k, m) == j && j >= 1 ==> !app(f, a[k], a[parn(j, m)])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant forall m, x: $T :: {cnt(a, m, x)} m >= n ==> cnt(a, m, x) == cnt(old(a), m, x)
    decreases j

func HeapN.Pop(h) (r)
  property C04
  requires heapninv(h) && len(h.h) > 0
  modifies h.h, h.h[*]
  use[k] heapn_root(h.lessFunc, old(seqof(h.h)), old(len(h.h)), k, h.n)
  use[k] par_below(k, h.n)
  ensures[minimum] forall k :: {old(h.h[k])} 0 <= k && k < old(len(h.h)) ==> !app(h.lessFunc, old(h.h[k]), r)
  ensures[root] r == old(h.h[0])
  ensures[heap] heapninv(h) && len(h.h) == old(len(h.h)) - 1
  ensures[rest] forall x: $T :: {cnt(seqof(h.h), len(h.h), x)} cnt(seqof(h.h), len(h.h), x) + (if x == r then 1 else 0) == cnt(old(seqof(h.h)), old(len(h.h)), x)

func HeapN.Peek(h) (r)
  property C04
  requires heapninv(h) && len(h.h) > 0
  use[k] heapn_root(h.lessFunc, seqof(h.h), len(h.h), k, h.n)
  ensures[minimum] forall k :: {h.h[k]} 0 <= k && k < len(h.h) ==> !app(h.lessFunc, h.h[k], r)
  ensures r == h.h[0]

func HeapN.Push(h, x)
  property C04
  requires heapninv(h) && h.n * (len(h.h) + 1) + 1 <= 9223372036854775807
  modifies h.h, h.h[*]
  allocates []$T
  use[k] par_below(k, h.n)
  ensures[heap] heapninv(h) && len(h.h) == old(len(h.h)) + 1
  ensures[added] forall y: $T :: {cnt(seqof(h.h), len(h.h), y)} cnt(seqof(h.h), len(h.h), y) == cnt(old(seqof(h.h)), old(len(h.h)), y) + (if x == y then 1 else 0)
  ensures base(h.h) == old(base(h.h)) || fresh(h.h)

func HeapN.Len(h) (n)
  property C04
  requires h != nil
  ensures n == len(h.h)

func HeapN.Empty(h) (b)
  property C04
  requires h != nil
  ensures b <==> len(h.h) == 0

func HeapN.Remove(h, i) (r)
  property C04
  requires heapninv(h) && 0 <= i && i < len(h.h)
  modifies h.h, h.h[*]
  ghostarg HeapN.up.n = len(h.h) - 1
  use[k] par_below(k, h.n)
  ensures[element] r == old(h.h[i])
  ensures[heap] heapninv(h) && len(h.h) == old(len(h.h)) - 1
  ensures[rest] forall x: $T :: {cnt(seqof(h.h), len(h.h), x)} cnt(seqof(h.h), len(h.h), x) + (if x == r then 1 else 0) == cnt(old(seqof(h.h)), old(len(h.h)), x)

func HeapN.Fix(h, i)
  property C04
  requires wfn(h) && 0 <= i && i < len(h.h)
  let a := seqof(h.h)
  let m := h.n
  requires[heap except i] forall k :: {a[k]} 1 <= k && k < len(h.h) && k != i && parn(k, m) != i ==> okatn(h.lessFunc, a, k, m)
  requires[children of i fit its parent] forall k :: {a[k]} 1 <= k && k < len(h.h) && parn(k, m) == i && i >= 1 ==> !app(h.lessFunc, a[k], a[parn(i, m)])
  modifies h.h[*]
  use[k] par_below(k, m)
  ensures[heap] heapninv(h)
  ensures samebag(seqof(h.h), len(h.h), old(seqof(h.h)), len(h.h))
