package common/container/meap

def mstrict(f) := f != nil && (forall x: Entry[$K,$V], y: Entry[$K,$V] :: {app(f, x, y)} app(f, x, y) ==> !app(f, y, x)) && (forall x: Entry[$K,$V], y: Entry[$K,$V], z: Entry[$K,$V] :: {app(f, x, y), app(f, y, z)} !app(f, x, y) && !app(f, y, z) ==> !app(f, x, z))
def par(i) := (i - 1) / 2
def okat(f, a, i) := !app(f, a[i], a[par(i)])
def ordered(f, a, n) := forall i :: {a[i]} 1 <= i && i < n ==> okat(f, a, i)
// the index map and the array describe each other
def insync(a, n, d, m) := (forall i :: {a[i]} 0 <= i && i < n ==> (a[i].Key in d) && m[a[i].Key] == i) && (forall k: $K :: {m[k]} {d[k]} (k in d) ==> 0 <= m[k] && m[k] < n && a[m[k]].Key == k)
def shape(h) := h != nil && mstrict(h.lessFunc) && h.m != nil && insync(seqof(h.h), len(h.h), domof(h.m), mapof(h.m))
def meapinv(h) := shape(h) && ordered(h.lessFunc, seqof(h.h), len(h.h))
def ent(h, k) := seqof(h.h)[mapof(h.m)[k]]
// the entries stored under every key are those of before
def same(h, a0, m0, d0) := (forall k: $K :: {domof(h.m)[k]} domof(h.m)[k] <==> d0[k]) && (forall k: $K :: {mapof(h.m)[k]} d0[k] ==> ent(h, k) == a0[m0[k]])
def sameall(h) := same(h, old(seqof(h.h)), old(mapof(h.m)), old(domof(h.m)))

lemma meap_root(f: common/container/meap.LessFunc[$K,$V], a: seq[common/container/meap.Entry[$K,$V]], n, k)
  induction k
  trigger a[k]
  requires mstrict(f) && ordered(f, a, n) && 0 <= k && k < n
  ensures k > 0 ==> !app(f, a[par(k)], a[0])
  ensures !app(f, a[k], a[0])

func New(f) (h)
  property C05
  requires mstrict(f)
  allocates Meap[$K,$V], map[$K]int
  ensures fresh(h) && h.lessFunc == f && meapinv(h) && len(h.h) == 0
  ensures forall k: $K :: {domof(h.m)[k]} !(k in h.m)

func Meap.down(h, i0, n) (moved)
  property C05
  requires shape(h) && 0 <= i0 && i0 <= n && n <= len(h.h)
  let f := h.lessFunc
  let a := seqof(h.h)
  requires[heap except below i0] forall i :: {a[i]} 1 <= i && i < n && par(i) != i0 && i != i0 ==> okat(f, a, i)
  requires[children of i0 fit its parent] forall i :: {a[i]} 1 <= i && i < n && par(i) == i0 && i0 >= 1 ==> !app(f, a[i], a[par(i0)])
  modifies h.h[*], h.m[*]
  ensures[restored] forall i :: {a[i]} 1 <= i && i < n && (moved || i != i0) ==> okat(f, a, i)
  ensures[unmoved] !moved ==> (forall i :: {a[i]} 0 <= i ==> a[i] == old(a)[i])
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[index] shape(h) && sameall(h)
  ensures len(h.m) == old(len(h.m))
  loop 0
    invariant i0 <= i && (i < n || i == i0)
    invariant[heap but below i] forall k :: {a[k]} 1 <= k && k < n && par(k) != i && (k != i || i > i0) && (k != i0 || i > i0) ==> okat(f, a, k)
    invariant[grandchildren] forall k :: {a[k]} 1 <= k && k < n && par(k) == i && i >= 1 ==> !app(f, a[k], a[par(i)])
    invariant i == i0 ==> (forall k :: {a[k]} 0 <= k ==> a[k] == old(a)[k])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant[index] shape(h) && sameall(h)
    invariant len(h.m) == old(len(h.m))
    decreases n - i

func Meap.up(h, j)
  property C05
  ghost n : int = len(h.h)
  requires shape(h) && 0 <= j && j < n && n <= len(h.h)
  let f := h.lessFunc
  let a := seqof(h.h)
  requires[heap except at j] forall i :: {a[i]} 1 <= i && i < n && i != j ==> okat(f, a, i)
  requires[children of j fit its parent] forall i :: {a[i]} 1 <= i && i < n && par(i) == j && j >= 1 ==> !app(f, a[i], a[par(j)])
  modifies h.h[*], h.m[*]
  ensures[heap] ordered(f, a, n)
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[index] shape(h) && sameall(h)
  ensures len(h.m) == old(len(h.m))
  loop 0
    invariant 0 <= j && j < n
    invariant forall k :: {a[k]} 1 <= k && k < n && k != j ==> okat(f, a, k)
    invariant forall k :: {a[k]} 1 <= k && k < n && par(k) == j && j >= 1 ==> !app(f, a[k], a[par(j)])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant[index] shape(h) && sameall(h)
    invariant len(h.m) == old(len(h.m))
    decreases j

func Meap.fix(h, i)
  property C05
  requires shape(h) && 0 <= i && i < len(h.h)
  let a := seqof(h.h)
  requires[heap except i] forall k :: {a[k]} 1 <= k && k < len(h.h) && k != i && par(k) != i ==> okat(h.lessFunc, a, k)
  requires[children of i fit its parent] forall k :: {a[k]} 1 <= k && k < len(h.h) && par(k) == i && i >= 1 ==> !app(h.lessFunc, a[k], a[par(i)])
  modifies h.h[*], h.m[*]
  ensures[heap] meapinv(h) && sameall(h)
  ensures len(h.m) == old(len(h.m))

func Meap.Pop(h) (r)
  property C05
  requires meapinv(h) && len(h.h) > 0
  modifies h.h, h.h[*], h.m[*]
  use[k] meap_root(h.lessFunc, old(seqof(h.h)), old(len(h.h)), k)
  ensures[minimum] forall k: $K :: {old(mapof(h.m))[k]} old(domof(h.m))[k] ==> !app(h.lessFunc, old(seqof(h.h))[old(mapof(h.m))[k]], r)
  ensures[was in the heap] old(domof(h.m))[r.Key] && old(seqof(h.h))[old(mapof(h.m))[r.Key]] == r
  ensures[heap] meapinv(h) && len(h.h) == old(len(h.h)) - 1
  ensures[keys] forall k: $K :: {domof(h.m)[k]} domof(h.m)[k] <==> (old(domof(h.m))[k] && k != r.Key)
  ensures[values] forall k: $K :: {mapof(h.m)[k]} domof(h.m)[k] ==> ent(h, k) == old(seqof(h.h))[old(mapof(h.m))[k]]

func Meap.Peek(h) (r)
  property C05
  requires meapinv(h) && len(h.h) > 0
  use[k] meap_root(h.lessFunc, seqof(h.h), len(h.h), k)
  ensures[minimum] forall k: $K :: {mapof(h.m)[k]} domof(h.m)[k] ==> !app(h.lessFunc, ent(h, k), r)
  ensures[in the heap] domof(h.m)[r.Key] && ent(h, r.Key) == r

func Meap.Get(h, key) (v, ok)
  property C05
  requires meapinv(h)
  ensures ok <==> domof(h.m)[key]
  ensures ok ==> v == ent(h, key).Value

func Meap.Contains(h, key) (ok)
  property C05
  requires meapinv(h)
  ensures ok <==> domof(h.m)[key]

func Meap.Push(h, key, value)
  property C05
  requires meapinv(h)
  modifies h.h, h.h[*], h.m[*]
  allocates []Entry[$K,$V]
  ensures[heap] meapinv(h) && len(h.h) == old(len(h.h)) + (if old(domof(h.m))[key] then 0 else 1)
  ensures[keys] forall k: $K :: {domof(h.m)[k]} domof(h.m)[k] <==> (old(domof(h.m))[k] || k == key)
  ensures[values] forall k: $K :: {mapof(h.m)[k]} domof(h.m)[k] && k != key ==> ent(h, k) == old(seqof(h.h))[old(mapof(h.m))[k]]
  ensures[updated] ent(h, key).Key == key && ent(h, key).Value == value
  ensures base(h.h) == old(base(h.h)) || fresh(h.h)

func Meap.Remove(h, key)
  property C05
  requires meapinv(h)
  modifies h.h, h.h[*], h.m[*]
  ghostarg Meap.up.n = len(h.h) - 1
  ensures[heap] meapinv(h) && len(h.h) == old(len(h.h)) - (if old(domof(h.m))[key] then 1 else 0)
  ensures[keys] forall k: $K :: {domof(h.m)[k]} domof(h.m)[k] <==> (old(domof(h.m))[k] && k != key)
  ensures[values] forall k: $K :: {mapof(h.m)[k]} domof(h.m)[k] ==> ent(h, k) == old(seqof(h.h))[old(mapof(h.m))[k]]

func Meap.Len(h) (n)
  property C05
  requires h != nil
  ensures n == len(h.h)

func Meap.Empty(h) (b)
  property C05
  requires h != nil
  ensures b <==> len(h.h) == 0
