package common/container/reap
import heap.spec

def vals() := fieldmap("Entry[$T]", "value")
def idxs() := fieldmap("Entry[$T]", "index")
def par(i) := (i - 1) / 2
def okat(f, a, v, i) := !app(f, v[a[i]], v[a[par(i)]])
def ordered(f, a, v, n) := forall i :: {a[i]} 1 <= i && i < n ==> okat(f, a, v, i)
// every slot holds a live handle that knows its own position
def shape(h) := h != nil && strict(h.lessFunc) && (forall i :: {h.h[i]} 0 <= i && i < len(h.h) ==> h.h[i] != nil && allocated(h.h[i]) && h.h[i].index == i)
def reapinv(h) := shape(h) && ordered(h.lessFunc, seqof(h.h), vals(), len(h.h))
def member(h, e) := e != nil && 0 <= e.index && e.index < len(h.h) && h.h[e.index] == e

lemma reap_root(f: common/container/reap.LessFunc[$T], a: seq[*common/container/reap.Entry[$T]], v: fn[*common/container/reap.Entry[$T]]$T, n, k)
  induction k
  trigger a[k]
  requires strict(f) && ordered(f, a, v, n) && 0 <= k && k < n
  ensures k > 0 ==> !app(f, v[a[par(k)]], v[a[0]])
  ensures !app(f, v[a[k]], v[a[0]])

func New(f) (h)
  property C06
  requires strict(f)
  allocates Reap[$T]
  ensures fresh(h) && h.lessFunc == f && reapinv(h) && len(h.h) == 0

func Entry.Value(e) (v)
  property C06
  requires e != nil
  ensures v == e.value

func Reap.down(h, i0, n) (moved)
  property C06
  requires shape(h) && 0 <= i0 && i0 <= n && n <= len(h.h)
  let f := h.lessFunc
  let a := seqof(h.h)
  let v := vals()
  requires[heap except below i0] forall i :: {a[i]} 1 <= i && i < n && par(i) != i0 && i != i0 ==> okat(f, a, v, i)
  requires[children of i0 fit its parent] forall i :: {a[i]} 1 <= i && i < n && par(i) == i0 && i0 >= 1 ==> !app(f, v[a[i]], v[a[par(i0)]])
  modifies h.h[*], all Entry[$T].index where e :: member(h, e)
  ensures[restored] forall i :: {a[i]} 1 <= i && i < n && (moved || i != i0) ==> okat(f, a, v, i)
  ensures[unmoved] !moved ==> (forall i :: {a[i]} 0 <= i ==> a[i] == old(a)[i])
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[handles] shape(h) && (forall e: *Entry[$T] :: {e.index} member(h, e) <==> old(member(h, e)))
  loop 0
    invariant i0 <= i && (i < n || i == i0)
    invariant[heap but below i] forall k :: {a[k]} 1 <= k && k < n && par(k) != i && (k != i || i > i0) && (k != i0 || i > i0) ==> okat(f, a, v, k)
    invariant[grandchildren] forall k :: {a[k]} 1 <= k && k < n && par(k) == i && i >= 1 ==> !app(f, v[a[k]], v[a[par(i)]])
    invariant i == i0 ==> (forall k :: {a[k]} 0 <= k ==> a[k] == old(a)[k])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant[handles] shape(h) && (forall e: *Entry[$T] :: {e.index} member(h, e) <==> old(member(h, e)))
    invariant[others] forall e: *Entry[$T] :: {e.index} !old(member(h, e)) ==> e.index == old(e.index)
    decreases n - i

func Reap.up(h, j)
  property C06
  ghost n : int = len(h.h)
  requires shape(h) && 0 <= j && j < n && n <= len(h.h)
  let f := h.lessFunc
  let a := seqof(h.h)
  let v := vals()
  requires[heap except at j] forall i :: {a[i]} 1 <= i && i < n && i != j ==> okat(f, a, v, i)
  requires[children of j fit its parent] forall i :: {a[i]} 1 <= i && i < n && par(i) == j && j >= 1 ==> !app(f, v[a[i]], v[a[par(j)]])
  modifies h.h[*], all Entry[$T].index where e :: member(h, e)
  ensures[heap] ordered(f, a, v, n)
  ensures[tail] forall i :: {a[i]} i >= n ==> a[i] == old(a)[i]
  ensures[handles] shape(h) && (forall e: *Entry[$T] :: {e.index} member(h, e) <==> old(member(h, e)))
  loop 0
    invariant 0 <= j && j < n
    invariant forall k :: {a[k]} 1 <= k && k < n && k != j ==> okat(f, a, v, k)
    invariant forall k :: {a[k]} 1 <= k && k < n && par(k) == j && j >= 1 ==> !app(f, v[a[k]], v[a[par(j)]])
    invariant forall k :: {a[k]} k >= n ==> a[k] == old(a)[k]
    invariant[handles] shape(h) && (forall e: *Entry[$T] :: {e.index} member(h, e) <==> old(member(h, e)))
    invariant[others] forall e: *Entry[$T] :: {e.index} !old(member(h, e)) ==> e.index == old(e.index)
    decreases j

func Reap.fix(h, i)
  property C06
  requires shape(h) && 0 <= i && i < len(h.h)
  let a := seqof(h.h)
  let v := vals()
  requires[heap except i] forall k :: {a[k]} 1 <= k && k < len(h.h) && k != i && par(k) != i ==> okat(h.lessFunc, a, v, k)
  requires[children of i fit its parent] forall k :: {a[k]} 1 <= k && k < len(h.h) && par(k) == i && i >= 1 ==> !app(h.lessFunc, v[a[k]], v[a[par(i)]])
  modifies h.h[*], all Entry[$T].index where e :: member(h, e)
  ensures[heap] reapinv(h)
  ensures[handles] forall e: *Entry[$T] :: {e.index} member(h, e) <==> old(member(h, e))

func Reap.Pop(h) (r)
  property C06
  requires reapinv(h) && len(h.h) > 0
  modifies h.h, h.h[*], all Entry[$T].index where e :: member(h, e)
  use[k] reap_root(h.lessFunc, old(seqof(h.h)), old(vals()), old(len(h.h)), k)
  let root := h.h[0]
  ensures[minimum] forall e: *Entry[$T] :: {e.index} old(member(h, e)) ==> !app(h.lessFunc, old(e.value), r)
  ensures[removed] r == old(root).value && old(root).index == -1
  ensures[heap] reapinv(h) && len(h.h) == old(len(h.h)) - 1
  ensures[handles] forall e: *Entry[$T] :: {e.index} member(h, e) <==> (old(member(h, e)) && e != old(root))

func Reap.Peek(h) (r)
  property C06
  requires reapinv(h) && len(h.h) > 0
  use[k] reap_root(h.lessFunc, seqof(h.h), vals(), len(h.h), k)
  ensures[minimum] forall e: *Entry[$T] :: {e.index} member(h, e) ==> !app(h.lessFunc, e.value, r)
  ensures r == h.h[0].value

func Reap.Push(h, value) (e)
  property C06
  requires reapinv(h)
  modifies h.h, h.h[*], all Entry[$T].index where e :: member(h, e)
  allocates []*Entry[$T], Entry[$T]
  ensures[heap] reapinv(h) && len(h.h) == old(len(h.h)) + 1
  ensures[added] fresh(e) && member(h, e) && e.value == value
  ensures[handles] forall x: *Entry[$T] :: {x.index} x != e ==> (member(h, x) <==> old(member(h, x)))
  ensures base(h.h) == old(base(h.h)) || fresh(h.h)

func Reap.Remove(h, e) (ok)
  property C06
  requires reapinv(h) && e != nil && (e.index == -1 || member(h, e))
  modifies h.h, h.h[*], all Entry[$T].index where e :: member(h, e)
  ghostarg Reap.up.n = len(h.h) - 1
  ensures[result] ok <==> old(e.index) != -1
  ensures[removed] e.index == -1
  ensures[heap] reapinv(h) && len(h.h) == old(len(h.h)) - (if ok then 1 else 0)
  ensures[handles] forall x: *Entry[$T] :: {x.index} member(h, x) <==> (old(member(h, x)) && x != e)

func Reap.SetValue(h, e, value) (ok)
  property C06
  requires reapinv(h) && e != nil && (e.index == -1 || member(h, e))
  modifies h.h[*], e.value, all Entry[$T].index where e :: member(h, e)
  ensures[result] ok <==> old(e.index) != -1
  ensures[value] e.value == (if ok then value else old(e.value))
  ensures[heap] reapinv(h)
  ensures[handles] forall x: *Entry[$T] :: {x.index} member(h, x) <==> old(member(h, x))

func Reap.Len(h) (n)
  property C06
  requires h != nil
  ensures n == len(h.h)

func Reap.Empty(h) (b)
  property C06
  requires h != nil
  ensures b <==> len(h.h) == 0
