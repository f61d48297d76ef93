package common/container/deque
import list.spec
interior

// a deque is its list's sequence of values; the list's own contracts carry the order
def ok(d) := d != nil && listinv(d.l)
def val(d, k) := d.l.seq[k].Value
def n(d) := d.l.len

func New() (d)
  property C02
  closed common/container/list.Element[$T].list
  allocates Deque[$T], common/container/list.List[$T]
  ensures fresh(d) && ok(d) && n(d) == 0

func Deque.PushFront(d, elem)
  property C02
  requires ok(d) && n(d) < 9223372036854775807
  closed common/container/list.Element[$T].list
  modifies d.l.root, d.l.len, d.l.seq, all common/container/list.Element[$T].next where x :: x.list == d.l, all common/container/list.Element[$T].prev where x :: x.list == d.l, all common/container/list.Element[$T].pos where x :: x.list == d.l
  allocates common/container/list.Element[$T]
  ensures ok(d) && d.l == old(d.l) && n(d) == old(n(d)) + 1
  ensures[front] val(d, 1) == elem
  ensures[order] forall k :: {d.l.seq[k]} 2 <= k && k <= n(d) ==> d.l.seq[k] == old(d.l.seq)[k-1] && val(d, k) == old(val(d, k-1))

func Deque.PushBack(d, elem)
  property C02
  requires ok(d) && n(d) < 9223372036854775807
  closed common/container/list.Element[$T].list
  modifies d.l.root, d.l.len, d.l.seq, all common/container/list.Element[$T].next where x :: x.list == d.l, all common/container/list.Element[$T].prev where x :: x.list == d.l, all common/container/list.Element[$T].pos where x :: x.list == d.l
  allocates common/container/list.Element[$T]
  ensures ok(d) && d.l == old(d.l) && n(d) == old(n(d)) + 1
  ensures[back] val(d, n(d)) == elem
  ensures[order] forall k :: {d.l.seq[k]} 1 <= k && k < n(d) ==> d.l.seq[k] == old(d.l.seq)[k] && val(d, k) == old(val(d, k))

func Deque.PopFront(d) (v)
  property C02
  requires ok(d) && n(d) > 0
  modifies d.l.root, d.l.len, d.l.seq, all common/container/list.Element[$T].next where x :: x.list == d.l, all common/container/list.Element[$T].prev where x :: x.list == d.l, all common/container/list.Element[$T].list where x :: x.list == d.l, all common/container/list.Element[$T].pos where x :: x.list == d.l
  ensures[front] v == old(val(d, 1))
  ensures ok(d) && d.l == old(d.l) && n(d) == old(n(d)) - 1
  ensures[order] forall k :: {d.l.seq[k]} 1 <= k && k <= n(d) ==> val(d, k) == old(val(d, k+1))

func Deque.PopBack(d) (v)
  property C02
  requires ok(d) && n(d) > 0
  modifies d.l.root, d.l.len, d.l.seq, all common/container/list.Element[$T].next where x :: x.list == d.l, all common/container/list.Element[$T].prev where x :: x.list == d.l, all common/container/list.Element[$T].list where x :: x.list == d.l, all common/container/list.Element[$T].pos where x :: x.list == d.l
  ensures[back] v == old(val(d, n(d)))
  ensures ok(d) && d.l == old(d.l) && n(d) == old(n(d)) - 1
  ensures[order] forall k :: {d.l.seq[k]} 1 <= k && k <= n(d) ==> val(d, k) == old(val(d, k))

func Deque.Len(d) (r)
  property C02
  requires ok(d)
  ensures r == n(d)

func Deque.Empty(d) (b)
  property C02
  requires ok(d)
  ensures b <==> n(d) == 0
