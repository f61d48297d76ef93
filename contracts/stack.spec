package common/container/stack
import list.spec
interior

// a stack is its list's sequence of values; the list's own contracts carry the order
def ok(d) := d != nil && listinv(d.l)
def val(d, k) := d.l.seq[k].Value
def n(d) := d.l.len

func New() (d)
  property C02
  closed common/container/list.Element[$T].list
  allocates Stack[$T], common/container/list.List[$T]
  ensures fresh(d) && ok(d) && n(d) == 0

func Stack.Push(d, elem)
  property C02
  requires ok(d) && n(d) < 9223372036854775807
  closed common/container/list.Element[$T].list
  modifies d.l.root, d.l.len, d.l.seq, all common/container/list.Element[$T].next where x :: x.list == d.l, all common/container/list.Element[$T].prev where x :: x.list == d.l, all common/container/list.Element[$T].pos where x :: x.list == d.l
  allocates common/container/list.Element[$T]
  ensures ok(d) && d.l == old(d.l) && n(d) == old(n(d)) + 1
  ensures[top] val(d, n(d)) == elem
  ensures[order] forall k :: {d.l.seq[k]} 1 <= k && k < n(d) ==> d.l.seq[k] == old(d.l.seq)[k] && val(d, k) == old(val(d, k))

func Stack.Pop(d) (v)
  property C02
  requires ok(d) && n(d) > 0
  modifies d.l.root, d.l.len, d.l.seq, all common/container/list.Element[$T].next where x :: x.list == d.l, all common/container/list.Element[$T].prev where x :: x.list == d.l, all common/container/list.Element[$T].list where x :: x.list == d.l, all common/container/list.Element[$T].pos where x :: x.list == d.l
  ensures[top] v == old(val(d, n(d)))
  ensures ok(d) && d.l == old(d.l) && n(d) == old(n(d)) - 1
  ensures[order] forall k :: {d.l.seq[k]} 1 <= k && k <= n(d) ==> val(d, k) == old(val(d, k))

func Stack.Len(d) (r)
  property C02
  requires ok(d)
  ensures r == n(d)

func Stack.Empty(d) (b)
  property C02
  requires ok(d)
  ensures b <==> n(d) == 0

func Stack.Peek(d) (v)
  property C02
  requires ok(d) && n(d) > 0
  ensures[top] v == val(d, n(d))
