package common/container/ringbuffer/unbounded

// the queue holds, in order, the slots of the absolute positions out .. in-1 (position a lives in slot a mod size)
def wf(r) := r != nil && 0 <= r.size && r.size <= 9223372036854775807 && len(r.data) == r.size && r.out <= r.in && r.in - r.out <= r.size
def n(r) := r.in - r.out
// every value still queued is the one that was d places further back before
def kept(r, upto, d) := r.size >= old(r.size) && (forall a :: {r.data[a % r.size]} r.out <= a && a < upto ==> r.data[a % r.size] == old(r.data)[(a - r.out + old(r.out) + d) % old(r.size)])
def smaller(a, b) := if a < b then a else b

func New(size) (r)
  property C09
  panics size > 9223372036854775807
  allocates Ring[$T], []$T
  ensures fresh(r) && wf(r) && n(r) == 0 && r.size == size

func Ring.Pop(r) (v)
  property C09
  requires wf(r)
  panics n(r) == 0
  modifies r.out
  ensures[first] v == old(r.data[r.out % r.size])
  ensures wf(r) && n(r) == old(n(r)) - 1
  ensures[order] kept(r, r.in, 1)

func Ring.Peek(r) (v)
  property C09
  requires wf(r)
  panics n(r) == 0
  ensures[first] v == r.data[r.out % r.size]

func Ring.Push(r, e)
  property C09
  requires wf(r) && r.in < 18446744073709551615
  panics n(r) == r.size && 2 * r.size > 9223372036854775807
  modifies r.in, r.out, r.size, r.data, r.data[*]
  allocates []$T
  ensures wf(r) && n(r) == old(n(r)) + 1
  ensures[last] r.data[(r.in - 1) % r.size] == e
  ensures[order] kept(r, r.in - 1, 0)

func Ring.MPush(r, elems)
  property C09
  requires wf(r) && r.in + len(elems) <= 18446744073709551615 && (len(elems) == 0 || base(elems) != base(r.data))
  panics len(elems) > r.size - n(r) && (2 * r.size > 9223372036854775807 || r.size + len(elems) > 9223372036854775807)
  modifies r.in, r.out, r.size, r.data, r.data[*]
  allocates []$T
  ensures wf(r) && n(r) == old(n(r)) + len(elems)
  ensures[appended] forall a :: {r.data[a % r.size]} r.in - len(elems) <= a && a < r.in ==> r.data[a % r.size] == elems[a - (r.in - len(elems))]
  ensures[order] kept(r, r.in - len(elems), 0)

func Ring.MPop(r, size) (s)
  property C09
  requires wf(r)
  let k := smaller(size, n(r))
  modifies r.out
  allocates []$T
  ensures len(s) == old(k) && (old(k) > 0 ==> fresh(s))
  ensures[values] forall i :: {s[i]} 0 <= i && i < old(k) ==> s[i] == old(r.data)[(old(r.out) + i) % r.size]
  ensures wf(r) && n(r) == old(n(r)) - old(k)
  ensures[order] kept(r, r.in, old(k))

func Ring.MPopCopy(r, dst)
  property C09
  requires wf(r) && (len(dst) == 0 || base(dst) != base(r.data))
  let k := smaller(len(dst), n(r))
  modifies r.out, dst[*]
  ensures[values] forall i :: {dst[i]} 0 <= i && i < len(dst) ==> dst[i] == (if i < old(k) then old(r.data)[(old(r.out) + i) % r.size] else old(dst[i]))
  ensures wf(r) && n(r) == old(n(r)) - old(k)
  ensures[order] kept(r, r.in, old(k))

func Ring.Reset(r)
  property C09
  requires wf(r)
  modifies r.in, r.out, r.data
  allocates []$T
  ensures wf(r) && n(r) == 0 && r.size == old(r.size)

func Ring.Cap(r) (c)
  property C09
  requires wf(r)
  ensures c == r.size

func Ring.Len(r) (c)
  property C09
  requires wf(r)
  ensures c == n(r)

func Ring.Avail(r) (c)
  property C09
  requires wf(r)
  ensures c == r.size - n(r)

func Ring.Empty(r) (b)
  property C09
  requires wf(r)
  ensures b <==> n(r) == 0

func Ring.Full(r) (b)
  property C09
  requires wf(r)
  ensures b <==> n(r) == r.size

func Ring.Grow(r, minSize)
  property C09
  requires wf(r)
  panics 2 * r.size > 9223372036854775807 || minSize > 9223372036854775807
  modifies r.in, r.out, r.size, r.data
  allocates []$T
  ensures wf(r) && n(r) == old(n(r)) && r.in <= old(r.in) && r.size >= minSize && r.size >= 2 && fresh(r.data)
  ensures[order] kept(r, r.in, 0)
