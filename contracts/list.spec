package common/container/list
interior

// ---- the abstract sequence of a list: positions 1..len hold its elements, 0 and len+1 the sentinel
ghostfield List.seq : fn[int]*Element[$T]
ghostfield Element.pos : int

def root(l) := &l.root
def isroot(l, e) := ref(e) == ref(root(l))
def linked(l, i) := l.seq[i].next == l.seq[i+1] && l.seq[i+1].prev == l.seq[i]
def wf(l) := l != nil && l.len >= 0 && ref(l.seq[0]) == ref(root(l)) && ref(l.seq[l.len+1]) == ref(root(l)) && root(l).list == nil && (forall i :: {l.seq[i]} 1 <= i && i <= l.len ==> l.seq[i] != nil && allocated(l.seq[i]) && !isroot(l, l.seq[i]) && l.seq[i].list == l && l.seq[i].pos == i) && (forall i :: {l.seq[i].next} 0 <= i && i <= l.len ==> l.seq[i].next == l.seq[i+1]) && (forall i :: {l.seq[i].prev} 1 <= i && i <= l.len + 1 ==> l.seq[i].prev == l.seq[i-1]) && (forall e: *Element[$T] :: {e.list} allocated(e) && e.list == l ==> 1 <= e.pos && e.pos <= l.len && l.seq[e.pos] == e)
def ringwf(l) := wf(l)
def zeroed(l) := l != nil && l.len == 0 && root(l).next == nil && root(l).prev == nil && root(l).list == nil && (forall e: *Element[$T] :: {e.list} allocated(e) ==> e.list != l)
// a list is the zero value or a well-formed ring
def listinv(l) := l != nil && (root(l).next == nil ==> zeroed(l)) && (root(l).next != nil ==> wf(l))
def posof(l, e) := if isroot(l, e) then 0 else e.pos

// e now sits right after position p, everything else kept its order
def inserted(l, p, e) := l.len == old(l.len) + 1 && l.seq[p+1] == e && (forall k :: {l.seq[k]} (1 <= k && k <= p ==> l.seq[k] == old(l.seq)[k]) && (p + 1 < k && k <= l.len ==> l.seq[k] == old(l.seq)[k-1]))
def unchanged(l) := l.len == old(l.len) && (forall k :: {l.seq[k]} 1 <= k && k <= l.len ==> l.seq[k] == old(l.seq)[k])
// the element at position i moved to position q
def moved(l, i, q) := l.len == old(l.len) && l.seq[q] == old(l.seq)[i] && (forall k :: {l.seq[k]} 1 <= k && k <= l.len && k != q ==> l.seq[k] == old(l.seq)[if q <= i && q < k && k <= i then k - 1 else if i <= q && i <= k && k < q then k + 1 else k])

func Element.Next(e) (r)
  property C01
  requires e != nil && (e.list != nil ==> wf(e.list))
  ensures r == (if e.list == nil || e.pos == e.list.len then nil else e.list.seq[e.pos + 1])

func Element.Prev(e) (r)
  property C01
  requires e != nil && (e.list != nil ==> wf(e.list))
  ensures r == (if e.list == nil || e.pos == 1 then nil else e.list.seq[e.pos - 1])

func List.Clear(l) (r)
  property C01
  requires listinv(l)
  modifies l.root, l.len, l.seq, all Element[$T].next where e :: e.list == l, all Element[$T].prev where e :: e.list == l, all Element[$T].list where e :: e.list == l
  ghostset l.seq := lam i :: root(l)
  ensures r == l && wf(l) && l.len == 0
  ensures[detached] forall e: *Element[$T] :: {e.list} old(allocated(e)) && old(e.list) == l ==> e.list == nil
  loop 0
    invariant old(zeroed(l)) ==> e == nil
    invariant old(wf(l)) ==> e != nil && (isroot(l, e) || e.list == l)
    invariant[detached so far] forall x: *Element[$T] :: {x.list} x.list == (if old(allocated(x)) && old(x.list) == l && (old(zeroed(l)) || isroot(l, e) || old(x.pos) < e.pos) then nil else old(x.list))
    invariant forall x: *Element[$T] :: {x.next} x.next != old(x.next) ==> old(allocated(x)) && old(x.list) == l && (isroot(l, e) || old(x.pos) < e.pos)
    invariant forall x: *Element[$T] :: {x.prev} x.prev != old(x.prev) ==> old(allocated(x)) && old(x.list) == l && (isroot(l, e) || old(x.pos) < e.pos)
    decreases if e == nil || isroot(l, e) then 0 else l.len + 1 - e.pos

func New() (l)
  property C01
  closed Element[$T].list
  allocates List[$T]
  ensures fresh(l) && wf(l) && l.len == 0

func List.Len(l) (n)
  property C01
  requires l != nil
  ensures n == l.len

func List.Empty(l) (b)
  property C01
  requires l != nil
  ensures b <==> l.len == 0

func List.Front(l) (e)
  property C01
  requires listinv(l)
  ensures e == (if l.len == 0 then nil else l.seq[1])

func List.Back(l) (e)
  property C01
  requires listinv(l)
  ensures e == (if l.len == 0 then nil else l.seq[l.len])

func List.insert(l, e, at) (r)
  property C01
  requires wf(l)
  requires e != nil && at != nil && e.list == nil && !isroot(l, e) && (isroot(l, at) || at.list == l)
  requires l.len < 9223372036854775807
  let p := posof(l, at)
  modifies l.root, l.len, l.seq, e.next, e.prev, e.list, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x == e || x.list == l
  ghostset l.seq := lam i :: if i <= old(p) then old(l.seq)[i] else if i == old(p) + 1 then e else old(l.seq)[i-1]
  ghostset allof("Element[$T].pos") := lam x: *Element[$T] :: if x == e then old(p) + 1 else if allocated(x) && old(x.list) == l && old(x.pos) > old(p) then old(x.pos) + 1 else old(x.pos)
  ensures r == e && wf(l)
  ensures[order] inserted(l, old(p), e)

func List.remove(l, e)
  property C01
  requires wf(l) && e != nil && e.list == l
  let p := e.pos
  modifies l.root, l.len, l.seq, e.next, e.prev, e.list, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ghostset l.seq := lam i :: if i < old(p) then old(l.seq)[i] else old(l.seq)[i+1]
  ghostset allof("Element[$T].pos") := lam x: *Element[$T] :: if allocated(x) && old(x.list) == l && old(x.pos) > old(p) then old(x.pos) - 1 else old(x.pos)
  ensures wf(l) && e.list == nil && l.len == old(l.len) - 1
  ensures[order] forall k :: {l.seq[k]} 1 <= k && k <= l.len ==> l.seq[k] == old(l.seq)[if k < old(p) then k else k + 1]

func List.move(l, e, at)
  property C01
  requires wf(l) && e != nil && at != nil && e.list == l && (isroot(l, at) || at.list == l)
  let i := e.pos
  let p := posof(l, at)
  let q := if posof(l, at) < e.pos then posof(l, at) + 1 else posof(l, at)
  modifies l.root, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ghostset l.seq := lam k :: if k == old(q) then e else if old(q) <= old(i) && old(q) < k && k <= old(i) then old(l.seq)[k-1] else if old(i) <= old(q) && old(i) <= k && k < old(q) then old(l.seq)[k+1] else old(l.seq)[k]
  ghostset allof("Element[$T].pos") := lam x: *Element[$T] :: if x == e then old(q) else if allocated(x) && old(x.list) == l then (if old(q) <= old(x.pos) && old(x.pos) < old(i) then old(x.pos) + 1 else if old(i) < old(x.pos) && old(x.pos) <= old(q) then old(x.pos) - 1 else old(x.pos)) else old(x.pos)
  ensures wf(l)
  ensures[order] moved(l, old(i), old(q))

def handle(l, e) := e != nil && (e.list == l ==> wf(l))

func List.Remove(l, e) (v)
  property C01
  requires listinv(l) && handle(l, e)
  let p := e.pos
  modifies l.root, l.len, l.seq, e.next, e.prev, e.list, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures[value] v == e.Value
  ensures listinv(l) && e.list != l
  ensures[removed] old(e.list == l) ==> (wf(l) && e.list == nil && l.len == old(l.len) - 1 && (forall k :: {l.seq[k]} 1 <= k && k <= l.len ==> l.seq[k] == old(l.seq)[if k < old(p) then k else k + 1]))
  ensures[foreign element] !old(e.list == l) ==> l.len == old(l.len) && l.seq == old(l.seq) && e.list == old(e.list)

func List.RemoveFront(l) (v)
  property C01
  requires listinv(l) && l.len > 0
  let e := l.seq[1]
  let p := 1
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].list where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures[value] v == old(e).Value
  ensures wf(l) && l.len == old(l.len) - 1 && old(e).list == nil
  ensures[order] forall k :: {l.seq[k]} 1 <= k && k <= l.len ==> l.seq[k] == old(l.seq)[if k < old(p) then k else k + 1]

func List.RemoveBack(l) (v)
  property C01
  requires listinv(l) && l.len > 0
  let e := l.seq[l.len]
  let p := l.len
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].list where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures[value] v == old(e).Value
  ensures wf(l) && l.len == old(l.len) - 1 && old(e).list == nil
  ensures[order] forall k :: {l.seq[k]} 1 <= k && k <= l.len ==> l.seq[k] == old(l.seq)[if k < old(p) then k else k + 1]

func List.PushFront(l, v) (e)
  property C01
  requires listinv(l) && l.len < 9223372036854775807
  closed Element[$T].list
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  allocates Element[$T]
  ensures fresh(e) && e.Value == v && wf(l)
  ensures[order] inserted(l, 0, e)

func List.PushBack(l, v) (e)
  property C01
  requires listinv(l) && l.len < 9223372036854775807
  closed Element[$T].list
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  allocates Element[$T]
  ensures fresh(e) && e.Value == v && wf(l)
  ensures[order] inserted(l, old(l.len), e)

func List.InsertBefore(l, v, mark) (e)
  property C01
  requires listinv(l) && mark != nil && (mark.list == l ==> wf(l)) && l.len < 9223372036854775807
  closed Element[$T].list
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  allocates Element[$T]
  ensures listinv(l) && (e == nil <==> old(mark.list) != l)
  ensures[inserted] old(mark.list) == l ==> fresh(e) && e.Value == v && wf(l) && inserted(l, old(mark.pos) - 1, e)
  ensures[foreign mark] old(mark.list) != l ==> l.len == old(l.len) && l.seq == old(l.seq)

func List.InsertAfter(l, v, mark) (e)
  property C01
  requires listinv(l) && mark != nil && (mark.list == l ==> wf(l)) && l.len < 9223372036854775807
  closed Element[$T].list
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  allocates Element[$T]
  ensures listinv(l) && (e == nil <==> old(mark.list) != l)
  ensures[inserted] old(mark.list) == l ==> fresh(e) && e.Value == v && wf(l) && inserted(l, old(mark.pos), e)
  ensures[foreign mark] old(mark.list) != l ==> l.len == old(l.len) && l.seq == old(l.seq)

func List.MoveToFront(l, e)
  property C01
  requires listinv(l) && handle(l, e)
  modifies l.root, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures listinv(l)
  ensures[moved] old(e.list) == l ==> wf(l) && e.list == l && moved(l, old(e.pos), 1)
  ensures[foreign element] old(e.list) != l ==> unchanged(l)

func List.MoveToBack(l, e)
  property C01
  requires listinv(l) && handle(l, e)
  modifies l.root, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures listinv(l)
  ensures[moved] old(e.list) == l ==> wf(l) && e.list == l && moved(l, old(e.pos), old(l.len))
  ensures[foreign element] old(e.list) != l ==> unchanged(l)

func List.MoveBefore(l, e, mark)
  property C01
  requires listinv(l) && handle(l, e) && handle(l, mark)
  modifies l.root, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures listinv(l)
  ensures[moved] old(e.list) == l && old(mark.list) == l && e != mark ==> wf(l) && moved(l, old(e.pos), (if old(mark.pos) < old(e.pos) then old(mark.pos) else old(mark.pos) - 1))
  ensures[foreign element] old(e.list) != l || old(mark.list) != l || e == mark ==> unchanged(l)

func List.MoveAfter(l, e, mark)
  property C01
  requires listinv(l) && handle(l, e) && handle(l, mark)
  modifies l.root, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  ensures listinv(l)
  ensures[moved] old(e.list) == l && old(mark.list) == l && e != mark ==> wf(l) && moved(l, old(e.pos), (if old(mark.pos) < old(e.pos) then old(mark.pos) + 1 else old(mark.pos)))
  ensures[foreign element] old(e.list) != l || old(mark.list) != l || e == mark ==> unchanged(l)

func List.PushBackList(l, other)
  property C01
  requires listinv(l) && listinv(other) && l.len + other.len < 9223372036854775807
  closed Element[$T].list
  let n := other.len
  let m := l.len
  let os := other.seq
  let ls := l.seq
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  allocates Element[$T]
  ensures wf(l) && listinv(other) && l.len == old(m) + old(n)
  ensures[kept] forall k :: {old(ls)[k]} 1 <= k && k <= old(m) ==> l.seq[k] == old(ls)[k]
  ensures[copied] forall k :: {old(os)[k]} 1 <= k && k <= old(n) ==> fresh(l.seq[old(m) + k]) && l.seq[old(m) + k].Value == old(os)[k].Value
  ensures[source kept] l != other ==> other.len == old(n) && other.seq == old(os)
  loop 0
    invariant wf(l)
    invariant l != other && old(root(other).next) != nil ==> wf(other)
    invariant l != other && old(root(other).next) == nil ==> zeroed(other)
    invariant old(root(other).next) == nil ==> old(n) == 0
    invariant 0 <= i && i <= old(n) && l.len == old(m) + old(n) - i
    invariant i > 0 ==> e == old(os)[old(n) - i + 1]
    invariant l != other ==> other.len == old(n) && other.seq == old(os)
    invariant forall k :: {old(ls)[k]} 1 <= k && k <= old(m) ==> l.seq[k] == old(ls)[k]
    invariant forall k :: {old(os)[k]} 1 <= k && k <= old(n) - i ==> fresh(l.seq[old(m) + k]) && l.seq[old(m) + k].Value == old(os)[k].Value
    decreases i

func List.PushFrontList(l, other)
  property C01
  requires listinv(l) && listinv(other) && l.len + other.len < 9223372036854775807
  closed Element[$T].list
  let n := other.len
  let m := l.len
  let os := other.seq
  let ls := l.seq
  modifies l.root, l.len, l.seq, all Element[$T].next where x :: x.list == l, all Element[$T].prev where x :: x.list == l, all Element[$T].pos where x :: x.list == l
  allocates Element[$T]
  ensures wf(l) && listinv(other) && l.len == old(m) + old(n)
  ensures[kept] forall k :: {old(ls)[k]} 1 <= k && k <= old(m) ==> l.seq[old(n) + k] == old(ls)[k]
  ensures[copied] forall k :: {old(os)[k]} 1 <= k && k <= old(n) ==> fresh(l.seq[k]) && l.seq[k].Value == old(os)[k].Value
  ensures[source kept] l != other ==> other.len == old(n) && other.seq == old(os)
  loop 0
    invariant wf(l)
    invariant l != other && old(root(other).next) != nil ==> wf(other)
    invariant l != other && old(root(other).next) == nil ==> zeroed(other)
    invariant old(root(other).next) == nil ==> old(n) == 0
    invariant 0 <= i && i <= old(n) && l.len == old(m) + old(n) - i
    invariant i > 0 ==> e == old(os)[i]
    invariant l != other ==> other.len == old(n) && other.seq == old(os)
    invariant forall k :: {old(ls)[k]} 1 <= k && k <= old(m) ==> l.seq[old(n) - i + k] == old(ls)[k]
    invariant forall k :: {old(os)[k]} i < k && k <= old(n) ==> fresh(l.seq[k - i]) && l.seq[k - i].Value == old(os)[k].Value
    decreases i
