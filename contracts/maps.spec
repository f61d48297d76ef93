package help/utils
callbacks func(iface interface{},iface interface{})()
// how often the callback was called with each key, and the value it was last called with
ghostglobal callcount : fn[any]int
ghostglobal callval : fn[any]any

// m.m and the map's contents are touched only under the lock, written only under the write lock
def same(m) := len(m.m) == old(len(m.m)) && (forall x: any :: {domof(m.m)[x]} (x in m.m <==> old(x in m.m)) && (x in m.m ==> m.m[x] == old(m.m[x])))
def others(m, k) := forall x: any :: {domof(m.m)[x]} x != k ==> (x in m.m <==> old(x in m.m)) && (x in m.m ==> m.m[x] == old(m.m[x]))

monitor Map(m) lock RWMutex guards m
  modifies m.m[*]

func Map.Get(m, key) (v)
  property C11
  flag atomic
  requires m != nil
  ensures[current value] v == (if key in old(m.m) then old(m.m[key]) else nil)
  ensures[only read] same(m)

func Map.Set(m, key, value)
  property C11
  flag atomic
  requires m != nil
  ensures[stored] key in m.m && m.m[key] == value
  ensures[others kept] others(m, key)
  ensures[size] len(m.m) == old(len(m.m)) + (if old(key in m.m) then 0 else 1)

func Map.TestAndSet(m, key, value) (v)
  property C11
  flag atomic
  requires m != nil
  ensures[absent: stored] !old(key in m.m) ==> v == nil && key in m.m && m.m[key] == value && len(m.m) == old(len(m.m)) + 1
  ensures[present: returned] old(key in m.m) ==> v == old(m.m[key]) && key in m.m && m.m[key] == old(m.m[key]) && len(m.m) == old(len(m.m))
  ensures[others kept] others(m, key)

func Map.Del(m, key)
  property C11
  flag atomic
  requires m != nil
  ensures[gone] !(key in m.m)
  ensures[others kept] others(m, key)
  ensures[size] len(m.m) == old(len(m.m)) - (if old(key in m.m) then 1 else 0)

func Map.Len(m) (n)
  property C11
  flag atomic
  requires m != nil
  ensures n == old(len(m.m))
  ensures[only read] same(m)

func Map.RLockRange(m, f)
  property C11
  flag atomic
  requires m != nil && f != nil
  modifies ghost callcount, ghost callval
  ensures[every entry once] forall x: any :: {callcount[x]} callcount[x] == old(callcount)[x] + (if x in old(m.m) then 1 else 0)
  ensures[with its value] forall x: any :: {callval[x]} x in old(m.m) ==> callval[x] == old(m.m[x])
  ensures[only read] same(m)
  loop 0
    invariant forall x: any :: {callcount[x]} callcount[x] == old(callcount)[x] + (if visited[x] then 1 else 0)
    invariant forall x: any :: {callval[x]} visited[x] ==> callval[x] == m.m[x]

func Map.LockRange(m, f)
  property C11
  flag atomic
  requires m != nil && f != nil
  modifies ghost callcount, ghost callval
  ensures[every entry once] forall x: any :: {callcount[x]} callcount[x] == old(callcount)[x] + (if x in old(m.m) then 1 else 0)
  ensures[with its value] forall x: any :: {callval[x]} x in old(m.m) ==> callval[x] == old(m.m[x])
  ensures[only read] same(m)
  loop 0
    invariant forall x: any :: {callcount[x]} callcount[x] == old(callcount)[x] + (if visited[x] then 1 else 0)
    invariant forall x: any :: {callval[x]} visited[x] ==> callval[x] == m.m[x]
