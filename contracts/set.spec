package common/container/set

func New() (s)
  property C10
  allocates Set[$T], map[$T]Unit
  ensures fresh(s) && s.m != nil && len(s.m) == 0
  ensures[empty] forall x: $T :: {domof(s.m)[x]} !(x in s.m)

func Set.Add(s, elem)
  property C10
  requires s != nil && s.m != nil
  modifies s.m[*]
  ensures[members] forall x: $T :: {domof(s.m)[x]} (x in s.m) <==> (old(x in s.m) || x == elem)
  ensures[size] len(s.m) == old(len(s.m)) + (if old(elem in s.m) then 0 else 1)

func Set.Remove(s, elem)
  property C10
  requires s != nil && s.m != nil
  modifies s.m[*]
  ensures[members] forall x: $T :: {domof(s.m)[x]} (x in s.m) <==> (old(x in s.m) && x != elem)
  ensures[size] len(s.m) == old(len(s.m)) - (if old(elem in s.m) then 1 else 0)

func Set.Contains(s, elem) (b)
  property C10
  requires s != nil && s.m != nil
  ensures b <==> (elem in s.m)

func Set.Len(s) (n)
  property C10
  requires s != nil && s.m != nil
  ensures n == len(s.m)

func Set.Empty(s) (b)
  property C10
  requires s != nil && s.m != nil
  ensures b <==> len(s.m) == 0
