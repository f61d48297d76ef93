// Finite sets of integers and sums over them (assumed facts of arithmetic).
package lib

// sum of v over the members of the finite set d that are at least lo
spec func finite(set[int]) bool
spec func msum(set[int], fn[int]int, int) int
axiom finite_empty : finite(constfn(false))
axiom finite_add : forall d: set[int], k: int :: {finite(d[k := true])} finite(d) ==> finite(d[k := true])
axiom finite_sub : forall d: set[int], e: set[int] :: {finite(d), finite(e)} finite(d) && (forall k :: {e[k]} e[k] ==> d[k]) ==> finite(e)
axiom msum_empty : forall v: fn[int]int, lo: int :: {msum(constfn(false), v, lo)} msum(constfn(false), v, lo) == 0
axiom msum_add : forall d: set[int], v: fn[int]int, lo: int, k: int :: {msum(d[k := true], v, lo)} msum(d[k := true], v, lo) == msum(d, v, lo) + (if d[k] || k < lo then 0 else v[k])
axiom msum_set : forall d: set[int], v: fn[int]int, lo: int, k: int, x: int :: {msum(d, v[k := x], lo)} msum(d, v[k := x], lo) == msum(d, v, lo) + (if d[k] && k >= lo then x - v[k] else 0)
axiom msum_ext : forall d: set[int], e: set[int], v: fn[int]int, w: fn[int]int, lo: int :: {msum(d, v, lo), msum(e, w, lo)} (forall k :: {d[k]} {e[k]} k >= lo ==> (d[k] <==> e[k]) && (d[k] ==> v[k] == w[k])) ==> msum(d, v, lo) == msum(e, w, lo)
axiom msum_mono : forall d: set[int], e: set[int], v: fn[int]int, lo: int, hi: int :: {msum(e, v, hi), msum(d, v, lo)} finite(d) && lo <= hi && (forall k :: {e[k]} e[k] && k >= hi ==> d[k]) && (forall k :: {d[k]} d[k] && k >= lo ==> v[k] >= 0) ==> 0 <= msum(e, v, hi) && msum(e, v, hi) <= msum(d, v, lo)

axiom msum_one : forall d: set[int], v: fn[int]int, lo: int, k: int :: {msum(d, v, lo), d[k]} finite(d) && d[k] && k >= lo && (forall j :: {d[j]} d[j] && j >= lo ==> v[j] >= 0) ==> v[k] <= msum(d, v, lo)

