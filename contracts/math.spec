package common/math
spec func ispow2(int) bool

func Split(n, m) (per, last)
  property C14
  requires m >= 1
  ensures[nothing to split] n == 0 ==> per == 0 && last == 0
  ensures[sizes] n > 0 ==> 1 <= last && last <= per
  ensures[cover] n > 0 ==> (n - last) % per == 0
  ensures[least size] n > 0 ==> n <= per * m && (per - 1) * m < n

func Max(a, b) (r)
  property C14
  types int | int8 | int64 | uint64 | uint8 | float64 | string
  ensures (r == a || r == b) && r >= a && r >= b

func Min(a, b) (r)
  property C14
  types int | int8 | int64 | uint64 | uint8 | float64 | string
  ensures (r == a || r == b) && r <= a && r <= b

func Abs(a) (r)
  property C14
  types int | int8 | int16 | int32 | int64 | float64
  ensures a >= 0 ==> r == a
  ensures[negative] a < 0 && a != minval(a) ==> r == 0 - a

func IsPowOf2(n) (r)
  property C14
  mode bv
  types uint8 | uint16 | uint32 | uint64 | uint
  ensures r <==> ispow2(n)

func RoundUpPowOf2(n) (r)
  property C14
  mode bv
  types uint8 | uint16 | uint32 | uint64 | uint
  ensures[least power] n >= 1 && n <= msb(n) ==> ispow2(r) && r >= n && r - n < n
  ensures[not representable] n == 0 || n > msb(n) ==> r == 0

func RoundDownPowOf2(n) (r)
  property C14
  mode bv
  types uint8 | uint16 | uint32 | uint64 | uint
  requires n >= 1
  ensures[greatest power] ispow2(r) && r <= n && n - r < r

func FindLastBitSet(x) (r)
  property C14
  mode bv
  types uint8 | uint16 | uint32 | uint64 | uint
  ensures[zero] x == 0 ==> r == 0
  ensures[highest bit] x != 0 ==> 1 <= r && r <= 64 && shr(x, r - 1) == 1
