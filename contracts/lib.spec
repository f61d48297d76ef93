// Assumed contracts of the standard library.
package lib

// every object that bytes are written to has its bytes as ghost state
ghostmap content : string

// hash/maphash: the sum is a function of the seed and the bytes written since the last reset
ghostfield hash/maphash.Hash.seed : int
spec func maphash(int, string) uint64
axiom maphash_range : forall s : int, c : string :: {maphash(s, c)} 0 <= maphash(s, c) && maphash(s, c) <= 18446744073709551615

trusted func hash/maphash.Hash.Reset(h)
  modifies content(h)
  ensures content(h) == ""

trusted func hash/maphash.Hash.Write(h, b) (n, err)
  modifies content(h)
  ensures content(h) == concat(old(content(h)), str(b)) && n == len(b) && err == nil

trusted func hash/maphash.Hash.WriteString(h, s) (n, err)
  modifies content(h)
  ensures content(h) == concat(old(content(h)), s) && n == len(s) && err == nil

trusted func hash/maphash.Hash.Sum64(h) (r)
  ensures r == maphash(h.seed, content(h))

trusted func hash/maphash.Hash.SetSeed(h, s)
  modifies content(h), h.seed
  ensures content(h) == ""

trusted func hash/maphash.MakeSeed() (s)

trusted func hash/maphash.Hash.Seed(h) (s)

// hash/fnv
spec func fnv64(string) uint64
axiom fnv64_range : forall c : string :: {fnv64(c)} 0 <= fnv64(c) && fnv64(c) <= 18446744073709551615

trusted func hash/fnv.New64() (h)
  allocates content
  ensures h != nil && fresh(h) && content(h) == ""

trusted func iface:hash.Hash64.Write(h, b) (n, err)
  modifies content(h)
  ensures content(h) == concat(old(content(h)), str(b)) && n == len(b) && err == nil

trusted func iface:hash.Hash64.Sum64(h) (r)
  ensures r == fnv64(content(h))

// math/rand, time, math
trusted func math/rand.NewSource(seed) (s)
  ensures s != nil

trusted func math/rand.New(src) (r)
  ensures r != nil

trusted func math/rand.Rand.Uint64(r) (v)
  ensures 0 <= v && v <= 18446744073709551615

// the logarithm of a positive float64 below one
trusted func math.Log(x) (r)
  ensures real(0) < x && x < real(1) ==> real(0) - real(746) < r && r < real(0)
  ensures real(1) < x ==> r == ln(x)

spec func ln(real) real
axiom ln_positive : ln(real(1024)) > real(0)
// the whole part of the logarithm to base 1024, for whole numbers in range; float64 rounds it up for numbers within a
// 2^-40th part below 2^50 and 2^60
axiom ln_level : forall n : int :: {ln(real(n))} 10 <= n && n <= 18446744073709551615 ==> 0 <= floor(ln(real(n)) / ln(real(1024))) && floor(ln(real(n)) / ln(real(1024))) <= 6 && (clear1024(n) ==> floor(ln(real(n)) / ln(real(1024))) == log1024(n))
def clear1024(n) := n <= 1125899906841600 || 1125899906842624 <= n && n <= 1152921504605798400 || 1152921504606846976 <= n
def log1024(n) := if n < 1024 then 0 else if n < 1048576 then 1 else if n < 1073741824 then 2 else if n < 1099511627776 then 3 else if n < 1125899906842624 then 4 else if n < 1152921504606846976 then 5 else 6
trusted func math.Pow(x, y) (r)
  ensures x == real(1024) ==> (y == real(0) ==> r == real(1)) && (y == real(1) ==> r == real(1024)) && (y == real(2) ==> r == real(1048576)) && (y == real(3) ==> r == real(1073741824)) && (y == real(4) ==> r == real(1099511627776)) && (y == real(5) ==> r == real(1125899906842624)) && (y == real(6) ==> r == real(1152921504606846976))

trusted func math.Ceil(x) (r)
  ensures r == real(0 - floor(real(0) - x))

trusted func math.Floor(x) (r)
  ensures r == real(floor(x))

// time: an instant is its distance from 1970 in nanoseconds; the clock never goes backwards (monotonic reading)
ghostglobal now : int
def clampdur(d) := if d > 9223372036854775807 then 9223372036854775807 else if d < 0 - 9223372036854775808 then 0 - 9223372036854775808 else d

trusted func time.Now() (t)
  modifies ghost now
  ensures t == now && now >= old(now) && 0 < now && now <= 4611686018427387904

trusted func time.Since(t) (d)
  modifies ghost now
  ensures d == clampdur(now - t) && now >= old(now) && 0 < now && now <= 4611686018427387904

trusted func time.Time.Sub(t, u) (d)
  ensures d == clampdur(t - u)

trusted func time.Time.Add(t, d) (r)
  ensures r == t + d

trusted func time.Time.After(t, u) (b)
  ensures b <==> t > u

trusted func time.Time.Before(t, u) (b)
  ensures b <==> t < u

trusted func time.Time.Equal(t, u) (b)
  ensures b <==> t == u

trusted func time.Time.IsZero(t) (b)
  ensures b <==> t == 0 - 62135596800000000000

trusted func time.Time.UnixNano(t) (n)
  ensures 0 - 9223372036854775808 <= t ==> n == t

trusted func time.Time.Unix(t) (n)
  ensures n == t / 1000000000

trusted func time.Time.UnixMilli(t) (n)
  ensures n == t / 1000000

trusted func errors.New(s) (e)
  ensures e != nil

trusted func fmt.Errorf(s, a) (e)
  ensures e != nil

// one argument as text: a function of the format and the value; bytes in hexadecimal
spec func sprint(string, any) string
spec func sprint2(string, any, any) string
spec func hex(string) string
trusted func fmt.Sprintf(s, a) (r)
  ensures len(a) == 1 ==> (if s == "%x" && typeis(a[0], "[]byte") then r == hex(str(cast("[]byte", a[0]))) else r == sprint(s, a[0]))
  ensures len(a) == 2 ==> r == sprint2(s, a[0], a[1])

// timers and cancellation: only the channels matter, any of which may be ready
trusted func time.NewTimer(d) (t)
  allocates time.Timer
  ensures t != nil && fresh(t)

trusted func time.Timer.Stop(t) (b)

trusted func iface:context.Context.Done(c) (ch)

trusted func time.UnixMilli(ms) (t)
  ensures t == ms * 1000000

// strings
spec func contains(string, string) bool
spec func nparts(string, string) int
spec func splitpart(string, string, int) string

trusted func strings.Contains(s, x) (b)
  ensures b <==> contains(s, x)

// the parts between the separators, in order; at least two where there is a separator
trusted func strings.Split(s, sep) (r)
  allocates []string
  ensures sep != "" ==> fresh(r) && len(r) == nparts(s, sep) && len(r) >= 1 && (contains(s, sep) <==> len(r) >= 2) && (forall i :: {r[i]} 0 <= i && i < len(r) ==> r[i] == splitpart(s, sep, i))

// regexp
ghostfield regexp.Regexp.pattern : string
spec func goodpattern(string) bool
spec func matches(string, string) bool

trusted func regexp.MustCompile(p) (r)
  requires[the pattern is well formed] goodpattern(p)
  allocates regexp.Regexp
  ensures r != nil && r.pattern == p

trusted func regexp.Regexp.MatchString(r, s) (b)
  ensures b <==> matches(r.pattern, s)
