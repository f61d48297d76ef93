package help/utils

func GetSwitchFromOptions(m, key) (r)
  property C27
  ensures[on unless set off] r <==> !(key in m) || m[key]

func SetSwitchFromOptions(m, key, value)
  property C27
  modifies m[*]
  allocates map[string]bool
  ensures[set] m != nil ==> key in m && m[key] == value
  ensures[the others kept] m != nil ==> (forall x: string :: {domof(m)[x]} x != key ==> (x in m <==> old(x in m)) && (x in m ==> m[x] == old(m[x])))

trusted func math/rand.Intn(n) (r)
  requires[a range] n > 0
  ensures 0 <= r && r < n
trusted func math/rand.Seed(n)

def digit(c) := 48 <= c && c <= 57
def lower(c) := 97 <= c && c <= 122
def capital(c) := 65 <= c && c <= 90
def inclass(c, kind) := if kind == 0 then digit(c) else if kind == 1 then lower(c) else if kind == 2 then capital(c) else digit(c) || lower(c) || capital(c)
func RandStr(size, kind) (r)
  property C27
  requires size >= 0
  allocates []byte, []int, [][]int
  ensures[the requested length] len(r) == size
  ensures[characters of the class only] forall i :: {r[i]} 0 <= i && i < size ==> inclass(r[i], kind)
  loop 0
    invariant fresh(result) && len(result) == size && 0 <= i
    invariant kind < 0 || kind > 2 || ikind == kind
    invariant forall j :: {result[j]} 0 <= j && j < i ==> inclass(result[j], kind)

func IsSameSiteURLPath(url) (r)
  property C27
  ensures[a path of this site] r <==> len(url) >= 2 && url[0] == 47 && url[1] != 47 && url[1] != 92

def amount(size, k) := if k == 0 then real(size) else if k == 1 then real(size) / real(1024) else if k == 2 then real(size) / real(1048576) else if k == 3 then real(size) / real(1073741824) else if k == 4 then real(size) / real(1099511627776) else real(size) / real(1125899906842624)
def unit(k) := if k == 0 then "B" else if k == 1 then "KB" else if k == 2 then "MB" else if k == 3 then "GB" else if k == 4 then "TB" else "PB"
// the first unit in which the amount is at most 1024
def level(size) := if size <= 1024 then 0 else if size <= 1048576 then 1 else if size <= 1073741824 then 2 else if size <= 1099511627776 then 3 else if size <= 1125899906842624 then 4 else 5
func FormatByte(size) (r)
  property C27
  allocates []any
  ensures[the amount in the matching unit] r == concat(sprint("%.2f", box(amount(size, level(size)))), " ", unit(level(size)))
  loop 0
    invariant 0 <= i && i <= 5 && i <= level(size)
    invariant fSize == amount(size, i)
def whole(n, k) := real(n) / (if k == 0 then real(1) else if k == 1 then real(1024) else if k == 2 then real(1048576) else if k == 3 then real(1073741824) else if k == 4 then real(1099511627776) else if k == 5 then real(1125899906842624) else real(1152921504606846976))
def suffix(k) := if k == 6 then "EB" else unit(k)
def sized(n) := sprint2(concat(if whole(n, log1024(n)) < real(10) then "%.1f" else "%.0f", " %s"), box(whole(n, log1024(n))), box(suffix(log1024(n))))
func logn(n, b) (r)
  property C27
  requires n > real(1) && b == real(1024)
  ensures r == ln(n) / ln(b)
func humanateBytes(s, b, sizes) (r)
  property C27
  requires b == real(1024) && len(sizes) == 7 && (forall i :: {sizes[i]} 0 <= i && i < 7 ==> sizes[i] == suffix(i))
  allocates []any
  ensures[few bytes] s < 10 ==> r == sprint("%d B", boxas("uint64", s))
  ensures[the amount in the matching unit] s >= 10 && clear1024(s) ==> r == sized(s)
func FileSize(s) (r)
  property C27
  allocates []any, []string
  ensures[few bytes] 0 <= s && s < 10 ==> r == sprint("%d B", boxas("uint64", s))
  ensures[the amount in the matching unit] s >= 10 && clear1024(s) ==> r == sized(s)
