package help/utils

// characters
def at(s, i) := runes(s)[i]
// r is s with the characters from a up to b replaced by stars, where s goes on after b, and s where it does not
def masked(r, s, a, b) := nrunes(r) == nrunes(s) && (forall i :: {at(r, i)} 0 <= i && i < nrunes(s) ==> at(r, i) == (if nrunes(s) > b && a <= i && i < b then 42 else at(s, i)))

func Substr2(str, start, end) (r)
  property C24
  requires[within the text] 0 <= start && start <= end && end <= nrunes(str)
  allocates []rune
  ensures[those characters] utf8(r) && nrunes(r) == end - start && (forall i :: {at(r, i)} 0 <= i && i < end - start ==> at(r, i) == at(str, start + i))

axiom mobile_pattern : goodpattern("^1[0-9]\\d{9}$") && (forall s : string :: {matches("^1[0-9]\\d{9}$", s)} matches("^1[0-9]\\d{9}$", s) ==> mobile(s))
axiom mobile_pattern_else : forall s : string :: {matches("^1[0-9]\\d{9}$", s)} !matches("^1[0-9]\\d{9}$", s) && nrunes(s) == 11 && at(s, 0) == 49 ==> (exists i :: {at(s, i)} 0 <= i && i < 11 && !(48 <= at(s, i) && at(s, i) <= 57))
def mobile(s) := nrunes(s) == 11 && at(s, 0) == 49 && (forall i :: {at(s, i)} 0 <= i && i < 11 ==> 48 <= at(s, i) && at(s, i) <= 57)

def local(s) := splitpart(s, "@", 0)
def domain(s) := splitpart(s, "@", 1)
// what of the local part of an address is shown
def shown(s) := if nrunes(local(s)) < 3 then 0 else 3
func HideStar(str) (r)
  property C24
  allocates []rune, []string, regexp.Regexp
  ensures[empty] str == "" ==> nrunes(r) == 3 && at(r, 0) == 42 && at(r, 1) == 42 && at(r, 2) == 42
  ensures[address: at most three characters before the at sign] contains(str, "@") && str != "" ==> nrunes(r) == shown(str) + 4 + nrunes(domain(str)) && (forall i :: {at(r, i)} 0 <= i && i < shown(str) ==> at(r, i) == at(str, i) || at(r, i) == at(local(str), i)) && (forall i :: {at(r, i)} shown(str) <= i && i < shown(str) + 3 ==> at(r, i) == 42) && at(r, shown(str) + 3) == 64
  ensures[address: the domain is kept] contains(str, "@") && str != "" ==> (forall i :: {at(r, i)} shown(str) + 4 <= i && i < shown(str) + 4 + nrunes(domain(str)) ==> at(r, i) == at(domain(str), i - shown(str) - 4))
  ensures[phone number: the middle four hidden] !contains(str, "@") && mobile(str) ==> nrunes(r) == 11 && (forall i :: {at(r, i)} 0 <= i && i < 11 ==> at(r, i) == (if 3 <= i && i < 7 then 42 else at(str, i)))
  ensures[one character] str != "" && !contains(str, "@") && nrunes(str) == 1 ==> nrunes(r) == 3 && at(r, 0) == 42 && at(r, 1) == 42 && at(r, 2) == 42
  ensures[two characters] !contains(str, "@") && nrunes(str) == 2 ==> nrunes(r) == 2 && at(r, 0) == at(str, 0) && at(r, 1) == 42
  ensures[three characters] !contains(str, "@") && nrunes(str) == 3 ==> nrunes(r) == 3 && at(r, 0) == at(str, 0) && at(r, 1) == 42 && at(r, 2) == at(str, 2)
  ensures[four characters] !contains(str, "@") && nrunes(str) == 4 ==> nrunes(r) == 4 && at(r, 0) == at(str, 0) && at(r, 1) == 42 && at(r, 2) == 42 && at(r, 3) == at(str, 3)
  ensures[longer] !contains(str, "@") && !mobile(str) && nrunes(str) > 4 ==> nrunes(r) == 7 && at(r, 0) == at(str, 0) && at(r, 1) == at(str, 1) && at(r, 2) == 42 && at(r, 3) == 42 && at(r, 4) == 42 && at(r, 5) == at(str, nrunes(str) - 2) && at(r, 6) == at(str, nrunes(str) - 1)

func MaskMobile(mobile, k) (r)
  property C24
  allocates []rune
  let from := if nrunes(mobile) > 11 then 5 else 3
  ensures[the range is hidden, the rest kept] masked(r, mobile, from, from + k)
  ensures[shorter ones unchanged] k <= 1152921504606846976 && nrunes(mobile) <= from + k ==> r == mobile
  loop 0
    let n := nrunes(mobile)
    invariant fresh(_cardNo) && len(_cardNo) == n && n == len(_mobile) && offset == (if n > 11 then 5 else 3)
    invariant forall i :: {_mobile[i]} 0 <= i && i < n ==> _mobile[i] == at(mobile, i)
    invariant forall i :: {_cardNo[i]} 0 <= i && i < idx ==> _cardNo[i] == (if offset <= i && i < maskNumber then 42 else at(mobile, i))

func MaskIDCard(idcard, k) (r)
  property C24
  allocates []rune
  ensures[the range is hidden, the rest kept] masked(r, idcard, 4, 4 + k)
  ensures[shorter ones unchanged] k <= 1152921504606846976 && nrunes(idcard) <= 4 + k ==> r == idcard
  loop 0
    let n := nrunes(idcard)
    invariant fresh(_cardNo) && len(_cardNo) == n && n == len(_idcard)
    invariant forall i :: {_idcard[i]} 0 <= i && i < n ==> _idcard[i] == at(idcard, i)
    invariant forall i :: {_cardNo[i]} 0 <= i && i < idx ==> _cardNo[i] == (if 4 <= i && i < maskNumber then 42 else at(idcard, i))

func MaskBackCard(bankcard, k) (r)
  property C24
  allocates []rune
  let to := 4 + k + (if nrunes(bankcard) > 16 then nrunes(bankcard) - 16 else 0)
  ensures[the range is hidden, the rest kept] masked(r, bankcard, 4, to)
  ensures[shorter ones unchanged] k <= 1152921504606846976 && nrunes(bankcard) <= 1152921504606846976 && nrunes(bankcard) <= to ==> r == bankcard
  loop 0
    let n := nrunes(bankcard)
    invariant fresh(_cardNo) && len(_cardNo) == n && n == len(_bankcard)
    invariant forall i :: {_bankcard[i]} 0 <= i && i < n ==> _bankcard[i] == at(bankcard, i)
    invariant forall i :: {_cardNo[i]} 0 <= i && i < idx ==> _cardNo[i] == (if 4 <= i && i < maskNumber then 42 else at(bankcard, i))

func MaskCustomerName(name) (r)
  property C24
  allocates []rune
  ensures[empty] nrunes(name) == 0 ==> nrunes(r) == 0
  ensures[up to four characters] 0 < nrunes(name) && nrunes(name) <= 4 ==> nrunes(r) == 4 && at(r, 0) == at(name, 0) && (forall i :: {at(r, i)} 1 <= i && i < 4 ==> at(r, i) == 42)
  ensures[longer] nrunes(name) > 4 ==> nrunes(r) == 7 && at(r, 0) == at(name, 0) && at(r, 1) == at(name, 1) && (forall i :: {at(r, i)} 2 <= i && i < 5 ==> at(r, i) == 42) && at(r, 5) == at(name, nrunes(name) - 2) && at(r, 6) == at(name, nrunes(name) - 1)

spec func upper(int) int
axiom upper_range : forall c :: {upper(c)} 0 <= c && c <= 1114111 && !(55296 <= c && c <= 57343) ==> 0 <= upper(c) && upper(c) <= 1114111 && !(55296 <= upper(c) && upper(c) <= 57343)
axiom upper_ascii : forall c :: {upper(c)} 0 <= c && c <= 127 ==> upper(c) == (if 97 <= c && c <= 122 then c - 32 else c)
trusted func unicode.ToUpper(c) (r)
  ensures r == upper(c)

// the first character and how many bytes it takes; text without it has the other characters
trusted func unicode/utf8.DecodeRuneInString(s) (c, size)
  ensures s == "" ==> c == 65533 && size == 0
  ensures s != "" ==> c == at(s, 0) && 1 <= size && size <= 4 && size <= len(s) && 0 <= c && c <= 1114111 && !(55296 <= c && c <= 57343) && nrunes(s) >= 1 && nrunes(s[size:len(s)]) == nrunes(s) - 1 && (forall i :: {at(s[size:len(s)], i)} 0 <= i && i < nrunes(s) - 1 ==> at(s[size:len(s)], i) == at(s, i + 1))

func UpperFirst(s) (r)
  property C27
  ensures[as many characters] nrunes(r) == nrunes(s)
  ensures[the first one in upper case] nrunes(s) > 0 && at(s, 0) != 65533 ==> at(r, 0) == upper(at(s, 0))
  ensures[the rest kept] forall i :: {at(r, i)} 1 <= i && i < nrunes(s) ==> at(r, i) == at(s, i)
