package help/utils

// base64 in an alphabet, decimal text: what decodes what was encoded
spec func b64(int, string) string
spec func unb64(int, string) string
axiom b64_inverse : forall e, s : string :: {b64(e, s)} unb64(e, b64(e, s)) == s
trusted func encoding/base64.Encoding.EncodeToString(e, b) (r)
  requires e != nil
  ensures r == b64(e, str(b))
trusted func encoding/base64.Encoding.DecodeString(e, s) (r, err)
  requires e != nil
  allocates []byte
  ensures (r == nil || fresh(r)) && str(r) == unb64(e, s) && (forall p : string :: {b64(e, p)} s == b64(e, p) ==> err == nil)

def std() := global("encoding/base64.StdEncoding")
func Base64Encode(s) (r)
  property C22
  requires std() != nil
  allocates []byte
  ensures[encoded] r == b64(std(), s)
func Base64EncodeToByte(b) (r)
  property C22
  requires std() != nil
  ensures[encoded] r == b64(std(), str(b))
func Base64DecodeToString(s) (r)
  property C22
  requires std() != nil
  allocates []byte
  ensures[what was encoded] forall p : string :: {b64(std(), p)} s == b64(std(), p) ==> r == p
func Base64Decode(s) (r)
  property C22
  requires std() != nil
  allocates []byte
  ensures[what was encoded] forall p : string :: {b64(std(), p)} s == b64(std(), p) ==> str(r) == p
func Base64DecodeToByte(s) (r)
  property C22
  requires std() != nil
  allocates []byte
  ensures[what was encoded] forall p : string :: {b64(std(), p)} s == b64(std(), p) ==> str(r) == p

spec func dec(int) string
spec func undec(string) int
axiom dec_inverse : forall n :: {dec(n)} undec(dec(n)) == n
def isdec(s) := s == dec(undec(s))
trusted func strconv.Itoa(n) (r)
  ensures r == dec(n)
trusted func strconv.FormatInt(n, b) (r)
  ensures b == 10 ==> r == dec(n)
trusted func strconv.Atoi(s) (n, err)
  ensures forall k :: {dec(k)} s == dec(k) && 0 - 9223372036854775808 <= k && k <= 9223372036854775807 ==> n == k && err == nil
trusted func strconv.ParseInt(s, b, bits) (n, err)
  ensures forall k :: {dec(k)} s == dec(k) && (b == 10 || b == 0) && ((bits == 64 || bits == 0) && 0 - 9223372036854775808 <= k && k <= 9223372036854775807 || bits == 32 && 0 - 2147483648 <= k && k <= 2147483647) ==> n == k && err == nil

func IntToString(n) (r)
  property C22
  ensures[decimal] r == dec(n)
func Int64ToString(n) (r)
  property C22
  ensures[decimal] r == dec(n)
func StringToInt(s) (r)
  property C22
  ensures[what was converted] forall k :: {dec(k)} s == dec(k) && 0 - 9223372036854775808 <= k && k <= 9223372036854775807 ==> r == k
func StringToInt64(s) (r)
  property C22
  ensures[what was converted] forall k :: {dec(k)} s == dec(k) && 0 - 9223372036854775808 <= k && k <= 9223372036854775807 ==> r == k

// digests: of the bytes written, appended to what Sum is given; in hexadecimal
spec func md5(string) string
axiom md5_length : forall s : string :: {md5(s)} len(md5(s)) == 16
trusted func crypto/md5.New() (h)
  allocates content
  ensures h != nil && fresh(h) && content(h) == ""
trusted func iface:hash.Hash.Write(h, b) (n, err)
  modifies content(h)
  ensures content(h) == concat(old(content(h)), str(b)) && n == len(b) && err == nil
trusted func iface:hash.Hash.Sum(h, b) (r)
  allocates []byte
  ensures str(r) == concat(str(b), md5(content(h)))
trusted func encoding/hex.EncodeToString(b) (r)
  ensures r == hex(str(b))

func Md5Crypt(s) (r)
  property C22
  allocates []byte, content
  ensures[the digest] r == hex(md5(s))
func MD5V(s, b) (r)
  property C22
  allocates []byte, content
  ensures[the digest] len(b) == 0 ==> r == hex(md5(str(s)))
  ensures[a prefix] r == hex(concat(str(b), md5(str(s))))

spec func arrbytes(any) string
spec func isdigest(any) bool
axiom hex_array : forall x : any :: {sprint("%x", x)} isdigest(x) ==> sprint("%x", x) == hex(arrbytes(x))
trusted func crypto/md5.Sum(b) (r)
  ensures isdigest(box(r)) && arrbytes(box(r)) == md5(str(b))
func Md5(s) (r)
  property C22
  allocates []byte, []any, content
  ensures[the digest] r == hex(md5(s))

// readers: content is what is left to read; files: what the disk holds under a name
spec func readable(any) bool
trusted func io.Copy(dst, src) (n, err)
  modifies content(dst), content(src)
  ensures (readable(src) ==> err == nil) && (err == nil ==> content(dst) == concat(old(content(dst)), old(content(src))))
func ComputeFileMD5(file) (r)
  property C22
  modifies content(file)
  allocates []byte, []any, content
  ensures[the digest] readable(file) ==> r == hex(md5(old(content(file))))

ghostglobal disk : fn[string]string
trusted func os.Open(path) (f, err)
  allocates os.File, content
  ensures err == nil ==> f != nil && fresh(f) && content(f) == disk[path]
trusted func os.File.Close(f) (err)
func FileMd5(path) (r, err)
  property C22
  allocates []byte, []any, content, os.File
  ensures[the digest] err == nil ==> r == hex(md5(disk[path]))

func CheckMd5(b, sum) (ok)
  property C22
  allocates []byte, content
  ensures[compared] ok <==> sum == hex(md5(str(b)))
