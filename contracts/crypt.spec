package help/utils

// AES in CBC mode, on byte strings: key, initial vector, text of whole blocks
spec func cbcenc(string, string, string) string
spec func cbcdec(string, string, string) string
axiom cbc_inverse : forall k : string, v : string, p : string :: {cbcenc(k, v, p)} len(p) % 16 == 0 ==> len(cbcenc(k, v, p)) == len(p) && cbcdec(k, v, cbcenc(k, v, p)) == p

// the key of a cipher; the key, direction and current vector of a mode
spec func blockkey(any) string
spec func isaes(any) bool
spec func modekey(any) string
spec func encrypts(any) bool

trusted func crypto/aes.NewCipher(key) (block, err)
  ensures (err == nil <==> len(key) == 16 || len(key) == 24 || len(key) == 32) && (err == nil ==> block != nil && isaes(block) && blockkey(block) == str(key))

trusted func iface:crypto/cipher.Block.BlockSize(b) (n)
  requires[a cipher of this package's] isaes(b)
  ensures n == 16

trusted func crypto/cipher.NewCBCEncrypter(b, iv) (m)
  requires[a vector of one block] isaes(b) && len(iv) == 16
  allocates content
  ensures m != nil && fresh(m) && modekey(m) == blockkey(b) && encrypts(m) && content(m) == str(iv)

trusted func crypto/cipher.NewCBCDecrypter(b, iv) (m)
  requires[a vector of one block] isaes(b) && len(iv) == 16
  allocates content
  ensures m != nil && fresh(m) && modekey(m) == blockkey(b) && !encrypts(m) && content(m) == str(iv)

trusted func iface:crypto/cipher.BlockMode.CryptBlocks(m, dst, src)
  requires[whole blocks, room for them] len(src) % 16 == 0 && len(dst) == len(src) && (len(src) == 0 || base(dst) != base(src))
  modifies dst[*], content(m)
  ensures str(dst) == (if encrypts(m) then cbcenc(modekey(m), old(content(m)), old(str(src))) else cbcdec(modekey(m), old(content(m)), old(str(src)))) && (forall i :: {dst[i]} 0 <= i && i < len(dst) ==> dst[i] == str(dst)[i])

trusted func bytes.Repeat(b, n) (r)
  requires[repeated at least no times] n >= 0 && len(b) * n <= 1152921504606846976
  allocates []byte
  ensures (r == nil || fresh(r)) && len(r) == len(b) * n && (len(b) == 1 ==> (forall i :: {r[i]} 0 <= i && i < n ==> r[i] == b[0]))

// what the type of a slice of bytes says anyway
def bytes(d) := forall i :: {d[i]} 0 <= i && i < len(d) ==> 0 <= d[i] && d[i] <= 255
def padlen(n, size) := size - n % size
func pkcs7Padding(data, size) (r)
  property C23
  requires 1 <= size && size <= 255 && len(data) <= 1152921504606846976 && bytes(data)
  allocates []byte
  ensures[the caller's memory is not reused] fresh(r)
  ensures[bytes] bytes(r)
  ensures[filled up to whole blocks] len(r) == len(data) + padlen(len(data), size)
  ensures[the text first] forall i :: {r[i]} 0 <= i && i < len(data) ==> r[i] == data[i]
  ensures[then the filling's length] forall i :: {r[i]} len(data) <= i && i < len(r) ==> r[i] == padlen(len(data), size)

func pkcs7UnPadding(data) (r, err)
  property C23
  ensures[a filling that cannot be is refused] err == nil <==> len(data) > 0 && 0 < data[len(data) - 1] && data[len(data) - 1] <= len(data)
  ensures[the filling is cut off] err == nil ==> len(r) == len(data) - data[len(data) - 1] && base(r) == base(data) && (forall i :: {r[i]} 0 <= i && i < len(r) ==> r[i] == data[i])

def goodkey(key) := len(key) == 16 || len(key) == 24 || len(key) == 32
// p is the text filled up to whole blocks
def filled(p, data) := len(p) == len(data) + padlen(len(data), 16) && (forall i :: {p[i]} 0 <= i && i < len(data) ==> p[i] == data[i]) && (forall i :: {p[i]} len(data) <= i && i < len(p) ==> p[i] == padlen(len(data), 16))
func AesEncrypt(data, key) (r, err)
  property C23
  requires len(data) <= 1152921504606846976 && bytes(data)
  allocates []byte, content
  ensures[a key of a wrong length is an error] err == nil <==> goodkey(key)
  ensures[the filled text, encrypted] err == nil ==> len(str(key)[0:16]) == 16 && (exists p : string :: {cbcenc(str(key), str(key)[0:16], p)} str(r) == cbcenc(str(key), str(key)[0:16], p) && filled(p, data))

def sent(r, key, p) := str(r) == cbcenc(str(key), str(key)[0:16], p)
func AesDecrypt(data, key) (r, err)
  property C23
  requires len(data) <= 1152921504606846976
  allocates []byte, content
  ensures[a key of a wrong length is an error] !goodkey(key) ==> err != nil
  ensures[what was encrypted comes back] goodkey(key) ==> (forall p : string, n :: {cbcenc(str(key), str(key)[0:16], p), mark(n)} sent(data, key, p) && len(p) % 16 == 0 && 0 <= n && n < len(p) && p[len(p) - 1] == len(p) - n ==> err == nil && len(r) == n && (forall i :: {r[i]} 0 <= i && i < n ==> r[i] == p[i]))
spec func mark(int) bool
