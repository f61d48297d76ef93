package utils

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"testing"
	"testing/iotest"
	"time"
)

func TestVerif(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := time.Now().Add(time.Duration(n+1)*time.Second), rand.New(rand.NewSource(seed))
	file := filepath.Join(t.TempDir(), "f")
	for time.Now().Before(end) {
		for j := 0; j < 50; j++ {
			b := make([]byte, []int{0, 1, 2, 3, 4, 5, 16, 55, 56, 57, 63, 64, 65, 76, 77, 100, 255, 256, 257, 1000, 5000, 40000}[r.Intn(22)])
			r.Read(b)
			if r.Intn(3) == 0 {
				for i := range b {
					b[i] = []byte{0, 255, 251, 62, 63, '\n', '=', ' '}[r.Intn(8)]
				}
			}
			s := string(b)
			for i, e := range []string{Base64Encode(s), Base64EncodeToByte(b)} {
				if string(b) != s {
					t.Fatalf("encoder %d changed its argument %q", i, s)
				}
				if d := Base64DecodeToString(e); d != s {
					t.Fatalf("%d bytes %q encoded (%d) as %q and decoded as %q", len(s), s, i, e, d)
				}
				if d := Base64Decode(e); !bytes.Equal(d, b) {
					t.Fatalf("%d bytes %q encoded (%d) as %q and decoded as bytes %q", len(s), s, i, e, d)
				}
				if d := Base64DecodeToByte(e); !bytes.Equal(d, b) {
					t.Fatalf("%d bytes %q encoded (%d) as %q and decoded to bytes %q", len(s), s, i, e, d)
				}
			}
			k := int64(r.Uint64()) >> uint(r.Intn(64))
			if r.Intn(6) == 0 {
				k = []int64{0, -1, 1 << 31, -1 << 31, 1<<31 - 1, -1 << 63, 1<<63 - 1, 1 << 32, 1 << 53, 1<<53 + 1}[r.Intn(10)]
			}
			if v := StringToInt(IntToString(int(k))); v != int(k) {
				t.Fatalf("%d as text %q and back is %d", k, IntToString(int(k)), v)
			}
			if v := StringToInt64(Int64ToString(k)); v != k {
				t.Fatalf("%d as text %q and back is %d (64 bits)", k, Int64ToString(k), v)
			}
			sum := md5.Sum(b)
			want := hex.EncodeToString(sum[:])
			got := map[string]string{"Md5Crypt": Md5Crypt(s), "Md5": Md5(s), "MD5V": MD5V(b), "ComputeFileMD5": ComputeFileMD5(bytes.NewReader(b)),
				"ComputeFileMD5 (in pieces)": ComputeFileMD5(iotest.HalfReader(bytes.NewReader(b)))}
			if j < 20 {
				if os.WriteFile(file, b, 0600) == nil {
					m, err := FileMd5(file)
					if err != nil {
						t.Fatal(err)
					}
					got["FileMd5"] = m
				}
			}
			for f, v := range got {
				if v != want {
					t.Fatalf("%s of %d bytes is %q, want %q", f, len(b), v, want)
				}
			}
			if !CheckMd5(b, want) || CheckMd5(b, want[1:]) || CheckMd5(append(b, 0), want) {
				t.Fatalf("CheckMd5 of %d bytes", len(b))
			}
		}
	}
}
