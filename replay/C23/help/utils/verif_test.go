package utils

import (
	"bytes"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func TestVerif(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := time.Now().Add(time.Duration(n+1)*time.Second), rand.New(rand.NewSource(seed))
	var what string
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic %s: %v", what, e)
		}
	}()
	lens := []int{0, 1, 5, 14, 15, 16, 17, 30, 31, 32, 33, 47, 48, 49, 64, 100, 255, 256, 257, 1000, 4096}
	for time.Now().Before(end) {
		for j := 0; j < 200; j++ {
			key := make([]byte, []int{16, 24, 32, 0, 8, 15, 17, 31, 40, 64}[r.Intn(10)])
			r.Read(key)
			good := len(key) == 16 || len(key) == 24 || len(key) == 32
			buf := make([]byte, lens[r.Intn(len(lens))]+40)
			r.Read(buf)
			data := buf[:len(buf)-40]
			if r.Intn(3) == 0 {
				for i := range data {
					data[i] = byte(r.Intn(3) * 16)
				}
			}
			was := append([]byte(nil), buf...)
			what = "encrypting " + strconv.Itoa(len(data)) + " bytes under a key of " + strconv.Itoa(len(key))
			kw := append([]byte(nil), key...)
			enc, err := AesEncrypt(data, key)
			if (err == nil) != good {
				t.Fatalf("%s: error %v", what, err)
			}
			if !bytes.Equal(was, buf) || !bytes.Equal(key, kw) {
				t.Fatalf("%s: the caller's buffer was changed", what)
			}
			if err == nil {
				dec, err := AesDecrypt(enc, key)
				if err != nil || !bytes.Equal(dec, data) {
					t.Fatalf("%s: decrypted as %x, %v, not %x", what, dec, err, data)
				}
				again, err := AesDecrypt(enc, key)
				if err != nil || !bytes.Equal(again, data) {
					t.Fatalf("%s: decrypted a second time as %x, %v, not %x", what, again, err, data)
				}
			}
			junk := make([]byte, lens[r.Intn(len(lens))])
			r.Read(junk)
			what = "decrypting " + strconv.Itoa(len(junk)) + " bytes under a key of " + strconv.Itoa(len(key))
			if _, err = AesDecrypt(junk, key); err == nil && !good {
				t.Fatalf("%s: no error", what)
			}
			if len(enc) > 0 {
				cut := r.Intn(len(enc))
				what = "decrypting " + strconv.Itoa(cut) + " bytes of " + strconv.Itoa(len(enc))
				AesDecrypt(enc[:cut], key)
			}
			// a last block whose filling is chosen
			if good {
				p := make([]byte, 16)
				p[15] = byte(r.Intn(256))
				what = "decrypting a filling of " + strconv.Itoa(int(p[15]))
				if e, err := AesEncrypt(p, key); err == nil {
					AesDecrypt(e[:16], key)
				}
			}
		}
	}
}
