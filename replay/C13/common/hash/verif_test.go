package hash

import (
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func TestVerif(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := time.Now().Add(time.Duration(n+1)*time.Second), rand.New(rand.NewSource(seed))
	for time.Now().Before(end) {
		h := New()
		seen := map[string]uint64{}
		var keys []string
		for i := 0; i < 300; i++ {
			var k string
			if len(keys) > 0 && r.Intn(3) == 0 {
				k = keys[r.Intn(len(keys))]
			} else {
				b := make([]byte, []int{0, 1, 2, 7, 63, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 5000}[r.Intn(15)])
				r.Read(b)
				if r.Intn(3) == 0 {
					for j := range b {
						b[j] = 0
					}
				}
				k = string(b)
			}
			keys = append(keys, k)
			var v uint64
			if r.Intn(2) == 0 {
				b := []byte(k)
				v = h.Sum64(b)
				if string(b) != k {
					t.Fatalf("the input of %d bytes was changed", len(b))
				}
			} else {
				v = h.Sum64String(k)
			}
			if w, ok := seen[k]; ok && w != v {
				t.Fatalf("the hash of %d bytes %q is %d, was %d before", len(k), k, v, w)
			}
			seen[k] = v
			if a, b := h.Sum64String(k), h.Sum64([]byte(k)); a != v || b != v {
				t.Fatalf("the hash of %d bytes %q is %d, then %d as string and %d as bytes", len(k), k, v, a, b)
			}
		}
	}
}
