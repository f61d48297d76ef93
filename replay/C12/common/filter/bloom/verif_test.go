package bloom

import (
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

func TestVerif(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := time.Now().Add(time.Duration(n+1)*time.Second), rand.New(rand.NewSource(seed))
	rates := []float64{0.5, 0.01, 0.9, 0.999, 0.9999999, 1e-9, 5e-324, 0.3}
	for time.Now().Before(end) {
		capacity, rate := uint64(1+r.Intn(200)), rates[r.Intn(len(rates))]
		if r.Intn(3) == 0 {
			capacity = uint64(1 + r.Intn(3))
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					t.Fatalf("capacity %d rate %g: panic: %v", capacity, rate, x)
				}
			}()
			f := New(capacity, rate)
			var hs []uint64
			var ss []string
			check := func(what string) {
				for _, h := range hs {
					if !f.Contains(h) {
						t.Fatalf("capacity %d rate %g: added hash %d denied after %s; hashes %v strings %q", capacity, rate, h, what, hs, ss)
					}
				}
				for _, s := range ss {
					if !f.ContainsString(s) || !f.ContainsBytes([]byte(s)) {
						t.Fatalf("capacity %d rate %g: added string %q denied after %s; hashes %v strings %q", capacity, rate, s, what, hs, ss)
					}
				}
			}
			for i := 0; i < 40; i++ {
				b := make([]byte, r.Intn(40))
				r.Read(b)
				switch r.Intn(4) {
				case 0:
					h := r.Uint64()
					if r.Intn(3) == 0 {
						h = []uint64{0, 1, 63, 64, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.Intn(7)]
					}
					f.Add(h)
					hs = append(hs, h)
					check("Add")
				case 1:
					s := string(b)
					f.AddBytes(b)
					if string(b) != s {
						t.Fatal("the bytes added were changed")
					}
					ss = append(ss, s)
					check("AddBytes")
				case 2:
					f.AddString(string(b))
					ss = append(ss, string(b))
					check("AddString")
				default:
					f.Contains(r.Uint64())
					f.ContainsBytes(b)
					f.ContainsString(string(b))
					check("queries")
					if r.Intn(12) == 0 {
						probe := []uint64{r.Uint64(), r.Uint64()}
						f.Clear()
						hs, ss = nil, nil
						for _, h := range probe {
							f.Contains(h)
						}
						for _, w := range f.bits {
							if w != 0 {
								t.Fatal("a bit is left after Clear")
							}
						}
					}
				}
				if f.Len() == 0 || f.Len() > uint64(len(f.bits))*64 {
					t.Fatalf("Len %d with %d words", f.Len(), len(f.bits))
				}
			}
		}()
	}
}
