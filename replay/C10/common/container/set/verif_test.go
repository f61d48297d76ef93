package set_test

import (
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/set"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestVerifSet(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		s := set.New[int]()
		m := map[int]bool{}
		n := 1 + r.Intn(20)
		var log [][2]int
		for k := 0; k < 40; k++ {
			op, x := r.Intn(3), r.Intn(n)
			log = append(log, [2]int{op, x})
			switch op {
			case 0, 1:
				s.Add(x)
				m[x] = true
			case 2:
				s.Remove(x)
				delete(m, x)
			}
			if s.Len() != len(m) || s.Empty() != (len(m) == 0) {
				t.Fatalf("Len %d Empty %v, expected %d; operations {0,1 Add; 2 Remove; x}: %v", s.Len(), s.Empty(), len(m), log)
			}
			for y := 0; y < n; y++ {
				if s.Contains(y) != m[y] {
					t.Fatalf("Contains(%d) = %v; operations {0,1 Add; 2 Remove; x}: %v", y, s.Contains(y), log)
				}
			}
		}
	}
}
