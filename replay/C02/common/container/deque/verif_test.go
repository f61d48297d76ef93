package deque_test

import (
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/deque"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestVerifDeque(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		d := deque.New[int]()
		var m []int
		var log []interface{}
		for k := 0; k < 1+r.Intn(40); k++ {
			op := r.Intn(4)
			log = append(log, op)
			switch {
			case op == 0:
				d.PushFront(k)
				m = append([]int{k}, m...)
			case op == 1:
				d.PushBack(k)
				m = append(m, k)
			case len(m) == 0:
			case op == 2:
				if v := d.PopFront(); v != m[0] {
					t.Fatalf("PopFront returned %d, expected %d; operations (0 PushFront i, 1 PushBack i, 2 PopFront, 3 PopBack): %v", v, m[0], log)
				}
				m = m[1:]
			default:
				if v := d.PopBack(); v != m[len(m)-1] {
					t.Fatalf("PopBack returned %d, expected %d; operations (0 PushFront i, 1 PushBack i, 2 PopFront, 3 PopBack): %v", v, m[len(m)-1], log)
				}
				m = m[:len(m)-1]
			}
			if d.Len() != len(m) || d.Empty() != (len(m) == 0) {
				t.Fatalf("Len %d Empty %v, expected %d; operations (0 PushFront i, 1 PushBack i, 2 PopFront, 3 PopBack): %v", d.Len(), d.Empty(), len(m), log)
			}
		}
	}
}
