package deque_test

import (
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	stack "github.com/ahKevinXy/go-web-tools/common/container/stack"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestVerifStack(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		d := stack.New[int]()
		var m []int
		var log []interface{}
		for k := 0; k < 1+r.Intn(40); k++ {
			op := r.Intn(3)
			log = append(log, op)
			switch {
			case op <= 1:
				d.Push(k)
				m = append(m, k)
			case len(m) == 0:
			default:
				if v := d.Pop(); v != m[len(m)-1] {
					t.Fatalf("Pop returned %d, expected %d; operations (0,1 Push i, 2 Pop): %v", v, m[len(m)-1], log)
				}
				m = m[:len(m)-1]
			}
			if d.Len() != len(m) || d.Empty() != (len(m) == 0) {
				t.Fatalf("Len %d Empty %v, expected %d; operations (0,1 Push i, 2 Pop): %v", d.Len(), d.Empty(), len(m), log)
			}
			if len(m) > 0 && d.Peek() != m[len(m)-1] {
				t.Fatalf("Peek %d, expected %d; operations (0,1 Push i, 2 Pop): %v", d.Peek(), m[len(m)-1], log)
			}
		}
	}
}
