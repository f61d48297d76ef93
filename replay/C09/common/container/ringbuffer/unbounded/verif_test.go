package unbounded_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	ring "github.com/ahKevinXy/go-web-tools/common/container/ringbuffer/unbounded"
)

// KIND is "fix", "round" or "unbounded"
const kind = "unbounded"

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestVerifRing(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	huge(t)
	for time.Now().Before(end) {
		one(t, r)
	}
}

func panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func huge(t *testing.T) {
	if kind != "unbounded" {
		if panics(func() { ring.New[struct{}](0) }) == nil {
			t.Fatal("New(0) does not panic")
		}
	}
	for _, n := range []uint64{1<<63 + 1, 1 << 63, 1<<64 - 1} {
		if panics(func() { ring.New[struct{}](n) }) == nil {
			t.Fatalf("New(%d) does not panic", n)
		}
	}
	for i := uint64(0); i < 62; i++ {
		for _, n := range []uint64{1 << i, 1<<i + 1, 1<<i - 1} {
			if n == 0 {
				continue
			}
			want := n
			if kind == "round" {
				for want = 1; want < n; want *= 2 {
				}
			}
			var r *ring.Ring[struct{}]
			if p := panics(func() { r = ring.New[struct{}](n) }); p != nil {
				t.Fatalf("New(%d) panics: %v", n, p)
			}
			if r.Cap() != want || r.Avail() != want || r.Len() != 0 {
				t.Fatalf("New(%d): Cap %d Avail %d Len %d", n, r.Cap(), r.Avail(), r.Len())
			}
		}
	}
}

func one(t *testing.T, r *rand.Rand) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v\nhistory: %v", p, log)
		}
	}()
	bad := func(f string, a ...interface{}) { t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), log) }
	size := uint64(r.Intn(9))
	if kind != "unbounded" {
		size++
	}
	log = append(log, fmt.Sprintf("New(%d)", size))
	b := ring.New[int](size)
	c := size
	if kind == "round" {
		for c = 1; c < size; c *= 2 {
		}
	}
	var q []int
	next := 0
	check := func() {
		if kind == "unbounded" {
			if b.Cap() < c || b.Cap() < uint64(len(q)) {
				bad("capacity fell to %d from %d with %d values", b.Cap(), c, len(q))
			}
			c = b.Cap()
		}
		if b.Cap() != c || b.Len() != uint64(len(q)) || b.Avail() != c-uint64(len(q)) || b.Empty() != (len(q) == 0) || b.Full() != (uint64(len(q)) == c) {
			bad("Cap %d Len %d Avail %d Empty %v Full %v, expected %d values of %d", b.Cap(), b.Len(), b.Avail(), b.Empty(), b.Full(), len(q), c)
		}
		if len(q) > 0 {
			if v := b.Peek(); v != q[0] {
				bad("Peek returned %d, expected %d", v, q[0])
			}
		}
	}
	same := func(what string, got, want []int) {
		if len(got) != len(want) {
			bad("%s returned %v, expected %v", what, got, want)
		}
		for i := range got {
			if got[i] != want[i] {
				bad("%s returned %v, expected %v", what, got, want)
			}
		}
	}
	check()
	max := 3
	if r.Intn(3) == 0 {
		max = 12
	}
	for k, n := 0, 1+r.Intn(60); k < n; k++ {
		switch r.Intn(9) {
		case 0, 1:
			next++
			log = append(log, fmt.Sprintf("Push(%d)", next))
			p := panics(func() { b.Push(next) })
			full := kind != "unbounded" && uint64(len(q)) == c
			if (p != nil) != full {
				bad("Push: panic %v with %d values of %d", p, len(q), c)
			}
			if p == nil {
				q = append(q, next)
			}
		case 2, 3:
			var vs []int
			for i := r.Intn(max); i > 0; i-- {
				next++
				vs = append(vs, next)
			}
			log = append(log, fmt.Sprintf("MPush(%v)", vs))
			m := len(vs)
			if kind != "unbounded" && uint64(m) > c-uint64(len(q)) {
				m = int(c) - len(q)
			}
			b.MPush(vs...)
			q = append(q, vs[:m]...)
			for i := range vs {
				vs[i] = -1
			}
		case 4, 5:
			log = append(log, "Pop")
			var v int
			p := panics(func() { v = b.Pop() })
			if (p != nil) != (len(q) == 0) {
				bad("Pop: panic %v with %d values", p, len(q))
			}
			if p == nil {
				if v != q[0] {
					bad("Pop returned %d, expected %d", v, q[0])
				}
				q = q[1:]
			} else if panics(func() { b.Peek() }) == nil {
				bad("Peek of an empty buffer does not panic")
			}
		case 6:
			m := r.Intn(max)
			log = append(log, fmt.Sprintf("MPop(%d)", m))
			got := b.MPop(uint64(m))
			if m > len(q) {
				m = len(q)
			}
			same("MPop", got, q[:m])
			q = q[m:]
			for i := range got {
				got[i] = -2
			}
		case 7:
			dst := make([]int, r.Intn(max))
			log = append(log, fmt.Sprintf("MPopCopy(%d)", len(dst)))
			want := make([]int, len(dst))
			for i := range dst {
				dst[i], want[i] = -3, -3
			}
			m := copy(want, q)
			b.MPopCopy(dst)
			same("MPopCopy", dst, want)
			q = q[m:]
		case 8:
			if r.Intn(4) == 0 {
				log = append(log, "Reset")
				b.Reset()
				q = nil
			}
			if g := uint64(r.Intn(30)); r.Intn(3) == 0 {
				log = append(log, fmt.Sprintf("Grow(%d)", g))
				b.Grow(g)
				if b.Cap() < g {
					bad("Grow left a capacity of %d", b.Cap())
				}
			}
		}
		check()
	}
	same("MPop", b.MPop(uint64(len(q))), q)
}
