package meap_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	reap "github.com/ahKevinXy/go-web-tools/common/container/reap"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestVerifReap(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		one(t, r)
	}
}

type val struct{ key, id int }

func one(t *testing.T, r *rand.Rand) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v\nhistory: %v", p, log)
		}
	}()
	bad := func(f string, a ...interface{}) { t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), log) }
	h := reap.New(func(a, b val) bool { return a.key < b.key })
	m := map[val]*reap.Entry[val]{}
	var gone []*reap.Entry[val]
	nv := 1 + r.Intn(30)
	id := 0
	pick := func() (val, *reap.Entry[val]) {
		n := r.Intn(id + 1)
		for i := 0; i <= id; i++ {
			for k, e := range m {
				if k.id == (n+i)%(id+1) {
					return k, e
				}
			}
		}
		return val{}, nil
	}
	check := func() {
		if h.Len() != len(m) || h.Empty() != (len(m) == 0) {
			bad("Len %d Empty %v, expected %d entries", h.Len(), h.Empty(), len(m))
		}
		for v, e := range m {
			if e.Value() != v {
				bad("handle of %v now designates %v", v, e.Value())
			}
		}
		if len(m) > 0 {
			p := h.Peek()
			if m[p] == nil {
				bad("Peek returned %v, which is not in the heap", p)
			}
			for v := range m {
				if v.key < p.key {
					bad("Peek returned %v although %v precedes it", p, v)
				}
			}
		}
	}
	step := func(op int) {
		switch {
		case op <= 3:
			id++
			v := val{r.Intn(nv), id}
			log = append(log, fmt.Sprintf("Push%v", v))
			m[v] = h.Push(v)
		case op == 4 && len(gone) > 0:
			e := gone[r.Intn(len(gone))]
			log = append(log, fmt.Sprintf("again(%v)", e.Value()))
			if h.Remove(e) || h.SetValue(e, val{0, 0}) {
				bad("an operation through the handle of a removed element succeeded")
			}
		case len(m) == 0:
		case op == 5:
			v, e := pick()
			log = append(log, fmt.Sprintf("Remove%v", v))
			if !h.Remove(e) {
				bad("Remove of a present element failed")
			}
			delete(m, v)
			gone = append(gone, e)
		case op == 6:
			v, e := pick()
			w := val{r.Intn(nv), v.id}
			log = append(log, fmt.Sprintf("SetValue(%v,%v)", v, w))
			if !h.SetValue(e, w) {
				bad("SetValue of a present element failed")
			}
			delete(m, v)
			m[w] = e
		default:
			v := h.Pop()
			log = append(log, fmt.Sprintf("Pop=%v", v))
			e := m[v]
			if e == nil {
				bad("Pop returned %v, which is not in the heap", v)
			}
			delete(m, v)
			gone = append(gone, e)
			for w := range m {
				if w.key < v.key {
					bad("Pop returned %v although %v precedes it", v, w)
				}
			}
		}
		check()
	}
	for k, n := 0, 1+r.Intn(50); k < n; k++ {
		step(r.Intn(8))
	}
	for len(m) > 0 {
		step(7)
	}
}
