package meap_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/meap"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func TestVerifMeap(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		one(t, r)
	}
}

func one(t *testing.T, r *rand.Rand) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v\nhistory: %v", p, log)
		}
	}()
	bad := func(f string, a ...interface{}) { t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), log) }
	type en = meap.Entry[string, int]
	h := meap.New(func(a, b en) bool { return a.Value < b.Value })
	m := map[string]int{}
	nk, nv := 1+r.Intn(20), 1+r.Intn(30)
	check := func() {
		if h.Len() != len(m) || h.Empty() != (len(m) == 0) {
			bad("Len %d Empty %v, expected %d entries", h.Len(), h.Empty(), len(m))
		}
		for k := 0; k < nk; k++ {
			key := fmt.Sprint("k", k)
			w, in := m[key]
			v, ok := h.Get(key)
			if ok != in || h.Contains(key) != in || in && v != w || !in && v != 0 {
				bad("Get(%s) = %d,%v Contains %v, expected %d,%v", key, v, ok, h.Contains(key), w, in)
			}
		}
		if len(m) > 0 {
			p := h.Peek()
			if w, in := m[p.Key]; !in || w != p.Value {
				bad("Peek returned %v, which is not an entry", p)
			}
			for k, v := range m {
				if v < p.Value {
					bad("Peek returned %v although %s:%d precedes it", p, k, v)
				}
			}
		}
	}
	for k, n := 0, 1+r.Intn(60); k < n; k++ {
		key := fmt.Sprint("k", r.Intn(nk))
		switch op := r.Intn(7); {
		case op <= 3:
			v := r.Intn(nv)
			log = append(log, fmt.Sprintf("Push(%s,%d)", key, v))
			h.Push(key, v)
			m[key] = v
		case op <= 5:
			log = append(log, fmt.Sprintf("Remove(%s)", key))
			h.Remove(key)
			delete(m, key)
		case len(m) > 0:
			e := h.Pop()
			log = append(log, fmt.Sprintf("Pop=%v", e))
			if w, in := m[e.Key]; !in || w != e.Value {
				bad("Pop returned %v, which is not an entry", e)
			}
			delete(m, e.Key)
			for k, v := range m {
				if v < e.Value {
					bad("Pop returned %v although %s:%d precedes it", e, k, v)
				}
			}
		}
		check()
	}
}
