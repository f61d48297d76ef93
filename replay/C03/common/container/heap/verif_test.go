package heap_test

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/heap"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

type item struct{ key, id int }

type hp interface {
	Push(*item)
	Pop() *item
	Peek() *item
	Len() int
	Empty() bool
	Remove(int) *item
	Fix(int)
}

// at reads the item at an index of the backing slice (reflection: the field may be renamed, then nil)
func at(h hp, i int) *item {
	v := reflect.ValueOf(h).Elem()
	for k := 0; k < v.NumField(); k++ {
		f := v.Field(k)
		if f.Kind() == reflect.Slice && f.Type().Elem() == reflect.TypeOf((*item)(nil)) && i < f.Len() {
			return (*item)(f.Index(i).UnsafePointer())
		}
	}
	return nil
}

func TestVerifHeap(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		one(t, r)
	}
}

func one(t *testing.T, r *rand.Rand) {
	var log []string
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("panic: %v\nhistory: %v", p, log)
		}
	}()
	bad := func(f string, a ...interface{}) { t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), log) }
	less := func(a, b *item) bool { return a.key < b.key }
	if r.Intn(3) == 0 {
		less = func(a, b *item) bool { return a.key > b.key }
	}
	m := map[*item]bool{}
	id, rng := 0, 1+r.Intn(40)
	mk := func() *item { id++; return &item{r.Intn(rng), id} }
	h, what := build(r, less, m, mk)
	log = append(log, what)
	check := func() {
		if h.Len() != len(m) || h.Empty() != (len(m) == 0) {
			bad("Len %d Empty %v, expected %d elements", h.Len(), h.Empty(), len(m))
		}
		if len(m) > 0 {
			p := h.Peek()
			if !m[p] {
				bad("Peek returned an element that is not in the heap: %v", *p)
			}
			for x := range m {
				if less(x, p) {
					bad("Peek returned %v although %v precedes it", *p, *x)
				}
			}
		}
	}
	check()
	for k, n := 0, 1+r.Intn(30); k < n; k++ {
		switch op := r.Intn(8); {
		case op <= 2 || len(m) == 0:
			x := mk()
			log = append(log, fmt.Sprintf("Push%v", *x))
			h.Push(x)
			m[x] = true
		case op <= 4:
			x := h.Pop()
			log = append(log, fmt.Sprintf("Pop=%v", *x))
			if !m[x] {
				bad("Pop returned an element that is not in the heap")
			}
			delete(m, x)
			for y := range m {
				if less(y, x) {
					bad("Pop returned %v although %v precedes it", *x, *y)
				}
			}
		case op <= 6:
			i := r.Intn(len(m))
			want := at(h, i)
			x := h.Remove(i)
			log = append(log, fmt.Sprintf("Remove(%d)=%v", i, *x))
			if !m[x] || want != nil && want != x {
				bad("Remove(%d) returned %v", i, *x)
			}
			delete(m, x)
		default:
			i := r.Intn(len(m))
			if x := at(h, i); x != nil && m[x] {
				x.key = r.Intn(rng)
				log = append(log, fmt.Sprintf("Fix(%d)key=%d", i, x.key))
				h.Fix(i)
			}
		}
		check()
	}
	for len(m) > 0 {
		x := h.Pop()
		log = append(log, fmt.Sprintf("Pop=%v", *x))
		if !m[x] {
			bad("Pop returned an element that is not in the heap")
		}
		delete(m, x)
		for y := range m {
			if less(y, x) {
				bad("Pop returned %v although %v precedes it", *x, *y)
			}
		}
		check()
	}
}

func build(r *rand.Rand, less func(a, b *item) bool, m map[*item]bool, mk func() *item) (hp, string) {
	var s []*item
	var w []item
	for i := r.Intn(24); i > 0; i-- {
		x := mk()
		s = append(s, x)
		w = append(w, *x)
		m[x] = true
	}
	return heap.New(s, less), fmt.Sprintf("New%v", w)
}
