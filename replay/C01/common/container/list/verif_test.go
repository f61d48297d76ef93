package list_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	"github.com/ahKevinXy/go-web-tools/common/container/list"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

type el = *list.Element[int]

type world struct {
	ls  [2]*list.List[int]
	m   [2][]el
	all []el
	own map[el]int // -1 removed
	log []string
	t   *testing.T
}

func (w *world) bad(f string, a ...interface{}) {
	w.t.Fatalf("%s\nhistory: %v", fmt.Sprintf(f, a...), w.log)
}

func (w *world) check() {
	for i, l := range w.ls {
		if l.Len() != len(w.m[i]) || l.Empty() != (len(w.m[i]) == 0) {
			w.bad("list %d: Len %d Empty %v, expected %d elements", i, l.Len(), l.Empty(), len(w.m[i]))
		}
		k := 0
		for e := l.Front(); e != nil; e = e.Next() {
			if k >= len(w.m[i]) || e != w.m[i][k] {
				w.bad("list %d: forward traversal differs at %d", i, k)
			}
			k++
		}
		if k != len(w.m[i]) {
			w.bad("list %d: forward traversal ends at %d of %d", i, k, len(w.m[i]))
		}
		for e := l.Back(); e != nil; e = e.Prev() {
			k--
			if k < 0 || e != w.m[i][k] {
				w.bad("list %d: backward traversal differs at %d", i, k)
			}
		}
		if k != 0 {
			w.bad("list %d: backward traversal misses %d elements", i, k)
		}
	}
	for _, e := range w.all {
		if w.own[e] < 0 && (e.Next() != nil || e.Prev() != nil) {
			w.bad("removed element %d still has neighbours", e.Value)
		}
	}
}

func idx(s []el, e el) int {
	for i, x := range s {
		if x == e {
			return i
		}
	}
	return -1
}

func ins(s []el, i int, e el) []el {
	r := append([]el{}, s[:i]...)
	r = append(r, e)
	return append(r, s[i:]...)
}

func del(s []el, i int) []el {
	r := append([]el{}, s[:i]...)
	return append(r, s[i+1:]...)
}

func TestVerifList(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for time.Now().Before(end) {
		one(t, r)
	}
}

func one(t *testing.T, r *rand.Rand) {
	w := &world{t: t, own: map[el]int{}}
	defer func() {
		if p := recover(); p != nil {
			w.bad("panic: %v", p)
		}
	}()
	for i := range w.ls {
		if r.Intn(3) == 0 {
			w.ls[i] = &list.List[int]{}
			w.log = append(w.log, fmt.Sprintf("l%d=List{}", i))
		} else {
			w.ls[i] = list.New[int]()
			w.log = append(w.log, fmt.Sprintf("l%d=New", i))
		}
	}
	next := 0
	val := func() int { next++; return next }
	reg := func(i int, e el, v int) el {
		if e == nil || e.Value != v {
			w.bad("inserted element is %v, expected value %d", e, v)
		}
		if _, ok := w.own[e]; ok {
			w.bad("insertion returned an existing element")
		}
		w.own[e] = i
		w.all = append(w.all, e)
		return e
	}
	pick := func() el {
		if len(w.all) == 0 {
			return nil
		}
		return w.all[r.Intn(len(w.all))]
	}
	n := 1 + r.Intn(25)
	for k := 0; k < n; k++ {
		i := r.Intn(2)
		l := w.ls[i]
		op := r.Intn(16)
		e, m := pick(), pick()
		if op >= 4 && op <= 9 && (e == nil || m == nil) {
			op = r.Intn(2)
		}
		inl := func(x el) int {
			if w.own[x] == i {
				return idx(w.m[i], x)
			}
			return -1
		}
		name := [...]string{"PushFront", "PushBack", "RemoveFront", "RemoveBack", "InsertBefore", "InsertAfter", "Remove", "MoveToFront", "MoveToBack", "MoveBA", "PushBackList", "PushFrontList", "Clear", "Front", "PushBack", "PushBack"}[op]
		a, b := -1, -1
		if e != nil {
			a = e.Value
		}
		if m != nil {
			b = m.Value
		}
		w.log = append(w.log, fmt.Sprintf("l%d.%s(e%d,m%d)", i, name, a, b))
		switch op {
		case 0:
			v := val()
			w.m[i] = ins(w.m[i], 0, reg(i, l.PushFront(v), v))
		case 1, 14, 15:
			v := val()
			w.m[i] = ins(w.m[i], len(w.m[i]), reg(i, l.PushBack(v), v))
		case 2, 3:
			if len(w.m[i]) == 0 {
				break
			}
			p := 0
			f := l.RemoveFront
			if op == 3 {
				p = len(w.m[i]) - 1
				f = l.RemoveBack
			}
			x := w.m[i][p]
			if got := f(); got != x.Value {
				w.bad("%s returned %d, expected %d", name, got, x.Value)
			}
			w.own[x] = -1
			w.m[i] = del(w.m[i], p)
		case 4, 5:
			v := val()
			var x el
			if op == 4 {
				x = l.InsertBefore(v, m)
			} else {
				x = l.InsertAfter(v, m)
			}
			p := inl(m)
			if p < 0 {
				if x != nil {
					w.bad("%s with a foreign mark inserted an element", name)
				}
				break
			}
			w.m[i] = ins(w.m[i], p+op-4, reg(i, x, v))
		case 6:
			p := inl(e)
			if got := l.Remove(e); got != e.Value {
				w.bad("Remove returned %d, expected %d", got, e.Value)
			}
			if p >= 0 {
				w.own[e] = -1
				w.m[i] = del(w.m[i], p)
			}
		case 7, 8:
			p := inl(e)
			q := 0
			if op == 7 {
				l.MoveToFront(e)
			} else {
				l.MoveToBack(e)
			}
			if p >= 0 {
				s := del(w.m[i], p)
				if op == 8 {
					q = len(s)
				}
				w.m[i] = ins(s, q, e)
			}
		case 9:
			d := r.Intn(2)
			w.log = append(w.log, []string{"(MoveBefore)", "(MoveAfter)"}[d])
			if d == 0 {
				l.MoveBefore(e, m)
			} else {
				l.MoveAfter(e, m)
			}
			if inl(e) >= 0 && inl(m) >= 0 && e != m {
				s := del(w.m[i], inl(e))
				w.m[i] = ins(s, idx(s, m)+d, e)
			}
		case 10, 11:
			j := r.Intn(2)
			if len(w.m[j])+len(w.m[i]) > 60 {
				break
			}
			w.log = append(w.log, fmt.Sprintf("(of l%d)", j))
			src := append([]el{}, w.m[j]...)
			was := append([]el{}, w.m[i]...)
			if op == 10 {
				l.PushBackList(w.ls[j])
			} else {
				l.PushFrontList(w.ls[j])
			}
			if l.Len() != len(was)+len(src) {
				w.bad("%s: Len %d, expected %d", name, l.Len(), len(was)+len(src))
			}
			var got []el
			for x := l.Front(); x != nil && len(got) < 1000; x = x.Next() {
				got = append(got, x)
			}
			if len(got) != len(was)+len(src) {
				w.bad("%s: %d elements, expected %d", name, len(got), len(was)+len(src))
			}
			off := len(was)
			if op == 11 {
				off = 0
			}
			for k, x := range src {
				reg(i, got[off+k], x.Value)
			}
			w.m[i] = got
			rest := got[:off]
			if op == 11 {
				rest = got[len(src):]
			}
			for k, x := range was {
				if rest[k] != x {
					w.bad("%s: existing element %d changed", name, k)
				}
			}
		case 12:
			if r.Intn(3) > 0 {
				break
			}
			w.log = append(w.log, "(done)")
			if l.Clear() != l {
				w.bad("Clear does not return the list")
			}
			for _, x := range w.m[i] {
				w.own[x] = -1
			}
			w.m[i] = nil
		}
		w.check()
	}
}
