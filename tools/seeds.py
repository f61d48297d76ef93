SEEDS = {}


def seed(i, property, pkg, needs, breaks, edits, demo):
    SEEDS[i] = dict(property=property, pkg=pkg, needs=needs, breaks=breaks, edits=edits, demo=demo.lstrip("\n"))


L = "common/container/list/list.go"
seed("list-selfpush", "C01", "common/container/list",
     "appending a non-empty list to itself", "the last value is not copied when source and destination are the same list",
     [(L, "	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {\n		l.insertValue(e.Value, l.root.prev)\n	}",
       "	// when both lists are the same, stop where the copies begin\n	end := l.root.prev\n	for e := other.Front(); e != nil && (other != l || e != end); e = e.Next() {\n		l.insertValue(e.Value, l.root.prev)\n	}")],
     '''
package list

import "testing"

func TestDemo(t *testing.T) {
	l := New[int]()
	l.PushBack(1)
	l.PushBack(2)
	l.PushBack(3)
	l.PushBackList(l)
	var got []int
	for e := l.Front(); e != nil && len(got) < 20; e = e.Next() {
		got = append(got, e.Value)
	}
	want := []int{1, 2, 3, 1, 2, 3}
	if len(got) != 6 {
		t.Fatal(got)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatal(got)
		}
	}
}
''')
seed("list-movebefore", "C01", "common/container/list",
     "moving the last element directly before the first", "the backward link of the moved element keeps its old predecessor in one case",
     [(L, "	l.move(e, mark.prev)\n", "	if at := mark.prev; at != &l.root || e.next != &l.root {\n		l.move(e, at)\n		return\n	}\n	// the ring only has to be turned by one\n	first, last := l.root.next, e.prev\n	l.root.next, l.root.prev = e, last\n	e.next, first.prev = first, e\n	last.next = &l.root\n")],
     '''
package list

import "testing"

func TestDemo(t *testing.T) {
	l := New[int]()
	a := l.PushBack(1)
	l.PushBack(2)
	c := l.PushBack(3)
	l.MoveBefore(c, a)
	if c.Prev() != nil {
		t.Fatal("the first element has a predecessor")
	}
}
''')
H = "common/container/heap/heap.go"
seed("heap-remove-noup", "C03", "common/container/heap",
     "removing an element whose replacement, the last element, belongs to another subtree and must move up", "an element may precede its parent, so a later Pop is not a minimum",
     [(H, "	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) {\n			h.up(i)\n		}\n	}", "	if n != i {\n		h.swap(i, n)\n		if !h.down(i, n) && 2*i+1 < n {\n			h.up(i)\n		}\n	}")],
     '''
package heap

import (
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 2000; k++ {
		h := New(nil, func(a, b int) bool { return a < b })
		m := map[int]int{}
		for i := 0; i < 120; i++ {
			if h.Empty() || r.Intn(5) < 3 {
				x := r.Intn(100)
				m[x]++
				h.Push(x)
				continue
			}
			x := 0
			min := r.Intn(2) == 0
			if min {
				x = h.Pop()
			} else {
				x = h.Remove(r.Intn(h.Len()))
			}
			if m[x]--; m[x] == 0 {
				delete(m, x)
			}
			for y := range m {
				if min && y < x {
					t.Fatalf("%d popped before %d", x, y)
				}
			}
		}
	}
}
''')
seed("heapn-lastchild", "C04", "common/container/heap",
     "a node whose children are cut off by the end of the heap exactly before the last child", "the last child of a partly filled family is never compared",
     [("common/container/heap/heapn.go", "		k := h.n*i + 1\n		if k >= n || k < 0 {", "		k, n := h.n*i+1, n\n		if end := k + h.n; end < n {\n			n = end\n		} else if i > 0 && end > n && n-k > 1 {\n			n--\n		}\n		if k >= n || k < 0 {"),
      ],
     '''
package heap

import (
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 2000; k++ {
		h := NewN(3+r.Intn(3), func(a, b int) bool { return a < b })
		m := map[int]int{}
		for i := 0; i < 120; i++ {
			if h.Empty() || r.Intn(5) < 3 {
				x := r.Intn(100)
				m[x]++
				h.Push(x)
				continue
			}
			x := 0
			min := true
			x = h.Pop()
			if m[x]--; m[x] == 0 {
				delete(m, x)
			}
			for y := range m {
				if min && y < x {
					t.Fatalf("%d popped before %d", x, y)
				}
			}
		}
	}
}
''')
seed("meap-overwrite", "C05", "common/container/meap",
     "overwriting an entry with a value that has to move up past several ancestors", "an overwritten entry moves up at most one level, so Peek is not the minimum",
     [("common/container/meap/maep.go", "	if !h.down(i, h.Len()) {\n		h.up(i)\n	}\n}", "	if p := (i - 1) / 2; p != i && h.less(i, p) {\n		h.swap(i, p)\n		if !h.down(i, h.Len()) && p == 0 {\n			return\n		}\n		return\n	}\n	h.down(i, h.Len())\n}")],
     '''
package meap

import "testing"

func TestDemo(t *testing.T) {
	h := New(func(a, b Entry[int, int]) bool { return a.Value < b.Value })
	for i := 0; i < 15; i++ {
		h.Push(i, i)
	}
	h.Push(14, -1)
	if p := h.Peek(); p.Key != 14 {
		t.Fatal(p)
	}
}
''')
seed("reap-swapindex", "C06", "common/container/reap",
     "an element moved down past a right child, then removed through its handle", "the recorded position of an element is stale, so removing through a handle removes another element",
     [("common/container/reap/reap.go", "		h.swap(i, j)\n		i = j\n	}\n	return i > i0", "		h.h[i], h.h[j] = h.h[j], h.h[i]\n		h.h[i].index = i\n		if j == j1 {\n			h.h[j].index = j\n		} else {\n			h.h[j].index = j1 + (j1+1)%2\n		}\n		i = j\n	}\n	return i > i0")],
     '''
package meap

import (
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 300; k++ {
		h := New(func(a, b int) bool { return a < b })
		m := map[int]*Entry[int]{}
		for i := 0; i < 30; i++ {
			v := r.Intn(1000)*100 + i
			m[v] = h.Push(v)
		}
		for i := 0; i < 10; i++ {
			delete(m, h.Pop())
		}
		for v, e := range m {
			h.Remove(e)
			if e.index != -1 || e.Value() != v {
				t.Fatalf("removing %d removed another element", v)
			}
			break
		}
	}
}
''')

RF = "common/container/ringbuffer/fix/fix.go"
seed("fix-mpush-wrap", "C07", "common/container/ringbuffer/fix",
     "a bulk write that is cut to the free space after the write index has wrapped behind the read index", "values not yet read are overwritten and values that do not fit are counted",
     [(RF, "	if size > r.Avail() {\n		size = r.Avail()\n		elems = elems[:size]\n	}\n	if size == 0 {\n		return\n	}\n	in := r.in % r.size\n	copied := copy(r.data[in:], elems)\n	copy(r.data, elems[copied:])\n	r.in += size",
       "	if size > r.Avail() {\n		size = r.Avail()\n	}\n	if size == 0 {\n		return\n	}\n	in := r.in % r.size\n	copied := copy(r.data[in:], elems)\n	if uint64(copied) < size {\n		copy(r.data, elems[copied:])\n	}\n	r.in += size")],
     '''
package fix

import "testing"

func TestDemo(t *testing.T) {
	r := New[int](4)
	r.MPush(1, 2)
	r.MPop(1)
	r.MPush(3, 4, 5, 6, 7)
	got := r.MPop(4)
	want := []int{2, 3, 4, 5}
	if len(got) != 4 {
		t.Fatal(got)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatal(got)
		}
	}
}
''')
RU = "common/container/ringbuffer/unbounded/unbounded.go"
seed("unbounded-grow-wrap", "C09", "common/container/ringbuffer/unbounded",
     "growing while the stored values are wrapped around the end of the array and the buffer is not full", "values behind the wrap are lost",
     [(RU, "	copied := copy(data[:len], r.data[out:])\n	copy(data[copied:len], r.data)\n", "	copied := uint64(copy(data[:len], r.data[out:]))\n	copy(data[copied:len], r.data[:r.size-len])\n")],
     '''
package unbounded

import "testing"

func TestDemo(t *testing.T) {
	r := New[int](4)
	r.MPush(0, 0, 0, 1)
	r.MPop(3)
	r.MPush(2, 3)
	r.Grow(20)
	r.Push(4)
	got := r.MPop(10)
	want := []int{1, 2, 3, 4}
	if len(got) != 4 {
		t.Fatal(got)
	}
	for i := range want {
		if got[i] != want[i] {
			t.Fatal(got)
		}
	}
}
''')
M = "common/math/math.go"
seed("math-split-even", "C14", "common/math",
     "a count that is a multiple of the part size but not of the number of parts", "the last part is reported as empty",
     [(M, "	per := (n-1)/m + 1\n	last := n % per\n	if last == 0 {\n		last = per\n	}\n	return per, last", "	per := n / m\n	if n%m == 0 {\n		return per, per\n	}\n	per++\n	return per, n % per")],
     '''
package math

import "testing"

func TestDemo(t *testing.T) {
	if per, last := Split(6, 4); per != 2 || last != 2 {
		t.Fatal(per, last)
	}
}
''')
seed("map-nil-value", "C11", "help/utils",
     "test-and-set of a key that is present with a nil value", "a present key with value nil is overwritten, so two callers can both store",
     [("help/utils/maps.go", "	if v, ok := m.m[key]; ok {\n		return v\n	} else {\n		m.m[key] = value\n		return nil\n	}", "	v := m.m[key]\n	if v == nil {\n		m.m[key] = value\n	}\n	return v")],
     '''
package utils

import "testing"

func TestDemo(t *testing.T) {
	m := &Map{}
	m.Set("k", nil)
	m.TestAndSet("k", 1)
	if v := m.Get("k"); v != nil {
		t.Fatal("a present key was overwritten with", v)
	}
}
''')
seed("bloom-early-stop", "C12", "common/filter/bloom",
     "adding a hash whose first bit was set by another one", "the remaining bits are not set, so the added value can be denied",
     [("common/filter/bloom/bloom.go", "		f.bits[index] |= 1 << offset\n", "		mask := uint64(1) << offset\n		if f.bits[index]&mask != 0 && f.bits[index] != mask {\n			// present already\n			return\n		}\n		f.bits[index] |= mask\n")],
     '''
package bloom

import "testing"

func TestDemo(t *testing.T) {
	for round := 0; round < 50; round++ {
		f := New(40, 0.01)
		for i := uint64(0); i < 40; i++ {
			f.Add(i * 0x9e3779b97f4a7c15)
		}
		for i := uint64(0); i < 40; i++ {
			if !f.Contains(i * 0x9e3779b97f4a7c15) {
				t.Fatal("an added hash is denied")
			}
		}
	}
}
''')
seed("hash-empty", "C13", "common/hash",
     "hashing no bytes after something else was hashed", "the reset is skipped for empty input, so its hash depends on history",
     [("common/hash/hash.go", "	h.h.Reset()\n	_, err := h.h.Write(b)\n	if err != nil {\n		return 0\n	}\n	return h.h.Sum64()", "	if len(b) == 0 {\n		return h.h.Sum64()\n	}\n	h.h.Reset()\n	_, err := h.h.Write(b)\n	if err != nil {\n		return 0\n	}\n	return h.h.Sum64()")],
     '''
package hash

import "testing"

func TestDemo(t *testing.T) {
	h := New()
	a := h.Sum64(nil)
	h.Sum64String("x")
	if h.Sum64(nil) != a || h.Sum64String("") != a {
		t.Fatal("the hash of no bytes changed")
	}
}
''')
seed("fixed-window-aligned", "C15", "common/limiter/fixed_window",
     "requests after an idle time of several windows", "the window start only moves by one window, so the next requests each start a new one",
     [("common/limiter/fixed_window/fixed_window.go", "		l.lastTime = now\n", "		l.lastTime = l.lastTime.Add(l.window)\n")],
     '''
package fixed_window

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l := NewFixedWindowLimiter(1, 200*time.Millisecond)
	time.Sleep(900 * time.Millisecond)
	n := 0
	for i := 0; i < 5; i++ {
		if l.TryAcquire() {
			n++
		}
	}
	if n != 1 {
		t.Fatal(n, "requests granted at once with limit 1")
	}
}
''')
seed("leaky-idle-credit", "C16", "common/limiter/leaky_bucket",
     "a burst after the empty bucket was idle for a while", "idle time of an empty bucket is credited again in the middle of the burst",
     [("common/limiter/leaky_bucket/leaky_bucket_limiter.go", "	if interval >= time.Second {\n", "	if interval >= time.Second && l.currentLevel > 0 {\n")],
     '''
package leaky_bucket

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l := NewLeakyBucketLimiter(2, 10)
	time.Sleep(1200 * time.Millisecond)
	n := 0
	for i := 0; i < 5; i++ {
		if l.TryAcquire() {
			n++
		}
	}
	if n != 2 {
		t.Fatal(n, "requests granted at once with peak 2")
	}
}
''')
seed("sliding-lazy-clean", "C17", "common/limiter/sliding_window",
     "sparse requests: fewer live slots than the window has", "expired slots are counted until there are more slots than the window holds, so requests are refused with room left",
     [("common/limiter/sliding_window/sliding_window.go", "		if smallWindow < startSmallWindow {\n", "		if smallWindow < startSmallWindow && int64(len(l.counters)) > l.smallWindows {\n")],
     '''
package sliding_window

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	l, err := NewSlidingWindowLimiter(2, 100*time.Millisecond, 20*time.Millisecond)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		if !l.TryAcquire() {
			t.Fatal("refused with an empty window")
		}
		time.Sleep(200 * time.Millisecond)
	}
}
''')
seed("sliding-log-order", "C18", "common/limiter/sliding_log",
     "a rule set where the smaller window has the larger limit", "the order is no longer by window first, so an invalid rule set is accepted",
     [("common/limiter/sliding_log/sliding_log.go", "		if a.window == b.window {\n			return a.limit > b.limit\n		}\n		return a.window > b.window\n", "		if a.limit != b.limit {\n			return a.limit > b.limit\n		}\n		return a.window > b.window\n")],
     '''
package sliding_log

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	a, b := NewSlidingLogLimiterStrategy(8, 5*time.Second), NewSlidingLogLimiterStrategy(5, 10*time.Second)
	if _, err := NewSlidingLogLimiter(time.Second, a, b); err == nil {
		t.Fatal("a smaller window with a larger limit was accepted")
	}
}
''')
DQ = "common/timer/delayqueue/delayqueue.go"
seed("delayqueue-two-steps", "C19", "common/timer/delayqueue",
     "another goroutine taking or pushing an item between the two critical sections of Take", "the due item is looked up and removed in two critical sections, so an item can be delivered twice and another lost",
     [(DQ, """			if now.After(entry.expiration) {
				q.h.Pop()
				q.mutex.Unlock()
				return entry.value, true
			}
""", """			if now.After(entry.expiration) {
				q.mutex.Unlock()
				q.drop()
				return entry.value, true
			}
"""), (DQ, """// Channel
//  @Description: 返回一个通道""", """// drop 移除队头元素
func (q *DelayQueue[T]) drop() {
	q.mutex.Lock()
	defer q.mutex.Unlock()
	if !q.h.Empty() {
		q.h.Pop()
	}
}

// Channel
//  @Description: 返回一个通道""")],
     '''
package delayqueue

import (
	"context"
	"sync"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 40; round++ {
		q := New[int]()
		const n = 20000
		for i := 0; i < n; i++ {
			q.Push(i, 0)
		}
		time.Sleep(time.Millisecond)
		got := make([]int, n)
		var mu sync.Mutex
		var wg sync.WaitGroup
		for c := 0; c < 8; c++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
					x, ok := q.Take(ctx)
					cancel()
					if !ok {
						return
					}
					mu.Lock()
					got[x]++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		for i, k := range got {
			if k != 1 {
				t.Fatalf("item %d delivered %d times", i, k)
			}
		}
	}
}
''')

TW = "common/timer/timingwheel/timing_wheel.go"
TB = "common/timer/timingwheel/bucket.go"
seed("wheel-relative-slot", "C20", "common/timer/timingwheel",
     "timers added at different times of the wheel whose distances to their due ticks are equal modulo the wheel size", "the slot depends on the wheel's clock as well as on the due time, so two due ticks share a bucket and the first timer is rescheduled to the later one",
     [(TW, "		b := tw.buckets[ticks%tw.wheelSize]\n", "		b := tw.buckets[(ticks-currentTime/tw.tick)%tw.wheelSize]\n")],
     """
package timingwheel

import "testing"

func TestDemo(t *testing.T) {
	tw := newTimingWheel(10, 8, 1000, newDelayQueue())
	a, b := &Timer{expiration: 1023, task: func() {}}, &Timer{expiration: 1035, task: func() {}}
	if !tw.add(a) {
		t.Fatal("not filed")
	}
	tw.advance(1010)
	if !tw.add(b) {
		t.Fatal("not filed")
	}
	if e := a.getBucket().getExpiration(); e > a.expiration {
		t.Fatalf("a timer due at %d waits until %d", a.expiration, e)
	}
}
""")
seed("wheel-lagging-level", "C20", "common/timer/timingwheel",
     "the clock jumping over the boundary of a turn (no bucket due exactly there) and then a timer that only just fits the second level", "the second level's clock stays behind, so timers are filed one level too high and come due much more than a tick early",
     [(TW, "		if overflowWheel != nil {\n			(*TimingWheel)(overflowWheel).advance(currentTime)", "		if overflowWheel != nil && currentTime%tw.interval == 0 { // 上一级走了一跳\n			(*TimingWheel)(overflowWheel).advance(currentTime)")],
     """
package timingwheel

import "testing"

func TestDemo(t *testing.T) {
	tw := newTimingWheel(1, 4, 0, newDelayQueue())
	tw.add(&Timer{expiration: 5, task: func() {}})
	tw.advance(9)
	a := &Timer{expiration: 23, task: func() {}}
	tw.add(a)
	// it is due in 14 ms: a turn of the second level is 16 ms with ticks of 4 ms
	if e := a.getBucket().getExpiration(); e <= a.expiration-4 {
		t.Fatalf("a timer due at %d is in the bucket of %d", a.expiration, e)
	}
}
""")
seed("wheel-stop-once", "C20", "common/timer/timingwheel",
     "Stop running while the timer moves from one bucket to another", "Stop looks for the timer only once, so it reports failure and leaves a waiting timer filed when the timer has just been moved",
     [(TB, "	for b := t.getBucket(); b != nil; b = t.getBucket() {\n		stop = b.remove(t)\n	}\n", "	if b := t.getBucket(); b != nil {\n		stop = b.remove(t)\n	}\n")],
     """
package timingwheel

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	from, to := newBucket(), newBucket()
	a := &Timer{expiration: 5, task: func() {}}
	from.add(a)
	from.mutex.Lock()
	done := make(chan bool)
	go func() { done <- a.Stop() }()
	time.Sleep(100 * time.Millisecond)
	// the bucket comes due meanwhile and its timer moves down a level
	from.timers.Remove(a.elem)
	a.setBucket(nil)
	a.elem = nil
	to.add(a)
	from.mutex.Unlock()
	if !<-done || a.getBucket() != nil {
		t.Fatal("the timer is still filed")
	}
}
""")
GT, GU = "gorm_tools/gorm.go", "gorm_tools/update.go"
FAKEDB = '''
type pool struct {
	sql    []string
	args   [][]any
	failAt int
}

func (p *pool) PrepareContext(context.Context, string) (*sql.Stmt, error) { return nil, errors.New("no") }
func (p *pool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) {
	return nil, errors.New("no")
}
func (p *pool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }
func (p *pool) ExecContext(_ context.Context, q string, args ...interface{}) (sql.Result, error) {
	p.sql, p.args = append(p.sql, q), append(p.args, args)
	if len(p.sql) == p.failAt {
		return nil, errors.New("the database is gone")
	}
	return res(1), nil
}

type res int64

func (r res) LastInsertId() (int64, error) { return 0, nil }
func (r res) RowsAffected() (int64, error) { return int64(r), nil }

func fake(t *testing.T, failAt int) (*gorm.DB, *pool) {
	p := &pool{failAt: failAt}
	db, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{ConnPool: p, SkipDefaultTransaction: true, Logger: logger.Discard})
	if err != nil {
		t.Fatal(err)
	}
	return db, p
}
'''
FAKEIMP = '''
package gorm_tools

import (
	"context"
	"database/sql"
	"errors"
	"testing"

	"gorm.io/gorm"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/utils/tests"
)
'''
seed("gorm-update-tail", "C21", "gorm_tools",
     "a split update of more than 500 ids whose number is not a multiple of 500", "the ids of the last, incomplete batch are never updated",
     [(GU, "		if index == maxUpdateLen || totalNum == len(idUpdateMap) {\n			index, sliceUpdate = 0, append(sliceUpdate, tmpMap)\n		}\n	}\n", "		if index == maxUpdateLen {\n			index, sliceUpdate = 0, append(sliceUpdate, tmpMap)\n		}\n	}\n	if len(sliceUpdate) == 0 && index > 0 {\n		sliceUpdate = append(sliceUpdate, tmpMap)\n	}\n")],
     FAKEIMP + FAKEDB + """
func TestDemo(t *testing.T) {
	for _, n := range []int{3, 500, 501, 1000} {
		db, p := fake(t, 0)
		m := map[int64]map[string]any{}
		for i := 0; i < n; i++ {
			m[int64(i)] = map[string]any{"a": i}
		}
		if err := SplitUpdateTableFieldWithoutVersionByID(db, "t", m); err != nil {
			t.Fatal(err)
		}
		args := 0
		for _, a := range p.args {
			args += len(a)
		}
		if args != 3*n {
			t.Fatalf("%d ids: %d values sent", n, args)
		}
	}
}
""")
seed("gorm-dup-go-on", "C21", "gorm_tools",
     "a batch other than the last failing with a duplicate key", "the failure is swallowed and later batches are written",
     [(GT, "		err = BatchInsertTableRecords(db, table, records[:insertLen]...)\n		if err != nil {\n			return err\n		}\n		records = records[insertLen:]\n	}\n\n	return nil\n", "		err = BatchInsertTableRecords(db, table, records[:insertLen]...)\n		if err != nil {\n			failed = err\n		}\n		records = records[insertLen:]\n	}\n\n	return failed\n"),
      (GT, "	for len(records) != 0 {\n		// 获取", "	var failed error\n	for len(records) != 0 {\n		// 获取")],
     FAKEIMP + FAKEDB + """
func TestDemo(t *testing.T) {
	db, p := fake(t, 1)
	rec := map[string]any{}
	for i := 0; i < 40000; i++ {
		rec[string(rune('a'+i%26))+string(rune(0x4e00+i/26))] = i
	}
	err := SplitInsertTableRecords(db, "t", rec, rec, rec)
	if err == nil || len(p.sql) != 1 {
		t.Fatalf("%d statements ran, err %v", len(p.sql), err)
	}
}
""")
seed("gorm-first-width", "C21", "gorm_tools",
     "a later batch made of records with more fields than the very first record", "a batch needs more placeholders than the database allows",
     [(GT, "		maxInsertLen := 65000 / len(recordMap)\n", "		if maxInsertLen == 0 {\n			maxInsertLen = 65000 / len(recordMap)\n		}\n"),
      (GT, "	for len(records) != 0 {\n		// 获取", "	maxInsertLen := 0\n	for len(records) != 0 {\n		// 获取")],
     FAKEIMP + FAKEDB + """
func TestDemo(t *testing.T) {
	db, p := fake(t, 0)
	var recs []any
	for i := 0; i < 130; i++ {
		rec := map[string]any{}
		for j := 0; j < 1000*(1+i/65); j++ {
			rec[string(rune(0x4e00+j))] = j
		}
		recs = append(recs, rec)
	}
	SplitInsertTableRecords(db, "t", recs...)
	for _, a := range p.args {
		if len(a) > 65535 {
			t.Fatalf("a statement with %d placeholders", len(a))
		}
	}
}
""")

S = "help/utils/strings.go"
seed("codec-parse32", "C22", "help/utils",
     "an int64 beyond 32 bits", "converting it to text and back clamps it",
     [(S, "	r, _ := strconv.ParseInt(s, 10, 64)", "	bits := strconv.IntSize\n	if len(s) < 11 || s[0] == '-' {\n		bits = 32\n	}\n	r, _ := strconv.ParseInt(s, 10, bits)")],
     """
package utils

import "testing"

func TestDemo(t *testing.T) {
	for _, n := range []int64{0, -1, 12, 4000000000, -4000000000, 1 << 40, -1 << 63, 1<<63 - 1} {
		if got := StringToInt64(Int64ToString(n)); got != n {
			t.Fatalf("%d came back as %d", n, got)
		}
	}
}
""")
seed("codec-byte-alphabet", "C22", "help/utils",
     "bytes whose encoding uses the 62nd or 63rd digit, or padding, passed to one of the decoders", "the URL alphabet is used on one side only",
     [("help/utils/base64.go", "	return base64.StdEncoding.EncodeToString(data)", "	return base64.URLEncoding.EncodeToString(data)")],
     """
package utils

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, b := range [][]byte{nil, {1}, {1, 2, 3}, {0xfb, 0xff}, {0xff, 0xff, 0xff}} {
		if got := Base64DecodeToByte(Base64EncodeToByte(b)); !bytes.Equal(got, b) {
			t.Fatalf("%x came back as %x", b, got)
		}
	}
}
""")
seed("digest-short-file", "C22", "help/utils",
     "a file longer than one 32 kB buffer", "only the first read of a stream is digested",
     [("help/utils/md5.go", "	io.Copy(md5h, file)", "	buf := make([]byte, 32*1024)\n	n, _ := io.ReadFull(file, buf)\n	md5h.Write(buf[:n])")],
     """
package utils

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{0, 1, 1000, 32768, 32769, 100000} {
		b := bytes.Repeat([]byte{7}, n)
		if got, want := ComputeFileMD5(bytes.NewReader(b)), MD5V(b); got != want {
			t.Fatalf("%d bytes: %s, not %s", n, got, want)
		}
	}
}
""")
seed("aes-full-block", "C23", "help/utils",
     "a text of whole blocks", "it is not filled up, so decryption cuts off its end or fails",
     [("help/utils/md5.go", "	encryptBytes := pkcs7Padding(data, blockSize)", "	encryptBytes := data\n	if len(data) == 0 || len(data)%blockSize != 0 {\n		encryptBytes = pkcs7Padding(data, blockSize)\n	}")],
     """
package utils

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	for n := 0; n < 70; n++ {
		b := bytes.Repeat([]byte{65}, n)
		enc, err := AesEncrypt(b, key)
		if err != nil {
			t.Fatal(err)
		}
		dec, err := AesDecrypt(enc, key)
		if err != nil || !bytes.Equal(b, dec) {
			t.Fatalf("%d bytes came back as %q, %v", n, dec, err)
		}
	}
}
""")
seed("aes-in-place", "C23", "help/utils",
     "decrypting one ciphertext twice", "the ciphertext is overwritten with the text",
     [("help/utils/md5.go", "	crypted := make([]byte, len(data))\n", "	crypted := data\n")],
     """
package utils

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	key := []byte("0123456789abcdef")
	b := []byte("twice is better than once, or not")
	enc, err := AesEncrypt(b, key)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		dec, err := AesDecrypt(enc, key)
		if err != nil || !bytes.Equal(b, dec) {
			t.Fatalf("time %d: %q, %v", i, dec, err)
		}
	}
}
""")
seed("mask-name-bytes", "C24", "help/utils",
     "a name longer than four characters in a script of several bytes per character", "its last two bytes are shown, not its last two characters",
     [(S, "string(_name[len(_name)-2:])", "name[len(name)-2:]")],
     """
package utils

import "testing"

func TestDemo(t *testing.T) {
	for in, want := range map[string]string{"Robert": "Ro***rt", "欧阳娜娜娜": "欧阳***娜娜", "José María": "Jo***ía"} {
		if got := MaskCustomerName(in); got != want {
			t.Fatalf("%q masked as %q, want %q", in, got, want)
		}
	}
}
""")
seed("mask-hide-four", "C24", "help/utils",
     "a four-character text", "the third character is shown as well",
     [(S, 'string(nameRune[:1]) + "**" + string(nameRune[lens-1:lens])', 'string(nameRune[:1]) + "**" + string(nameRune[lens-2:lens])')],
     """
package utils

import "testing"

func TestDemo(t *testing.T) {
	for in, want := range map[string]string{"abc": "a*c", "abcd": "a**d", "欧阳娜娜": "欧**娜", "abcde": "ab***de"} {
		if got := HideStar(in); got != want {
			t.Fatalf("%q hidden as %q, want %q", in, got, want)
		}
	}
}
""")
seed("size-exabytes", "C27", "help/utils",
     "a size of an exabyte or more", "there is no unit for it and formatting panics",
     [("help/utils/files.go", 'sizes := []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}', 'sizes := []string{"B", "KB", "MB", "GB", "TB", "PB"}')],
     """
package utils

import "testing"

func TestDemo(t *testing.T) {
	for n, want := range map[int64]string{5: "5 B", 1 << 20: "1.0 MB", 20 << 50: "20 PB", 2 << 60: "2.0 EB"} {
		if got := FileSize(n); got != want {
			t.Fatalf("%d: %s, want %s", n, got, want)
		}
	}
}
""")
seed("randstr-mixed-kind", "C27", "help/utils",
     "a kind out of range", "texts of any kind end in characters that are in none of the classes",
     [("help/utils/rand.go", "[][]int{{10, 48}, {26, 97}, {26, 65}}", "[][]int{{10, 48}, {26, 97}, {27, 65}}")],
     """
package utils

import "testing"

func TestDemo(t *testing.T) {
	for kind := -1; kind < 5; kind++ {
		for _, c := range RandStr(20000, kind) {
			if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
				t.Fatalf("kind %d: %q", kind, c)
			}
		}
	}
}
""")
seed("same-site-backslash", "C27", "help/utils",
     "an address that starts with a slash and a backslash", "another site's address is accepted",
     [("help/utils/files.go", "url[0] == '/' && url[1] != '/' && url[1] != '\\\\'", "url[0] == '/' && url[:2] != \"//\"")],
     """
package utils

import "testing"

func TestDemo(t *testing.T) {
	for in, want := range map[string]bool{"/a": true, "//a": false, "/\\\\a.b": false, "": false, "http://a": false} {
		if got := IsSameSiteURLPath(in); got != want {
			t.Fatalf("%q: %v", in, got)
		}
	}
}
""")
