package delayqueue

import (
	"context"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"sync"
	"testing"
	"time"
)

// a clock moved by the test, and the timers that depend on it
var (
	verifMu     sync.Mutex
	verifClock  int64 = 1_700_000_000_000_000_000
	verifTimers []verifTimer
)

type verifTimer struct {
	at int64
	c  chan time.Time
}

func verifNow() time.Time {
	verifMu.Lock()
	defer verifMu.Unlock()
	return time.Unix(0, verifClock)
}

func verifSince(t time.Time) time.Duration { return verifNow().Sub(t) }

func verifAfter(d time.Duration) <-chan time.Time {
	verifMu.Lock()
	defer verifMu.Unlock()
	c := make(chan time.Time, 1)
	if d <= 0 {
		c <- time.Unix(0, verifClock)
		return c
	}
	verifTimers = append(verifTimers, verifTimer{verifClock + int64(d), c})
	return c
}

func verifNewTimer(d time.Duration) *time.Timer {
	t := time.NewTimer(time.Hour)
	t.C = verifAfter(d)
	return t
}

func advance(d int64) {
	verifMu.Lock()
	defer verifMu.Unlock()
	verifClock += d
	var rest []verifTimer
	for _, t := range verifTimers {
		if t.at <= verifClock {
			t.c <- time.Unix(0, verifClock)
		} else {
			rest = append(rest, t)
		}
	}
	verifTimers = rest
}

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second / 3)
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

type item struct {
	id int
	at int64
}

// one caller: every call is compared with a list of the waiting items
func TestVerifPolling(t *testing.T) {
	end, r := verifSecs(), verifRand()
	cancelled, cancel := context.WithCancel(context.Background())
	cancel()
	for time.Now().Before(end) {
		q := New[item]()
		var model []item
		first := func() (m int64) {
			for i, x := range model {
				if i == 0 || x.at < m {
					m = x.at
				}
			}
			return
		}
		take := func(what string, x item) {
			for i, y := range model {
				if x == y {
					model = append(model[:i], model[i+1:]...)
					return
				}
			}
			t.Fatalf("%s delivered %v, which is not waiting: %v", what, x, model)
		}
		for i := 0; i < 120; i++ {
			now := verifNow().UnixNano()
			switch r.Intn(7) {
			case 0, 1:
				d := r.Int63n(50) - 5
				x := item{i, now + d}
				model = append(model, x)
				within(t, "Push", func() { q.Push(x, time.Duration(d)) })
			case 2:
				advance(r.Int63n(30))
			case 3:
				var x item
				var ok bool
				within(t, "Pop", func() { x, ok = q.Pop() })
				due := len(model) > 0 && first() <= now
				if ok != due || (!ok && x != item{}) {
					t.Fatalf("Pop at %d returned %v, %v; waiting %v", now, x, ok, model)
				}
				if ok {
					if x.at != first() {
						t.Fatalf("Pop at %d returned %v before an earlier item; waiting %v", now, x, model)
					}
					take("Pop", x)
				}
			case 4:
				var x item
				var ok bool
				within(t, "Peek", func() { x, ok = q.Peek() })
				if ok != (len(model) > 0) || ok && x.at != first() {
					t.Fatalf("Peek returned %v, %v; waiting %v", x, ok, model)
				}
			case 5:
				var e bool
				within(t, "Empty", func() { e = q.Empty() })
				if e != (len(model) == 0) {
					t.Fatalf("Empty returned %v with %v waiting", e, model)
				}
			case 6:
				ctx := cancelled
				due := len(model) > 0 && first() < now
				if due {
					ctx = context.Background()
				}
				var x item
				var ok bool
				within(t, "Take", func() { x, ok = q.Take(ctx) })
				if ok != due && !(ok && len(model) > 0 && first() <= now) || (!ok && x != item{}) {
					t.Fatalf("Take at %d returned %v, %v; waiting %v", now, x, ok, model)
				}
				if ok {
					if x.at != first() {
						t.Fatalf("Take at %d returned %v before an earlier item; waiting %v", now, x, model)
					}
					take("Take", x)
				}
			}
		}
	}
}

// one waiting consumer: everything pushed arrives once, in due order, and not early
func TestVerifWaiting(t *testing.T) {
	end, r := verifSecs(), verifRand()
	for time.Now().Before(end) {
		q := New[item]()
		ctx, cancel := context.WithCancel(context.Background())
		out := q.Channel(ctx, r.Intn(3))
		var model []item
		for step := 0; step < 12; step++ {
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
			}
			for i := r.Intn(4); i > 0; i-- {
				d := 1 + r.Int63n(60)
				x := item{step*10 + i, verifNow().UnixNano() + d}
				model = append(model, x)
				within(t, "Push", func() { q.Push(x, time.Duration(d)) })
			}
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
			}
			advance(1 + r.Int63n(40))
			if step == 11 {
				advance(100)
			}
			now := verifNow().UnixNano()
			sort.SliceStable(model, func(i, j int) bool { return model[i].at < model[j].at })
			// an item due exactly now may come now or later
			for last := int64(0); len(model) > 0 && model[0].at < now; {
				var x item
				for wait, got := 0, false; !got; wait++ {
					select {
					case x, got = <-out:
						if !got {
							t.Fatalf("the consumer ended")
						}
					case <-time.After(5 * time.Millisecond):
						// a consumer that looked at the clock before it moved waits a little longer
						if advance(3); wait > 2000 {
							t.Fatalf("nothing delivered at %d; waiting %v", now, model)
						}
					}
				}
				now = verifNow().UnixNano()
				if x.at > now || x.at < last {
					t.Fatalf("%v delivered at %d after one due %d; waiting %v", x, now, last, model)
				}
				last = x.at
				found := false
				for i, y := range model {
					if y == x {
						model, found = append(model[:i:i], model[i+1:]...), true
						break
					}
				}
				if !found {
					t.Fatalf("%v delivered, which is not waiting: %v", x, model)
				}
			}
		}
		cancel()
		within(t, "the consumer after cancellation", func() {
			for range out {
			}
		})
		if len(model) > 0 {
			t.Fatalf("lost: %v", model)
		}
	}
}

// many producers and consumers, some of which give up: nothing twice, nothing early, and nobody is blocked
func TestVerifCancel(t *testing.T) {
	end, r := verifSecs(), verifRand()
	for time.Now().Before(end) {
		q := New[item]()
		var mu sync.Mutex
		got := map[int]int{}
		var consumers, producers sync.WaitGroup
		stop, cancelAll := context.WithCancel(context.Background())
		for c := 0; c < 3; c++ {
			seed := r.Int63()
			consumers.Add(1)
			go func() {
				defer consumers.Done()
				r := rand.New(rand.NewSource(seed))
				for stop.Err() == nil {
					ctx, cancel := context.WithTimeout(stop, time.Duration(r.Intn(200))*time.Microsecond)
					x, ok := q.Take(ctx)
					if now := verifNow().UnixNano(); ok && x.at > now {
						t.Errorf("%v delivered early, at %d", x, now)
					}
					cancel()
					if ok {
						mu.Lock()
						got[x.id]++
						mu.Unlock()
					}
				}
			}()
		}
		for p := 0; p < 3; p++ {
			p, seed := p, r.Int63()
			producers.Add(1)
			go func() {
				defer producers.Done()
				r := rand.New(rand.NewSource(seed))
				for i := 0; i < 60; i++ {
					d := r.Int63n(40)
					q.Push(item{p*1000 + i, verifNow().UnixNano()}, time.Duration(d))
					advance(r.Int63n(10))
					if r.Intn(4) == 0 {
						time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
					}
				}
			}()
		}
		within(t, "Push with consumers that give up", producers.Wait)
		cancelAll()
		within(t, "Take after cancellation", consumers.Wait)
		within(t, "Push without consumers", func() { q.Push(item{-1, 0}, 0) })
		advance(1000)
		within(t, "Pop", func() {
			for x, ok := q.Pop(); ok; x, ok = q.Pop() {
				got[x.id]++
			}
		})
		for p := 0; p < 3; p++ {
			for i := 0; i < 60; i++ {
				if n := got[p*1000+i]; n != 1 {
					t.Fatalf("item %d delivered %d times", p*1000+i, n)
				}
			}
		}
	}
}
