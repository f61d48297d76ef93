package sliding_log

import (
	"errors"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var verifClock int64 = 1_700_000_000_000_000_000

func verifNow() time.Time { return time.Unix(0, atomic.LoadInt64(&verifClock)) }

func verifSince(t time.Time) time.Duration { return verifNow().Sub(t) }

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second)
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// within fails the test when f does not return: a lock was left held
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

// burst counts the requests granted among n made by many goroutines at one instant
func burst(t *testing.T, what string, n int, try func() bool) int {
	t.Helper()
	var got int64
	within(t, what, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n/8; i++ {
					if try() {
						atomic.AddInt64(&got, 1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	return int(got)
}

type verifRule struct {
	limit  int
	window int64
}

func TestVerif(t *testing.T) {
	end, r := verifSecs(), verifRand()
	small := []int64{1, 3, 10, 1000, int64(time.Second)}
	for round := 0; time.Now().Before(end); round++ {
		if verifClock > 4e18 {
			verifClock = 17e17
		}
		s := small[r.Intn(len(small))]
		var rules []verifRule
		for i := r.Intn(5); i > 0; i-- {
			w := s * int64(1+r.Intn(6))
			if r.Intn(12) == 0 && s > 1 {
				w++
			}
			lim := int(w/s)*2 + r.Intn(5) - 2
			if r.Intn(8) == 0 {
				lim = r.Intn(8) - 1
			}
			rules = append(rules, verifRule{lim, w})
		}
		ok := len(rules) > 0
		for i, a := range rules {
			if a.window%s != 0 {
				ok = false
			}
			for j, b := range rules {
				if i != j && (a.window > b.window && a.limit <= b.limit || a.window == b.window && a.limit == b.limit) {
					ok = false
				}
			}
		}
		var given []*SlidingLogLimiterStrategy
		for _, a := range rules {
			given = append(given, NewSlidingLogLimiterStrategy(a.limit, time.Duration(a.window)))
		}
		before := append([]*SlidingLogLimiterStrategy(nil), given...)
		l, err := NewSlidingLogLimiter(time.Duration(s), given...)
		if (err == nil) != ok || (l != nil) != ok {
			t.Fatalf("slots of %d, rules %v: error %v", s, rules, err)
		}
		for i := range given {
			if given[i] != before[i] {
				t.Fatalf("slots of %d, rules %v: the caller's slice was reordered", s, rules)
			}
			if again, _ := NewSlidingLogLimiter(time.Duration(s), given[i]); ok && again == nil {
				t.Fatalf("slots of %d, rules %v: a rule can not be used again", s, rules)
			}
			if r.Intn(2) == 0 { // whatever the caller does with the rules
				*given[i] = *NewSlidingLogLimiterStrategy(1, time.Duration(s))
				given[i] = nil
			}
		}
		if !ok {
			continue
		}
		var grants, trace []int64
		within(t, "TryAcquire", func() {
			for i := 0; i < 80; i++ {
				switch r.Intn(6) {
				case 0:
					verifClock += s
				case 1:
					verifClock += r.Int63n(s)
				case 2:
					verifClock += r.Int63n(s * 7)
				case 3:
					verifClock = verifClock/s*s + s - int64(r.Intn(2))
				}
				var full []verifRule
				for _, a := range rules {
					c := 0
					for _, g := range grants {
						if g >= verifClock/s*s-a.window+s {
							c++
						}
					}
					if c >= a.limit {
						full = append(full, a)
					}
				}
				trace = append(trace, verifClock)
				err := l.TryAcquire()
				if (err == nil) != (len(full) == 0) {
					t.Errorf("slots of %d, rules %v: request at %d: error %v, full rules %v; requests at %v", s, rules, verifClock, err, full, trace)
					return
				}
				if err == nil {
					grants = append(grants, verifClock)
					continue
				}
				var v *ViolationStrategyError
				named := false
				if errors.As(err, &v) {
					for _, a := range full {
						named = named || v.Limit == a.limit && int64(v.Window) == a.window
					}
				}
				if !named {
					t.Errorf("slots of %d, rules %v: request at %d: %v named, full rules %v", s, rules, verifClock, err, full)
					return
				}
			}
		})
		if t.Failed() {
			return
		}
		if round%20 == 0 {
			limit := 1 + r.Intn(200)
			l, _ := NewSlidingLogLimiter(time.Millisecond, NewSlidingLogLimiterStrategy(1000, time.Second), NewSlidingLogLimiterStrategy(limit, time.Millisecond*10))
			if got := burst(t, "concurrent TryAcquire", 800, func() bool { return l.TryAcquire() == nil }); got != limit {
				t.Fatalf("limit %d: %d of 800 concurrent requests granted", limit, got)
			}
		}
	}
}
