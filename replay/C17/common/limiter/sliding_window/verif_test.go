package sliding_window

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var verifClock int64 = 1_700_000_000_000_000_000

func verifNow() time.Time { return time.Unix(0, atomic.LoadInt64(&verifClock)) }

func verifSince(t time.Time) time.Duration { return verifNow().Sub(t) }

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second)
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// within fails the test when f does not return: a lock was left held
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

// burst counts the requests granted among n made by many goroutines at one instant
func burst(t *testing.T, what string, n int, try func() bool) int {
	t.Helper()
	var got int64
	within(t, what, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n/8; i++ {
					if try() {
						atomic.AddInt64(&got, 1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	return int(got)
}

func TestVerif(t *testing.T) {
	end, r := verifSecs(), verifRand()
	small := []int64{1, 3, 10, 1000, int64(time.Second)}
	for round := 0; time.Now().Before(end); round++ {
		if verifClock > 4e18 {
			verifClock = 17e17
		}
		limit, s, n := r.Intn(9)-1, small[r.Intn(len(small))], int64(1+r.Intn(6))
		if s > 1 {
			w := s*n + 1 + r.Int63n(s-1)
			if l, err := NewSlidingWindowLimiter(limit, time.Duration(w), time.Duration(s)); err == nil || l != nil {
				t.Fatalf("window %d accepted with slots of %d", w, s)
			}
		}
		l, err := NewSlidingWindowLimiter(limit, time.Duration(s*n), time.Duration(s))
		if err != nil {
			t.Fatalf("window of %d slots refused: %v", n, err)
		}
		var grants, trace []int64
		within(t, "TryAcquire", func() {
			for i := 0; i < 80; i++ {
				switch r.Intn(6) {
				case 0:
					verifClock += s
				case 1:
					verifClock += r.Int63n(s)
				case 2:
					verifClock += r.Int63n(s * n)
				case 3:
					verifClock = verifClock/s*s + s - int64(r.Intn(2))
				case 4:
					if r.Intn(8) == 0 {
						verifClock += s*n*(int64(r.Intn(3))) + int64(r.Intn(2))
					}
				}
				c, from := 0, verifClock/s*s-s*(n-1)
				for _, g := range grants {
					if g >= from {
						c++
					}
				}
				trace = append(trace, verifClock)
				got := l.TryAcquire()
				if got != (c < limit) {
					t.Errorf("limit %d, %d slots of %d: request at %d: granted %v with %d granted since %d; requests at %v", limit, n, s, verifClock, got, c, from, trace)
					return
				}
				if got {
					grants = append(grants, verifClock)
				}
			}
		})
		if t.Failed() {
			return
		}
		if round%20 == 0 {
			limit := 1 + r.Intn(200)
			l, _ := NewSlidingWindowLimiter(limit, time.Second, time.Millisecond)
			if got := burst(t, "concurrent TryAcquire", 800, l.TryAcquire); got != limit {
				t.Fatalf("limit %d: %d of 800 concurrent requests granted", limit, got)
			}
		}
	}
}
