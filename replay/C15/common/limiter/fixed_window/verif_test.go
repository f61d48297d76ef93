package fixed_window

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var verifClock int64 = 1_700_000_000_000_000_000

func verifNow() time.Time { return time.Unix(0, atomic.LoadInt64(&verifClock)) }

func verifSince(t time.Time) time.Duration { return verifNow().Sub(t) }

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second)
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// within fails the test when f does not return: a lock was left held
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

// burst counts the requests granted among n made by many goroutines at one instant
func burst(t *testing.T, what string, n int, try func() bool) int {
	t.Helper()
	var got int64
	within(t, what, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n/8; i++ {
					if try() {
						atomic.AddInt64(&got, 1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	return int(got)
}

func TestVerif(t *testing.T) {
	end, r := verifSecs(), verifRand()
	windows := []time.Duration{-5, 0, 1, 7, 1000, time.Second, time.Hour}
	for round := 0; time.Now().Before(end); round++ {
		if verifClock > 4e18 {
			verifClock = 17e17
		}
		limit, window := r.Intn(7)-1, windows[r.Intn(len(windows))]
		l := NewFixedWindowLimiter(limit, window)
		startAt, n := verifClock, 0
		var trace []int64
		within(t, "TryAcquire", func() {
			for i := 0; i < 60; i++ {
				switch r.Intn(6) {
				case 0:
					verifClock += int64(window)
				case 1:
					verifClock += int64(window) + 1
				case 2:
					if window > 1 {
						verifClock += r.Int63n(int64(window))
					}
				case 3:
					verifClock = startAt + int64(window) + int64(r.Intn(3)) - 1
				}
				if verifClock < startAt {
					verifClock = startAt
				}
				if time.Duration(verifClock-startAt) > window {
					startAt, n = verifClock, 0
				}
				trace = append(trace, verifClock)
				got := l.TryAcquire()
				if got != (n < limit) {
					t.Errorf("limit %d window %d: request at %d: granted %v with %d granted in the window begun at %d; requests at %v", limit, window, verifClock, got, n, startAt, trace)
					return
				}
				if got {
					n++
				}
			}
		})
		if t.Failed() {
			return
		}
		if round%20 == 0 {
			limit := 1 + r.Intn(200)
			l := NewFixedWindowLimiter(limit, time.Second)
			if got := burst(t, "concurrent TryAcquire", 800, l.TryAcquire); got != limit {
				t.Fatalf("limit %d: %d of 800 concurrent requests granted", limit, got)
			}
		}
	}
}
