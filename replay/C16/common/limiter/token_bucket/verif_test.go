package token_bucket

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

var verifClock int64 = 1_700_000_000_000_000_000

func verifNow() time.Time { return time.Unix(0, atomic.LoadInt64(&verifClock)) }

func verifSince(t time.Time) time.Duration { return verifNow().Sub(t) }

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second)
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

// within fails the test when f does not return: a lock was left held
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

// burst counts the requests granted among n made by many goroutines at one instant
func burst(t *testing.T, what string, n int, try func() bool) int {
	t.Helper()
	var got int64
	within(t, what, func() {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n/8; i++ {
					if try() {
						atomic.AddInt64(&got, 1)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	return int(got)
}

func TestVerif(t *testing.T) {
	end, r := verifSecs(), verifRand()
	for round := 0; time.Now().Before(end); round++ {
		if verifClock > 4e18 {
			verifClock = 17e17
		}
		capacity, rate := r.Intn(12), r.Intn(6)
		if r.Intn(4) == 0 {
			rate = []int{1 << 20, 1 << 28}[r.Intn(2)]
		}
		l := NewTokenBucketLimiter(capacity, rate)
		last, tokens := verifClock, 0
		var trace []int64
		within(t, "TryAcquire", func() {
			for i := 0; i < 80; i++ {
				switch r.Intn(6) {
				case 0:
					verifClock += int64(time.Second)
				case 1:
					verifClock += r.Int63n(int64(3 * time.Second))
				case 2:
					verifClock = last + int64(time.Second)*int64(1+r.Intn(3)) + int64(r.Intn(3)) - 1
				case 3:
					if r.Intn(10) == 0 {
						verifClock += int64(time.Second) * r.Int63n(100000)
					}
				}
				if gap := verifClock - last; gap >= int64(time.Second) {
					tokens += int(gap/int64(time.Second)) * rate
					if tokens > capacity {
						tokens = capacity
					}
					last = verifClock
				}
				trace = append(trace, verifClock)
				got := l.TryAcquire()
				if got != (tokens > 0) {
					t.Errorf("capacity %d rate %d: request at %d: granted %v with %d tokens; requests at %v", capacity, rate, verifClock, got, tokens, trace)
					return
				}
				if got {
					tokens--
				}
			}
		})
		if t.Failed() {
			return
		}
		if round%20 == 0 {
			capacity := 1 + r.Intn(200)
			l := NewTokenBucketLimiter(capacity, capacity)
			verifClock += int64(3 * time.Second)
			if got := burst(t, "concurrent TryAcquire", 800, l.TryAcquire); got != capacity {
				t.Fatalf("capacity %d: %d of 800 concurrent requests granted", capacity, got)
			}
		}
	}
}
