package timingwheel

import (
	"context"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"
)

// a clock moved by the test, and the timers that depend on it
var (
	verifMu     sync.Mutex
	verifClock  int64 = 1_700_000_000_000_000_000
	verifTimers []verifTimer
)

type verifTimer struct {
	at int64
	c  chan time.Time
}

func verifNow() time.Time {
	verifMu.Lock()
	defer verifMu.Unlock()
	return time.Unix(0, verifClock)
}

func verifSince(t time.Time) time.Duration { return verifNow().Sub(t) }

func verifAfter(d time.Duration) <-chan time.Time {
	verifMu.Lock()
	defer verifMu.Unlock()
	c := make(chan time.Time, 1)
	if d <= 0 {
		c <- time.Unix(0, verifClock)
		return c
	}
	verifTimers = append(verifTimers, verifTimer{verifClock + int64(d), c})
	return c
}

func verifNewTimer(d time.Duration) *time.Timer {
	t := time.NewTimer(time.Hour)
	t.C = verifAfter(d)
	return t
}

func verifAdvance(d int64) {
	verifMu.Lock()
	defer verifMu.Unlock()
	verifClock += d
	var rest []verifTimer
	for _, t := range verifTimers {
		if t.at <= verifClock {
			t.c <- time.Unix(0, verifClock)
		} else {
			rest = append(rest, t)
		}
	}
	verifTimers = rest
}

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second / 3)
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}


type verifJob struct {
	exp     int64 // due, in ms
	tick    int64
	stopped bool
	mu      sync.Mutex
	ran     []int64
}

func (j *verifJob) run() {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.ran = append(j.ran, verifNow().UnixMilli())
}

func (j *verifJob) runs() []int64 {
	j.mu.Lock()
	defer j.mu.Unlock()
	return append([]int64(nil), j.ran...)
}

func verifSleep() { time.Sleep(50 * time.Microsecond) }

// timers on a running wheel: each runs once, not more than a tick early, unless it was stopped before
func TestVerifWheel(t *testing.T) {
	end, r := verifSecs(), verifRand()
	for time.Now().Before(end) {
		tick, size := 1+r.Int63n(9), 2+r.Int63n(6)
		span := tick * size
		verifAdvance(r.Int63n(1000) * int64(time.Millisecond))
		tw := New(tick, size)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() { tw.Run(ctx); close(done) }()
		var jobs []*verifJob
		timers := map[*verifJob]*Timer{}
		check := func(all bool) {
			for _, j := range jobs {
				now := verifNow().UnixMilli()
				due := !j.stopped && (all || j.exp+2*tick < now)
				for wait := 0; due && len(j.runs()) == 0; wait++ {
					verifSleep()
					// a wheel that looked at the clock before it moved waits a little longer
					if wait%200 == 199 {
						verifAdvance(int64(time.Millisecond))
					}
					if wait > 40000 {
						t.Fatalf("tick %d, %d slots: a timer due at %d has not run at %d", tick, size, j.exp, verifNow().UnixMilli())
					}
				}
				ran := j.runs()
				if len(ran) > 1 || j.stopped && len(ran) > 0 {
					t.Fatalf("tick %d, %d slots: a timer ran %d times (stopped: %v)", tick, size, len(ran), j.stopped)
				}
				if len(ran) == 1 && ran[0] <= j.exp-tick {
					t.Fatalf("tick %d, %d slots: a timer due at %d ran at %d", tick, size, j.exp, ran[0])
				}
			}
		}
		for i := 0; i < 40; i++ {
			switch r.Intn(5) {
			case 0, 1:
				d := r.Int63n(span) - tick
				if r.Intn(3) == 0 {
					d = r.Int63n(span * size * size)
				}
				j := &verifJob{tick: tick, exp: verifNow().UnixMilli() + d}
				within(t, "AfterFunc", func() { timers[j] = tw.AfterFunc(time.Duration(d)*time.Millisecond, j.run) })
				jobs = append(jobs, j)
				if d < -tick {
					check(false)
				}
			case 2:
				if len(jobs) > 0 {
					j := jobs[r.Intn(len(jobs))]
					var ok bool
					within(t, "Stop", func() { ok = timers[j].Stop() })
					if ok && j.stopped {
						t.Fatalf("a timer was stopped twice")
					}
					if !ok && !j.stopped && len(j.runs()) == 0 && j.exp > verifNow().UnixMilli()+2*tick {
						t.Fatalf("tick %d, %d slots: a waiting timer could not be stopped", tick, size)
					}
					j.stopped = j.stopped || ok
				}
			default:
				n := r.Int63n(2 * tick)
				if r.Intn(3) == 0 {
					n = r.Int63n(2 * span)
				}
				for k := int64(0); k < n; k++ {
					verifAdvance(int64(time.Millisecond))
					if k%tick == 0 {
						verifSleep()
					}
				}
				check(false)
			}
		}
		last := int64(0)
		for _, j := range jobs {
			if !j.stopped && j.exp > last {
				last = j.exp
			}
		}
		for verifNow().UnixMilli() <= last+2*tick {
			verifAdvance(tick * int64(time.Millisecond))
			check(false)
		}
		check(true)
		cancel()
		within(t, "Run after cancellation", func() { <-done })
	}
}

type verifEvery struct {
	n, left int64
	asked   []int64
}

func (s *verifEvery) Next(t time.Time) time.Time {
	s.asked = append(s.asked, t.UnixMilli())
	if s.left == 0 {
		return time.Time{}
	}
	s.left--
	return t.Add(time.Duration(s.n) * time.Millisecond)
}

// a schedule runs its function once for each of its times
func TestVerifSchedule(t *testing.T) {
	end, r := verifSecs(), verifRand()
	for time.Now().Before(end) {
		tick, size := 1+r.Int63n(9), 2+r.Int63n(6)
		tw := New(tick, size)
		ctx, cancel := context.WithCancel(context.Background())
		go tw.Run(ctx)
		runs := r.Int63n(4)
		s := &verifEvery{n: 2*tick + r.Int63n(tick*size*2), left: runs}
		start := verifNow().UnixMilli()
		j := &verifJob{}
		var tm *Timer
		within(t, "ScheduleFunc", func() { tm = tw.ScheduleFunc(s, j.run) })
		if (tm == nil) != (runs == 0) {
			t.Fatalf("a schedule of %d runs returned %v", runs, tm)
		}
		for i := int64(1); i <= runs; i++ {
			due := start + i*s.n
			for wait := 0; int64(len(j.runs())) < i; wait++ {
				if verifNow().UnixMilli() <= due+2*tick || wait%200 == 199 {
					verifAdvance(int64(time.Millisecond))
				}
				verifSleep()
				if wait > 40000 {
					t.Fatalf("run %d of the schedule, due at %d, did not happen", i, due)
				}
			}
			if ran := j.runs(); int64(len(ran)) != i || ran[i-1] <= due-tick {
				t.Fatalf("tick %d, %d slots: run %d, due at %d: %v", tick, size, i, due, ran)
			}
		}
		for k := int64(0); k < 2*s.n; k++ {
			verifAdvance(int64(time.Millisecond))
		}
		verifSleep()
		if n := int64(len(j.runs())); n != runs {
			t.Fatalf("a schedule of %d runs ran %d times", runs, n)
		}
		cancel()
	}
}
