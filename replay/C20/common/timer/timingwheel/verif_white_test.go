package timingwheel

import (
	"testing"
	"time"
)

// filing, moving on and flushing by hand: where every timer waits is compared with the levels it may be in
func TestVerifFiling(t *testing.T) {
	end, r := verifSecs(), verifRand()
	for time.Now().Before(end) {
		tick, size := 1+r.Int63n(9), 2+r.Int63n(6)
		now := 1000 + r.Int63n(1000)
		tw := newTimingWheel(tick, size, now, newDelayQueue())
		cur := now - now%tick
		clocks := []int64{cur} // of the levels that exist
		waits := map[*Timer]int64{}
		where := func(exp int64) (int64, int) {
			for k, w := 0, tick; ; k, w = k+1, w*size {
				if k == len(clocks) {
					clocks = append(clocks, clocks[k-1]-clocks[k-1]%w)
				}
				if exp < clocks[k]+w*size {
					return exp - exp%w, k
				}
			}
		}
		started := make(chan *Timer, 100)
		file := func(x *Timer) {
			if x.expiration < clocks[0]+tick {
				delete(waits, x)
				if tw.add(x) {
					t.Fatalf("tick %d, %d slots, at %d: a timer due at %d was filed", tick, size, clocks[0], x.expiration)
				}
				return
			}
			at, _ := where(x.expiration)
			if !tw.add(x) {
				t.Fatalf("tick %d, %d slots, at %d: a timer due at %d was not filed", tick, size, clocks[0], x.expiration)
			}
			waits[x] = at
		}
		check := func() {
			for x, at := range waits {
				b := x.getBucket()
				if b == nil {
					t.Fatalf("tick %d, %d slots, at %d: a timer due at %d is in no bucket", tick, size, clocks[0], x.expiration)
				}
				if e := b.getExpiration(); e != at {
					t.Fatalf("tick %d, %d slots, at %d: a timer due at %d waits until %d instead of %d", tick, size, clocks[0], x.expiration, e, at)
				}
				n := 0
				for e := b.timers.Front(); e != nil; e = e.Next() {
					if e.Value == x {
						n++
					}
				}
				if n != 1 {
					t.Fatalf("a timer is filed %d times", n)
				}
			}
		}
		for i := 0; i < 60; i++ {
			switch r.Intn(4) {
			case 0, 1:
				d := r.Int63n(tick*size) - tick
				if r.Intn(3) == 0 {
					d = r.Int63n(tick * size * size * size)
				}
				file(&Timer{expiration: clocks[0] + d, task: func() {}})
			case 2:
				for x := range waits {
					if !x.Stop() || x.getBucket() != nil || x.Stop() {
						t.Fatalf("a waiting timer was not stopped properly")
					}
					delete(waits, x)
					break
				}
			case 3: // the bucket that is due first
				var first *bucket
				for x := range waits {
					if b := x.getBucket(); b != nil && (first == nil || b.getExpiration() < first.getExpiration()) {
						first = b
					}
				}
				if first == nil {
					continue
				}
				e := first.getExpiration()
				for k, w := 0, tick; k < len(clocks) && e >= clocks[k]+w; k, w = k+1, w*size {
					clocks[k] = e - e%w
				}
				tw.advance(e)
				var out []*Timer
				first.flush(func(x *Timer) { out = append(out, x) })
				want := 0
				for x, at := range waits {
					if at == e && x.getBucket() == nil {
						want++
					}
				}
				if len(out) != want || want == 0 {
					t.Fatalf("%d of %d timers left the bucket", len(out), want)
				}
				for _, x := range out {
					if x.getBucket() == nil {
						file(x)
					}
				}
			}
			check()
		}
		close(started)
	}
}
