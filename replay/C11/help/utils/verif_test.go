package utils

import (
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

func verifSecsMap() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second)
}

func verifWithin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(5 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
}

// free fails when an operation left the lock held
func verifFree(t *testing.T, m *Map, op string) {
	t.Helper()
	if !m.TryLock() {
		t.Fatalf("%s left the lock held", op)
	}
	m.Unlock()
}

func TestVerifMap(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := verifSecsMap(), rand.New(rand.NewSource(seed))
	for round := 0; time.Now().Before(end); round++ {
		m, model := &Map{}, map[any]any{}
		keys := []any{nil, 0, 1, "a", "", int64(1), 1.5, [2]int{1, 2}}
		vals := []any{nil, 0, "x", 7, []int{1}, &m}
		hist := []string{}
		same := func(a, b any) bool {
			if x, ok := a.([]int); ok {
				y, ok := b.([]int)
				return ok && len(x) == len(y)
			}
			return a == b
		}
		for i := 0; i < 40; i++ {
			k, v := keys[r.Intn(len(keys))], vals[r.Intn(len(vals))]
			op := []string{"Get", "Set", "TestAndSet", "Del", "Len", "RLockRange", "LockRange"}[r.Intn(7)]
			hist = append(hist, op)
			verifWithin(t, op, func() {
				old, had := model[k]
				switch op {
				case "Get":
					if got := m.Get(k); !same(got, old) {
						t.Errorf("Get(%v) = %v, want %v after %v", k, got, old, hist)
					}
				case "Set":
					m.Set(k, v)
					model[k] = v
				case "TestAndSet":
					got := m.TestAndSet(k, v)
					if had && !same(got, old) || !had && got != nil {
						t.Errorf("TestAndSet(%v) = %v, present %v %v after %v", k, got, had, old, hist)
					}
					if !had {
						model[k] = v
					}
				case "Del":
					m.Del(k)
					delete(model, k)
				case "Len":
					if got := m.Len(); got != len(model) {
						t.Errorf("Len() = %d, want %d after %v", got, len(model), hist)
					}
				default:
					seen := map[any]int{}
					f := func(a, b any) {
						seen[a]++
						if w, ok := model[a]; !ok || !same(w, b) {
							t.Errorf("%s visits %v with %v after %v", op, a, b, hist)
						}
					}
					if op == "LockRange" {
						m.LockRange(f)
					} else {
						m.RLockRange(f)
					}
					if len(seen) != len(model) {
						t.Errorf("%s visits %d of %d entries after %v", op, len(seen), len(model), hist)
					}
					for a, n := range seen {
						if n != 1 {
							t.Errorf("%s visits %v %d times after %v", op, a, n, hist)
						}
					}
				}
			})
			if t.Failed() {
				return
			}
			verifFree(t, m, op)
			for a, w := range model {
				if got := m.Get(a); !same(got, w) {
					t.Fatalf("entry %v is %v, want %v after %v", a, got, w, hist)
				}
			}
			if m.Len() != len(model) {
				t.Fatalf("%d entries, want %d after %v", m.Len(), len(model), hist)
			}
		}
		if round%10 == 0 {
			m := &Map{}
			var wins, reads int64
			verifWithin(t, "concurrent use", func() {
				var wg sync.WaitGroup
				for g := 0; g < 8; g++ {
					g := g
					wg.Add(1)
					go func() {
						defer wg.Done()
						for i := 0; i < 200; i++ {
							if m.TestAndSet(i, g) == nil {
								atomic.AddInt64(&wins, 1)
							}
							if m.Get(i) == nil {
								atomic.AddInt64(&reads, 1)
							}
							switch g {
							case 0:
								m.Len()
							case 1:
								m.RLockRange(func(a, b any) {})
							case 2:
								m.Set(-i-1, g)
								m.Del(-i - 1)
							case 3:
								m.LockRange(func(a, b any) {})
							}
						}
					}()
				}
				wg.Wait()
			})
			if wins != 200 || reads != 0 || m.Len() != 200 {
				t.Fatalf("200 keys: %d concurrent test-and-set calls stored, %d reads missed, %d entries", wins, reads, m.Len())
			}
			// a writer is kept out while readers or a locked range run
			for _, op := range []string{"RLockRange", "LockRange"} {
				verifWithin(t, op, func() {
					run := m.RLockRange
					if op == "LockRange" {
						run = m.LockRange
					}
					run(func(a, b any) {
						if m.TryLock() {
							m.Unlock()
							t.Errorf("a writer can enter during %s", op)
						}
						if op == "LockRange" && m.TryRLock() {
							m.RUnlock()
							t.Errorf("a reader can enter during %s", op)
						}
					})
				})
			}
			if t.Failed() {
				return
			}
		}
	}
}
