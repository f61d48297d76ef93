package math_test

import (
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"

	m "github.com/ahKevinXy/go-web-tools/common/math"
)

func env(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

type unsigned interface {
	~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func bits[T unsigned](t *testing.T, x T) {
	last := 0
	for y := x; y != 0; y >>= 1 {
		last++
	}
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("value %d of %T: panic %v", x, x, p)
		}
	}()
	if g := m.FindLastBitSet(x); g != last {
		t.Fatalf("FindLastBitSet(%d) of %T = %d, expected %d", x, x, g, last)
	}
	pow := last > 0 && T(1)<<(last-1) == x
	if g := m.IsPowOf2(x); g != pow {
		t.Fatalf("IsPowOf2(%d) of %T = %v", x, x, g)
	}
	if x == 0 {
		return
	}
	down := T(1) << (last - 1)
	if g := m.RoundDownPowOf2(x); g != down {
		t.Fatalf("RoundDownPowOf2(%d) of %T = %d, expected %d", x, x, g, down)
	}
	up := down
	if !pow {
		up = down << 1 // 0 where it does not fit
	}
	if g := m.RoundUpPowOf2(x); g != up {
		t.Fatalf("RoundUpPowOf2(%d) of %T = %d, expected %d", x, x, g, up)
	}
}

func split(t *testing.T, n, k uint) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatalf("Split(%d,%d): panic %v", n, k, p)
		}
	}()
	per, last := m.Split(n, k)
	if n == 0 {
		if per != 0 || last != 0 {
			t.Fatalf("Split(0,%d) = %d,%d", k, per, last)
		}
		return
	}
	b := func(x uint) *big.Int { return new(big.Int).SetUint64(uint64(x)) }
	ok := last >= 1 && last <= per && (n-last)%per == 0 &&
		new(big.Int).Mul(b(per), b(k)).Cmp(b(n)) >= 0 && new(big.Int).Mul(b(per-1), b(k)).Cmp(b(n)) < 0
	if !ok {
		t.Fatalf("Split(%d,%d) = %d,%d", n, k, per, last)
	}
}

func ordered[T int | int8 | int64 | uint8 | uint64 | float64 | string](t *testing.T, a, b T) {
	hi, lo := a, b
	if a < b {
		hi, lo = b, a
	}
	if g := m.Max(a, b); g != hi {
		t.Fatalf("Max(%v,%v) of %T = %v", a, b, a, g)
	}
	if g := m.Min(a, b); g != lo {
		t.Fatalf("Min(%v,%v) of %T = %v", a, b, a, g)
	}
}

func abs[T int | int8 | int16 | int32 | int64 | float64](t *testing.T, a T) {
	w := a
	if a < 0 {
		w = -a
	}
	if g := m.Abs(a); g != w {
		t.Fatalf("Abs(%v) of %T = %v", a, a, g)
	}
}

func TestVerifMath(t *testing.T) {
	r := rand.New(rand.NewSource(int64(env("VERIF_SEED", 1))))
	end := time.Now().Add(time.Duration(env("VERIF_SECS", 10)) * time.Second)
	for i := 0; i < 1<<16; i++ {
		bits(t, uint16(i))
		bits(t, uint8(i))
		abs(t, int8(i))
		abs(t, int16(i))
	}
	for i := 0; i < 64; i++ {
		for d := -2; d <= 2; d++ {
			x := uint64(1)<<i + uint64(d)
			bits(t, x)
			bits(t, uint32(x))
			bits(t, uint(x))
			bits(t, uintptr(x))
			abs(t, int64(x))
			abs(t, int(x))
			for j := 0; j < 64; j++ {
				y := uint64(1)<<j + uint64(d)
				ordered(t, x, y)
				ordered(t, int64(x), int64(y))
				ordered(t, int8(x), int8(y))
				if y != 0 {
					split(t, uint(x), uint(y))
				}
			}
		}
	}
	for n := uint(0); n < 60; n++ {
		for k := uint(1); k < 70; k++ {
			split(t, n, k)
		}
	}
	for time.Now().Before(end) {
		x, y := r.Uint64()>>uint(r.Intn(64)), r.Uint64()>>uint(r.Intn(64))
		bits(t, x)
		bits(t, uint32(x))
		ordered(t, int(x), int(y))
		ordered(t, float64(x)/3, -float64(y)/7)
		ordered(t, strconv.Itoa(int(x%300)), strconv.Itoa(int(y%300)))
		abs(t, int64(x))
		abs(t, -float64(x)/3)
		split(t, uint(x), uint(y|1))
	}
}
