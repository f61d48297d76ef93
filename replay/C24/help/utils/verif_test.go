package utils

import (
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"
)

var verifAlphabets = []string{"abc@._ 0123456789", "0123456789", "张伟李王阿不都热合曼", "éüñß@çø", "😀🎉a中", "@", "1358x", "\xff\xfea中"}

func verifText(r *rand.Rand, n int) string {
	a := []rune(verifAlphabets[r.Intn(len(verifAlphabets))])
	if r.Intn(8) == 0 {
		b := make([]byte, n)
		r.Read(b)
		return string(b)
	}
	s := make([]rune, n)
	for i := range s {
		s[i] = a[r.Intn(len(a))]
	}
	return string(s)
}

func verifMasked(t *testing.T, what, s, got string, k, from, to int) {
	a, b := []rune(s), []rune(got)
	if len(a) <= to {
		if got != s {
			t.Fatalf("%s(%q, %d) = %q, want it unchanged", what, s, k, got)
		}
		return
	}
	if len(a) != len(b) {
		t.Fatalf("%s(%q, %d) = %q: length %d, not %d", what, s, k, got, len(b), len(a))
	}
	for i := range a {
		w := a[i]
		if i >= from && i < to {
			w = '*'
		}
		if b[i] != w {
			t.Fatalf("%s(%q, %d) = %q: character %d", what, s, k, got, i)
		}
	}
}

func verifHide(s string) (want, other string) {
	a := []rune(s)
	sub := func(x, y int) string { return string(a[x:y]) }
	if s == "" {
		return "***", "***"
	}
	if strings.Contains(s, "@") {
		p := strings.Split(s, "@")
		n := len([]rune(p[0]))
		if n < 3 {
			return "***@" + p[1], "***@" + p[1]
		}
		return sub(0, 3) + "***@" + p[1], string([]rune(p[0])[:3]) + "***@" + p[1]
	}
	if regexp.MustCompile(`^1[0-9]\d{9}$`).MatchString(s) {
		want = sub(0, 3) + "****" + sub(7, 11)
		return want, want
	}
	switch n := len(a); {
	case n <= 1:
		want = "***"
	case n == 2:
		want = sub(0, 1) + "*"
	case n == 3:
		want = sub(0, 1) + "*" + sub(2, 3)
	case n == 4:
		want = sub(0, 1) + "**" + sub(3, 4)
	default:
		want = sub(0, 2) + "***" + sub(n-2, n)
	}
	return want, want
}

func TestVerif(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := time.Now().Add(time.Duration(n+1)*time.Second), rand.New(rand.NewSource(seed))
	var s string
	var k int
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic masking %q (%d): %v", s, k, e)
		}
	}()
	for time.Now().Before(end) {
		for j := 0; j < 200; j++ {
			s, k = verifText(r, r.Intn(26)), r.Intn(24)-4
			if r.Intn(5) == 0 {
				s = "1" + strconv.Itoa(1000000000+r.Intn(8999999999))
			}
			ln := len([]rune(s))
			off := 3
			if ln > 11 {
				off = 5
			}
			verifMasked(t, "MaskMobile", s, MaskMobile(s, k), k, off, off+k)
			verifMasked(t, "MaskIDCard", s, MaskIDCard(s, k), k, 4, 4+k)
			to := 4 + k
			if ln > 16 {
				to += ln - 16
			}
			verifMasked(t, "MaskBackCard", s, MaskBackCard(s, k), k, 4, to)
			if got := HideStar(s); true {
				if a, b := verifHide(s); string([]rune(got)) != string([]rune(a)) && string([]rune(got)) != string([]rune(b)) {
					t.Fatalf("HideStar(%q) = %q, want %q", s, got, a)
				}
			}
			a, want := []rune(s), ""
			if ln > 4 {
				want = string(a[:2]) + "***" + string(a[ln-2:])
			} else if ln > 0 {
				want = string(a[:1]) + "***"
			}
			if got := MaskCustomerName(s); got != want {
				t.Fatalf("MaskCustomerName(%q) = %q, want %q", s, got, want)
			}
		}
	}
}
