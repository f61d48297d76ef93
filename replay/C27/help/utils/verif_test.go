package utils

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
)

func TestVerif(t *testing.T) {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	end, r := time.Now().Add(time.Duration(n+1)*time.Second), rand.New(rand.NewSource(seed))
	what := ""
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %s: %v", what, e)
		}
	}()
	if !GetSwitchFromOptions(nil, "a") {
		t.Fatal("a switch of no options is off")
	}
	SetSwitchFromOptions(nil, "a", true)
	units := []string{"B", "KB", "MB", "GB", "TB", "PB", "EB"}
	ascii := "//\\aZ:.?#@ \t1"
	words := []string{"hello", "élan", "ß", "张伟", "x", "", "Abc", "1a", "жук", "ǆx", "a\u0301b", "\xffa", "aaaa", "😀a", "ÿ", "ı"}
	for time.Now().Before(end) {
		for j := 0; j < 100; j++ {
			m, ref := map[string]bool{}, map[string]bool{}
			for i := 0; i < r.Intn(12); i++ {
				k, v := string(rune('a'+r.Intn(5))), r.Intn(2) == 0
				SetSwitchFromOptions(m, k, v)
				ref[k] = v
				if len(m) != len(ref) {
					t.Fatalf("switches %v, want %v", m, ref)
				}
				for c := 'a'; c < 'g'; c++ {
					want, ok := ref[string(c)]
					if got := GetSwitchFromOptions(m, string(c)); got != (want || !ok) {
						t.Fatalf("switch %c of %v is %v", c, ref, got)
					}
				}
			}
			size, kind := []int{0, 1, 2, 7, 100, 1000}[r.Intn(6)], r.Intn(7)-2
			what = fmt.Sprint("RandStr ", size, " ", kind)
			s := RandStr(size, kind)
			if len(s) != size {
				t.Fatalf("%s: length %d", what, len(s))
			}
			for _, c := range []byte(s) {
				d, l, u := c >= '0' && c <= '9', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z'
				if kind == 0 && !d || kind == 1 && !l || kind == 2 && !u || !d && !l && !u {
					t.Fatalf("%s: %q", what, s)
				}
			}
			z := int64(r.Uint64()>>1) >> uint(r.Intn(63))
			if r.Intn(3) == 0 {
				z = int64(1)<<uint(10*(1+r.Intn(6))) + int64(r.Intn(3)-1)
			}
			what = fmt.Sprint("size ", z)
			x, k := float64(z), 0
			for x > 1024 && k < 5 {
				x, k = x/1024, k+1
			}
			if got, want := FormatByte(int(z)), fmt.Sprintf("%.2f", x)+" "+units[k]; got != want {
				t.Fatalf("FormatByte(%d) = %q, want %q", z, got, want)
			}
			x, k = float64(z), 0
			for w := z; w >= 1024; w /= 1024 {
				x, k = x/1024, k+1
			}
			want := fmt.Sprintf("%d B", z)
			if z >= 10 {
				f := "%.0f %s"
				if x < 10 {
					f = "%.1f %s"
				}
				want = fmt.Sprintf(f, x, units[k])
			}
			if got := FileSize(z); got != want && (z < 1<<50-1<<10 || z >= 1<<50) && (z < 1<<60-1<<20 || z >= 1<<60) {
				t.Fatalf("FileSize(%d) = %q, want %q", z, got, want)
			}
			w := words[r.Intn(len(words))] + words[r.Intn(len(words))]
			rs := []rune(w)
			if len(rs) > 0 && rs[0] != unicode.ReplacementChar {
				rs[0] = unicode.ToUpper(rs[0])
			}
			if got := UpperFirst(w); string([]rune(got)) != string(rs) {
				t.Fatalf("UpperFirst(%q) = %q", w, got)
			}
			var u []byte
			for i := 0; i < r.Intn(6); i++ {
				u = append(u, ascii[r.Intn(len(ascii))])
			}
			us := string(u)
			same := len(us) > 1 && us[0] == '/' && !strings.ContainsAny(us[1:2], `/\`)
			if IsSameSiteURLPath(us) != same {
				t.Fatalf("IsSameSiteURLPath(%q) = %v", us, !same)
			}
		}
	}
}
