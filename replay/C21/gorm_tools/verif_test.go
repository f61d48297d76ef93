package gorm_tools

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"gorm.io/gorm"
	"gorm.io/gorm/logger"
	"gorm.io/gorm/utils/tests"
)

// verifPool records the statements it is told and fails those it was told to fail
type verifPool struct {
	sql    []string
	args   [][]any
	failAt int // which statement fails, 0 for none
	dup    bool
}

func (p *verifPool) PrepareContext(context.Context, string) (*sql.Stmt, error) {
	return nil, errors.New("not prepared")
}
func (p *verifPool) QueryContext(context.Context, string, ...interface{}) (*sql.Rows, error) {
	return nil, errors.New("no queries")
}
func (p *verifPool) QueryRowContext(context.Context, string, ...interface{}) *sql.Row { return nil }
func (p *verifPool) ExecContext(_ context.Context, q string, args ...interface{}) (sql.Result, error) {
	p.sql = append(p.sql, q)
	p.args = append(p.args, args)
	if len(p.sql) == p.failAt {
		if p.dup {
			return nil, errors.New("Duplicate entry '1' for key 'id'")
		}
		return nil, errors.New("the database is gone")
	}
	return verifRes(1), nil
}

type verifRes int64

func (r verifRes) LastInsertId() (int64, error) { return 0, nil }
func (r verifRes) RowsAffected() (int64, error) { return int64(r), nil }

func verifDB(t *testing.T, failAt int, dup bool) (*gorm.DB, *verifPool) {
	p := &verifPool{failAt: failAt, dup: dup}
	db, err := gorm.Open(tests.DummyDialector{}, &gorm.Config{ConnPool: p, SkipDefaultTransaction: true, Logger: logger.Discard, DisableAutomaticPing: true})
	if err != nil {
		t.Fatal(err)
	}
	return db, p
}

func verifRand() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

func verifSecs() time.Time {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if n == 0 {
		n = 5
	}
	return time.Now().Add(time.Duration(n) * time.Second)
}

func verifIn(t *testing.T, what string, f func() error) (err error) {
	t.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		err = f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Fatalf("%s: panic: %v", what, r)
		}
	case <-time.After(20 * time.Second):
		t.Fatalf("%s: does not return", what)
	}
	return err
}

func num(x any) string { return fmt.Sprint(x) }

var verifCols = regexp.MustCompile("^insert into t\\(([^)]*)\\) values (.*)$")

// rows takes the statement apart: the rows it writes, each a map from column to value; and whether it is well formed
func verifRows(q string, args []any) ([]map[string]string, error) {
	m := verifCols.FindStringSubmatch(q)
	if m == nil {
		return nil, errors.New("not an insert: " + q)
	}
	cols := strings.Split(m[1], ",")
	var out []map[string]string
	for _, r := range strings.Split(m[2], "),(") {
		n := strings.Count(r, "?")
		if n != len(cols) {
			return nil, fmt.Errorf("a row of %d values under %d columns", n, len(cols))
		}
		if len(args) < n {
			return nil, errors.New("more places than values")
		}
		row := map[string]string{}
		for i, c := range cols {
			row[strings.Trim(c, "`")] = num(args[i])
		}
		if len(row) != len(cols) {
			return nil, errors.New("a column named twice: " + m[1])
		}
		args = args[n:]
		out = append(out, row)
	}
	if len(args) != 0 {
		return nil, errors.New("more values than places")
	}
	return out, nil
}

func verifRecord(i, fields int) map[string]any {
	m := map[string]any{}
	for f := 0; f < fields; f++ {
		m["f"+strconv.Itoa(f)] = i*1000 + f
	}
	return m
}

func verifSame(rec any, row map[string]string) bool {
	m := rec.(map[string]any)
	if len(m) != len(row) {
		return false
	}
	for k, v := range m {
		if s, ok := row[k]; !ok || s != num(v) {
			return false
		}
	}
	return true
}

func verifInsert(t *testing.T, split bool, records []any, failAt int, dup, uneven bool) {
	t.Helper()
	db, p := verifDB(t, failAt, dup)
	what := fmt.Sprintf("inserting %d records (split %v, statement %d fails, uneven %v)", len(records), split, failAt, uneven)
	err := verifIn(t, what, func() error {
		if split {
			return SplitInsertTableRecords(db, "t", records...)
		}
		return BatchInsertTableRecords(db, "t", records...)
	})
	if len(records) == 0 && (err != nil || len(p.sql) != 0) {
		t.Fatalf("%s: an empty request ran %d statements, err %v", what, len(p.sql), err)
	}
	n := 0
	for i, q := range p.sql {
		if len(p.args[i]) > 65535 {
			t.Fatalf("%s: a statement with %d placeholders", what, len(p.args[i]))
		}
		rows, e := verifRows(q, p.args[i])
		if e != nil {
			t.Fatalf("%s: statement %d: %v", what, i, e)
		}
		for _, r := range rows {
			if n >= len(records) || !verifSame(records[n], r) {
				t.Fatalf("%s: statement %d writes %v where record %d is due", what, i, r, n)
			}
			n++
		}
		if failAt > 0 && i >= failAt {
			t.Fatalf("%s: went on after the failure", what)
		}
	}
	if err == nil && n != len(records) {
		t.Fatalf("%s: succeeded having written %d records", what, n)
	}
	if failAt > 0 && failAt <= len(p.sql) && err == nil {
		t.Fatalf("%s: the failure was not reported", what)
	}
	if (failAt == 0 || failAt > len(p.sql)) && err != nil && !uneven {
		t.Fatalf("%s: failed: %v", what, err)
	}
}

func TestVerifInsert(t *testing.T) {
	r, end := verifRand(), verifSecs()
	var recs []any
	for _, c := range []struct{ n, f int }{{0, 1}, {1, 1}, {3, 2}, {7, 65000 / 3}, {9, 65000 / 3}, {3, 65000}, {130, 1000}, {131, 997}, {65, 1001}} {
		recs = nil
		for i := 0; i < c.n; i++ {
			recs = append(recs, verifRecord(i, c.f))
		}
		for fail := 0; fail < 4; fail++ {
			verifInsert(t, true, recs, fail, fail == 2, false)
		}
		if c.n*c.f <= 65000 {
			verifInsert(t, false, recs, 0, false, false)
			verifInsert(t, false, recs, 1, false, false)
		}
	}
	// later records wider than the first
	recs = nil
	for i := 0; i < 70; i++ {
		recs = append(recs, verifRecord(i, 1000+1000*(i/65)))
	}
	verifInsert(t, true, recs, 0, false, false)
	recs = nil
	for i := 0; i < 130; i++ {
		recs = append(recs, verifRecord(i, 1000+500*(i/65)))
	}
	verifInsert(t, true, recs, 0, false, true)
	// records that cannot be split or written whole
	verifInsert(t, true, []any{map[string]any{}, verifRecord(1, 2)}, 0, false, true)
	verifInsert(t, true, []any{map[string]any{}, map[string]any{}}, 0, false, true)
	verifInsert(t, true, []any{verifRecord(0, 65001), verifRecord(1, 65001)}, 0, false, true)
	for i := 0; i < 40 || time.Now().Before(end.Add(-3*time.Second)); i++ {
		recs = nil
		n, f, uneven := r.Intn(12), 1+r.Intn(4), false
		big := r.Intn(4) == 0
		if big {
			f = 65000/(1+r.Intn(6)) - r.Intn(3)
			n = r.Intn(20)
		}
		for j := 0; j < n; j++ {
			x := verifRecord(j, f)
			if !big && j > 0 && r.Intn(12) == 0 {
				uneven = true
				switch r.Intn(3) {
				case 0:
					x["more"] = 1
				case 1:
					delete(x, "f0")
				case 2:
					delete(x, "f0")
					x["other"] = 2
				}
			}
			recs = append(recs, x)
		}
		verifInsert(t, true, recs, r.Intn(4), r.Intn(2) == 0, uneven)
		if !big {
			verifInsert(t, false, recs, r.Intn(2), r.Intn(2) == 0, uneven)
		}
		if big && time.Now().After(end) {
			break
		}
	}
}

var verifCase = regexp.MustCompile("(?:^| set |,)(f[0-9]+|more|other)= case ((?:when id = \\? then \\? )+)end")

func verifUpdate(t *testing.T, split bool, m map[int64]map[string]any, failAt int, uneven bool) {
	t.Helper()
	db, p := verifDB(t, failAt, false)
	what := fmt.Sprintf("updating %d ids (split %v, statement %d fails, uneven %v)", len(m), split, failAt, uneven)
	err := verifIn(t, what, func() error {
		if split {
			return SplitUpdateTableFieldWithoutVersionByID(db, "t", m)
		}
		return BatchUpdateTableFieldWithoutVersionByID(db, "t", m)
	})
	if len(m) == 0 && (err != nil || len(p.sql) != 0) {
		t.Fatalf("%s: an empty request ran %d statements, err %v", what, len(p.sql), err)
	}
	done := map[string]bool{}
	for i, q := range p.sql {
		if failAt > 0 && i >= failAt {
			t.Fatalf("%s: went on after the failure", what)
		}
		args := p.args[i]
		got := map[string]map[string]string{}
		for _, c := range verifCase.FindAllStringSubmatch(q, -1) {
			for j := strings.Count(c[2], "when"); j > 0; j-- {
				if len(args) < 2 {
					t.Fatalf("%s: more places than values", what)
				}
				id := num(args[0])
				if got[id] == nil {
					got[id] = map[string]string{}
				}
				if _, twice := got[id][c[1]]; twice {
					t.Fatalf("%s: field %s of id %s set twice", what, c[1], id)
				}
				got[id][c[1]] = num(args[1])
				args = args[2:]
			}
		}
		if len(args) != len(got) || !strings.Contains(q, " where id in (") {
			t.Fatalf("%s: statement %d selects %d ids and sets %d", what, i, len(args), len(got))
		}
		for _, a := range args {
			s := num(a)
			id, e := strconv.ParseInt(s, 10, 64)
			if _, ok := m[id]; e != nil || !ok {
				t.Fatalf("%s: statement %d touches id %s", what, i, s)
			}
			if done[s] {
				t.Fatalf("%s: id %s updated twice", what, s)
			}
			done[s] = true
			if !verifSame(m[id], got[s]) {
				t.Fatalf("%s: id %s set to %v, not %v", what, s, got[s], m[id])
			}
		}
	}
	if err == nil && len(done) != len(m) {
		t.Fatalf("%s: succeeded having updated %d ids", what, len(done))
	}
	if failAt > 0 && failAt <= len(p.sql) && err == nil {
		t.Fatalf("%s: the failure was not reported", what)
	}
	if (failAt == 0 || failAt > len(p.sql)) && err != nil && !uneven {
		t.Fatalf("%s: failed: %v", what, err)
	}
}

func TestVerifUpdate(t *testing.T) {
	r, end := verifRand(), verifSecs()
	for _, n := range []int{0, 1, 2, 499, 500, 501, 999, 1000, 1001, 1500, 1502} {
		for _, f := range []int{1, 2} {
			m := map[int64]map[string]any{}
			for i := 0; i < n; i++ {
				m[int64(i*7-3)] = verifRecord(i, f)
			}
			for fail := 0; fail < 4; fail++ {
				verifUpdate(t, true, m, fail, false)
			}
			verifUpdate(t, false, m, 0, false)
			verifUpdate(t, false, m, 1, false)
		}
	}
	for i := 0; i < 300 || time.Now().Before(end); i++ {
		m := map[int64]map[string]any{}
		n, f, uneven := r.Intn(5), 1+r.Intn(3), false
		if r.Intn(6) == 0 {
			n += 498 + 500*r.Intn(2)
		}
		for j := 0; j < n; j++ {
			x := verifRecord(j, f)
			if r.Intn(30) == 0 {
				switch r.Intn(3) {
				case 0:
					x["more"] = 1
				case 1:
					if f == 1 { // nothing to set is refused by the database
						continue
					}
					delete(x, "f0")
				case 2:
					delete(x, "f0")
					x["other"] = 2
				}
				uneven = true
			}
			m[int64(r.Intn(1<<20))] = x
		}
		verifUpdate(t, true, m, r.Intn(4), uneven)
		verifUpdate(t, false, m, r.Intn(2), uneven)
	}
}

