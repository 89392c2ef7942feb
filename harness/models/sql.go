package models

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"strings"

	"github.com/lib/pq/oid"
)

// FakeDB is the database behind database/sql. Columns are delivered in the order the query names them.
type FakeDB struct {
	Driver, DSN string

	OpenErr, PingErr, QueryErr, CloseErr error

	Rows     []map[string]interface{} // by column name without table
	Catalog  map[string]Relation      // where the rows come from, if not nil
	Odd      int                      // queries over the catalog that are not understood
	ScanErr  int                      // index of the row that cannot be decoded, -1 for none
	RowsErr  error                    // reading rows fails after the last one
	Opened   int
	Closed   int
	Queries  int
	Released int // result sets released
}

// SQL is the database that gets opened.
var SQL *FakeDB

type fakeRows struct {
	db     *FakeDB
	cols   []string
	rows   []map[string]interface{}
	pos    int
	err    error
	closed bool
}

var (
	fakeDBs  = map[*sql.DB]*FakeDB{}
	fakeSets = map[*sql.Rows]*fakeRows{}
	fakeRow  = map[*sql.Row]*fakeRows{}
)

var errDBClosed = errors.New("sql: database is closed")

// SQLOpen prepares a connection.
//
//verif:replace database/sql.Open
func SQLOpen(driver, dsn string) (*sql.DB, error) {
	SQL.Driver, SQL.DSN = driver, dsn
	if SQL.OpenErr != nil {
		return nil, SQL.OpenErr
	}
	SQL.Opened++
	db := &sql.DB{}
	fakeDBs[db] = SQL
	return db, nil
}

// DBPing connects.
//
//verif:replace (*database/sql.DB).Ping
func DBPing(db *sql.DB) error {
	f := fakeDBs[db]
	if f.Closed > 0 {
		return errDBClosed
	}
	return f.PingErr
}

// DBPingContext connects.
//
//verif:replace (*database/sql.DB).PingContext
func DBPingContext(db *sql.DB, ctx context.Context) error { return DBPing(db) }

// DBClose closes.
//
//verif:replace (*database/sql.DB).Close
func DBClose(db *sql.DB) error {
	f := fakeDBs[db]
	f.Closed++
	return f.CloseErr
}

// columns are the names of what a query selects.
func columns(q string) []string {
	var out []string
	q = strings.TrimSpace(q)
	if len(q) < 6 || !strings.EqualFold(q[:6], "select") {
		return nil
	}
	q = q[6:]
	for i := 0; i+4 <= len(q); i++ {
		if strings.EqualFold(q[i:i+4], "from") && i > 0 && !word(q[i-1]) && (i+4 == len(q) || !word(q[i+4])) {
			q = q[:i]
			break
		}
	}
	for _, c := range strings.Split(q, ",") {
		f := strings.Fields(c)
		if len(f) == 0 {
			out = append(out, "")
			continue
		}
		name := strings.TrimRight(f[0], ";")
		if i := strings.LastIndex(name, "."); i >= 0 {
			name = name[i+1:]
		}
		out = append(out, strings.ToLower(strings.Trim(name, "\"")))
	}
	return out
}

func word(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.'
}

func (f *FakeDB) query(q string) (*fakeRows, error) {
	f.Queries++
	if f.Closed > 0 {
		return nil, errDBClosed
	}
	if f.QueryErr != nil {
		return nil, f.QueryErr
	}
	rows := f.Rows
	if f.Catalog != nil {
		l, ok := selectFrom(f.Catalog, q)
		if !ok {
			f.Odd++
		}
		rows = l
	}
	return &fakeRows{db: f, cols: columns(q), rows: rows, pos: -1}, nil
}

// DBQuery runs a query.
//
//verif:replace (*database/sql.DB).Query
func DBQuery(db *sql.DB, q string, args ...any) (*sql.Rows, error) {
	r, err := fakeDBs[db].query(q)
	if err != nil {
		return nil, err
	}
	s := &sql.Rows{}
	fakeSets[s] = r
	return s, nil
}

// DBQueryContext runs a query.
//
//verif:replace (*database/sql.DB).QueryContext
func DBQueryContext(db *sql.DB, ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	return DBQuery(db, q, args...)
}

// DBQueryRow runs a query for one row.
//
//verif:replace (*database/sql.DB).QueryRow
func DBQueryRow(db *sql.DB, q string, args ...any) *sql.Row {
	r, err := fakeDBs[db].query(q)
	if err != nil {
		r = &fakeRows{db: fakeDBs[db], err: err, closed: true}
	}
	s := &sql.Row{}
	fakeRow[s] = r
	return s
}

// DBQueryRowContext runs a query for one row.
//
//verif:replace (*database/sql.DB).QueryRowContext
func DBQueryRowContext(db *sql.DB, ctx context.Context, q string, args ...any) *sql.Row {
	return DBQueryRow(db, q, args...)
}

func (r *fakeRows) close() {
	if !r.closed {
		r.closed = true
		r.db.Released++
	}
}

func (r *fakeRows) next() bool {
	if r.closed {
		return false
	}
	r.pos++
	if r.pos < len(r.rows) {
		return true
	}
	r.err = r.db.RowsErr
	r.close()
	return false
}

func (r *fakeRows) scan(dest []any) error {
	if r.closed || r.pos < 0 {
		return errors.New("sql: Scan called without calling Next")
	}
	if len(dest) != len(r.cols) {
		return fmt.Errorf("sql: expected %d destination arguments in Scan, not %d", len(r.cols), len(dest))
	}
	if r.db.ScanErr == r.pos {
		return errors.New("sql: Scan error on a column")
	}
	for i, d := range dest {
		v, ok := r.rows[r.pos][r.cols[i]]
		if !ok {
			return errors.New("pq: no such column")
		}
		switch d := d.(type) {
		case *string:
			s, ok := v.(string)
			if !ok {
				return errors.New("sql: unexpected text")
			}
			*d = s
		case *oid.Oid:
			n, ok := v.(uint32)
			if !ok {
				return errors.New("sql: cannot convert text to a number")
			}
			*d = oid.Oid(n)
		case *uint32:
			n, ok := v.(uint32)
			if !ok {
				return errors.New("sql: cannot convert text to a number")
			}
			*d = n
		case *int64:
			n, ok := v.(uint32)
			if !ok {
				return errors.New("sql: cannot convert text to a number")
			}
			*d = int64(n)
		default:
			return errors.New("sql: unsupported Scan")
		}
	}
	return nil
}

// RowsNext advances.
//
//verif:replace (*database/sql.Rows).Next
func RowsNext(s *sql.Rows) bool { return fakeSets[s].next() }

// RowsScan decodes a row.
//
//verif:replace (*database/sql.Rows).Scan
func RowsScan(s *sql.Rows, dest ...any) error { return fakeSets[s].scan(dest) }

// RowsErr tells what ended the result set.
//
//verif:replace (*database/sql.Rows).Err
func RowsErr(s *sql.Rows) error { return fakeSets[s].err }

// RowsClose releases the result set.
//
//verif:replace (*database/sql.Rows).Close
func RowsClose(s *sql.Rows) error {
	fakeSets[s].close()
	return nil
}

// RowScan decodes the only row.
//
//verif:replace (*database/sql.Row).Scan
func RowScan(s *sql.Row, dest ...any) error {
	r := fakeRow[s]
	if r.err != nil {
		return r.err
	}
	defer r.close()
	if !r.next() {
		if r.err != nil {
			return r.err
		}
		return sql.ErrNoRows
	}
	return r.scan(dest)
}

// RowErr tells whether the query failed.
//
//verif:replace (*database/sql.Row).Err
func RowErr(s *sql.Row) error { return fakeRow[s].err }
