// Package hmeta holds the harnesses for the database inspector.
package hmeta

import (
	"errors"

	"github.com/lib/pq/oid"

	"github.com/hired/gevulot/pkg/pgmeta"

	"vharness/models"
	"vharness/verif"
)

var errDB = errors.New("connection lost")

func pick(q, t int) int {
	if verif.Thorough() {
		return t
	}
	return q
}

// HInspect: connecting fails or not.
//
//verif:props C27
//verif:bound opening or connecting fails or not, closing fails or not
//verif:cover open ping ok
//verif:opt replay=engine
func HInspect() {
	db := &models.FakeDB{ScanErr: -1}
	models.SQL = db
	k := verif.Choice("fail", 3)
	switch k {
	case 0:
		db.OpenErr = errDB
	case 1:
		db.PingErr = errDB
	}
	if verif.Choice("close", 2) == 1 {
		db.CloseErr = errors.New("cannot close")
	}
	i, err := pgmeta.Inspect("postgres://h/db")
	verif.Assert(db.Driver == "postgres" && (k == 0 || db.DSN == "postgres://h/db"), "the given database is connected to")
	if k < 2 {
		verif.Assert(i == nil && errors.Is(err, errDB), "a failure to connect is reported")
		verif.Assert(db.Closed == db.Opened, "a failed connection is closed")
		verif.Cover([]string{"open", "ping"}[k])
		return
	}
	verif.Assert(i != nil && err == nil && db.Closed == 0, "a connection that works is kept")
	verif.Assert(i.Close() == db.CloseErr && db.Closed == 1, "closing closes the connection and reports its error")
	verif.Cover("ok")
}

func connect() (*models.FakeDB, *pgmeta.Inspector) {
	db := &models.FakeDB{ScanErr: -1}
	models.SQL = db
	i, err := pgmeta.Inspect("postgres://h/db")
	verif.Assert(err == nil, "connecting succeeds")
	return db, i
}

// HName: the name of the database.
//
//verif:props C27
//verif:bound a name of up to three arbitrary bytes; the query, decoding or reading the row fails, there is no row
//verif:cover 0 1 2 3 4
//verif:opt replay=engine
func HName() {
	db, i := connect()
	name := verif.String("name", verif.Choice("len", 4))
	db.Rows = []map[string]interface{}{{"current_database()": name}}
	k := verif.Choice("fail", 5)
	switch k {
	case 0:
		db.QueryErr = errDB
	case 1:
		db.ScanErr = 0
	case 2:
		db.Rows = nil
	case 3:
		db.Rows, db.RowsErr = nil, errDB
	}
	got, err := i.DatabaseName()
	if k == 4 {
		verif.Assert(err == nil && verif.EqStr(got, name), "the name the database reports is returned")
	} else {
		verif.Assert(err != nil, "a failure is reported")
	}
	verif.Assert(db.Queries == 1 && (k == 0 || db.Released == 1), "the result set is released")
	verif.Cover(string(rune('0' + k)))
}

// HMapping: the tables of the database.
//
//verif:props C27
//verif:bound up to three tables (four in thorough) with arbitrary object ids and names of one or two arbitrary bytes; the query, decoding any row or reading on after any number of rows fails; asked twice
//verif:cover complete query row broken
//verif:opt replay=engine
func HMapping() {
	db, i := connect()
	n := verif.Choice("tables", pick(4, 5))
	var ids []uint32
	var names, schemas []string
	for k := 0; k < n; k++ {
		id := verif.Uint32("oid")
		for _, o := range ids {
			verif.Assume(o != id)
		}
		ids = append(ids, id)
		names = append(names, verif.String("table", 1+k%2))
		schemas = append(schemas, verif.String("schema", 2-k%2))
		db.Rows = append(db.Rows, map[string]interface{}{"oid": id, "relname": names[k], "nspname": schemas[k]})
	}
	fail := verif.Choice("fail", 4)
	switch fail {
	case 1:
		db.QueryErr = errDB
	case 2:
		verif.Assume(n > 0)
		db.ScanErr = verif.Choice("row", pick(4, 5))
		verif.Assume(db.ScanErr < n)
	case 3:
		db.RowsErr = errDB
	}
	for pass := 1; pass <= 2; pass++ {
		m, err := i.OIDTableMapping()
		verif.Assert(fail == 1 || db.Released == pass, "the result set is released")
		if fail > 0 {
			verif.Assert(err != nil, "a failure never yields a mapping without error")
			verif.Cover([]string{"", "query", "row", "broken"}[fail])
			continue
		}
		verif.Assert(err == nil && len(m) == n, "every table the database reports is in the mapping")
		for k := range ids {
			t, ok := m[oid.Oid(ids[k])]
			verif.Assert(ok && verif.EqStr(t.Name, names[k]) && verif.EqStr(t.Schema, schemas[k]), "each table has its object id, schema and name")
		}
		verif.Cover("complete")
	}
	verif.Assert(db.Closed == 0, "the connection stays open")
}

// HCatalog: which of the database's relations are its tables.
//
//verif:props C27
//verif:bound a catalog of two relations with arbitrary object ids, each a table, view, materialised view, index, sequence, TOAST table or composite type in one of nine schemas, three of them with names that only resemble the system's; a query outside the select, join, where subset the stand-in understands is not judged
//verif:cover listed hidden
//verif:opt replay=engine
func HCatalog() {
	db, i := connect()
	schemas := []string{"public", "app", "pgq", "information_schema", "pg_catalog", "pg_toast", "information", "PG_app", "app_pg_x"}
	var ns, cl models.Relation
	for k, s := range schemas {
		ns = append(ns, map[string]interface{}{"oid": uint32(100 + k), "nspname": s})
	}
	kinds := []string{"r", "v", "m", "i", "S", "t", "c"}
	want := map[oid.Oid]pgmeta.Table{}
	for k := 0; k < 2; k++ {
		s := verif.Choice("schema", len(schemas))
		kind := verif.Choice("relkind", len(kinds))
		id := uint32(7 + k)
		name := []string{"jobs", "pg_jobs"}[k]
		cl = append(cl, map[string]interface{}{"oid": id, "relname": name, "relnamespace": uint32(100 + s), "relkind": kinds[kind]})
		if kind < 3 && (s < 3 || s > 5) {
			want[oid.Oid(id)] = pgmeta.Table{Schema: schemas[s], Name: name}
			verif.Cover("listed")
		} else {
			verif.Cover("hidden")
		}
	}
	db.Catalog = map[string]models.Relation{"pg_class": cl, "pg_namespace": ns}
	m, err := i.OIDTableMapping()
	if db.Odd > 0 {
		return
	}
	verif.Assert(err == nil, "the catalog is read")
	for id, t := range want {
		x, ok := m[id]
		verif.Assert(ok && x == t, "every table of the database's schemas is in the mapping, with its schema and name")
	}
	verif.Assert(len(m) == len(want), "nothing but tables and views of the database's schemas is in the mapping")
}
