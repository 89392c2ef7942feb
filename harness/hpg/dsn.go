package hpg

import (
	"errors"
	osuser "os/user"

	"github.com/hired/gevulot/pkg/pg"

	"vharness/models"
	"vharness/verif"
)

// word draws text of n letters of either case, digits or percent-encoded bytes; raw is what the URI holds.
func word(name string, n int, coded bool) (raw, val string) {
	for i := 0; i < n; i++ {
		if coded && i == 0 {
			b := verif.Byte(name)
			verif.Assume(b != 0 && b != '/')
			raw += "%" + string([]byte{hexDigit(b >> 4), hexDigit(b & 15)})
			val += string([]byte{b})
			continue
		}
		b := verif.Byte(name)
		l := b | 0x20
		verif.Assume(verif.Or(verif.And(l >= 'a', l <= 'z'), verif.And(b >= '0', b <= '9')))
		raw += string([]byte{b})
		val += string([]byte{b})
	}
	return raw, val
}

func hexDigit(n byte) byte {
	return byte(verif.Ite(n < 10, int(n)+'0', int(n)+'A'-10))
}

// HURI: every part of the URI is there or not, with arbitrary contents.
//
//verif:props C11
//verif:bound either scheme; user, password, host (name, IPv6 or none), port and database (of one to three segments) present, empty or absent, up to two query parameters out of seven, the first possibly empty or repeated; each text of one arbitrary letter of either case or digit (two in thorough), or one arbitrary percent-encoded byte; one part at a time is arbitrary, the others are there or not
//verif:cover plain query
func HURI() { uri() }

// HNoUser is HURI for a process whose user the operating system does not know.
//
//verif:props C11
//verif:bound as HURI
//verif:cover plain query
//verif:opt replay=engine
func HNoUser() {
	models.OSUserErr = errors.New("no such user")
	uri()
}

func uri() {
	want := map[string]string{"host": "localhost", "port": "5432"}
	focus := verif.Choice("focus", 4) // which part is arbitrary; the others are there or not
	some := func(part int, name string, n int, fixed ...int) int {
		if focus == part {
			return verif.Choice(name, n)
		}
		return fixed[verif.Choice(name, len(fixed))]
	}
	uri := []string{"postgres://", "postgresql://"}[some(1, "scheme", 2, 0)]
	text := func(part int, name, fixed string) (string, string) {
		if focus != part {
			return fixed, fixed
		}
		switch verif.Choice(name+".kind", 3) {
		case 0:
			return word(name, 1, true)
		default:
			return word(name, pick(1, 2), false)
		}
	}
	user := ""
	if u, err := osuser.Current(); err == nil {
		user = u.Username
	}
	auth := some(0, "auth", 6, 0, 1)
	switch auth {
	case 1, 2:
		r, v := text(0, "user", "joe")
		uri += r
		user = v
	}
	switch auth {
	case 2, 3:
		r, v := text(0, "password", "pw")
		uri += ":" + r
		want["password"] = v
	case 5:
		uri += "joe:"
		user = "joe"
		want["password"] = ""
	}
	if auth > 0 {
		uri += "@"
	}
	switch some(1, "host", 3, 0, 1) {
	case 1:
		r, v := "db.example", "db.example"
		if focus == 1 {
			r, v = word("host", pick(2, 3), false)
		}
		uri += r
		want["host"] = v
	case 2:
		uri += "[::1]"
		want["host"] = "::1"
	}
	switch some(1, "port", 3, 0, 2) {
	case 1:
		uri += ":"
	case 2:
		p := "77"
		if focus == 1 {
			b := verif.Byte("port")
			verif.Assume(verif.And(b >= '0', b <= '9'))
			p = string([]byte{b})
			if verif.Choice("digits", 2) == 1 {
				p = "1" + p
			}
		}
		uri += ":" + p
		want["port"] = p
	}
	db := ""
	switch some(2, "path", 5, 0, 2) {
	case 3:
		r, v := text(2, "database", "app")
		q, w := text(2, "rest", "x")
		uri += "/" + r + "/" + q
		db = v + "/" + w
	case 4:
		r, v := text(2, "database", "app")
		uri += "/" + r + "%2Fx/"
		db = v + "/x/"
	case 1:
		uri += "/"
	case 2:
		r, v := text(2, "database", "app")
		uri += "/" + r
		db = v
	}
	nq := some(3, "query", 3, 0, 1)
	names := []string{"user", "host", "port", "database", "password", "sslmode", "DateStyle"}
	k := some(3, "param", len(names), 0)
	dbSet := db != ""
	for i := 0; i < nq; i++ {
		n := names[(k+i)%len(names)]
		r, v := text(3, "value", "val")
		if focus == 3 && i == 0 && verif.Choice("no value", 2) == 1 {
			r, v = "", ""
		}
		uri += []string{"?", "&"}[i] + n + "=" + r
		want[n] = v
		switch n {
		case "user":
			user = v
		case "database":
			db, dbSet = v, true
		}
	}
	if nq > 0 && focus == 3 && verif.Choice("repeated", 2) == 1 {
		uri += "&" + names[k] + "=again"
	}
	if !dbSet {
		db = user
	}
	want["user"], want["database"] = user, db
	got, err := pg.ParseDatabaseURI(uri)
	verif.Assert(err == nil, "a URI of a database is accepted")
	for n, v := range want {
		x, ok := got[n]
		verif.Assert(ok || n == "user" || n == "database", "every setting of the URI is there")
		verif.Assert(verif.EqStr(x, v), "the setting is what the URI denotes")
	}
	for n := range got {
		_, ok := want[n]
		verif.Assert(ok, "no setting is invented")
	}
	if nq == 0 {
		verif.Cover("plain")
	} else {
		verif.Cover("query")
	}
}

// HBadURI: URIs that are of another scheme or cannot be parsed.
//
//verif:props C11
//verif:bound a scheme of up to three arbitrary bytes (five in thorough) or one of nine fixed beginnings; or two arbitrary bytes (three in thorough) in the place of the authority, the path or the query
//verif:cover scheme broken accepted refused
func HBadURI() {
	switch verif.Choice("kind", 3) {
	case 0:
		n := verif.Choice("len", pick(4, 6))
		s := verif.String("scheme", n) + "://h/db"
		got, err := pg.ParseDatabaseURI(s)
		verif.Assert(err != nil && got == nil, "another scheme is refused")
		verif.Cover("scheme")
	case 1:
		l := []string{"", "h", "//h/db", "postgres", "postgresq://h", "postgresqll://h", "postgresx://h", "xpostgres://h", "mysql://h", "postgres ://h", "postgres://h:x/", "postgres://[::1/db", "postgres://%zz/", "postgres://h/%z", "postgres://h/db?host=%zz", "postgres://h\x7f/", "Postgre://h"}
		got, err := pg.ParseDatabaseURI(l[verif.Choice("uri", len(l))])
		verif.Assert(err != nil && got == nil, "a broken URI or another scheme is refused")
		verif.Cover("broken")
	case 2:
		b := verif.String("bytes", pick(2, 3))
		s := []string{"postgres://" + b, "postgres://h/" + b, "postgres://h/?" + b, "postgres://u:" + b + "@h"}[verif.Choice("where", 4)]
		got, err := pg.ParseDatabaseURI(s)
		verif.Assert((err != nil) == (got == nil), "either settings or an error are returned")
		if err != nil {
			verif.Cover("refused")
			return
		}
		for _, n := range []string{"host", "port", "user", "database"} {
			_, ok := got[n]
			verif.Assert(ok, "the settings are complete")
		}
		verif.Cover("accepted")
	}
}
