package hserver

import (
	"io"

	"github.com/hired/gevulot/pkg/server"

	"vharness/verif"
)

// cut finds the next NUL-terminated string.
func cut(b []byte) (s, rest []byte, ok bool) {
	for i := range b {
		if b[i] == 0 {
			return b[:i], b[i+1:], true
		}
	}
	return nil, nil, false
}

// pgDatabase is the database PostgreSQL would connect to for these parameters, and whether the list is well-formed.
func pgDatabase(b []byte) (db []byte, exact, ok bool) {
	var user []byte
	for {
		k, r, found := cut(b)
		if !found {
			return nil, false, false
		}
		if len(k) == 0 {
			b = r
			break
		}
		v, r, found := cut(r)
		if !found {
			return nil, false, false
		}
		switch string(k) {
		case "database":
			db = v
		case "user":
			user = v
		}
		b = r
	}
	if len(db) == 0 {
		db = user
	}
	return db, len(b) == 0, true
}

// HDatabase: the client asks for arbitrary databases in arbitrary, also malformed ways.
//
//verif:props C12 C13
//verif:bound one session; arbitrary protocol version, four beginnings of a parameter list each followed by five arbitrary bytes (seven in thorough), or a parameter with an arbitrary name of seven to ten bytes beside a database or user; the configured database is "ab"
//verif:cover refused accepted
//verif:opt sched=1 replay=engine
func HDatabase() {
	r := session()
	r.s = server.NewSession(r.client, &store{cfg: &server.Config{DatabaseURL: "postgres://u:p@db.example:6543/ab"}})
	var list []byte
	tail := pick(5, 7)
	switch verif.Choice("list", 6) {
	case 4:
		list = []byte("database\x00zz\x00")
		list = append(append(list, verif.Bytes("name", 7+verif.Choice("name.len", 4))...), "\x00ab\x00\x00"...)
		tail = 0
	case 5:
		list = []byte("user\x00zz\x00")
		list = append(append(list, verif.Bytes("name", 7+verif.Choice("name.len", 4))...), "\x00ab\x00\x00"...)
		tail = 0
	case 0:
		list = []byte("database\x00")
	case 1:
		list = []byte("database\x00ab\x00database\x00")
	case 2:
		list = []byte("user\x00ab\x00database\x00")
	case 3:
		list = []byte("database\x00ab\x00")
	}
	list = append(list, verif.Bytes("tail", tail)...)
	ver := verif.Bytes("version", 4)
	msg := append([]byte{0, 0, 0, byte(8 + len(list))}, ver...)
	msg = append(msg, list...)
	db, exact, ok := pgDatabase(list)
	v3 := verif.EqBytes(ver, []byte{0, 3, 0, 0})
	ok = ok && v3 && verif.EqBytes(db, []byte("ab"))
	r.client.in = msg
	r.client.eof = io.EOF
	r.start()
	verif.Settle()
	if !ok {
		verif.Assert(r.net.dials == 0, "no connection to the database is opened for another database or protocol")
		r.ended("after a refused startup")
		verif.Cover("refused")
		return
	}
	if r.net.dials == 0 {
		return // being stricter than PostgreSQL is allowed
	}
	verif.Assert(r.net.addr == "db.example:6543", "the configured database server is contacted")
	if exact {
		verif.Assert(verif.EqBytes(r.db.out, msg), "the database receives the client's startup message")
		verif.Cover("accepted")
	}
}

// HPrelude: any number of SSL requests, then the startup message.
//
//verif:props C13
//verif:bound up to four SSL requests (eight in thorough) at once or one after the other's answer, database servers given as name, address, IPv6 address or by default, a configuration that changes while the session starts; every schedule
//verif:cover relayed
//verif:opt sched=1 replay=engine
func HPrelude() {
	r := session()
	urls := []string{dbURL, "postgres://u@10.1.2.3/app", "postgresql://[::1]:77/app?port=78", "postgres:///app?host=other"}
	addrs := []string{"db.example:6543", "10.1.2.3:5432", "[::1]:78", "other:5432"}
	k := verif.Choice("url", len(urls))
	later := &server.Config{DatabaseURL: "postgres://u:p@later.example:1/other"}
	r.s = server.NewSession(r.client, &store{cfg: &server.Config{DatabaseURL: urls[k]}, next: []*server.Config{later, later}})
	n := verif.Choice("ssl", pick(5, 9))
	st := startup("user", "u", "x", "y", "database", "app", "user", "v")
	slow := verif.Choice("slow", 2) == 1
	depth := 0
	base := 0
	r.client.onRead = func() {
		d := verif.Depth()
		if base == 0 {
			base = d
		}
		if d > depth {
			depth = d
		}
	}
	if !slow {
		for i := 0; i < n; i++ {
			r.client.in = append(r.client.in, sslRequest()...)
		}
		r.client.in = append(r.client.in, st...)
		r.start()
	} else {
		r.start()
		for i := 0; i < n; i++ {
			verif.Settle()
			verif.Assert(len(r.client.out) == i, "nothing but refusals of SSL is sent before the startup message")
			r.client.send(sslRequest())
		}
		verif.Settle()
		verif.Assert(r.net.dials == 0, "SSL requests open no connection")
		r.client.send(st)
	}
	verif.Settle()
	refusals := []byte{}
	for i := 0; i < n; i++ {
		refusals = append(refusals, 'N')
	}
	verif.Assert(verif.EqBytes(r.client.out, refusals), "each SSL request is refused with one byte")
	verif.Assert(r.net.dials == 1 && r.net.addr == addrs[k], "the configured database server is contacted once")
	verif.Assert(verif.EqBytes(r.db.out, st), "the database receives the startup message, byte for byte, and nothing else")
	verif.Assert(depth <= base+2, "SSL requests do not pile up on the stack")
	r.db.send(frame('R', 0, 0, 0, 0))
	verif.Settle()
	verif.Assert(verif.EqBytes(r.client.out, append(refusals, frame('R', 0, 0, 0, 0)...)), "the database's answer follows")
	_ = r.s.Close()
	verif.Settle()
	r.ended("after closing")
	verif.Cover("relayed")
}

// HPreludeFails: a connection fails or ends during startup.
//
//verif:props C13 C15
//verif:bound one session with one SSL request; reading from the client, answering it, the configuration, connecting to the database or sending the startup message fails
//verif:cover 0 1 2 3 4 5
//verif:opt sched=1 replay=engine
func HPreludeFails() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append(sslRequest(), st...)
	k := verif.Choice("kind", 6)
	want := errReset
	switch k {
	case 0:
		r.client.in = r.client.in[:verif.IntRange("cut", 0, len(r.client.in)-1)]
		r.client.eof = errReset
	case 1:
		r.client.broken = errReset
	case 2:
		r.s = server.NewSession(r.client, &store{err: errReset})
	case 3:
		r.net.err, want = errDial, errDial
	case 4:
		r.db.broken = errReset
	case 5:
		r.s = server.NewSession(r.client, &store{cfg: &server.Config{DatabaseURL: "http://db/app"}})
		want = nil
	}
	r.start()
	verif.Settle()
	r.ended("after a failed startup")
	if want != nil {
		verif.Assert(r.err != nil && (k == 0 || r.err == want), "the failure is reported")
	} else {
		verif.Assert(r.err != nil, "an unusable configuration is reported")
	}
	verif.Assert(k == 4 || r.net.err != nil || r.net.dials == 0, "no connection is opened")
	verif.Assert(len(r.db.out) == 0, "the database receives nothing")
	verif.Cover(string(rune('0' + k)))
}

// HClientKinds: the client sends a message of arbitrary type and content.
//
//verif:props C29 C14
//verif:bound one established session, one message of arbitrary type with up to four arbitrary body bytes (six in thorough), followed by a second one; a query is one terminated string, a termination has no body, everything else is arbitrary
//verif:cover passed
//verif:opt sched=1 replay=engine
func HClientKinds() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	t := verif.Byte("type")
	n := verif.Choice("len", pick(5, 7))
	body := verif.Bytes("body", n)
	if t == 'Q' {
		verif.Assume(n > 0)
		for i := 0; i < n; i++ {
			verif.Assume((body[i] == 0) == (i == n-1))
		}
	}
	if t == 'X' {
		verif.Assume(n == 0)
	}
	m := append(frame(t, body...), frame('Q', 'z', 0)...)
	r.client.send(m)
	verif.Settle()
	verif.Assert(!r.done, "the session goes on")
	verif.Assert(verif.EqBytes(r.db.out, append(st, m...)), "the database receives the client's messages byte for byte")
	verif.Assert(len(r.client.out) == 0, "the client is sent nothing")
	verif.Cover("passed")
}

// HBackendKinds: the database sends a message of arbitrary type and content.
//
//verif:props C14
//verif:bound one established session, one message of arbitrary type with up to three arbitrary body bytes (five in thorough); surplus bytes after the last field of a message may be dropped, a malformed message may end the session
//verif:cover passed refused
//verif:opt sched=1 replay=engine
func HBackendKinds() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	t := verif.Byte("type")
	body := verif.Bytes("body", verif.Choice("len", pick(4, 6)))
	r.db.send(frame(t, body...))
	verif.Settle()
	verif.Assert(verif.EqBytes(r.db.out, st), "the database is sent nothing")
	out := r.client.out
	if len(out) == 0 {
		verif.Assert(r.done || r.db.eof != nil || r.db.in == nil || len(r.db.in) == 0, "the message was read")
		for i := 0; i < 3; i++ {
			verif.Sleep()
		}
		verif.Settle()
		r.ended("after a malformed message")
		verif.Cover("refused")
		return
	}
	verif.Assert(len(out) >= 5 && len(out) <= 5+len(body), "one message is delivered")
	verif.Assert(verif.EqBytes(out, frame(t, body[:len(out)-5]...)), "the client receives the message byte for byte")
	verif.Assert(!r.done, "the session goes on")
	verif.Cover("passed")
}
