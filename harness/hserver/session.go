package hserver

import (
	"io"

	"github.com/hired/gevulot/pkg/server"

	"vharness/verif"
)

// HRelay: both sides send messages with arbitrary payload, then the client or the database hangs up.
//
//verif:props C14 C15 C28
//verif:bound one session, three messages from each side with arbitrary payload bytes (six in thorough), then one side hangs up; every schedule
//verif:cover relayed client-gone db-gone
//verif:opt sched=1 replay=engine
func HRelay() {
	r := session()
	st := startup("user", "u", "database", "app")
	var q, d []byte
	for i := 0; i < pick(3, 6); i++ {
		a, b := verif.Byte("a"), verif.Byte("b")
		verif.Assume(a != 0)
		q = append(q, frame('Q', a, 0)...)
		d = append(d, frame('Z', b)...)
	}
	r.client.in = append(append([]byte{}, st...), q...)
	r.db.in = append([]byte{}, d...)
	r.start()
	verif.Settle()
	verif.Assert(!r.done, "the session stays up while both sides are connected")
	verif.Assert(verif.EqBytes(r.db.out, append(st, q...)), "the database gets exactly what the client sent")
	verif.Assert(verif.EqBytes(r.client.out, d), "the client gets exactly what the database sent")
	verif.Cover("relayed")
	if verif.Choice("who", 2) == 0 {
		r.client.hangUp(io.EOF)
		verif.Settle()
		r.ended("after the client hung up")
		verif.Cover("client-gone")
	} else {
		r.db.hangUp(io.EOF)
		verif.Settle()
		r.ended("after the database hung up")
		verif.Cover("db-gone")
	}
}

// HTalk: the sides take turns, each message depends on the one before having arrived.
//
//verif:props C14 C28
//verif:bound one session, a conversation of three messages in turn, each sent while earlier ones may be under way; every schedule
//verif:cover talked
//verif:opt sched=1 replay=engine
func HTalk() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	a, b := verif.Byte("a"), verif.Byte("b")
	q1, d1, q2 := frame('Q', 'a', 0), frame('Z', a), frame('p', b|1, 0)
	n := 0
	r.db.onWrite = func() { n = len(r.db.out) }
	r.client.send(q1)
	verif.Sync(func() bool { return n >= len(st)+len(q1) }, nil, &r.db.out)
	r.db.send(d1)
	m := 0
	r.client.onWrite = func() { m = len(r.client.out) }
	verif.Sync(func() bool { return m >= len(d1) || len(r.client.out) >= len(d1) }, nil, &r.client.out)
	r.client.send(q2)
	verif.Settle()
	verif.Assert(verif.EqBytes(r.db.out, append(append(st, q1...), q2...)), "the database gets exactly what the client sent")
	verif.Assert(verif.EqBytes(r.client.out, d1), "the client gets exactly what the database sent")
	verif.Cover("talked")
}

func prefixOf(out []byte, parts ...[]byte) bool {
	n := 0
	ok := len(out) == 0
	var all []byte
	for _, p := range parts {
		n += len(p)
		all = append(all, p...)
		ok = ok || len(out) == n
	}
	return ok && verif.EqBytes(out, all[:len(out)])
}

// HHangUp: one side sends two messages and hangs up or fails at once, while the other one is still sending.
//
//verif:props C14 C15 C28
//verif:bound one session, two messages from the side that ends and one from the other, all under way at once; the end is a close, a connection error or a cut-off message; every schedule
//verif:cover client db
//verif:opt sched=1 replay=engine
func HHangUp() {
	r := session()
	st := startup("user", "u", "database", "app")
	x := verif.Byte("x")
	q1, q2 := frame('Q', 'a', 0), frame('p', 'b', 0)
	d1, d2 := frame('Z', x), frame('C', 'c', 0)
	client := verif.Choice("who", 2) == 0
	end := io.EOF
	var tail []byte
	switch verif.Choice("how", 3) {
	case 1:
		end = errReset
	case 2:
		tail = []byte{'Q', 0, 0}
	}
	if client {
		r.client.in = append(append(append(append([]byte{}, st...), q1...), q2...), tail...)
		r.client.eof = end
		r.db.in = append([]byte{}, d1...)
	} else {
		r.client.in = append(append([]byte{}, st...), q1...)
		r.db.in = append(append(append([]byte{}, d1...), d2...), tail...)
		r.db.eof = end
	}
	r.start()
	verif.Settle()
	if client {
		r.ended("after the client hung up")
		verif.Assert(verif.EqBytes(r.db.out, append(append(append([]byte{}, st...), q1...), q2...)), "what the client sent before hanging up reaches the database")
		verif.Assert(prefixOf(r.client.out, d1), "the client gets whole messages of the database")
		verif.Cover("client")
	} else {
		r.ended("after the database hung up")
		verif.Assert(verif.EqBytes(r.client.out, append(append([]byte{}, d1...), d2...)), "what the database sent before hanging up reaches the client")
		verif.Assert(prefixOf(r.db.out, st, q1), "the database gets whole messages of the client")
		verif.Cover("db")
	}
}

// HLastWords: the database reports a fatal error and goes away while the client is still sending, so that writing to it fails.
//
//verif:props C15 C28
//verif:bound one session, one message from each side; the receiving side's connection refuses writes and ends after its message; every schedule
//verif:cover db client
//verif:opt sched=1 replay=engine
func HLastWords() {
	r := session()
	st := startup("user", "u", "database", "app")
	q, d := frame('Q', 'a', 0), frame('E', 'M', verif.Byte("x")|1, 0, 0)
	r.client.in = append(append([]byte{}, st...), q...)
	r.db.in = append([]byte{}, d...)
	if verif.Choice("who", 2) == 0 {
		r.db.stall, r.db.room = true, len(st)
		r.db.eof = io.EOF
		r.db.onWrite = func() { r.db.broken = errReset }
		r.start()
		verif.Settle()
		r.ended("after the database went away")
		verif.Assert(verif.EqBytes(r.client.out, d), "the database's last message reaches the client")
		verif.Cover("db")
	} else {
		r.client.broken = errReset
		r.client.eof = io.EOF
		r.start()
		verif.Settle()
		r.ended("after the client went away")
		verif.Assert(verif.EqBytes(r.db.out, append(st, q...)), "the client's last message reaches the database")
		verif.Cover("client")
	}
}

// HHalfDead: one side refuses what is sent to it but keeps its connection open, or it stops reading and the other side
// hangs up: the session still ends, after a grace period at most.
//
//verif:props C15 C28
//verif:bound one session, one message each way, four kinds of half-dead connection; time passes when nothing else can happen; every schedule
//verif:cover 0 1 2 3
//verif:opt sched=1 replay=engine
func HHalfDead() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append(append([]byte{}, st...), frame('Q', 'a', 0)...)
	r.db.in = frame('Z', 'I')
	k := verif.Choice("kind", 4)
	switch k {
	case 0: // the database refuses writes
		r.db.onWrite = func() { r.db.broken = errReset }
	case 1: // the client refuses writes
		r.client.broken = errReset
	case 2: // the database does not read, the client hangs up
		r.db.stall, r.db.room = true, len(st)
		r.client.eof = io.EOF
	case 3: // the client does not read, the database hangs up
		r.client.stall = true
		r.db.eof = io.EOF
	}
	r.start()
	verif.Settle()
	for i := 0; i < 3; i++ {
		verif.Sleep()
	}
	verif.Settle()
	r.ended("with a half-dead connection")
	verif.Cover(string(rune('0' + k)))
}

// HClose: the session is closed by two goroutines at arbitrary moments.
//
//verif:props C16 C28
//verif:bound one session that starts, connects, relays one message each way; two closing calls at any moment; connecting to the database succeeds, or takes until it is given up; every schedule
//verif:cover closed-first served
//verif:opt sched=1 replay=engine
func HClose() {
	r := session()
	r.client.in = startup("user", "u", "database", "app")
	if verif.Thorough() {
		r.client.in = append(r.client.in, frame('Q', 'a', 0)...)
		r.db.in = frame('Z', 'I')
	}
	slow := verif.Choice("slow", 2) == 1
	if slow {
		r.net.hold = make(chan struct{})
	}
	r.start()
	go func() { _ = r.s.Close() }()
	_ = r.s.Close()
	verif.Settle()
	verif.Assert(r.done, "after closing: serving returned")
	verif.Assert(r.client.closed > 0, "after closing: the client connection is closed")
	verif.Assert(r.net.dials == 0 || slow || r.db.closed > 0, "after closing: the database connection is closed")
	verif.Assert(verif.Running() == 1, "after closing: no goroutine remains")
	if r.client.reads == 0 {
		verif.Assert(r.err != nil, "serving a closed session reports it")
		verif.Cover("closed-first")
	}
	if len(r.db.out) > 0 {
		verif.Cover("served")
	}
	n := r.client.reads
	err := r.s.Start()
	verif.Assert(err == server.ErrSessionClosed, "starting a closed session is refused")
	verif.Assert(r.client.reads == n && r.net.dials <= 1, "starting a closed session leaves the network alone")
	verif.Assert(r.s.Close() == nil, "closing again does nothing")
}

// waiting is a configuration that does not exist yet.
type waiting struct {
	store
	known bool
	asked int
}

func (w *waiting) Get() (*server.Config, error) {
	verif.Sync(nil, func() { w.asked++ }, &w.asked)
	verif.Sync(func() bool { return w.known }, nil, &w.known)
	return w.store.Get()
}

// HCloseWaiting: the session is closed while it waits for the configuration.
//
//verif:props C16 C28
//verif:bound one session whose configuration becomes known at any moment or not at all, closed at any moment; every schedule
//verif:cover waiting known
//verif:opt sched=1 replay=engine
func HCloseWaiting() {
	r := session()
	w := &waiting{store: store{cfg: &server.Config{DatabaseURL: dbURL}}}
	r.s = server.NewSession(r.client, w)
	r.client.in = startup("user", "u", "database", "app")
	r.start()
	learn := func() { verif.Sync(nil, func() { w.known = true }, &w.known) }
	early := verif.Choice("known", 2) == 1
	if early {
		go learn()
	}
	if verif.Choice("wait", 2) == 1 {
		verif.Settle()
	}
	_ = r.s.Close()
	verif.Settle()
	verif.Assert(r.done, "after closing: serving returned")
	verif.Assert(r.client.closed > 0, "after closing: the client connection is closed")
	verif.Assert(r.net.dials == 0 || r.db.closed > 0, "after closing: the database connection is closed")
	if w.asked > 0 && !early {
		verif.Cover("waiting")
	}
	if early {
		verif.Cover("known")
	}
	learn()
	verif.Settle()
	verif.Assert(early || r.net.dials == 0, "a closed session opens no connection")
	verif.Assert(verif.Running() == 1, "after closing: no goroutine remains")
}

// HCloseBusy: the session is closed while a message is under way in one direction.
//
//verif:props C16 C28
//verif:bound one established session with one message under way (one each way in thorough) towards a side that reads or has stopped reading, closed at any moment; every schedule
//verif:cover client db
//verif:opt sched=1 replay=engine
func HCloseBusy() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	stall := verif.Choice("stalled", 2) == 1
	client := verif.Choice("who", 2) == 0
	if client || verif.Thorough() {
		r.db.stall = stall
		r.client.send(frame('Q', 'a', 0))
	}
	if !client || verif.Thorough() {
		r.client.stall = stall
		r.db.send(frame('Z', 'I'))
	}
	_ = r.s.Close()
	verif.Settle()
	r.ended("after closing")
	if client {
		verif.Cover("client")
	} else {
		verif.Cover("db")
	}
}

// HCloseError: closing reports what closing the connections reports.
//
//verif:props C16
//verif:bound one established session, closing either connection fails or not
//verif:cover err ok
//verif:opt sched=1 replay=engine
func HCloseError() {
	r := session()
	r.client.in = startup("user", "u", "database", "app")
	r.start()
	verif.Settle()
	cf, df := verif.Choice("client", 2) == 1, verif.Choice("db", 2) == 1
	if cf {
		r.client.closeErr = errReset
	}
	if df {
		r.db.closeErr = errDial
	}
	err := r.s.Close()
	verif.Settle()
	r.ended("after closing")
	verif.Assert((err != nil) == (cf || df), "closing reports that a connection could not be closed")
	if err != nil {
		verif.Assert(err == errReset && cf || err == errDial && df, "no error is invented")
		verif.Cover("err")
	} else {
		verif.Cover("ok")
	}
}

// HStalled: one side has stopped reading while the other keeps sending; the opposite direction goes on.
//
//verif:props C17 C14
//verif:bound one session, 150 messages (400 in thorough) towards the side that does not read, then one message the other way, after which reading resumes
//verif:cover client db
//verif:opt sched=1 replay=engine
func HStalled() {
	n := pick(150, 400)
	r := session()
	st := startup("user", "u", "database", "app")
	var flood []byte
	for i := 0; i < n; i++ {
		flood = append(flood, frame('n')...)
	}
	x := verif.Byte("x")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	if verif.Choice("who", 2) == 0 {
		r.db.stall = true
		r.client.send(flood)
		verif.Settle()
		r.db.send(frame('Z', x))
		verif.Settle()
		verif.Assert(verif.EqBytes(r.client.out, frame('Z', x)), "the client still gets what the database sends")
		verif.Sync(nil, func() { r.db.stall = false }, &r.db.out)
		verif.Settle()
		verif.Assert(verif.EqBytes(r.db.out, append(st, flood...)), "nothing is lost once the database reads again")
		verif.Cover("db")
	} else {
		r.client.stall = true
		r.db.send(flood)
		verif.Settle()
		r.client.send(frame('Q', x|1, 0))
		verif.Settle()
		verif.Assert(verif.EqBytes(r.db.out, append(st, frame('Q', x|1, 0)...)), "the database still gets what the client sends")
		verif.Sync(nil, func() { r.client.stall = false }, &r.client.out)
		verif.Settle()
		verif.Assert(verif.EqBytes(r.client.out, flood), "nothing is lost once the client reads again")
		verif.Cover("client")
	}
}

// HStalledEnds: the session ends while so many messages are held up that everything is full.
//
//verif:props C15 C16 C17
//verif:bound one session, 100 or 150 messages (400 in thorough) towards the side that does not read; then the session is closed, either side hangs up or fails, or time passes; one schedule
//verif:cover closed sender-gone receiver-gone receiver-broken alive
//verif:opt sched=one replay=engine
func HStalledEnds() {
	n := 100 // the session takes all of them
	if verif.Bool("full") {
		n = pick(150, 400) // it does not, so it does not see what comes after them
	}
	r := session()
	st := startup("user", "u", "database", "app")
	var flood []byte
	for i := 0; i < n; i++ {
		flood = append(flood, frame('n')...)
	}
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	from, to := r.client, r.db
	if verif.Choice("who", 2) == 1 {
		from, to = r.db, r.client
	}
	to.stall = true
	from.send(flood)
	verif.Settle()
	switch end := []string{"closed", "sender-gone", "receiver-gone", "receiver-broken", "alive"}[verif.Choice("end", 5)]; end {
	case "closed":
		verif.Assert(r.s.Close() == nil, "closing reports nothing")
		verif.Settle()
		r.ended("after closing")
		verif.Cover(end)
	case "sender-gone":
		from.hangUp([]error{io.EOF, errReset}[verif.Choice("how", 2)])
		verif.Settle()
		if n == 100 {
			verif.Sleep()
			verif.Sleep()
			verif.Settle()
		}
		if !from.told { // the session is full, so it does not know yet
			verif.Sync(nil, func() { to.stall = false }, &to.out)
			verif.Settle()
			if to == r.db {
				flood = append(st, flood...)
			}
			verif.Assert(verif.EqBytes(to.out, flood), "nothing is lost once it is read")
		}
		r.ended("after the sender hung up")
		verif.Cover(end)
	case "receiver-gone":
		to.hangUp([]error{io.EOF, errReset}[verif.Choice("how", 2)])
		verif.Settle()
		verif.Sleep()
		verif.Sleep()
		verif.Settle()
		r.ended("after the side that does not read hung up")
		verif.Cover(end)
	case "receiver-broken":
		to.breakOff(errReset)
		verif.Settle()
		verif.Sleep()
		verif.Sleep()
		verif.Settle()
		r.ended("after the connection that is full failed")
		verif.Cover(end)
	default:
		verif.Sleep()
		verif.Sleep()
		verif.Assert(!r.done && from.closed+to.closed == 0, "the session stays up as long as both sides are connected")
		verif.Sync(nil, func() { to.stall = false }, &to.out)
		verif.Settle()
		if to == r.db {
			flood = append(st, flood...)
		}
		verif.Assert(verif.EqBytes(to.out, flood), "nothing is lost once it is read")
		verif.Cover(end)
	}
}

// HIdle: the sides pause for as long as they like.
//
//verif:props C14 C15
//verif:bound one session; two messages each way with pauses longer than any time limit before each; one schedule
//verif:cover end
//verif:opt sched=1 replay=engine
func HIdle() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	want := st
	var back []byte
	pause := func() {
		for i := 0; i < 4; i++ {
			verif.Sleep()
		}
	}
	for i := 0; i < 2; i++ {
		pause()
		verif.Assert(!r.done && r.client.closed+r.db.closed == 0, "the session stays up while both sides are connected")
		q, d := frame('Q', verif.Byte("q")|1, 0), frame('Z', verif.Byte("d"))
		r.client.send(q)
		want = append(want, q...)
		verif.Settle()
		verif.Assert(verif.EqBytes(r.db.out, want), "the database gets exactly what the client sent")
		pause()
		r.db.send(d)
		back = append(back, d...)
		verif.Settle()
		verif.Assert(verif.EqBytes(r.client.out, back), "the client gets exactly what the database sent")
	}
	verif.Cover("end")
}

// HLong: a long stream of messages in both directions.
//
//verif:props C14 C17
//verif:bound one session, 600 messages (2000 in thorough) each way with an arbitrary byte each, in bursts of 1 to 100; one schedule
//verif:cover end
//verif:opt sched=one replay=engine
func HLong() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	n := pick(600, 2000)
	want, back := st, []byte{}
	a, b := verif.Byte("a"), verif.Byte("b")
	for sent, burst := 0, 1; sent < n; sent, burst = sent+burst, burst*3%101 {
		var q, d []byte
		for i := 0; i < burst; i++ {
			q = append(q, frame('d', a^byte(i), byte(i))...)
			d = append(d, frame('Z', b^byte(i))...)
		}
		want, back = append(want, q...), append(back, d...)
		r.client.send(q)
		r.db.send(d)
		verif.Settle()
	}
	verif.Assert(verif.EqBytes(r.db.out, want), "the database gets exactly what the client sent")
	verif.Assert(verif.EqBytes(r.client.out, back), "the client gets exactly what the database sent")
	verif.Cover("end")
}

// HWide: long messages.
//
//verif:props C14 C29
//verif:bound one session; one message each way of 260, 5000, 70000 or 1048600 bytes, of a kind the proxy interprets or not, with an arbitrary first and last byte, arriving in one piece or in pieces, and a short one after it; one schedule
//verif:cover end
//verif:opt sched=one replay=engine
func HWide() {
	r := session()
	st := startup("user", "u", "database", "app")
	r.client.in = append([]byte{}, st...)
	r.start()
	verif.Settle()
	n := []int{260, 5000, 70000, 1<<20 + 24}[verif.Choice("size", 4)]
	limit := []int{0, 1 + n/7}[verif.Choice("pieces", 2)]
	r.client.limit, r.db.limit = limit, limit
	k := verif.Choice("kind", 2)
	body := make([]byte, n)
	body[0], body[n-1] = verif.Byte("first"), verif.Byte("last")
	q := frame([]byte{'d', 'P'}[k], body...)
	var d []byte
	if k == 0 {
		d = frame('d', body...)
	} else {
		row := append([]byte{0, 1, 0, byte((n - 6) >> 16), byte((n - 6) >> 8), byte(n - 6)}, body[6:]...)
		d = frame('D', row...)
	}
	q, d = append(q, frame('S')...), append(d, frame('Z', 'I')...)
	r.client.send(q)
	r.db.send(d)
	verif.Settle()
	verif.Assert(len(r.db.out) == len(st)+len(q) && verif.EqBytes(r.db.out[len(st):], q), "the database gets exactly what the client sent")
	verif.Assert(len(r.client.out) == len(d) && verif.EqBytes(r.client.out, d), "the client gets exactly what the database sent")
	verif.Assert(!r.done, "the session stays up")
	verif.Cover("end")
}
