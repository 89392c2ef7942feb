package hserver

import (
	"context"
	"errors"
	"fmt"
	"net"

	"github.com/hired/gevulot/pkg/server"

	"vharness/models"
	"vharness/verif"
)

// tempErr is a temporary failure to accept.
type tempErr struct{}

func (tempErr) Error() string   { return "too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// lateErr is a failure that does not call itself temporary.
type lateErr struct{}

func (lateErr) Error() string   { return "time limit exceeded" }
func (lateErr) Timeout() bool   { return true }
func (lateErr) Temporary() bool { return false }

var errBroken = errors.New("listener broken")

// listener accepts what the harness queues. Every operation is one atomic step.
type listener struct {
	addr     string
	queue    []net.Conn // connections under way
	errs     []error    // errs[i], unless nil, is what the i-th call to Accept returns
	calls    int
	taken    []*conn
	closed   int
	closeErr error
	over     *bool // set once no more calls may come
	late     bool  // one came
}

func (l *listener) Accept() (c net.Conn, err error) {
	verif.Sync(func() bool {
		return l.closed > 0 || len(l.queue) > 0 || (l.calls < len(l.errs) && l.errs[l.calls] != nil)
	}, func() {
		i := l.calls
		l.calls++
		l.late = l.late || (l.over != nil && *l.over)
		switch {
		case l.closed > 0:
			err = errClosed
		case i < len(l.errs) && l.errs[i] != nil:
			err = l.errs[i]
		default:
			c, l.queue = l.queue[0], l.queue[1:]
			l.taken = append(l.taken, c.(*conn))
		}
	}, l.keys()...)
	return c, err
}

func (l *listener) keys() []interface{} {
	if l.over == nil {
		return []interface{}{&l.queue}
	}
	return []interface{}{&l.queue, l.over}
}

func (l *listener) Close() (err error) {
	verif.Sync(nil, func() {
		l.closed++
		err = l.closeErr
		if l.closed > 1 {
			err = errClosed
		}
	}, &l.queue)
	return err
}

func (l *listener) Addr() net.Addr { return addr(l.addr) }

func (l *listener) connect(c net.Conn) {
	verif.Sync(nil, func() { l.queue = append(l.queue, c) }, &l.queue)
}

// feed is a configuration store whose configurations the harness issues one by one.
type feed struct {
	store
	list []*server.Config
	subs int
	off  bool
	stop chan struct{}
	gone chan struct{}
	gate chan struct{} // one token per configuration
	fail error
	skip int // configurations that were filtered out
}

func newFeed(l ...*server.Config) *feed {
	f := &feed{list: l, stop: make(chan struct{}), gone: make(chan struct{}), gate: make(chan struct{}, len(l)+1)}
	if len(l) > 0 {
		f.cfg = l[0]
	}
	return f
}

// issue makes the next configuration known.
func (f *feed) issue() { f.gate <- struct{}{} }

func (f *feed) Subscribe(ch chan<- *server.Config, checks ...server.ConfigChangedCheckFn) error {
	if f.fail != nil {
		return f.fail
	}
	go func() {
		defer close(f.gone)
		var old *server.Config
		for _, c := range f.list {
			select {
			case <-f.gate:
			case <-f.stop:
				return
			}
			ok := len(checks) == 0
			for _, k := range checks {
				ok = ok || k(old, c)
			}
			old = c
			if !ok {
				continue
			}
			select {
			case ch <- c:
			case <-f.stop:
				return
			}
		}
		<-f.stop
	}()
	return nil
}

func (f *feed) Unsubscribe(ch chan<- *server.Config) {
	close(f.stop)
	<-f.gone
}

// host is what the server may listen on.
type host struct {
	made []*listener
	bad  string // an address that cannot be bound
	fail error  // how closing a listener fails
	over *bool
}

func (h *host) listen(network, a string) (l net.Listener, err error) {
	verif.Sync(nil, func() {
		if a == h.bad || reach(network, a) != nil {
			err = errDial
			return
		}
		for _, o := range h.made {
			if o.addr == a && o.closed == 0 && a != "any" {
				err = errors.New("address already in use")
				return
			}
		}
		n := &listener{addr: a, closeErr: h.fail, over: h.over}
		h.made = append(h.made, n)
		l = n
	}, &h.made)
	return l, err
}

// dbs gives every session a database connection of its own.
type dbs struct {
	conns []*conn
	addrs []string
}

func (d *dbs) dial(ctx context.Context, _, a string) (c net.Conn, err error) {
	verif.Sync(nil, func() {
		n := &conn{name: "db"}
		d.conns = append(d.conns, n)
		d.addrs = append(d.addrs, a)
		c = n
	}, &d.conns)
	return c, err
}

func (d *dbs) use() { models.DialHook = d.dial }

func clean(msg string, srv *server.Server, d *dbs, ls []*listener, conns []*conn) {
	for _, l := range ls {
		verif.Assert(l.closed > 0, msg+": the listeners are closed")
	}
	for _, c := range conns {
		verif.Assert(c.closed > 0, msg+": every accepted connection is closed")
	}
	for _, c := range d.conns {
		verif.Assert(c.closed > 0, msg+": every database connection is closed")
	}
	verif.Assert(verif.FieldLen(srv, "sessions") <= 0, msg+": no session is registered")
	verif.Sleep()
	verif.Settle()
	verif.Assert(verif.Running() == 1, msg+": no goroutine remains")
	for _, l := range ls {
		verif.Assert(!l.late, msg+": nothing the server was running goes on")
	}
}

// HServerClose: the server is closed while it starts serving, accepts, registers or runs a session.
//
//verif:props C18 C28
//verif:bound one listener being served, one connection that arrives, sends a startup message or not; closed once (twice concurrently in thorough) at any moment; every schedule
//verif:cover refused accepted served not-accepted
//verif:opt sched=1 replay=engine
func HServerClose() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	l := &listener{}
	c := &conn{name: "client"}
	speaks := verif.Choice("speaks", 2) == 1
	if speaks {
		c.in = startup("user", "u", "database", "app")
	}
	l.closeErr = []error{nil, errReset}[verif.Choice("close", 2)]
	l.connect(c)
	var err error
	go func() { err = srv.Serve(l) }()
	if verif.Thorough() {
		n := 0
		go func() {
			if e := srv.Close(); e != nil {
				verif.Assert(e == l.closeErr, "closing reports the listener's error")
				verif.Sync(nil, func() { n++ }, &n)
			}
		}()
		if e := srv.Close(); e != nil {
			verif.Assert(e == l.closeErr, "closing reports the listener's error")
			verif.Sync(nil, func() { n++ }, &n)
		}
		verif.Settle()
		verif.Assert(n <= 1, "only one call reports it")
	} else {
		e := srv.Close()
		verif.Assert(e == nil || e == l.closeErr, "closing reports the listener's error")
		if l.calls > 0 && l.closeErr != nil {
			verif.Assert(e != nil, "closing reports that the listener could not be closed")
		}
	}
	verif.Settle()
	verif.Assert(err != nil, "serving returned")
	verif.Assert(srv.Close() == nil, "closing again does nothing")
	clean("after closing", srv, d, []*listener{l}, l.taken)
	switch {
	case l.calls == 0:
		verif.Assert(err == server.ErrServerClosed, "serving on a closed server is refused")
		verif.Cover("refused")
	case len(l.taken) > 0:
		verif.Cover("accepted")
		if len(d.conns) > 0 {
			verif.Cover("served")
		}
	default:
		verif.Cover("not-accepted")
	}
	// a closed server takes nothing more
	l2 := &listener{}
	verif.Assert(srv.Serve(l2) == server.ErrServerClosed && l2.calls == 0, "serving on a closed server is refused")
	verif.Assert(srv.Start() == server.ErrServerClosed, "starting a closed server is refused")
	c2 := &conn{name: "late"}
	verif.Assert(srv.ServeConn(c2) == server.ErrServerClosed, "serving a connection on a closed server is refused")
	verif.Assert(c2.reads == 0, "a refused connection is not read")
	clean("after refusing", srv, d, []*listener{l, l2}, append(l.taken, c2))
}

// HLifecycle: what a closed or started server refuses.
//
//verif:props C18 C19
//verif:bound a server that is fresh, started, serving a listener or both, then closed; one schedule
//verif:cover end
//verif:opt sched=one replay=engine
func HLifecycle() {
	d := &dbs{}
	d.use()
	h := &host{}
	models.ListenHook = h.listen
	f := newFeed(&server.Config{Listen: "one", DatabaseURL: dbURL})
	srv := server.NewServer(f)
	var started, served error
	starts, serves := false, false
	var ls []*listener
	if verif.Choice("start", 2) == 1 {
		starts = true
		go func() {
			e := srv.Start()
			verif.Sync(nil, func() { started = e }, &started)
		}()
		verif.Settle()
		if verif.Choice("known", 2) == 1 {
			f.issue()
			verif.Settle()
			verif.Assert(len(h.made) == 1, "the configured address is listened on")
		}
		for i := 0; i < 2; i++ {
			verif.Assert(srv.Start() == server.ErrServerAlreadyStarted, "starting a started server is refused")
		}
		verif.Assert(started == nil, "the server goes on")
	}
	if verif.Choice("serve", 2) == 1 {
		serves = true
		l := &listener{}
		ls = append(ls, l)
		go func() {
			e := srv.Serve(l)
			verif.Sync(nil, func() { served = e }, &served)
		}()
		verif.Settle()
		verif.Assert(served == nil && l.closed == 0, "the listener is served")
	}
	verif.Assert(srv.Close() == nil, "closing reports nothing")
	verif.Settle()
	verif.Assert(!starts || started == server.ErrServerClosed, "Start reports that the server is closed")
	verif.Assert(!serves || served != nil, "serving ended with an error")
	for i := 0; i < 2; i++ {
		l, c := &listener{}, &conn{name: "late"}
		verif.Assert(srv.Serve(l) == server.ErrServerClosed && l.calls == 0, "serving on a closed server is refused")
		verif.Assert(srv.Start() == server.ErrServerClosed, "starting a closed server is refused")
		verif.Assert(srv.ServeConn(c) == server.ErrServerClosed && c.reads == 0, "serving a connection on a closed server is refused")
		verif.Assert(srv.Close() == nil, "closing again does nothing")
		clean("after refusing", srv, d, append(append([]*listener{l}, h.made...), ls...), []*conn{c})
	}
	verif.Cover("end")
}

// HServerWaits: closing returns only once what the server was running is over.
//
//verif:props C18
//verif:bound one established session, being accepted and served by the server; closed; closing the listener and the connections works or fails; every schedule
//verif:cover end
//verif:opt sched=1 replay=engine
func HServerWaits() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	l := &listener{}
	c := &conn{name: "client", in: startup("user", "u", "database", "app")}
	l.connect(c)
	go func() { _ = srv.Serve(l) }()
	verif.Settle()
	verif.Assert(len(l.taken) == 1 && len(d.conns) == 1, "the connection is served")
	over, late := false, false
	spy := func() {
		verif.Sync(nil, func() { late = late || over }, &over)
	}
	c.onDone, d.conns[0].onDone = spy, spy
	if verif.Choice("close", 2) == 1 {
		l.closeErr, c.closeErr, d.conns[0].closeErr = errReset, errReset, errReset
	}
	_ = srv.Close()
	verif.Sync(nil, func() { over = true }, &over)
	verif.Settle()
	verif.Assert(!late, "nothing the server was running goes on after closing returned")
	clean("after closing", srv, d, []*listener{l}, l.taken)
	verif.Cover("end")
}

// HCloseSessions: closing some of the connections fails while the server is closed.
//
//verif:props C18
//verif:bound two established sessions (three in thorough); closing the listener, and either connection of any session, works or fails; one schedule
//verif:cover works fails
//verif:opt sched=one replay=engine
func HCloseSessions() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	l := &listener{}
	if verif.Choice("listener", 2) == 1 {
		l.closeErr = errReset
	}
	n := pick(2, 3)
	var cs []*conn
	for i := 0; i < n; i++ {
		c := &conn{name: fmt.Sprint("client", i), in: startup("user", "u", "database", "app")}
		cs = append(cs, c)
		l.connect(c)
	}
	go func() { _ = srv.Serve(l) }()
	verif.Settle()
	verif.Assert(len(l.taken) == n && len(d.conns) == n, "the connections are served")
	for i := range cs {
		switch verif.Choice("session", 3) {
		case 1:
			cs[i].closeErr = errDial
		case 2:
			d.conns[i].closeErr = errDial
		}
	}
	err := srv.Close()
	if l.closeErr != nil {
		verif.Assert(err == l.closeErr, "closing reports the listener's error")
		verif.Cover("fails")
	} else {
		verif.Assert(err == nil, "closing reports nothing but the listener's error")
		verif.Cover("works")
	}
	for i := range cs {
		verif.Assert(cs[i].closed > 0 && d.conns[i].closed > 0, "every session is closed when closing returns")
	}
	verif.Settle()
	clean("after closing", srv, d, []*listener{l}, cs)
}

// HServeConnClose: a connection handed to the server directly, while it is being closed.
//
//verif:props C18 C28 C16
//verif:bound one connection that has sent a startup message or not; closed at any moment; every schedule
//verif:cover refused served
//verif:opt sched=1 replay=engine
func HServeConnClose() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	c := &conn{name: "client"}
	if verif.Choice("speaks", 2) == 1 {
		c.in = startup("user", "u", "database", "app")
	}
	var err error
	done := false
	go func() {
		e := srv.ServeConn(c)
		verif.Sync(nil, func() { err, done = e, true }, &done)
	}()
	verif.Assert(srv.Close() == nil, "closing a server without listener reports nothing")
	verif.Settle()
	verif.Assert(done, "serving returned")
	clean("after closing", srv, d, nil, []*conn{c})
	if c.reads == 0 {
		verif.Assert(err == server.ErrServerClosed || err == server.ErrSessionClosed, "a refusal is reported")
		verif.Cover("refused")
	} else {
		verif.Cover("served")
	}
}

// HServeTwo: the listener is replaced, while the server is being closed.
//
//verif:props C18 C28
//verif:bound two listeners served at once, a connection on each (none in quick); closed at any moment; every schedule
//verif:cover end replaced
//verif:opt sched=1 replay=engine
func HServeTwo() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	l := []*listener{{addr: "1"}, {addr: "2"}}
	if verif.Thorough() {
		l[1].connect(&conn{name: "client"})
	}
	n := 0
	for _, x := range l {
		x := x
		go func() {
			err := srv.Serve(x)
			verif.Assert(err != nil, "serving ends with an error")
			verif.Sync(nil, func() { n++ }, &n)
		}()
	}
	if verif.Choice("wait", 2) == 1 {
		verif.Settle()
		verif.Assert(l[0].closed+l[1].closed == 1 && n == 1, "the earlier listener is closed")
		verif.Cover("replaced")
	}
	_ = srv.Close()
	verif.Settle()
	verif.Assert(n == 2, "serving returned")
	clean("after closing", srv, d, l, append(l[0].taken, l[1].taken...))
	verif.Cover("end")
}

// HAccept: accepting fails now and then, connections keep coming, sessions fail.
//
//verif:props C20
//verif:bound three connections with different startup messages, one of them unacceptable or none; up to two temporary errors, plain or wrapped, then a permanent one (of two kinds) or closing; every schedule
//verif:cover permanent closed
//verif:opt sched=1 replay=engine
func HAccept() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	l := &listener{}
	final := []error{nil, errBroken, lateErr{}}[verif.Choice("permanent", 3)]
	perm := final != nil
	nt := verif.Choice("temporary", 3)
	var cs []*conn
	bad := verif.Choice("bad", 4)
	nc := pick(2, 3)
	for i := 0; i < nc; i++ {
		c := &conn{name: fmt.Sprint("client", i)}
		c.in = startup("user", string(rune('a'+i)), "database", "app")
		if i == bad {
			c.in = startup("user", string(rune('a'+i)), "database", "other")
		}
		cs = append(cs, c)
		l.connect(c)
	}
	l.errs = make([]error, nc+nt+1)
	for i := 0; i < nt; i++ {
		l.errs[i*2] = tempErr{}
		if i == 1 {
			l.errs[i*2] = fmt.Errorf("accept: %w", tempErr{})
		}
	}
	if perm {
		l.errs[nc+nt] = final
	}
	var err error
	done := false
	go func() {
		e := srv.Serve(l)
		verif.Sync(nil, func() { err, done = e, true }, &done)
	}()
	verif.Settle()
	verif.Assert(len(l.taken) == nc, "every connection is accepted in spite of temporary errors")
	if perm {
		verif.Assert(done && err == final, "a permanent error ends serving and is returned")
	} else {
		verif.Assert(!done, "serving goes on")
	}
	// every acceptable client has one database connection with its own startup message
	good := 0
	for i, c := range cs {
		n := 0
		for _, x := range d.conns {
			if verif.EqBytes(x.out, startup("user", string(rune('a'+i)), "database", "app")) {
				n++
			}
		}
		if i == bad {
			verif.Assert(n == 0 && c.closed > 0, "the unacceptable session ended")
		} else {
			verif.Assert(n == 1 && c.closed == 0, "each connection is served by one session")
			good++
		}
	}
	verif.Assert(len(d.conns) == good, "each connection is served once")
	k := verif.FieldLen(srv, "sessions")
	verif.Assert(k == -1 || k == good, "the sessions that run are listed as active")
	// one client leaves
	for i, c := range cs {
		if i != bad {
			c.hangUp(errReset)
			good--
			break
		}
	}
	verif.Settle()
	for i := 0; i < 2; i++ {
		verif.Sleep()
	}
	k = verif.FieldLen(srv, "sessions")
	verif.Assert(k == -1 || k == good, "a session that ended is not listed")
	n := 0
	for i, c := range cs {
		if i != bad && c.closed == 0 {
			n++
		}
	}
	verif.Assert(n == good, "the other sessions go on")
	_ = srv.Close()
	verif.Settle()
	clean("after closing", srv, d, []*listener{l}, cs)
	verif.Assert(done && err != nil, "serving returned")
	if perm {
		verif.Cover("permanent")
	} else {
		verif.Cover("closed")
	}
}

// HAcceptMany: many connections and many temporary errors.
//
//verif:props C20 C18
//verif:bound 100 connections, served at once; 50 temporary errors in a row between them; one schedule
//verif:cover end
//verif:opt sched=one replay=engine
func HAcceptMany() {
	d := &dbs{}
	d.use()
	srv := server.NewServer(&store{cfg: &server.Config{DatabaseURL: dbURL}})
	l := &listener{}
	const n = 100
	for i := 0; i < 50; i++ {
		l.errs = append(l.errs, tempErr{})
		if i == 25 {
			l.errs = append(l.errs, nil)
		}
	}
	var cs []*conn
	for i := 0; i < n; i++ {
		c := &conn{name: "client", in: startup("user", "u", "database", "app")}
		cs = append(cs, c)
		l.connect(c)
	}
	done := false
	go func() {
		_ = srv.Serve(l)
		verif.Sync(nil, func() { done = true }, &done)
	}()
	verif.Settle()
	for i := 0; i < 50 && len(l.taken) < n; i++ {
		verif.Sleep() // the server may wait before it accepts again
		verif.Settle()
	}
	verif.Assert(!done && len(l.taken) == n, "every connection is accepted in spite of temporary errors")
	verif.Assert(len(d.conns) == n, "each connection is served once")
	for _, c := range cs {
		verif.Assert(c.closed == 0 && len(c.in) == 0, "each connection is served")
	}
	k := verif.FieldLen(srv, "sessions")
	verif.Assert(k == -1 || k == n, "the sessions that run are listed as active")
	for i := 0; i < n; i += 2 {
		cs[i].hangUp(errReset)
	}
	verif.Settle()
	verif.Sleep()
	verif.Sleep()
	verif.Settle()
	k = verif.FieldLen(srv, "sessions")
	verif.Assert(k == -1 || k == n/2, "sessions that ended are not listed")
	_ = srv.Close()
	verif.Settle()
	clean("after closing", srv, d, []*listener{l}, cs)
	verif.Cover("end")
}

// HStart: the configured address changes; each change settles before the next.
//
//verif:props C19 C18
//verif:bound three configurations (four in thorough) with arbitrary addresses among two that can be bound, one that can be bound again and again and one that cannot, closing a listener works or fails; then closing the server; every schedule
//verif:cover end moved kept
//verif:opt sched=1 replay=engine
func HStart() {
	d := &dbs{}
	d.use()
	h := &host{bad: "bad"}
	if verif.Choice("close-fails", 2) == 1 {
		h.fail = errReset
	}
	models.ListenHook = h.listen
	var l []*server.Config
	for i := 0; i < pick(3, 4); i++ {
		l = append(l, &server.Config{Listen: []string{"[::1]:1", "0.0.0.0:2", "any", "bad"}[verif.Choice("listen", 4)], DatabaseURL: dbURL + []string{"", "", "?application_name=x"}[i%3]})
	}
	f := newFeed(l...)
	srv := server.NewServer(f)
	var err error
	done := false
	go func() {
		e := srv.Start()
		verif.Sync(nil, func() { err, done = e, true }, &done)
	}()
	var cur *listener
	last := ""
	for i, c := range l {
		f.issue()
		verif.Settle()
		made := len(h.made)
		if c.Listen != "bad" && (cur == nil || c.Listen != cur.addr) && c.Listen != last {
			verif.Assert(made > 0 && h.made[made-1] != cur, "a new address is listened on")
			if cur != nil {
				verif.Assert(cur.closed > 0, "the old listener is closed")
				verif.Cover("moved")
			}
			cur = h.made[made-1]
			verif.Assert(cur.addr == c.Listen, "the configured address is listened on")
		} else {
			if cur != nil && cur.addr == "any" && last == "bad" && c.Listen == "any" && h.made[made-1] != cur {
				verif.Assert(cur.closed > 0, "the old listener is closed")
				cur = h.made[made-1] // it is listened on anew
			}
			verif.Cover("kept")
		}
		last = c.Listen
		verif.Assert(cur == nil || (cur.closed == 0 && cur == h.made[made-1]), "the listener is left alone otherwise")
		verif.Assert(!done, "the server goes on")
		if cur != nil {
			x := &conn{name: fmt.Sprint("client", i), in: startup("user", "u", "database", "app")}
			before := len(d.conns)
			cur.connect(x)
			verif.Settle()
			verif.Assert(len(d.conns) == before+1, "the listener is served")
			x.hangUp(errReset)
			verif.Settle()
		}
	}
	verif.Assert(srv.Start() == server.ErrServerAlreadyStarted, "starting twice is refused")
	if h.fail != nil && cur != nil {
		verif.Assert(srv.Close() == errReset, "closing reports the listener's error")
	} else {
		verif.Assert(srv.Close() == nil, "closing reports nothing")
	}
	for i := range h.made {
		verif.Assert(h.made[i].closed > 0, "the listeners are closed when closing returns")
	}
	verif.Settle()
	verif.Assert(done && err == server.ErrServerClosed, "Start reports that the server is closed")
	var cs []*conn
	for _, x := range h.made {
		cs = append(cs, x.taken...)
	}
	clean("after closing", srv, d, h.made, cs)
	verif.Assert(srv.Start() == server.ErrServerClosed, "starting a closed server is refused")
	verif.Cover("end")
}

// HStartBusy: configurations follow each other at once while the server may be closed at any moment.
//
//verif:props C19 C18 C28
//verif:bound two configurations with different addresses (three in thorough) at any moment, closing at any moment or afterwards; every schedule
//verif:cover closed-early served
//verif:opt sched=1 replay=engine
func HStartBusy() {
	d := &dbs{}
	d.use()
	over := false
	h := &host{bad: "bad", over: &over}
	models.ListenHook = h.listen
	var l []*server.Config
	for i := 0; i < pick(2, 3); i++ {
		l = append(l, &server.Config{Listen: []string{"one", "two", "three"}[i], DatabaseURL: dbURL})
	}
	f := newFeed(l...)
	srv := server.NewServer(f)
	var err error
	done := false
	go func() {
		e := srv.Start()
		verif.Sync(nil, func() { err, done = e, true }, &done)
	}()
	for range l {
		f.issue()
	}
	if verif.Choice("late", 2) == 1 {
		verif.Settle()
		n := len(h.made)
		verif.Assert(n == len(l), "every address is listened on")
		for i, x := range h.made {
			if i == n-1 {
				verif.Assert(x.closed == 0, "the last configured address is served")
			} else {
				verif.Assert(x.closed > 0, "the old listeners are closed")
			}
		}
		verif.Cover("served")
	}
	_ = srv.Close()
	verif.Sync(nil, func() { over = true }, &over)
	verif.Settle()
	verif.Assert(done && err == server.ErrServerClosed, "Start reports that the server is closed")
	clean("after closing", srv, d, h.made, nil)
	if len(h.made) < len(l) {
		verif.Cover("closed-early")
	}
}

// HStartTwice: starting and closing concurrently.
//
//verif:props C19 C28
//verif:bound two concurrent starts and closing at any moment; subscribing to configurations may fail; every schedule
//verif:cover closed failed
//verif:opt sched=1 replay=engine
func HStartTwice() {
	d := &dbs{}
	d.use()
	h := &host{}
	models.ListenHook = h.listen
	f := newFeed(&server.Config{Listen: "one", DatabaseURL: dbURL})
	if verif.Choice("fail", 2) == 1 {
		f.fail = errReset
	}
	srv := server.NewServer(f)
	var errs [2]error
	n := 0
	for i := range errs {
		i := i
		go func() {
			e := srv.Start()
			verif.Sync(nil, func() { errs[i] = e; n++ }, &n)
		}()
	}
	f.issue()
	if f.fail == nil {
		_ = srv.Close()
	}
	verif.Settle()
	verif.Assert(n == 2, "both calls returned")
	for i := range errs {
		if f.fail != nil {
			verif.Assert((errs[i] == errReset && errs[1-i] == server.ErrServerAlreadyStarted) || errs[i] == server.ErrServerAlreadyStarted, "one start fails, the other one is refused")
		} else {
			verif.Assert(errs[i] == server.ErrServerClosed || (errs[i] == server.ErrServerAlreadyStarted && errs[1-i] == server.ErrServerClosed), "at most one start runs")
		}
	}
	if f.fail != nil {
		verif.Assert(errs[0] == errReset || errs[1] == errReset, "the failure to subscribe is reported")
		verif.Assert(len(h.made) == 0, "nothing is listened on")
		_ = srv.Close()
		verif.Cover("failed")
	} else {
		verif.Cover("closed")
	}
	clean("after closing", srv, d, h.made, nil)
}

// HRun: the whole server, with configurations arriving on the channel the command line feeds.
//
//verif:props C13 C19 C22
//verif:bound two configurations, each with an arbitrary one of two addresses and databases; a client connects after each; the source ends or goes on; every schedule of the server start, one schedule of the rest
//verif:cover moved same
//verif:opt sched=1 replay=engine
func HRun() {
	d := &dbs{}
	d.use()
	h := &host{bad: "bad"}
	models.ListenHook = h.listen
	urls := []string{"postgres://u@one/x", "postgres://u@two:7/y"}
	addrs := []string{"one:5432", "two:7"}
	names := []string{"x", "y"}
	ch := make(chan *server.Config, 1)
	done := false
	go func() {
		_ = server.Run(ch)
		verif.Sync(nil, func() { done = true }, &done)
	}()
	verif.Settle()
	verif.Assert(len(h.made) == 0, "nothing is listened on without configuration")
	last := ""
	var cs []*conn
	for i := 0; i < 2; i++ {
		k, a := verif.Choice("db", 2), []string{"p", "q"}[verif.Choice("listen", 2)]
		ch <- &server.Config{Listen: a, DatabaseURL: urls[k]}
		verif.Settle()
		l := h.made[len(h.made)-1]
		verif.Assert(l.addr == a && l.closed == 0, "the configured address is listened on")
		if i == 1 {
			if last != a {
				verif.Assert(h.made[0].closed > 0, "the old listener is closed")
				verif.Cover("moved")
			} else {
				verif.Assert(len(h.made) == 1, "the listener is left alone")
				verif.Cover("same")
			}
		}
		last = a
		c := &conn{name: "client", in: startup("user", "u", "database", names[k])}
		cs = append(cs, c)
		l.connect(c)
		verif.Settle()
		verif.Assert(len(d.conns) == i+1 && d.addrs[i] == addrs[k], "the session connects to the database configured when it starts")
		verif.Assert(verif.EqBytes(d.conns[i].out, startup("user", "u", "database", names[k])), "the database receives the startup message")
	}
	for _, c := range cs {
		verif.Assert(c.closed == 0, "sessions outlive configuration changes")
	}
	verif.Assert(!done, "the server goes on")
}
