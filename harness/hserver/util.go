// Package hserver holds the harnesses for the proxy server: sessions, the server itself, configuration and events.
package hserver

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/hired/gevulot/pkg/server"

	"vharness/models"
	"vharness/verif"
)

// pick chooses the quick or the thorough bound.
func pick(q, t int) int {
	if verif.Thorough() {
		return t
	}
	return q
}

// resetErr is a failed connection. Like the operating system's it calls itself temporary.
type resetErr struct{}

func (resetErr) Error() string   { return "connection reset by peer" }
func (resetErr) Timeout() bool   { return false }
func (resetErr) Temporary() bool { return true }

// closedErr is what operations on a closed connection return.
type closedErr struct{}

func (closedErr) Error() string   { return "read tcp 127.0.0.1:5: use of closed network connection" }
func (closedErr) Unwrap() error   { return net.ErrClosed }
func (closedErr) Timeout() bool   { return false }
func (closedErr) Temporary() bool { return false }

var (
	errClosed = error(closedErr{})
	errReset  = error(resetErr{})
	errDial   = errors.New("connection refused")
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// conn is a network connection whose peer is the harness. Every operation is one atomic step.
type conn struct {
	name   string
	in     []byte // what the peer has sent and the proxy has not read
	eof    error  // how the stream ends once in is empty; nil while the peer keeps it open
	out    []byte // what the proxy has written
	stall  bool   // the peer does not read: writes block
	room   int    // with stall, bytes that still fit
	broken error  // writes fail
	closed int
	reads  int
	shut   bool // the writing half is closed
	told   bool // the end of the stream has been read
	limit  int  // at most that many bytes a read; 0: no limit

	lateIn, lateOut deadline

	closeErr error
	onWrite  func() // runs after each write, as part of it
	onRead   func() // runs before each read
	onDone   func() // runs after each read, write or close
}

func (c *conn) Read(p []byte) (n int, err error) {
	if c.onRead != nil {
		c.onRead()
	}
	verif.Sync(func() bool { return len(p) == 0 || c.closed > 0 || c.lateIn.over || len(c.in) > 0 || c.eof != nil }, func() {
		c.reads++
		switch {
		case len(p) == 0:
		case c.closed > 0:
			err = errClosed
		case c.lateIn.over:
			err = os.ErrDeadlineExceeded
		case len(c.in) > 0:
			q := p
			if c.limit > 0 && len(q) > c.limit {
				q = q[:c.limit]
			}
			n = copy(q, c.in)
			c.in = c.in[n:]
		default:
			err = c.eof
			c.told = true
		}
	}, &c.in)
	if c.onDone != nil {
		c.onDone()
	}
	return n, err
}

func (c *conn) Write(p []byte) (n int, err error) {
	verif.Sync(func() bool {
		return c.closed > 0 || c.shut || c.lateOut.over || c.broken != nil || !c.stall || c.room >= len(p)
	}, func() {
		switch {
		case c.closed > 0 || c.shut:
			err = errClosed
		case c.lateOut.over:
			err = os.ErrDeadlineExceeded
		case c.broken != nil:
			err = c.broken
		default:
			c.out = append(c.out, p...)
			c.room -= len(p)
			n = len(p)
			if c.onWrite != nil {
				c.onWrite()
			}
		}
	}, &c.out)
	if c.onDone != nil {
		c.onDone()
	}
	return n, err
}

func (c *conn) Close() (err error) {
	verif.Sync(nil, func() {
		c.closed++
		err = c.closeErr
		if c.closed > 1 {
			err = errClosed
		}
	}, &c.in, &c.out)
	if c.onDone != nil {
		c.onDone()
	}
	return err
}

// CloseWrite closes the writing half, as TCP connections can. The connection stays open otherwise.
func (c *conn) CloseWrite() (err error) {
	verif.Sync(nil, func() {
		if c.closed > 0 {
			err = errClosed
		}
		c.shut = true
	}, &c.out)
	return err
}

// hangUp ends the stream from the peer after what it has sent.
func (c *conn) hangUp(err error) {
	verif.Sync(nil, func() { c.eof = err }, &c.in)
}

// send is the peer sending.
func (c *conn) send(b []byte) {
	verif.Sync(nil, func() { c.in = append(c.in, b...) }, &c.in)
}

// breakOff makes the connection fail in both directions.
func (c *conn) breakOff(err error) {
	verif.Sync(nil, func() { c.eof, c.broken = err, err }, &c.in, &c.out)
}

func (c *conn) LocalAddr() net.Addr  { return addr("local") }
func (c *conn) RemoteAddr() net.Addr { return addr(c.name) }

func (c *conn) SetDeadline(t time.Time) error {
	_ = c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *conn) SetReadDeadline(t time.Time) error  { return c.limitTime(&c.lateIn, &c.in, t) }
func (c *conn) SetWriteDeadline(t time.Time) error { return c.limitTime(&c.lateOut, &c.out, t) }

// deadline is a time limit for reading or writing.
type deadline struct {
	set  int
	over bool
}

func (c *conn) limitTime(d *deadline, key *[]byte, t time.Time) (err error) {
	n := 0
	now := time.Now()
	verif.Sync(nil, func() {
		if c.closed > 0 {
			err = errClosed
			return
		}
		d.set++
		n = d.set
		d.over = !t.IsZero() && !t.After(now)
	}, key)
	if err == nil && t.After(now) {
		time.AfterFunc(t.Sub(now), func() {
			verif.Sync(nil, func() { d.over = d.over || d.set == n }, key)
		})
	}
	return err
}

// store is a configuration that does not change, unless there are more to come.
type store struct {
	cfg  *server.Config
	err  error
	next []*server.Config // what later readers get
}

func (s *store) Get() (cfg *server.Config, err error) {
	verif.Sync(nil, func() {
		cfg, err = s.cfg, s.err
		if len(s.next) > 0 {
			s.cfg, s.next = s.next[0], s.next[1:]
		}
	}, &s.cfg)
	return cfg, err
}

func (s *store) Subscribe(ch chan<- *server.Config, checks ...server.ConfigChangedCheckFn) error {
	return s.err
}
func (s *store) Unsubscribe(ch chan<- *server.Config) {}

// network is what the proxy may connect to.
type network struct {
	db    *conn
	err   error
	hold  chan struct{} // when set, connecting takes until it is closed or the attempt is cancelled
	dials int
	addr  string
	began bool
}

// reach tells whether the network is one on which that address can be used.
func reach(network, addr string) error {
	six := len(addr) > 0 && addr[0] == '['
	four := len(addr) > 0 && addr[0] >= '0' && addr[0] <= '9'
	if network == "tcp" || (network == "tcp4" && !six) || (network == "tcp6" && !four) {
		return nil
	}
	return errDial
}

func (n *network) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	verif.Sync(nil, func() {
		n.dials++
		n.addr = addr
	}, &n.dials)
	if n.hold != nil {
		select {
		case <-n.hold:
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
	if n.err != nil {
		return nil, n.err
	}
	if err := reach(network, addr); err != nil {
		return nil, err
	}
	return n.db, nil
}

func (n *network) use() { models.DialHook = n.dial }

// frame builds a regular message.
func frame(t byte, body ...byte) []byte {
	n := len(body) + 4
	return append([]byte{t, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

// startup builds a startup message with protocol 3.0 and these parameters.
func startup(params ...string) []byte {
	b := []byte{0, 0, 0, 0, 0, 3, 0, 0}
	for _, p := range params {
		b = append(b, p...)
		b = append(b, 0)
	}
	b = append(b, 0)
	b[3] = byte(len(b))
	return b
}

// sslRequest asks for encryption.
func sslRequest() []byte { return []byte{0, 0, 0, 8, 4, 210, 22, 47} }

const dbURL = "postgres://u:p@db.example:6543/app"

// run is one session being served.
type run struct {
	s      *server.Session
	client *conn
	db     *conn
	net    *network
	err    error
	done   bool
}

// session prepares a session between a fresh client and a fresh database.
func session() *run {
	r := &run{client: &conn{name: "client"}, db: &conn{name: "db"}}
	r.net = &network{db: r.db}
	r.net.use()
	r.s = server.NewSession(r.client, &store{cfg: &server.Config{DatabaseURL: dbURL}})
	return r
}

// start serves the session in a goroutine.
func (r *run) start() {
	go func() {
		err := r.s.Start()
		verif.Sync(nil, func() { r.err, r.done = err, true }, &r.done)
	}()
}

func (r *run) ended(msg string) {
	verif.Assert(r.done, msg+": serving returned")
	verif.Assert(r.client.closed > 0, msg+": the client connection is closed")
	verif.Assert(r.net.dials == 0 || r.net.err != nil || r.db.closed > 0, msg+": the database connection is closed")
	verif.Assert(verif.Running() == 1, msg+": no goroutine remains")
}

var _ = io.EOF
