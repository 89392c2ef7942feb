package hpg

import (
	"errors"
	"io"
	"net"
	"time"

	"vharness/verif"
)

// pick chooses the quick or the thorough bound.
func pick(q, t int) int {
	if verif.Thorough() {
		return t
	}
	return q
}

// cstr draws a string without NUL bytes of at most max bytes.
func cstr(name string, max int) string {
	return cstrN(name, verif.Choice(name+".len", max+1))
}

func cstrN(name string, n int) string {
	s := verif.String(name, n)
	for i := 0; i < n; i++ {
		verif.Assume(s[i] != 0)
	}
	return s
}

// guard is a byte slice with spare capacity whose neighbourhood must stay untouched.
type guard struct {
	all, orig []byte
}

type guards []guard

const spare = 6

// bytes draws n arbitrary bytes that are followed by spare capacity holding sentinels.
func (g *guards) bytes(name string, n int) []byte {
	all := make([]byte, n+spare)
	copy(all, verif.Bytes(name, n))
	for i := 0; i < spare; i++ {
		all[n+i] = 0xA5
	}
	*g = append(*g, guard{all, append([]byte(nil), all...)})
	return all[:n]
}

// intact reports whether no guarded byte has changed.
func (g guards) intact() bool {
	ok := true
	for _, x := range g {
		ok = verif.And(ok, verif.EqBytes(x.all, x.orig))
	}
	return ok
}

var errNet = errors.New("network failure")

// netTimeout is a time limit that was exceeded: a failure that goes away.
type netTimeout struct{}

func (netTimeout) Error() string   { return "i/o timeout" }
func (netTimeout) Timeout() bool   { return true }
func (netTimeout) Temporary() bool { return true }

// failures are the ways a connection can fail.
var failures = []error{errNet, netTimeout{}, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, net.ErrClosed, &net.OpError{Op: "write", Net: "tcp", Err: errNet}}

// fakeConn is a scripted network connection.
type fakeConn struct {
	in      []byte // what the peer has sent
	pos     int
	chunked bool   // reads return arbitrary pieces
	splits  int    // how many reads may still be cut short
	eofWith bool   // the last piece comes together with the end of the stream
	endErr  error  // how the stream ends; nil means io.EOF
	more    []byte // what can be read after the end was reported

	out      []byte // what was written
	failAt   int    // writes beyond this many bytes fail; negative: never
	failErr  error  // how they fail; nil means errNet
	once     bool   // only the first such write fails
	late     int    // how many bytes more the failing write writes
	closed   int
	closeErr error
	writes   int
}

func (c *fakeConn) end() error {
	if c.endErr != nil {
		return c.endErr
	}
	return io.EOF
}

func (c *fakeConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	rest := len(c.in) - c.pos
	if rest == 0 {
		c.in = append(c.in, c.more...)
		c.more = nil
		return 0, c.end()
	}
	n := rest
	if n > len(p) {
		n = len(p)
	}
	if c.chunked && c.splits > 0 && n > 1 {
		c.splits--
		n = 1 + verif.Choice("chunk", n)
	}
	copy(p, c.in[c.pos:c.pos+n])
	c.pos += n
	if c.eofWith && c.pos == len(c.in) {
		return n, c.end()
	}
	return n, nil
}

func (c *fakeConn) Write(p []byte) (int, error) {
	c.writes++
	if c.failAt >= 0 && len(c.out)+len(p) > c.failAt {
		n := c.failAt - len(c.out) + c.late
		c.out = append(c.out, p[:n]...)
		if c.once {
			c.failAt = -1
		}
		if c.failErr != nil {
			return n, c.failErr
		}
		return n, errNet
	}
	c.out = append(c.out, p...)
	return len(p), nil
}

func (c *fakeConn) Close() error                     { c.closed++; return c.closeErr }
func (c *fakeConn) LocalAddr() net.Addr              { return nil }
func (c *fakeConn) RemoteAddr() net.Addr             { return nil }
func (c *fakeConn) SetDeadline(time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(time.Time) error { return nil }

func be32(v int32) []byte {
	u := uint32(v)
	return []byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), byte(u)}
}

func be16(v int16) []byte {
	u := uint16(v)
	return []byte{byte(u >> 8), byte(u)}
}

// readFailures are the ways reading can fail, besides the end of the stream.
var readFailures = []error{errNet, netTimeout{}, io.ErrClosedPipe, io.ErrNoProgress, net.ErrClosed, io.ErrShortBuffer,
	&net.OpError{Op: "read", Net: "tcp", Err: errNet}}
