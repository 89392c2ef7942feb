package hpg

import (
	"errors"
	"io"

	"github.com/hired/gevulot/pkg/pg"

	"vharness/verif"
)

func cover(kind int, what string) { verif.Cover(kindNames[kind] + "/" + what) }

// smallShape bounds messages in the per-kind harnesses.
func smallShape(kind int) shape {
	switch kind {
	case kDataRow, kError, kNotice, kNegotiate:
		return shape{str: pick(2, 3), elems: pick(2, 3)}
	case kStartup:
		return shape{str: pick(2, 3), elems: 2}
	case kRowDescription:
		return shape{str: pick(2, 4), elems: pick(2, 3)}
	}
	return shape{str: pick(5, 12), elems: 3}
}

// roundTrip checks decode(encode(m)) == m and that building frames is pure.
func roundTrip(kind int, m pg.Message, g *guards) {
	want := encode(kind, m)
	f := m.Frame()
	f2 := m.Frame()
	if kind == kStartup {
		verif.Assert(f.MessageType() == 0, "a startup frame has no type")
		verif.Assert(verif.EqBytes(f.Bytes(), append(be32(int32(len(want)+4)), want...)), "frame is length and body")
	} else {
		typ := kindTypes[kind]
		if kind == kGeneric {
			typ = m.(*pg.GenericMessage).Type
		}
		verif.Assert(f.MessageType() == typ, "frame carries the message's type")
		verif.Assert(verif.EqBytes(f.Bytes(), append(append([]byte{typ}, be32(int32(len(want)+4))...), want...)), "frame is type, length and body")
	}
	verif.Assert(verif.EqBytes(f.MessageBody(), want), "frame carries the message's fields in protocol layout")
	verif.Assert(verif.EqBytes(f.Bytes(), f2.Bytes()), "building twice gives equal frames")
	verif.Assert(verif.EqBytes(encode(kind, m), want), "building a frame does not alter the message")
	verif.Assert(g.intact(), "building a frame does not touch the message's bytes or what follows them")
	got, err := parse(kind, f)
	verif.Assert(err == nil, "an encoded message is accepted")
	verif.Assert(same(m, got), "decoding an encoded message returns the same message")
	if st, ok := m.(*pg.StartupMessage); ok {
		verif.Assert(len(st.Parameters) > 0 || len(f.Bytes()) == 8, "a startup message without parameters is just the version")
	}
	cover(kind, "round-trip")
}

// HRoundTrip: every kind, small messages with arbitrary contents.
//
//verif:props C01 C06
//verif:bound every message kind; strings of 0..2 (3) arbitrary non-zero bytes (5 (12) for single-string kinds), 0..2 (3) elements, every integer value, nil and empty byte fields
//verif:cover AuthCleartext/round-trip AuthGSS/round-trip AuthGSSContinue/round-trip AuthKerberos/round-trip AuthMD5/round-trip AuthOk/round-trip AuthSCM/round-trip AuthSSPI/round-trip BackendKeyData/round-trip CommandComplete/round-trip DataRow/round-trip EmptyQuery/round-trip Error/round-trip Generic/round-trip Negotiate/round-trip Notice/round-trip ParameterStatus/round-trip Password/round-trip Query/round-trip ReadyForQuery/round-trip RowDescription/round-trip Startup/round-trip Terminate/round-trip
func HRoundTrip() {
	kind := verif.Choice("kind", nKinds)
	var g guards
	m := anyMessage(kind, &g, smallShape(kind))
	roundTrip(kind, m, &g)
}

// HRoundTripLarge: long strings and many elements, with arbitrary bytes inside.
//
//verif:props C01 C02
//verif:bound every message kind with strings of 255..66000 (100000) bytes or 255..2000 (4000) elements, a few arbitrary bytes inside
//verif:cover AuthGSSContinue/round-trip CommandComplete/round-trip DataRow/round-trip Error/round-trip Generic/round-trip Negotiate/round-trip Notice/round-trip ParameterStatus/round-trip Password/round-trip Query/round-trip RowDescription/round-trip Startup/round-trip
func HRoundTripLarge() {
	kinds := []int{kAuthGSSContinue, kCommandComplete, kDataRow, kError, kNotice, kNegotiate, kParameterStatus, kPassword, kQuery,
		kRowDescription, kGeneric, kStartup}
	kind := kinds[verif.Choice("kind", len(kinds))]
	sizes := []int{255, 256, 513, 1700, 66000}
	if verif.Thorough() {
		sizes = []int{127, 128, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 1700, 4096, 32767, 66000, 100000}
	}
	n := sizes[verif.Choice("size", len(sizes))]
	c := verif.Byte("filler")
	verif.Assume(c != 0)
	fill := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'q'
		}
		if n > 0 {
			b[n-1] = c
			b[n/2] = c
		}
		return string(b)
	}
	long := verif.Choice("long", 2) == 1 // one long string, or many elements
	if !long && n > 4096 && (kind == kDataRow || kind == kError || kind == kNotice || kind == kNegotiate || kind == kRowDescription || kind == kStartup) {
		n = pick(2000, 4000) // more than 32767 cannot be counted on the wire
	}
	var m pg.Message
	var g guards
	switch kind {
	case kAuthGSSContinue:
		m = &pg.AuthenticationGSSContinueMessage{Data: []byte(fill(n))}
	case kGeneric:
		m = &pg.GenericMessage{Type: c, Body: []byte(fill(n))}
	case kCommandComplete:
		m = &pg.CommandCompleteMessage{Tag: fill(n)}
	case kParameterStatus:
		if long {
			m = &pg.ParameterStatusMessage{Name: fill(n), Value: fill(1)}
		} else {
			m = &pg.ParameterStatusMessage{Name: fill(1), Value: fill(n)}
		}
	case kPassword:
		m = &pg.PasswordMessage{Password: fill(n)}
	case kQuery:
		m = &pg.QueryMessage{Query: fill(n)}
	case kDataRow:
		x := &pg.DataRowMessage{}
		if long {
			x.Values = [][]byte{nil, []byte(fill(n)), {}, []byte(fill(2))}
		} else {
			for i := 0; i < n; i++ {
				switch i % 3 {
				case 0:
					x.Values = append(x.Values, nil)
				case 1:
					x.Values = append(x.Values, []byte{c, byte(i)})
				default:
					x.Values = append(x.Values, []byte{})
				}
			}
		}
		m = x
	case kError, kNotice:
		var fs []*pg.MessageField
		if long {
			fs = []*pg.MessageField{{Type: 'S', Value: fill(n)}, {Type: pg.MessageFieldType(c), Value: ""}}
		} else {
			for i := 0; i < n; i++ {
				fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(c), Value: fill(i % 3)})
			}
		}
		if kind == kError {
			m = &pg.ErrorResponseMessage{Fields: fs}
		} else {
			m = &pg.NoticeResponseMessage{Fields: fs}
		}
	case kNegotiate:
		x := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: verif.Int32("version")}
		if long {
			x.UnrecognizedOptions = []string{fill(n), "", fill(1)}
		} else {
			for i := 0; i < n; i++ {
				x.UnrecognizedOptions = append(x.UnrecognizedOptions, fill(i%3))
			}
		}
		m = x
	case kRowDescription:
		x := &pg.RowDescriptionMessage{}
		k := n
		if long {
			k = 2
		}
		for i := 0; i < k; i++ {
			f := &pg.FieldDescriptor{Name: fill(i % 3), ColumnIndex: int16(i), DataTypeModifier: -1, TableOID: 70000}
			if long {
				f.Name = fill(n)
			}
			x.Fields = append(x.Fields, f)
		}
		m = x
	case kStartup:
		x := &pg.StartupMessage{ProtocolVersion: verif.Int32("protocol")}
		if long {
			x.Parameters = []*pg.StartupMessageParameter{{Name: fill(n), Value: fill(n)}, {Name: "k", Value: ""}}
		} else {
			for i := 0; i < n; i++ {
				x.Parameters = append(x.Parameters, &pg.StartupMessageParameter{Name: fill(1 + i%2), Value: fill(i % 3)})
			}
		}
		m = x
	}
	roundTrip(kind, m, &g)
}

// bodyBound is the longest arbitrary body per kind.
func bodyBound(kind int) int {
	switch kind {
	case kAuthOk:
		return pick(10, 12)
	case kBackendKeyData:
		return 10
	case kDataRow:
		return pick(13, 17)
	case kEmptyQuery, kTerminate:
		return 3
	case kError, kNotice:
		return pick(8, 11)
	case kNegotiate:
		return pick(12, 15)
	case kReadyForQuery:
		return 3
	case kRowDescription:
		return pick(23, 25)
	case kStartup:
		return pick(11, 13)
	}
	return pick(8, 12)
}

// parserKinds lists one kind per parser.
var parserKinds = []int{kAuthOk, kBackendKeyData, kCommandComplete, kDataRow, kEmptyQuery, kError, kNegotiate, kNotice,
	kParameterStatus, kPassword, kQuery, kReadyForQuery, kRowDescription, kTerminate, kGeneric, kStartup}

// conform compares the parser's verdict on a body with the reference grammar and the re-emission with the input.
func conform(kind int, body []byte) {
	typ := kindTypes[kind]
	if kind == kGeneric {
		typ = verif.Byte("msgtype")
	}
	orig := append([]byte(nil), body...)
	f := rawFrame(kind, typ, body)
	whole := append([]byte(nil), f.Bytes()...)
	want, end := decode(kind, typ, orig)
	got, err := parse(kind, f)
	verif.Assert(verif.EqBytes(f.Bytes(), whole), "parsing does not modify the frame")
	if want == nil {
		cover(kind, "malformed")
		verif.Assert(err != nil, "a malformed message is refused")
		return
	}
	cover(kind, "well-formed")
	verif.Assert(err == nil, "a well-formed message is accepted")
	verif.Assert(same(want, got), "fields hold the values the bytes encode")
	out := got.Frame()
	verif.Assert(out.MessageType() == f.MessageType(), "re-emitted with the same type")
	verif.Assert(verif.EqBytes(out.MessageBody(), orig[:end]), "re-emitted body equals the received one up to the end of its last field")
	verif.Assert(verif.EqBytes(out.Bytes(), rawFrame(kind, typ, orig[:end]).Bytes()), "re-emitted frame has the matching length")
}

// HConform: every parser on arbitrary bodies.
//
//verif:props C02 C04
//verif:bound every message kind, bodies of every length up to 8..23 (11..25) arbitrary bytes depending on the kind
//verif:cover AuthOk/malformed AuthOk/well-formed BackendKeyData/malformed BackendKeyData/well-formed CommandComplete/malformed CommandComplete/well-formed DataRow/malformed DataRow/well-formed EmptyQuery/malformed EmptyQuery/well-formed Error/malformed Error/well-formed Generic/well-formed Negotiate/malformed Negotiate/well-formed Notice/malformed Notice/well-formed ParameterStatus/malformed ParameterStatus/well-formed Password/malformed Password/well-formed Query/malformed Query/well-formed ReadyForQuery/malformed ReadyForQuery/well-formed RowDescription/malformed RowDescription/well-formed Startup/malformed Startup/well-formed Terminate/malformed Terminate/well-formed
func HConform() {
	kind := parserKinds[verif.Choice("parser", len(parserKinds))]
	n := verif.Choice("body.len", bodyBound(kind)+1)
	conform(kind, verif.Bytes("body", n))
}

// HConformWide: bodies with many or wide elements, whose structure bytes are arbitrary.
//
//verif:props C02 C04
//verif:bound bodies of 200..520 (1024) bytes whose structure bytes are arbitrary
//verif:cover CommandComplete/malformed CommandComplete/well-formed DataRow/malformed DataRow/well-formed Error/malformed Error/well-formed Generic/well-formed Negotiate/malformed Negotiate/well-formed Notice/malformed Notice/well-formed ParameterStatus/malformed ParameterStatus/well-formed Password/malformed Password/well-formed Query/malformed Query/well-formed RowDescription/malformed RowDescription/well-formed Startup/malformed Startup/well-formed
func HConformWide() {
	var b []byte
	i16 := func(v int16) { b = append(b, be16(v)...) }
	i32 := func(v int32) { b = append(b, be32(v)...) }
	pad := func(n int) {
		for i := 0; i < n; i++ {
			b = append(b, 'x')
		}
	}
	switch verif.Choice("layout", 6) {
	case 0: // data row with an arbitrary count over many columns
		i16(verif.Int16("count"))
		n := pick(260, 520)
		for i := 0; i < n; i++ {
			i32(int32(i % 2))
			pad(i % 2)
		}
		conform(kDataRow, b)
	case 1: // data row with one wide column of arbitrary size
		i16(2)
		i32(verif.Int32("size"))
		pad(pick(300, 1000))
		i32(verif.Int32("size2"))
		conform(kDataRow, b)
	case 2: // row description with an arbitrary count
		i16(verif.Int16("count"))
		n := pick(260, 300)
		for i := 0; i < n; i++ {
			b = append(b, 'c', 0)
			i32(int32(i))
			i16(int16(i))
			i32(-1)
			i16(-2)
			i32(int32(i) << 20)
			i16(1)
		}
		conform(kRowDescription, b)
	case 3: // negotiate with an arbitrary count
		i32(3)
		i32(verif.Int32("count"))
		n := pick(260, 520)
		for i := 0; i < n; i++ {
			pad(i % 3)
			b = append(b, 0)
		}
		conform(kNegotiate, b)
	case 4: // strings longer than a byte can count, arbitrary bytes inside
		pad(pick(256, 1024))
		b = append(b, verif.Bytes("mid", 3)...)
		pad(pick(256, 1024))
		b = append(b, verif.Bytes("end", 2)...)
		k := []int{kQuery, kCommandComplete, kPassword, kParameterStatus, kGeneric}
		conform(k[verif.Choice("kind", len(k))], b)
	case 5: // error fields and startup parameters in number
		k := []int{kError, kNotice, kStartup}[verif.Choice("kind", 3)]
		if k == kStartup {
			i32(verif.Int32("protocol"))
		}
		n := pick(200, 300)
		for i := 0; i < n; i++ {
			b = append(b, 'k', 'v', 0)
			if k == kStartup {
				b = append(b, 'w', 0)
			}
		}
		b = append(b, verif.Bytes("end", 3)...)
		conform(k, b)
	}
}

// HKnownNames: names and texts that PostgreSQL gives a meaning to, in arbitrary surroundings.
//
//verif:props C01 C02 C04
//verif:bound startup messages with the protocol's known parameter names, known parameter statuses, command tags and queries; values of 0..2 arbitrary bytes
//verif:cover CommandComplete/round-trip Generic/round-trip ParameterStatus/round-trip Password/round-trip Query/round-trip Startup/round-trip Startup/well-formed ParameterStatus/well-formed
func HKnownNames() {
	names := []string{"user", "database", "options", "replication", "client_encoding", "application_name", "DateStyle", "TimeZone",
		"server_version", "integer_datetimes", "standard_conforming_strings", "is_superuser", "session_authorization", "_pq_.x"}
	name := names[verif.Choice("name", len(names))]
	v := cstrN("value", verif.Choice("len", 3))
	var m pg.Message
	var g guards
	var kind int
	switch verif.Choice("kind", 6) {
	case 0:
		kind = kStartup
		m = &pg.StartupMessage{ProtocolVersion: []int32{0x30000, 0x30002, 0x20000, 80877102, 80877103, 80877104}[verif.Choice("protocol", 6)],
			Parameters: []*pg.StartupMessageParameter{{Name: "user", Value: "u"}, {Name: name, Value: v}, {Name: "database", Value: "app"}}}
	case 1:
		kind = kParameterStatus
		m = &pg.ParameterStatusMessage{Name: name, Value: v}
	case 2:
		kind = kCommandComplete
		m = &pg.CommandCompleteMessage{Tag: []string{"SELECT ", "INSERT 0 ", "BEGIN", "COMMIT ", " "}[verif.Choice("tag", 5)] + v}
	case 3:
		kind = kQuery
		m = &pg.QueryMessage{Query: []string{"SELECT 1", "BEGIN;", "", " ", "-- x\n", "\t\n"}[verif.Choice("text", 6)] + v}
	case 4:
		kind = kPassword
		m = &pg.PasswordMessage{Password: []string{"md5", "SCRAM-SHA-256", " ", "\n"}[verif.Choice("text", 4)] + v}
	case 5:
		kind = kGeneric
		m = &pg.GenericMessage{Type: verif.Byte("type"), Body: []byte(name + "\x00" + v + "\x00")}
	}
	body := encode(kind, m)
	if kind != kGeneric {
		conform(kind, body)
	}
	roundTrip(kind, m, &g)
}

// HForeign: parsers refuse frames of another type.
//
//verif:props C04
//verif:bound every kind against every type byte, arbitrary small bodies
//verif:cover AuthOk/foreign BackendKeyData/foreign CommandComplete/foreign DataRow/foreign EmptyQuery/foreign Error/foreign Negotiate/foreign Notice/foreign ParameterStatus/foreign Password/foreign Query/foreign ReadyForQuery/foreign RowDescription/foreign Terminate/foreign
func HForeign() {
	kind := parserKinds[verif.Choice("parser", len(parserKinds)-2)] // all but generic and startup
	typ := verif.Byte("type")
	verif.Assume(typ != kindTypes[kind])
	lens := []int{0, 1, 4, 8}
	body := verif.Bytes("body", lens[verif.Choice("body.len", len(lens))])
	_, err := parse(kind, rawFrame(kind, typ, body))
	verif.Assert(err != nil, "a frame of another type is refused")
	cover(kind, "foreign")
}

// HFrames: frames built from a type and a body.
//
//verif:props C06
//verif:bound every type byte, bodies of 0..9 (20) arbitrary bytes
//verif:cover built
func HFrames() {
	var g guards
	body := g.bytes("body", verif.Choice("len", pick(9, 20)))
	if verif.Choice("nil", 2) == 1 && len(body) == 0 {
		body = nil
	}
	frames(verif.Byte("type"), body)
	verif.Assert(g.intact(), "the body and what follows it are unchanged")
}

func frames(typ byte, body []byte) {
	orig := append([]byte(nil), body...)
	var f pg.Frame = pg.NewStandardFrame(typ, body)
	want := append(append([]byte{typ}, be32(int32(len(orig)+4))...), orig...)
	verif.Assert(len(f.Bytes()) == len(want), "a frame is type, length and body")
	verif.Assert(verif.EqBytes(f.Bytes(), want), "a frame is type, length and body")
	verif.Assert(f.MessageType() == typ, "a frame has the type it was built with")
	verif.Assert(verif.EqBytes(f.MessageBody(), orig), "a frame has the body it was built with")
	var s pg.Frame = pg.NewStartupFrame(body)
	want = append(be32(int32(len(orig)+4)), orig...)
	verif.Assert(len(s.Bytes()) == len(want), "a startup frame is length and body")
	verif.Assert(verif.EqBytes(s.Bytes(), want), "a startup frame is length and body")
	verif.Assert(s.MessageType() == 0, "a startup frame has no type")
	verif.Assert(verif.EqBytes(s.MessageBody(), orig), "a startup frame has the body it was built with")
	verif.Assert(verif.EqBytes(f.Bytes()[5:], orig), "building one frame leaves others alone")
	verif.Assert(verif.EqBytes(body, orig), "the body is unchanged")
	verif.Cover("built")
}

// HFramesLarge: long bodies.
//
//verif:props C06
//verif:bound bodies past 256 and 65535 bytes
func HFramesLarge() {
	sizes := []int{123, 124, 251, 252, 253, 507, 508, 1019, 1020, 4096, 65531, 65532, 65536}
	if verif.Thorough() {
		sizes = append(sizes, 122, 125, 250, 254, 255, 256, 506, 509, 1021, 16380, 32763, 32764, 65530, 65533, 131072, 1<<20)
	}
	n := sizes[verif.Choice("size", len(sizes))]
	body := make([]byte, n)
	body[0], body[n/2], body[n-1] = verif.Byte("first"), verif.Byte("middle"), verif.Byte("last")
	frames(verif.Byte("type"), body)
}

// HRecv: arbitrary bytes on a connection never crash the decoder or make it allocate without bound, and what is
// accepted is what the bytes encode.
//
//verif:props C03
//verif:bound every sequence of up to 13 (17) bytes on the connection
//verif:cover error message
func HRecv() {
	n := verif.Choice("len", pick(13, 17))
	in := verif.Bytes("stream", n)
	c := &fakeConn{in: in, failAt: -1}
	conn := pg.NewConn(c)
	before := verif.AllocBytes()
	m, err := conn.RecvMessage()
	used := verif.AllocBytes() - before
	verif.Assert(used <= int64(allocBase+allocPer*n), "decoding allocates in proportion to what was received")
	if err != nil {
		verif.Cover("error")
		return
	}
	verif.Assert(n >= 5, "a frame has at least a header")
	verif.Cover("message")
	out := m.Frame().Bytes()
	verif.Assert(len(out) <= c.pos && out[0] == in[0], "a received message has the received type")
}

// allowance of memory for decoding
const (
	allocBase = 64 << 10
	allocPer  = 64
)

// HRecvStartup: the same for startup messages.
//
//verif:props C03
//verif:bound every sequence of up to 15 (18) bytes as a startup message
//verif:cover error message
func HRecvStartup() {
	n := verif.Choice("len", pick(15, 18))
	in := verif.Bytes("stream", n)
	c := &fakeConn{in: in, failAt: -1}
	conn := pg.NewConn(c)
	before := verif.AllocBytes()
	m, err := conn.RecvStartupMessage()
	used := verif.AllocBytes() - before
	verif.Assert(used <= int64(allocBase+allocPer*n), "decoding allocates in proportion to what was received")
	if err != nil {
		verif.Cover("error")
		return
	}
	verif.Cover("message")
	verif.Assert(n >= 8, "a startup message has at least a version")
	verif.Assert(verif.EqBytes(be32(m.ProtocolVersion), in[4:8]), "the version is the first field")
}

// HRecvKinds: arbitrary bodies per known type, in frames with the right length, received over a connection.
//
//verif:props C03
//verif:bound every kind with arbitrary small bodies behind a right length
//verif:cover error message
func HRecvKinds() {
	types := []byte{'R', 'v', 'K', 'S', 'p', 'Z', 'Q', 'T', 'D', 'C', 'I', 'E', 'N', 'X'}
	lens := []int{0, 1, 2, 3, 4, 6, 8, 9, 12}
	i := verif.Choice("type", len(types))
	n := lens[verif.Choice("len", len(lens))]
	body := verif.Bytes("body", n)
	in := append(append([]byte{types[i]}, be32(int32(n+4))...), body...)
	c := &fakeConn{in: in, failAt: -1}
	before := verif.AllocBytes()
	_, err := pg.NewConn(c).RecvMessage()
	used := verif.AllocBytes() - before
	verif.Assert(used <= int64(allocBase+allocPer*len(in)), "decoding allocates in proportion to what was received")
	if err == nil {
		verif.Cover("message")
	} else {
		verif.Cover("error")
	}
}

// HRecvLarge: announced counts far beyond the data in longer frames.
//
//verif:props C03
//verif:bound every kind, announced counts arbitrary, bodies of 300 (3000) bytes
//verif:cover error message
func HRecvLarge() {
	n := pick(300, 3000)
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i % 2)
	}
	types := []byte{'R', 'v', 'S', 'T', 'D', 'E', 'Q', '!'}
	copy(body, verif.Bytes("head", 8))
	in := append(append([]byte{types[verif.Choice("type", len(types))]}, be32(int32(n+4))...), body...)
	c := &fakeConn{in: in, failAt: -1}
	before := verif.AllocBytes()
	_, err := pg.NewConn(c).RecvMessage()
	used := verif.AllocBytes() - before
	verif.Assert(used <= int64(allocBase+allocPer*len(in)), "decoding allocates in proportion to what was received")
	if err == nil {
		verif.Cover("message")
	} else {
		verif.Cover("error")
	}
}

// HFraming: frames are cut exactly, however the bytes arrive.
//
//verif:props C05
//verif:bound every frame with up to 6 (9) body bytes, arbitrary announced length, 3 (5) arbitrary chunk boundaries
//verif:cover frame truncated short-header length-too-small
func HFraming() {
	head := 5
	startup := verif.Choice("startup", 2) == 1
	if startup {
		head = 4
	}
	n := verif.Choice("len", head+pick(6, 9))
	in := verif.Bytes("stream", n)
	r := &fakeConn{in: in, failAt: -1, chunked: true, splits: pick(3, 5)}
	r.eofWith = verif.Choice("eof with data", 2) == 1
	if !r.eofWith && verif.Choice("fails", 2) == 1 {
		r.endErr = errNet
	}
	framing(r, in, head, startup)
}

func framing(r *fakeConn, in []byte, head int, startup bool) {
	n := len(in)
	var f []byte
	var err error
	if startup {
		var x pg.StartupFrame
		x, err = pg.ReadStartupFrame(r)
		f = x
	} else {
		var x pg.StandardFrame
		x, err = pg.ReadStandardFrame(r)
		f = x
	}
	if n < head {
		verif.Cover("short-header")
		verif.Assert(err != nil, "a stream that ends inside a header gives an error")
		return
	}
	l := int64((&rd{b: in[head-4:]}).i32())
	if l < 4 {
		verif.Cover("length-too-small")
		verif.Assert(err != nil, "an announced length smaller than the length field is refused")
		return
	}
	total := int64(head) + l - 4
	if total > int64(n) {
		verif.Cover("truncated")
		verif.Assert(err != nil, "a stream that ends inside a frame gives an error")
		return
	}
	verif.Cover("frame")
	k := verif.Concrete(int(total))
	verif.Assert(err == nil, "a complete frame is returned")
	verif.Assert(len(f) == k, "a frame has exactly the announced length")
	verif.Assert(verif.EqBytes(f, in[:k]), "a frame holds exactly the received bytes")
	verif.Assert(r.pos == k, "exactly the frame's bytes are consumed")
}

// HFramingLarge: frames around the sizes of read buffers.
//
//verif:props C05
//verif:bound frames around 512, 4096, 65536 and 1048576 bytes, arbitrary bytes at the edges
func HFramingLarge() {
	startup := verif.Choice("startup", 2) == 1
	head := 5
	if startup {
		head = 4
	}
	sizes := []int{251, 252, 256, 507, 508, 512, 1024, 4096}
	if verif.Thorough() {
		sizes = []int{250, 251, 252, 253, 256, 506, 507, 508, 509, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 32768, 65535, 65536, 70000}
	}
	var n, extra int
	huge := []int{9000, 20000, 70000, 1<<20 + 77}
	if i := verif.Choice("size", len(sizes)+len(huge)); i < len(sizes) {
		n = sizes[i]
		extra = verif.Choice("extra", 3) - 1 // one byte missing, exact, one byte of the next frame
	} else {
		n = huge[i-len(sizes)]
	}
	in := make([]byte, head+n+extra)
	for i := 0; i < len(in); i += 1 + len(in)/10000 {
		in[i] = byte(i)
	}
	if !startup {
		in[0] = verif.Byte("type")
	}
	copy(in[head-4:], be32(int32(n+4)))
	in[len(in)-1] = verif.Byte("last")
	r := &fakeConn{in: in, failAt: -1, chunked: true}
	switch verif.Choice("cut", 3) {
	case 1:
		r.splits = 1 // an arbitrary first piece of the header
	}
	framing(r, in, head, startup)
}

// HFramesInSequence: consecutive messages on one connection do not influence each other.
//
//verif:props C05
//verif:bound 2 (3) consecutive frames, small arbitrary bodies
//verif:cover sequence
func HFramesInSequence() {
	var in []byte
	var bodies [][]byte
	var types []byte
	k := pick(2, 3)
	for i := 0; i < k; i++ {
		t := verif.Byte("type")
		// opaque kinds
		verif.Assume(t == 'P' || t == 'B' || t == '1' || t == 0 || t == 255)
		b := verif.Bytes("body", verif.Choice("len", 4))
		types, bodies = append(types, t), append(bodies, b)
		in = append(append(append(in, t), be32(int32(len(b)+4))...), b...)
	}
	c := &fakeConn{in: in, failAt: -1, chunked: true, splits: 3}
	conn := pg.NewConn(c)
	var got []*pg.GenericMessage
	for i := 0; i < k; i++ {
		m, err := conn.RecvMessage()
		verif.Assert(err == nil, "each frame is received")
		g, ok := m.(*pg.GenericMessage)
		verif.Assert(ok, "an unknown type is received as an opaque message")
		got = append(got, g)
	}
	for i, g := range got {
		verif.Assert(g.Type == types[i], "types are kept, in order")
		verif.Assert(verif.EqBytes(g.Body, bodies[i]), "bodies are kept, also after later messages were received")
	}
	_, err := conn.RecvMessage()
	verif.Assert(err != nil, "nothing is invented at the end of the stream")
	verif.Cover("sequence")
}

// HDispatchKnown: a well-formed message of each kind is received as that kind with its fields.
//
//verif:props C07
//verif:bound every kind, small arbitrary fields
//verif:cover AuthCleartext/received AuthGSS/received AuthGSSContinue/received AuthKerberos/received AuthMD5/received AuthOk/received AuthSCM/received AuthSSPI/received BackendKeyData/received CommandComplete/received DataRow/received EmptyQuery/received Error/received Negotiate/received Notice/received ParameterStatus/received Password/received Query/received ReadyForQuery/received RowDescription/received Terminate/received
func HDispatchKnown() {
	kind := verif.Choice("kind", kGeneric) // all kinds before generic
	var g guards
	sh := smallShape(kind)
	if sh.str > 3 {
		sh.str = 3
	}
	m := anyMessage(kind, &g, sh)
	body := encode(kind, m)
	in := append(append([]byte{kindTypes[kind]}, be32(int32(len(body)+4))...), body...)
	got, err := pg.NewConn(&fakeConn{in: in, failAt: -1}).RecvMessage()
	verif.Assert(err == nil, "a well-formed message is received")
	verif.Assert(same(m, got), "a message is decoded as its own kind with its fields")
	cover(kind, "received")
}

// HReceived: a message received over a connection is judged like the message itself, whatever its kind.
//
//verif:props C04 C07
//verif:bound every kind, bodies of every length up to 8..23 (11..25) arbitrary bytes depending on the kind
//verif:cover AuthOk/malformed AuthOk/well-formed BackendKeyData/malformed BackendKeyData/well-formed CommandComplete/malformed CommandComplete/well-formed DataRow/malformed DataRow/well-formed EmptyQuery/malformed EmptyQuery/well-formed Error/malformed Error/well-formed Negotiate/malformed Negotiate/well-formed Notice/malformed Notice/well-formed ParameterStatus/malformed ParameterStatus/well-formed Password/malformed Password/well-formed Query/malformed Query/well-formed ReadyForQuery/malformed ReadyForQuery/well-formed RowDescription/malformed RowDescription/well-formed Startup/malformed Startup/well-formed Terminate/malformed Terminate/well-formed
func HReceived() {
	kind := parserKinds[verif.Choice("kind", len(parserKinds))]
	if kind == kGeneric {
		kind = kAuthOk
	}
	body := verif.Bytes("body", verif.Choice("len", bodyBound(kind)+1))
	typ := kindTypes[kind]
	var in []byte
	if kind != kStartup {
		in = []byte{typ}
	}
	in = append(append(in, be32(int32(len(body)+4))...), body...)
	want, end := decode(kind, typ, body)
	conn := pg.NewConn(&fakeConn{in: in, failAt: -1})
	var got pg.Message
	var err error
	if kind == kStartup {
		var m *pg.StartupMessage
		m, err = conn.RecvStartupMessage()
		got = m
	} else {
		got, err = conn.RecvMessage()
	}
	if want == nil {
		cover(kind, "malformed")
		verif.Assert(err != nil, "a malformed message is refused")
		return
	}
	cover(kind, "well-formed")
	verif.Assert(err == nil, "a well-formed message is accepted")
	verif.Assert(same(want, got), "a message is decoded as its own kind with the values the bytes encode")
	verif.Assert(verif.EqBytes(got.Frame().Bytes(), rawFrame(kind, typ, body[:end]).Bytes()), "and re-emitted alike")
}

// HDispatchOther: any other type is received as an opaque message.
//
//verif:props C07
//verif:bound every other type byte, bodies up to 6 (10) arbitrary bytes
//verif:cover opaque
func HDispatchOther() {
	t := verif.Byte("type")
	for _, k := range []byte("RvKSpZQTDCIENX") {
		verif.Assume(t != k)
	}
	body := verif.Bytes("body", verif.Choice("len", pick(6, 10)))
	in := append(append([]byte{t}, be32(int32(len(body)+4))...), body...)
	m, err := pg.NewConn(&fakeConn{in: in, failAt: -1}).RecvMessage()
	verif.Assert(err == nil, "an opaque message is received")
	g, ok := m.(*pg.GenericMessage)
	verif.Assert(ok, "a type without a kind is received as an opaque message")
	verif.Assert(g.Type == t, "an opaque message keeps its type")
	verif.Assert(verif.EqBytes(g.Body, body), "an opaque message keeps its body")
	verif.Assert(verif.EqBytes(m.Frame().Bytes(), in), "an opaque message is re-emitted whole")
	verif.Cover("opaque")
}

// HSend: sending hands over the serialised message once and reports failures.
//
//verif:props C10
//verif:bound every kind, small arbitrary fields; success or one of seven failures after any number of bytes (all of them included), for good or for one write only
//verif:cover sent failed
func HSend() {
	kind := verif.Choice("kind", nKinds)
	var g guards
	m := anyMessage(kind, &g, shape{str: 2, elems: 1})
	body := encode(kind, m)
	want := rawFrame(kind, kindTypes[kind], body).Bytes()
	if kind == kGeneric {
		want = rawFrame(kind, m.(*pg.GenericMessage).Type, body).Bytes()
	}
	c := &fakeConn{failAt: -1}
	fails := verif.Choice("fails", 2) == 1
	if fails {
		c.failAt = verif.Choice("after", len(want))
		c.failErr = failures[verif.Choice("failure", len(failures))]
		c.once = verif.Choice("once", 2) == 1
		if c.failAt == len(want)-1 && verif.Choice("whole", 2) == 1 {
			c.late = 1 // everything is written, and yet it fails
		}
	}
	conn := pg.NewConn(c)
	err := conn.SendMessage(m)
	verif.Assert(g.intact(), "sending does not alter the message")
	if fails {
		verif.Cover("failed")
		verif.Assert(errors.Is(err, c.failErr), "a write failure is reported")
		verif.Assert(len(c.out) <= len(want), "what was written is the beginning of the message")
		verif.Assert(verif.EqBytes(c.out, want[:len(c.out)]), "what was written is the beginning of the message")
		return
	}
	verif.Cover("sent")
	verif.Assert(err == nil, "a successful send reports no error")
	verif.Assert(len(c.out) == len(want), "the whole message is written once")
	verif.Assert(verif.EqBytes(c.out, want), "the serialised message is written")
	second := &pg.ReadyForQueryMessage{TxStatus: 'I'}
	verif.Assert(conn.SendMessage(second) == nil, "a successful send reports no error")
	verif.Assert(verif.EqBytes(c.out, append(append([]byte(nil), want...), 'Z', 0, 0, 0, 5, 'I')), "messages follow each other")
}

// HSendByte: single bytes.
//
//verif:props C10
//verif:bound every byte; success or one of seven failures, for good or for one write only
//verif:cover sent failed
func HSendByte() {
	b := verif.Byte("b")
	c := &fakeConn{failAt: -1}
	fails := verif.Choice("fails", 2) == 1
	if fails {
		c.failAt = 0
		c.failErr = failures[verif.Choice("failure", len(failures))]
		c.once = verif.Choice("once", 2) == 1
		c.late = verif.Choice("whole", 2)
	}
	err := pg.NewConn(c).SendByte(b)
	if fails {
		verif.Cover("failed")
		verif.Assert(errors.Is(err, c.failErr), "a write failure is reported")
		return
	}
	verif.Cover("sent")
	verif.Assert(err == nil, "a successful send reports no error")
	verif.Assert(len(c.out) == 1, "exactly one byte is written")
	verif.Assert(c.out[0] == b, "exactly that byte is written")
}

// HRecvFailure: read failures reach the caller.
//
//verif:props C10 C05
//verif:bound failure (one of seven, for good or for one read only) or hang-up after any byte of a frame
//verif:cover failure hang-up
func HRecvFailure() {
	startup := verif.Choice("startup", 2) == 1
	full := []byte{'Z', 0, 0, 0, 5, 'I'}
	if startup {
		full = []byte{0, 0, 0, 8, 0, 3, 0, 0}
	}
	n := verif.Choice("received", len(full))
	c := &fakeConn{in: full[:n], failAt: -1}
	fails := verif.Choice("fails", 2) == 1
	if fails {
		c.endErr = readFailures[verif.Choice("failure", len(readFailures))]
		if verif.Choice("once", 2) == 1 {
			c.more = full[n:]
		}
	}
	conn := pg.NewConn(c)
	var err error
	if startup {
		_, err = conn.RecvStartupMessage()
	} else {
		_, err = conn.RecvMessage()
	}
	verif.Assert(err != nil, "a read failure is reported")
	if fails {
		verif.Assert(errors.Is(err, c.endErr), "the connection's own error is reported")
		verif.Cover("failure")
	} else {
		verif.Assert(errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF), "a hang-up is reported as the end of the stream")
		verif.Cover("hang-up")
	}
}

// HClose: closing closes the connection and reports its error.
//
//verif:props C10
//verif:bound success or one of seven failures of closing the connection
//verif:cover closed
func HClose() {
	c := &fakeConn{failAt: -1}
	if verif.Choice("fails", 2) == 1 {
		c.closeErr = failures[verif.Choice("failure", len(failures))]
	}
	conn := pg.NewConn(c)
	verif.Assert(conn.Unwrap() == c, "the wrapped connection is accessible")
	err := conn.Close()
	verif.Assert(c.closed >= 1, "closing closes the connection")
	verif.Assert(err == c.closeErr, "closing reports the connection's error")
	verif.Assert(len(c.out) == 0, "closing writes nothing")
	verif.Cover("closed")
}
