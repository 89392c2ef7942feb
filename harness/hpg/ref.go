package hpg

import (
	"github.com/hired/gevulot/pkg/pg"
	"github.com/lib/pq/oid"

	"vharness/verif"
)

// The message kinds of the wire package.
const (
	kAuthOk = iota
	kAuthKerberos
	kAuthCleartext
	kAuthMD5
	kAuthSCM
	kAuthGSS
	kAuthGSSContinue
	kAuthSSPI
	kBackendKeyData
	kCommandComplete
	kDataRow
	kEmptyQuery
	kError
	kNegotiate
	kNotice
	kParameterStatus
	kPassword
	kQuery
	kReadyForQuery
	kRowDescription
	kTerminate
	kGeneric
	kStartup
	nKinds
)

var kindNames = [nKinds]string{"AuthOk", "AuthKerberos", "AuthCleartext", "AuthMD5", "AuthSCM", "AuthGSS", "AuthGSSContinue",
	"AuthSSPI", "BackendKeyData", "CommandComplete", "DataRow", "EmptyQuery", "Error", "Negotiate", "Notice", "ParameterStatus",
	"Password", "Query", "ReadyForQuery", "RowDescription", "Terminate", "Generic", "Startup"}

var kindTypes = [nKinds]byte{'R', 'R', 'R', 'R', 'R', 'R', 'R', 'R', 'K', 'C', 'D', 'I', 'E', 'v', 'N', 'S', 'p', 'Q', 'Z', 'T', 'X', 0, 0}

var authCodes = map[int]int32{kAuthOk: 0, kAuthKerberos: 2, kAuthCleartext: 3, kAuthMD5: 5, kAuthSCM: 6, kAuthGSS: 7, kAuthGSSContinue: 8, kAuthSSPI: 9}

// parse calls the parser of that kind.
func parse(kind int, f pg.Frame) (pg.Message, error) {
	switch kind {
	case kBackendKeyData:
		return pg.ParseBackendKeyDataMessage(f)
	case kCommandComplete:
		return pg.ParseCommandCompleteMessage(f)
	case kDataRow:
		return pg.ParseDataRowMessage(f)
	case kEmptyQuery:
		return pg.ParseEmptyQueryResponseMessage(f)
	case kError:
		return pg.ParseErrorResponseMessage(f)
	case kNegotiate:
		return pg.ParseNegotiateProtocolVersionMessage(f)
	case kNotice:
		return pg.ParseNoticeResponseMessage(f)
	case kParameterStatus:
		return pg.ParseParameterStatusMessage(f)
	case kPassword:
		return pg.ParsePasswordMessage(f)
	case kQuery:
		return pg.ParseQueryMessage(f)
	case kReadyForQuery:
		return pg.ParseReadyForQueryMessage(f)
	case kRowDescription:
		return pg.ParseRowDescriptionMessage(f)
	case kTerminate:
		return pg.ParseTerminateMessage(f)
	case kGeneric:
		return pg.ParseGenericMessage(f)
	case kStartup:
		return pg.ParseStartupMessage(f)
	}
	return pg.ParseAuthenticationRequestMessage(f)
}

// shape bounds the generated messages.
type shape struct {
	str   int // longest string
	elems int // most elements
	pick  func(name string, max int) int
}

// anyMessage draws an arbitrary representable message of the kind.
func anyMessage(kind int, g *guards, sh shape) pg.Message {
	count := func(name string) int {
		if sh.pick != nil {
			return sh.pick(name, sh.elems)
		}
		return verif.Choice(name, sh.elems+1)
	}
	str := func(name string) string { return cstr(name, sh.str) }
	raw := func(name string) []byte { return g.bytes(name, verif.Choice(name+".len", sh.str+1)) }
	switch kind {
	case kAuthOk:
		return &pg.AuthenticationOkMessage{}
	case kAuthKerberos:
		return &pg.AuthenticationKerberosV5Message{}
	case kAuthCleartext:
		return &pg.AuthenticationCleartextPasswordMessage{}
	case kAuthMD5:
		m := &pg.AuthenticationMD5PasswordMessage{}
		copy(m.Salt[:], verif.Bytes("salt", 4))
		return m
	case kAuthSCM:
		return &pg.AuthenticationSCMCredentialMessage{}
	case kAuthGSS:
		return &pg.AuthenticationGSSMessage{}
	case kAuthGSSContinue:
		return &pg.AuthenticationGSSContinueMessage{Data: raw("data")}
	case kAuthSSPI:
		return &pg.AuthenticationSSPIMessage{}
	case kBackendKeyData:
		return &pg.BackendKeyDataMessage{ProcessID: verif.Int32("pid"), Key: verif.Int32("key")}
	case kCommandComplete:
		return &pg.CommandCompleteMessage{Tag: str("tag")}
	case kDataRow:
		n := count("columns")
		vals := make([][]byte, n)
		for i := range vals {
			if l := verif.Choice("value", sh.str+2); l > 0 {
				vals[i] = g.bytes("value.data", l-1)
			}
		}
		return &pg.DataRowMessage{Values: vals}
	case kEmptyQuery:
		return &pg.EmptyQueryResponseMessage{}
	case kError, kNotice:
		n := count("fields")
		fs := []*pg.MessageField{}
		for i := 0; i < n; i++ {
			t := verif.Byte("field.type")
			verif.Assume(t != 0)
			fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(t), Value: str("field.value")})
		}
		if kind == kError {
			return &pg.ErrorResponseMessage{Fields: fs}
		}
		return &pg.NoticeResponseMessage{Fields: fs}
	case kNegotiate:
		n := count("options")
		os := make([]string, n)
		for i := range os {
			os[i] = str("option")
		}
		return &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: verif.Int32("version"), UnrecognizedOptions: os}
	case kParameterStatus:
		return &pg.ParameterStatusMessage{Name: str("name"), Value: str("value")}
	case kPassword:
		return &pg.PasswordMessage{Password: str("password")}
	case kQuery:
		return &pg.QueryMessage{Query: str("query")}
	case kReadyForQuery:
		return &pg.ReadyForQueryMessage{TxStatus: pg.TxStatus(verif.Byte("status"))}
	case kRowDescription:
		n := count("fields")
		fs := make([]*pg.FieldDescriptor, n)
		for i := range fs {
			fs[i] = &pg.FieldDescriptor{
				Name:             str("field.name"),
				TableOID:         oid.Oid(verif.Uint32("table")),
				ColumnIndex:      verif.Int16("column"),
				DataTypeOID:      oid.Oid(verif.Uint32("type")),
				DataTypeSize:     verif.Int16("size"),
				DataTypeModifier: verif.Int32("modifier"),
				Format:           pg.DataFormat(verif.Int16("format")),
			}
		}
		return &pg.RowDescriptionMessage{Fields: fs}
	case kTerminate:
		return &pg.TerminateMessage{}
	case kGeneric:
		t := verif.Byte("msgtype")
		return &pg.GenericMessage{Type: t, Body: raw("body")}
	case kStartup:
		m := &pg.StartupMessage{ProtocolVersion: verif.Int32("protocol")}
		n := count("params")
		for i := 0; i < n; i++ {
			name := str("param.name")
			verif.Assume(len(name) > 0)
			m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: name, Value: str("param.value")})
		}
		return m
	}
	panic("kind")
}

// encode is the reference encoder: the protocol's message layout.
func encode(kind int, msg pg.Message) []byte {
	var b []byte
	str := func(s string) { b = append(append(b, s...), 0) }
	i32 := func(v int32) { b = append(b, be32(v)...) }
	i16 := func(v int16) { b = append(b, be16(v)...) }
	if c, ok := authCodes[kind]; ok {
		i32(c)
	}
	switch m := msg.(type) {
	case *pg.AuthenticationMD5PasswordMessage:
		b = append(b, m.Salt[:]...)
	case *pg.AuthenticationGSSContinueMessage:
		b = append(b, m.Data...)
	case *pg.BackendKeyDataMessage:
		i32(m.ProcessID)
		i32(m.Key)
	case *pg.CommandCompleteMessage:
		str(m.Tag)
	case *pg.DataRowMessage:
		i16(int16(len(m.Values)))
		for _, v := range m.Values {
			if v == nil {
				i32(-1)
				continue
			}
			i32(int32(len(v)))
			b = append(b, v...)
		}
	case *pg.ErrorResponseMessage:
		for _, f := range m.Fields {
			b = append(b, byte(f.Type))
			str(f.Value)
		}
		b = append(b, 0)
	case *pg.NoticeResponseMessage:
		for _, f := range m.Fields {
			b = append(b, byte(f.Type))
			str(f.Value)
		}
		b = append(b, 0)
	case *pg.NegotiateProtocolVersionMessage:
		i32(m.SupportedProtocolVersion)
		i32(int32(len(m.UnrecognizedOptions)))
		for _, o := range m.UnrecognizedOptions {
			str(o)
		}
	case *pg.ParameterStatusMessage:
		str(m.Name)
		str(m.Value)
	case *pg.PasswordMessage:
		str(m.Password)
	case *pg.QueryMessage:
		str(m.Query)
	case *pg.ReadyForQueryMessage:
		b = append(b, byte(m.TxStatus))
	case *pg.RowDescriptionMessage:
		i16(int16(len(m.Fields)))
		for _, f := range m.Fields {
			str(f.Name)
			i32(int32(f.TableOID))
			i16(f.ColumnIndex)
			i32(int32(f.DataTypeOID))
			i16(f.DataTypeSize)
			i32(f.DataTypeModifier)
			i16(int16(f.Format))
		}
	case *pg.GenericMessage:
		b = append(b, m.Body...)
	case *pg.StartupMessage:
		i32(m.ProtocolVersion)
		if m.Parameters != nil {
			for _, p := range m.Parameters {
				str(p.Name)
				str(p.Value)
			}
			b = append(b, 0)
		}
	}
	return b
}

// rd is the reference decoder's cursor.
type rd struct {
	b   []byte
	pos int
	bad bool
}

func (r *rd) take(n int) []byte {
	if r.bad || n < 0 || n > len(r.b)-r.pos {
		r.bad = true
		return nil
	}
	p := r.b[r.pos : r.pos+n]
	r.pos += n
	return p
}

func (r *rd) i32() int32 {
	p := r.take(4)
	if p == nil {
		return 0
	}
	return int32(uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3]))
}

func (r *rd) i16() int16 {
	p := r.take(2)
	if p == nil {
		return 0
	}
	return int16(uint16(p[0])<<8 | uint16(p[1]))
}

func (r *rd) u8() byte {
	p := r.take(1)
	if p == nil {
		return 0
	}
	return p[0]
}

func (r *rd) str() string {
	for i := r.pos; !r.bad && i < len(r.b); i++ {
		if r.b[i] == 0 {
			s := string(r.b[r.pos:i])
			r.pos = i + 1
			return s
		}
	}
	r.bad = true
	return ""
}

// decode is the reference decoder: it returns the message a body denotes, nil if it is malformed, and where its
// last field ends.
func decode(kind int, typ byte, body []byte) (pg.Message, int) {
	r := &rd{b: body}
	m := decodeFields(kind, typ, r)
	if r.bad {
		return nil, 0
	}
	return m, r.pos
}

func decodeFields(kind int, typ byte, r *rd) pg.Message {
	switch kind {
	case kBackendKeyData:
		return &pg.BackendKeyDataMessage{ProcessID: r.i32(), Key: r.i32()}
	case kCommandComplete:
		return &pg.CommandCompleteMessage{Tag: r.str()}
	case kDataRow:
		n := r.i16()
		if n < 0 {
			r.bad = true
		}
		m := &pg.DataRowMessage{}
		for i := int16(0); i < n && !r.bad; i++ {
			l := r.i32()
			if l == -1 {
				m.Values = append(m.Values, nil)
				continue
			}
			if int64(l) > int64(len(r.b)) {
				r.bad = true
				break
			}
			v := append([]byte{}, r.take(int(l))...)
			m.Values = append(m.Values, v)
		}
		return m
	case kError, kNotice:
		fs := []*pg.MessageField{}
		for !r.bad {
			t := r.u8()
			if r.bad || t == 0 {
				break
			}
			fs = append(fs, &pg.MessageField{Type: pg.MessageFieldType(t), Value: r.str()})
		}
		if kind == kError {
			return &pg.ErrorResponseMessage{Fields: fs}
		}
		return &pg.NoticeResponseMessage{Fields: fs}
	case kNegotiate:
		m := &pg.NegotiateProtocolVersionMessage{SupportedProtocolVersion: r.i32()}
		n := r.i32()
		if n < 0 || int64(n) > int64(len(r.b)) { // each option takes at least its terminator
			r.bad = true
		}
		for i := int32(0); i < n && !r.bad; i++ {
			m.UnrecognizedOptions = append(m.UnrecognizedOptions, r.str())
		}
		return m
	case kParameterStatus:
		m := &pg.ParameterStatusMessage{}
		m.Name = r.str()
		m.Value = r.str()
		return m
	case kPassword:
		return &pg.PasswordMessage{Password: r.str()}
	case kQuery:
		return &pg.QueryMessage{Query: r.str()}
	case kReadyForQuery:
		return &pg.ReadyForQueryMessage{TxStatus: pg.TxStatus(r.u8())}
	case kRowDescription:
		n := r.i16()
		if n < 0 {
			r.bad = true
		}
		m := &pg.RowDescriptionMessage{}
		for i := int16(0); i < n && !r.bad; i++ {
			f := &pg.FieldDescriptor{}
			f.Name = r.str()
			f.TableOID = oid.Oid(r.i32())
			f.ColumnIndex = r.i16()
			f.DataTypeOID = oid.Oid(r.i32())
			f.DataTypeSize = r.i16()
			f.DataTypeModifier = r.i32()
			f.Format = pg.DataFormat(r.i16())
			m.Fields = append(m.Fields, f)
		}
		return m
	case kTerminate:
		r.bad = len(r.b) > 0
		return &pg.TerminateMessage{}
	case kEmptyQuery:
		r.bad = len(r.b) > 0
		return &pg.EmptyQueryResponseMessage{}
	case kGeneric:
		return &pg.GenericMessage{Type: typ, Body: r.take(len(r.b))}
	case kStartup:
		m := &pg.StartupMessage{ProtocolVersion: r.i32()}
		if len(r.b) > 4 {
			m.Parameters = []*pg.StartupMessageParameter{}
			for !r.bad {
				name := r.str()
				if r.bad || name == "" {
					break
				}
				m.Parameters = append(m.Parameters, &pg.StartupMessageParameter{Name: name, Value: r.str()})
			}
		}
		return m
	}
	switch r.i32() { // authentication request
	case 0:
		return &pg.AuthenticationOkMessage{}
	case 2:
		return &pg.AuthenticationKerberosV5Message{}
	case 3:
		return &pg.AuthenticationCleartextPasswordMessage{}
	case 5:
		m := &pg.AuthenticationMD5PasswordMessage{}
		copy(m.Salt[:], r.take(4))
		return m
	case 6:
		return &pg.AuthenticationSCMCredentialMessage{}
	case 7:
		return &pg.AuthenticationGSSMessage{}
	case 8:
		return &pg.AuthenticationGSSContinueMessage{Data: r.take(len(r.b) - r.pos)}
	case 9:
		return &pg.AuthenticationSSPIMessage{}
	}
	r.bad = true
	return nil
}

// same reports whether two messages are equal, without forking on contents.
func same(a, b pg.Message) bool {
	switch x := a.(type) {
	case *pg.AuthenticationOkMessage:
		_, ok := b.(*pg.AuthenticationOkMessage)
		return ok
	case *pg.AuthenticationKerberosV5Message:
		_, ok := b.(*pg.AuthenticationKerberosV5Message)
		return ok
	case *pg.AuthenticationCleartextPasswordMessage:
		_, ok := b.(*pg.AuthenticationCleartextPasswordMessage)
		return ok
	case *pg.AuthenticationMD5PasswordMessage:
		y, ok := b.(*pg.AuthenticationMD5PasswordMessage)
		return ok && verif.EqBytes(x.Salt[:], y.Salt[:])
	case *pg.AuthenticationSCMCredentialMessage:
		_, ok := b.(*pg.AuthenticationSCMCredentialMessage)
		return ok
	case *pg.AuthenticationGSSMessage:
		_, ok := b.(*pg.AuthenticationGSSMessage)
		return ok
	case *pg.AuthenticationGSSContinueMessage:
		y, ok := b.(*pg.AuthenticationGSSContinueMessage)
		return ok && verif.EqBytes(x.Data, y.Data)
	case *pg.AuthenticationSSPIMessage:
		_, ok := b.(*pg.AuthenticationSSPIMessage)
		return ok
	case *pg.BackendKeyDataMessage:
		y, ok := b.(*pg.BackendKeyDataMessage)
		return ok && verif.And(x.ProcessID == y.ProcessID, x.Key == y.Key)
	case *pg.CommandCompleteMessage:
		y, ok := b.(*pg.CommandCompleteMessage)
		return ok && verif.EqStr(x.Tag, y.Tag)
	case *pg.DataRowMessage:
		y, ok := b.(*pg.DataRowMessage)
		if !ok || len(x.Values) != len(y.Values) {
			return false
		}
		r := true
		for i, v := range x.Values {
			w := y.Values[i]
			if (v == nil) != (w == nil) {
				return false
			}
			r = verif.And(r, verif.EqBytes(v, w))
		}
		return r
	case *pg.EmptyQueryResponseMessage:
		_, ok := b.(*pg.EmptyQueryResponseMessage)
		return ok
	case *pg.ErrorResponseMessage:
		y, ok := b.(*pg.ErrorResponseMessage)
		return ok && sameFields(x.Fields, y.Fields)
	case *pg.NoticeResponseMessage:
		y, ok := b.(*pg.NoticeResponseMessage)
		return ok && sameFields(x.Fields, y.Fields)
	case *pg.NegotiateProtocolVersionMessage:
		y, ok := b.(*pg.NegotiateProtocolVersionMessage)
		if !ok || len(x.UnrecognizedOptions) != len(y.UnrecognizedOptions) {
			return false
		}
		r := x.SupportedProtocolVersion == y.SupportedProtocolVersion
		for i, v := range x.UnrecognizedOptions {
			r = verif.And(r, verif.EqStr(v, y.UnrecognizedOptions[i]))
		}
		return r
	case *pg.ParameterStatusMessage:
		y, ok := b.(*pg.ParameterStatusMessage)
		return ok && verif.And(verif.EqStr(x.Name, y.Name), verif.EqStr(x.Value, y.Value))
	case *pg.PasswordMessage:
		y, ok := b.(*pg.PasswordMessage)
		return ok && verif.EqStr(x.Password, y.Password)
	case *pg.QueryMessage:
		y, ok := b.(*pg.QueryMessage)
		return ok && verif.EqStr(x.Query, y.Query)
	case *pg.ReadyForQueryMessage:
		y, ok := b.(*pg.ReadyForQueryMessage)
		return ok && x.TxStatus == y.TxStatus
	case *pg.RowDescriptionMessage:
		y, ok := b.(*pg.RowDescriptionMessage)
		if !ok || len(x.Fields) != len(y.Fields) {
			return false
		}
		r := true
		for i, f := range x.Fields {
			h := y.Fields[i]
			if f == nil || h == nil {
				return false
			}
			r = verif.And(r, verif.EqStr(f.Name, h.Name))
			r = verif.And(r, f.TableOID == h.TableOID)
			r = verif.And(r, f.ColumnIndex == h.ColumnIndex)
			r = verif.And(r, f.DataTypeOID == h.DataTypeOID)
			r = verif.And(r, f.DataTypeSize == h.DataTypeSize)
			r = verif.And(r, f.DataTypeModifier == h.DataTypeModifier)
			r = verif.And(r, f.Format == h.Format)
		}
		return r
	case *pg.TerminateMessage:
		_, ok := b.(*pg.TerminateMessage)
		return ok
	case *pg.GenericMessage:
		y, ok := b.(*pg.GenericMessage)
		return ok && verif.And(x.Type == y.Type, verif.EqBytes(x.Body, y.Body))
	case *pg.StartupMessage:
		y, ok := b.(*pg.StartupMessage)
		if !ok || len(x.Parameters) != len(y.Parameters) {
			return false
		}
		r := x.ProtocolVersion == y.ProtocolVersion
		for i, p := range x.Parameters {
			q := y.Parameters[i]
			if p == nil || q == nil {
				return false
			}
			r = verif.And(r, verif.And(verif.EqStr(p.Name, q.Name), verif.EqStr(p.Value, q.Value)))
		}
		return r
	}
	return false
}

func sameFields(a, b []*pg.MessageField) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i, f := range a {
		g := b[i]
		if f == nil || g == nil {
			return false
		}
		r = verif.And(r, verif.And(f.Type == g.Type, verif.EqStr(f.Value, g.Value)))
	}
	return r
}

// rawFrame builds a frame by hand.
func rawFrame(kind int, typ byte, body []byte) pg.Frame {
	if kind == kStartup {
		return pg.StartupFrame(append(be32(int32(len(body)+4)), body...))
	}
	b := append([]byte{typ}, be32(int32(len(body)+4))...)
	return pg.StandardFrame(append(b, body...))
}
