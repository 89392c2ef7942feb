// Package hpg holds the harnesses of the wire protocol package.
package hpg

import (
	"github.com/hired/gevulot/pkg/pg"

	"vharness/verif"
)

// buf draws a read buffer of 0..max arbitrary bytes followed by capacity that does not belong to it.
func buf(g *guards, max int) (pg.ReadBuffer, []byte) {
	data := g.bytes("data", verif.Choice("len", max+1))
	return pg.ReadBuffer(data), append([]byte(nil), data...)
}

// refused asserts that a read failed without side effects.
func refused(b pg.ReadBuffer, orig []byte, err error) {
	verif.Cover("refused")
	verif.Assert(err != nil, "reading more than there is fails")
	verif.Assert(verif.EqBytes(b, orig), "a failed read leaves the buffer unchanged")
}

func advanced(b pg.ReadBuffer, orig []byte, n int, err error) {
	verif.Cover("read")
	verif.Assert(err == nil, "reading what is there succeeds")
	verif.Assert(len(b) == len(orig)-n, "the buffer advances by exactly the value's size")
	verif.Assert(verif.EqBytes(b, orig[n:]), "the rest of the buffer is unchanged")
	verif.Assert(b.Len() == len(orig)-n, "Len counts the bytes left")
}

// HReadBytes: raw byte runs.
//
//verif:props C08 C03
//verif:bound buffers of 9 (thorough 20) arbitrary bytes, every 64-bit count
//verif:cover read refused
func HReadBytes() {
	var g guards
	b, orig := buf(&g, pick(9, 20))
	k := verif.Int("k")
	got, err := b.ReadBytes(k)
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	if k < 0 || k > len(orig) {
		refused(b, orig, err)
		return
	}
	k = verif.Concrete(k)
	advanced(b, orig, k, err)
	verif.Assert(verif.EqBytes(got, orig[:k]), "the next bytes are returned")
}

// HReadByte: single bytes.
//
//verif:props C08
//verif:bound buffers up to the harness limit, arbitrary bytes
//verif:cover read refused
func HReadByte() {
	var g guards
	b, orig := buf(&g, 3)
	got, err := b.ReadByte()
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	if len(orig) < 1 {
		refused(b, orig, err)
		return
	}
	advanced(b, orig, 1, err)
	verif.Assert(got == orig[0], "the next byte is returned")
}

// HReadInt32: 32-bit integers.
//
//verif:props C08
//verif:bound arbitrary bytes, every length up to the limit
//verif:cover read refused
func HReadInt32() {
	var g guards
	b, orig := buf(&g, 6)
	got, err := b.ReadInt32()
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	if len(orig) < 4 {
		refused(b, orig, err)
		return
	}
	advanced(b, orig, 4, err)
	r := rd{b: orig}
	verif.Assert(got == r.i32(), "the value is big-endian")
}

// HReadInt16: 16-bit integers.
//
//verif:props C08
//verif:bound arbitrary bytes, every length up to the limit
//verif:cover read refused
func HReadInt16() {
	var g guards
	b, orig := buf(&g, 4)
	got, err := b.ReadInt16()
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	if len(orig) < 2 {
		refused(b, orig, err)
		return
	}
	advanced(b, orig, 2, err)
	r := rd{b: orig}
	verif.Assert(got == r.i16(), "the value is big-endian")
}

// HReadString: terminated strings.
//
//verif:props C08 C03
//verif:bound up to 10 (24) arbitrary bytes
//verif:cover read refused
func HReadString() {
	var g guards
	b, orig := buf(&g, pick(10, 24))
	got, err := b.ReadString()
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	r := rd{b: orig}
	want := r.str()
	if r.bad {
		refused(b, orig, err)
		return
	}
	advanced(b, orig, r.pos, err)
	verif.Assert(verif.EqStr(got, want), "the string up to its terminator is returned")
}

// HReadInt32Array: arrays of 32-bit integers, for every requested count.
//
//verif:props C08 C03
//verif:bound up to 13 (25) arbitrary bytes, every 64-bit count
//verif:cover read refused
func HReadInt32Array() {
	var g guards
	b, orig := buf(&g, pick(13, 25))
	k := verif.Int("k")
	got, err := b.ReadInt32Array(k)
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	if k < 0 || k > len(orig)/4 {
		refused(b, orig, err)
		return
	}
	k = verif.Concrete(k)
	advanced(b, orig, 4*k, err)
	verif.Assert(len(got) == k, "as many values as requested")
	r := rd{b: orig}
	for i := 0; i < k; i++ {
		verif.Assert(got[i] == r.i32(), "the values are big-endian and in order")
	}
}

// HReadInt16Array: arrays of 16-bit integers, for every requested count.
//
//verif:props C08 C03
//verif:bound up to 9 (17) arbitrary bytes, every 64-bit count
//verif:cover read refused
func HReadInt16Array() {
	var g guards
	b, orig := buf(&g, pick(9, 17))
	k := verif.Int("k")
	got, err := b.ReadInt16Array(k)
	verif.Assert(g.intact(), "the underlying bytes are not modified")
	if k < 0 || k > len(orig)/2 {
		refused(b, orig, err)
		return
	}
	k = verif.Concrete(k)
	advanced(b, orig, 2*k, err)
	verif.Assert(len(got) == k, "as many values as requested")
	r := rd{b: orig}
	for i := 0; i < k; i++ {
		verif.Assert(got[i] == r.i16(), "the values are big-endian and in order")
	}
}

// HReadSequence: what one read leaves is what the next one reads, values read earlier stay valid.
//
//verif:props C08
//verif:bound 3 (4) reads of any kinds over 7 (11) arbitrary bytes
//verif:cover failed sequence
func HReadSequence() {
	var g guards
	b, orig := buf(&g, pick(7, 11))
	r := rd{b: orig}
	steps := pick(3, 4)
	var first []byte
	var firstCopy []byte
	for i := 0; i < steps; i++ {
		before := r
		var err error
		ok := true
		switch verif.Choice("op", 6) {
		case 0:
			var v int32
			v, err = b.ReadInt32()
			w := r.i32()
			ok = r.bad || v == w
		case 1:
			var v int16
			v, err = b.ReadInt16()
			w := r.i16()
			ok = r.bad || v == w
		case 2:
			var v byte
			v, err = b.ReadByte()
			w := r.u8()
			ok = r.bad || v == w
		case 3:
			var v string
			v, err = b.ReadString()
			w := r.str()
			ok = r.bad || verif.EqStr(v, w)
		case 4:
			n := verif.Choice("n", 4)
			var v []byte
			v, err = b.ReadBytes(n)
			w := r.take(n)
			ok = r.bad || verif.EqBytes(v, w)
			if !r.bad && first == nil {
				first, firstCopy = v, append([]byte{}, v...)
			}
		case 5:
			n := verif.Choice("n", 3)
			var v []int16
			v, err = b.ReadInt16Array(n)
			w := r.take(2 * n)
			ok = r.bad || len(v) == n
			for j := 0; ok && !r.bad && j < n; j++ {
				ok = v[j] == int16(uint16(w[2*j])<<8|uint16(w[2*j+1]))
			}
		}
		verif.Assert((err != nil) == r.bad, "a read fails exactly when there is not enough")
		verif.Assert(ok, "each read returns the next value")
		if r.bad {
			verif.Cover("failed")
			r = before
		}
		verif.Assert(verif.EqBytes(b, orig[r.pos:]), "the buffer stands where the last successful read ended")
	}
	verif.Cover("sequence")
	verif.Assert(verif.EqBytes(first, firstCopy), "bytes returned earlier do not change")
	verif.Assert(g.intact(), "the underlying bytes are not modified")
}

// HReadLarge: the same at sizes beyond a byte, with arbitrary contents at the ends.
//
//verif:props C08
//verif:bound buffers past 256 bytes, arbitrary bytes at the ends
//verif:cover whole
func HReadLarge() {
	sizes := []int{255, 256, 257, 511, 512, 513, 1024}
	if verif.Thorough() {
		sizes = []int{127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537}
	}
	n := sizes[verif.Choice("size", len(sizes))]
	data := make([]byte, n)
	for i := range data {
		data[i] = 'a'
	}
	copy(data, verif.Bytes("head", 4))
	copy(data[n-4:], verif.Bytes("tail", 4))
	orig := append([]byte(nil), data...)
	b := pg.ReadBuffer(data)
	switch verif.Choice("op", 4) {
	case 0:
		k := verif.Int("k")
		verif.Assume(k < 3 || k > n-3)
		got, err := b.ReadBytes(k)
		if k < 0 || k > n {
			refused(b, orig, err)
			break
		}
		verif.Assert(err == nil, "reading what is there succeeds")
		verif.Assert(len(got) == k && len(b) == n-k, "the buffer advances by exactly the requested size")
		if k == n {
			verif.Cover("whole")
			verif.Assert(verif.EqBytes(got, orig), "the bytes are returned")
		}
	case 1:
		got, err := b.ReadString()
		r := rd{b: orig}
		want := r.str()
		if r.bad {
			refused(b, orig, err)
			break
		}
		advanced(b, orig, r.pos, err)
		verif.Assert(verif.EqStr(got, want), "the string up to its terminator is returned")
	case 2:
		k := n/4 + verif.Choice("extra", 2)
		got, err := b.ReadInt32Array(k)
		if k > n/4 {
			refused(b, orig, err)
			break
		}
		advanced(b, orig, 4*k, err)
		r := rd{b: orig}
		ok := len(got) == k
		for i := 0; ok && i < k; i++ {
			verif.Assert(got[i] == r.i32(), "the values are big-endian and in order")
		}
	case 3:
		k := n/2 + verif.Choice("extra", 2)
		got, err := b.ReadInt16Array(k)
		if k > n/2 {
			refused(b, orig, err)
			break
		}
		advanced(b, orig, 2*k, err)
		r := rd{b: orig}
		ok := len(got) == k
		for i := 0; ok && i < k; i++ {
			verif.Assert(got[i] == r.i16(), "the values are big-endian and in order")
		}
	}
	verif.Assert(verif.EqBytes(data, orig), "the underlying bytes are not modified")
}

// HWrite: sequences of writes into a buffer with arbitrary earlier content and spare capacity.
//
//verif:props C09
//verif:bound 2 (3) writes of any kinds and values, arbitrary earlier content and spare capacity
//verif:cover written
func HWrite() {
	pre := verif.Choice("prior", 3)
	room := []int{0, 1, 3, 16}[verif.Choice("room", 4)]
	back := make([]byte, pre, pre+room)
	copy(back, verif.Bytes("prior.data", pre))
	want := append([]byte(nil), back...)
	b := pg.WriteBuffer(back)
	if pre == 0 && room == 0 {
		b = nil
	}
	var g guards
	steps := pick(2, 3)
	for i := 0; i < steps; i++ {
		switch verif.Choice("op", 7) {
		case 0:
			v := verif.Int32("v32")
			b.WriteInt32(v)
			want = append(want, be32(v)...)
		case 1:
			v := verif.Int16("v16")
			b.WriteInt16(v)
			want = append(want, be16(v)...)
		case 2:
			v := verif.Byte("v8")
			b.WriteByte(v)
			want = append(want, v)
		case 3:
			v := g.bytes("raw", verif.Choice("raw.len", 5))
			b.WriteBytes(v)
			want = append(want, v...)
		case 4:
			v := verif.String("str", verif.Choice("str.len", 4))
			b.WriteString(v)
			want = append(append(want, v...), 0)
		case 5:
			n := verif.Choice("n", 4)
			arr := make([]int32, n, n+2)
			for j := range arr {
				arr[j] = verif.Int32("e32")
				want = append(want, be32(arr[j])...)
			}
			keep := append([]int32(nil), arr...)
			b.WriteInt32Array(arr)
			for j := range arr {
				verif.Assert(arr[j] == keep[j], "the array written is not modified")
			}
		case 6:
			n := verif.Choice("n", 4)
			arr := make([]int16, n, n+2)
			for j := range arr {
				arr[j] = verif.Int16("e16")
				want = append(want, be16(arr[j])...)
			}
			keep := append([]int16(nil), arr...)
			b.WriteInt16Array(arr)
			for j := range arr {
				verif.Assert(arr[j] == keep[j], "the array written is not modified")
			}
		}
		verif.Assert(len(b) == len(want), "exactly the value's bytes are appended")
		verif.Assert(verif.EqBytes(b, want), "earlier bytes stay and the value's bytes follow")
		verif.Assert(b.Len() == len(want), "Len counts the bytes written")
	}
	verif.Assert(g.intact(), "bytes handed over are neither modified nor written past")
	// the writer keeps its own copy
	for _, x := range g {
		for i := range x.all {
			x.all[i] = 0x5A
		}
	}
	verif.Assert(verif.EqBytes(b, want), "later changes of the input do not reach the buffer")
	verif.Cover("written")
}

// HWriteRead: the matching read returns the value written.
//
//verif:props C09 C08
//verif:bound one write of any kind and value, then the matching read
//verif:cover round-trip
func HWriteRead() {
	var b pg.WriteBuffer
	junk := verif.Choice("junk", 2)
	for i := 0; i < junk; i++ {
		b.WriteByte(verif.Byte("junk.byte"))
	}
	op := verif.Choice("op", 6)
	v32, v16, v8 := verif.Int32("v32"), verif.Int16("v16"), verif.Byte("v8")
	raw := verif.Bytes("raw", verif.Choice("raw.len", 4))
	str := cstr("str", 4)
	switch op {
	case 0:
		b.WriteInt32(v32)
	case 1:
		b.WriteInt16(v16)
	case 2:
		b.WriteByte(v8)
	case 3:
		b.WriteBytes(raw)
	case 4:
		b.WriteString(str)
	case 5:
		b.WriteInt32Array([]int32{v32, int32(v16)})
		b.WriteInt16Array([]int16{v16, int16(v8)})
	}
	b.WriteByte(0x77)
	r := pg.ReadBuffer(b)
	for i := 0; i < junk; i++ {
		_, _ = r.ReadByte()
	}
	var err error
	ok := false
	switch op {
	case 0:
		var v int32
		v, err = r.ReadInt32()
		ok = v == v32
	case 1:
		var v int16
		v, err = r.ReadInt16()
		ok = v == v16
	case 2:
		var v byte
		v, err = r.ReadByte()
		ok = v == v8
	case 3:
		var v []byte
		v, err = r.ReadBytes(len(raw))
		ok = verif.EqBytes(v, raw)
	case 4:
		var v string
		v, err = r.ReadString()
		ok = verif.EqStr(v, str)
	case 5:
		var v []int32
		var w []int16
		v, err = r.ReadInt32Array(2)
		verif.Assert(err == nil, "what was written can be read")
		w, err = r.ReadInt16Array(2)
		ok = verif.And(verif.And(v[0] == v32, v[1] == int32(v16)), verif.And(w[0] == v16, w[1] == int16(v8)))
	}
	verif.Assert(err == nil, "what was written can be read")
	verif.Assert(ok, "the value read is the value written")
	last, err := r.ReadByte()
	verif.Assert(err == nil && r.Len() == 0, "reading ends where writing ended")
	verif.Assert(last == 0x77, "reading ends where writing ended")
	verif.Cover("round-trip")
}

// HWriteLarge: writes that exceed any small buffer.
//
//verif:props C09
//verif:bound writes past 256 and 65536 bytes
//verif:cover written
func HWriteLarge() {
	sizes := []int{63, 64, 65, 255, 256, 257, 512, 1024, 5000, 70000}
	if verif.Thorough() {
		sizes = []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4096, 16384, 32767, 32768, 65535, 65536, 65537}
	}
	n := sizes[verif.Choice("size", len(sizes))]
	var b pg.WriteBuffer
	v := verif.Int32("first")
	b.WriteInt32(v)
	want := be32(v)
	e := verif.Int16("elem")
	switch verif.Choice("op", 4) {
	case 0:
		raw := make([]byte, n)
		raw[0], raw[n-1] = byte(e), verif.Byte("last")
		b.WriteBytes(raw)
		want = append(want, raw...)
	case 1:
		raw := make([]byte, n)
		for i := range raw {
			raw[i] = 'x'
		}
		raw[n-1] = byte(e)
		s := string(raw)
		b.WriteString(s)
		want = append(append(want, s...), 0)
	case 2:
		n = min(n, 20000)
		arr := make([]int32, n)
		arr[0], arr[n-1] = int32(e), v
		b.WriteInt32Array(arr)
		for _, x := range arr {
			want = append(want, be32(x)...)
		}
	case 3:
		n = min(n, 40000)
		arr := make([]int16, n)
		arr[0], arr[n-1] = e, int16(v)
		b.WriteInt16Array(arr)
		for _, x := range arr {
			want = append(want, be16(x)...)
		}
	}
	b.WriteInt16(e)
	want = append(want, be16(e)...)
	verif.Assert(len(b) == len(want), "exactly the value's bytes are appended")
	verif.Assert(verif.EqBytes(b, want), "earlier bytes stay and the value's bytes follow")
	verif.Cover("written")
}
