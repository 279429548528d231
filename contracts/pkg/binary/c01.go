package binary

import (
	"io"

	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// le is the little-endian form of the n low bytes of u.
func le(u uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		b[i] = byte(u >> (8 * uint(i)))
	}
	return b
}

// decodes states that decoding v of n bytes from any stream that starts at pos
// succeeds exactly when the stream is long enough and takes exactly n bytes.
func decodes(n int, dec func(d *Decoder) error) ([]byte, bool) {
	l := spec.AnyLen("stream length", 1<<20)
	pos := spec.AnyLen("position", 1<<20)
	spec.Requires(pos <= l)
	data := spec.AnyBytes("stream", l)
	s := spec.NewStream(data)
	s.Pos = pos
	err := dec(NewDecoder(s))
	spec.Ensures("succeeds exactly when the stream holds a complete value", (err == nil) == (l-pos >= n))
	if err != nil {
		return nil, false
	}
	spec.Ensures("takes exactly the bytes of the value", s.Pos == pos+n)
	return data[pos : pos+n], true
}

func VC_C01_bool() {
	v := spec.Any[bool]("v")
	b, err := Marshal(v)
	spec.Ensures("encodes", err == nil)
	spec.Ensures("one byte", len(b) == 1 && (b[0] == 1) == v && b[0] <= 1)
	var out bool
	if w, ok := decodes(1, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.Implies(w[0] <= 1, out == (w[0] == 1)))
	}
}

func VC_C01_uint8() {
	v := spec.Any[uint8]("v")
	b, err := Marshal(v)
	spec.Ensures("encodes", err == nil && spec.SameBytes(b, []byte{v}))
	var out uint8
	if w, ok := decodes(1, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", out == w[0])
	}
}

func VC_C01_uint16_port() {
	v := spec.Any[uint16]("v")
	b, err := Marshal(v)
	spec.Ensures("big-endian", err == nil && spec.SameBytes(b, []byte{byte(v >> 8), byte(v)}))
	var out uint16
	if w, ok := decodes(2, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, []byte{byte(out >> 8), byte(out)}))
	}
}

func VC_C01_uint16_varint() {
	v := spec.Any[uint16]("v")
	b, err := MarshalForVarint(v)
	spec.Ensures("little-endian", err == nil && spec.SameBytes(b, le(uint64(v), 2)))
	var out uint16
	if w, ok := decodes(2, func(d *Decoder) (err error) { out, err = d.DecodeUint16ForVarint(); return }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, le(uint64(out), 2)))
	}
}

func VC_C01_int32() {
	v := spec.Any[int32]("v")
	b, err := Marshal(v)
	spec.Ensures("little-endian", err == nil && spec.SameBytes(b, le(uint64(uint32(v)), 4)))
	var out int32
	if w, ok := decodes(4, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, le(uint64(uint32(out)), 4)))
	}
}

func VC_C01_uint32() {
	v := spec.Any[uint32]("v")
	b, err := Marshal(v)
	spec.Ensures("little-endian", err == nil && spec.SameBytes(b, le(uint64(v), 4)))
	var out uint32
	if w, ok := decodes(4, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, le(uint64(out), 4)))
	}
}

func VC_C01_int64() {
	v := spec.Any[int64]("v")
	b, err := Marshal(v)
	spec.Ensures("little-endian", err == nil && spec.SameBytes(b, le(uint64(v), 8)))
	var out int64
	if w, ok := decodes(8, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, le(uint64(out), 8)))
	}
}

func VC_C01_uint64() {
	v := spec.Any[uint64]("v")
	b, err := Marshal(v)
	spec.Ensures("little-endian", err == nil && spec.SameBytes(b, le(v, 8)))
	var out uint64
	if w, ok := decodes(8, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, le(out, 8)))
	}
}

func VC_C01_varint_integers() {
	a := spec.Any[uint8]("a")
	b := spec.Any[uint32]("b")
	c := spec.Any[uint64]("c")
	x, err := MarshalForVarint(a)
	spec.Ensures("one byte", err == nil && spec.SameBytes(x, []byte{a}))
	x, err = MarshalForVarint(b)
	spec.Ensures("four bytes little-endian", err == nil && spec.SameBytes(x, le(uint64(b), 4)))
	x, err = MarshalForVarint(c)
	spec.Ensures("eight bytes little-endian", err == nil && spec.SameBytes(x, le(c, 8)))
}

func VC_C01_array4() {
	v := spec.Any[[4]byte]("v")
	b, err := Marshal(v)
	spec.Ensures("same bytes", err == nil && spec.SameBytes(b, v[:]))
	var out [4]byte
	if w, ok := decodes(4, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, out[:]))
	}
}

func VC_C01_array12() {
	v := spec.Any[[12]byte]("v")
	b, err := Marshal(v)
	spec.Ensures("same bytes", err == nil && spec.SameBytes(b, v[:]))
	var out [12]byte
	if w, ok := decodes(12, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, out[:]))
	}
}

func VC_C01_array32() {
	v := spec.Any[[32]byte]("v")
	b, err := Marshal(v)
	spec.Ensures("same bytes", err == nil && spec.SameBytes(b, v[:]))
	var out [32]byte
	if w, ok := decodes(32, func(d *Decoder) error { return d.Decode(&out) }); ok {
		spec.Ensures("decodes the wire form", spec.SameBytes(w, out[:]))
	}
}

func VC_C01_byte_slice() {
	n := spec.AnyLen("n", 1<<20)
	v := spec.AnyBytes("v", n)
	b, err := Marshal(v)
	spec.Ensures("same bytes", err == nil && spec.SameBytes(b, v))
}

func VC_C01_decode_bytes() {
	n := spec.AnyLen("n", 1<<20)
	spec.Requires(n > 0)
	var out []byte
	if w, ok := decodes(n, func(d *Decoder) (err error) { out, err = d.DecodeBytes(int64(n)); return }); ok {
		spec.Ensures("the bytes of the stream", spec.SameBytes(w, out))
	}
}

func VC_C01_read_until_eof() {
	l := spec.AnyLen("stream length", 1<<20)
	pos := spec.AnyLen("position", 1<<20)
	spec.Requires(pos <= l)
	data := spec.AnyBytes("stream", l)
	s := spec.NewStream(data)
	s.Pos = pos
	b, err := NewDecoder(s).ReadUntilEOF()
	spec.Ensures("no error", err == nil)
	spec.Ensures("every byte in order", spec.SameBytes(b.Bytes(), data[pos:]))
	spec.Ensures("takes everything", s.Pos == l)
}

type vcInner struct {
	E uint64
	F [32]byte
}

type vcAll struct {
	A bool
	B uint8
	C uint16
	D int32
	I vcInner
	G uint32
	H int64
	J [4]byte
	K [12]byte
}

func encAll(v vcAll) []byte {
	var b []byte
	if v.A {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	b = append(b, v.B, byte(v.C>>8), byte(v.C))
	b = append(b, le(uint64(uint32(v.D)), 4)...)
	b = append(b, le(v.I.E, 8)...)
	b = append(b, v.I.F[:]...)
	b = append(b, le(uint64(v.G), 4)...)
	b = append(b, le(uint64(v.H), 8)...)
	b = append(b, v.J[:]...)
	b = append(b, v.K[:]...)
	return b
}

func VC_C01_struct_encode() {
	v := spec.Any[vcAll]("v")
	b, err := Marshal(v)
	spec.Ensures("encodes", err == nil)
	spec.Ensures("fields in declaration order without padding", spec.SameBytes(b, encAll(v)))
	b, err = Marshal(&v)
	spec.Ensures("same through a pointer", err == nil && spec.SameBytes(b, encAll(v)))
}

func VC_C01_struct_decode() {
	l := spec.AnyLen("stream length", 1<<20)
	data := spec.AnyBytes("stream", l)
	s := spec.NewStream(data)
	var out vcAll
	err := NewDecoder(s).Decode(&out)
	spec.Ensures("succeeds exactly when the stream holds a complete value", (err == nil) == (l >= 76))
	if err == nil {
		spec.Ensures("takes exactly the bytes of the value", s.Pos == 76)
		spec.Requires(data[0] <= 1)
		spec.Ensures("decodes the wire form", spec.SameBytes(data[:76], encAll(out)))
	}
}

// plain reads: io.LimitReader and direct reads of a stream deliver pieces.
func VC_C01_reader_contract() {
	l := spec.AnyLen("stream length", 1<<20)
	data := spec.AnyBytes("stream", l)
	s := spec.NewStream(data)
	p := make([]byte, 4)
	n, err := io.ReadFull(s, p)
	spec.Ensures("full or error", (err == nil) == (n == 4))
	spec.Ensures("prefix", spec.SameBytes(p[:n], data[:n]))
}
