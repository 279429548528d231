package protocol

import (
	"bytes"
	"math"

	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// specVarint is the wire form of a count: shortest prefix form, little-endian.
func specVarint(u uint64) []byte {
	switch {
	case u < 0xFD:
		return []byte{byte(u)}
	case u <= 0xFFFF:
		return []byte{0xFD, byte(u), byte(u >> 8)}
	case u <= 0xFFFFFFFF:
		return []byte{0xFE, byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)}
	}
	return []byte{0xFF, byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24), byte(u >> 32), byte(u >> 40), byte(u >> 48), byte(u >> 56)}
}

func VC_C02_encode_int() {
	i := spec.Any[int]("i")
	spec.Requires(i >= 0)
	v, err := NewVarint(i)
	spec.Ensures("accepted", err == nil)
	b, err := v.MarshalBinary()
	spec.Ensures("encodes", err == nil)
	spec.Ensures("shortest form", spec.SameBytes(b, specVarint(uint64(i))))
}

func VC_C02_decode() {
	n := spec.AnyLen("len", 20)
	b := spec.AnyBytes("input", n)
	r := bytes.NewReader(b)
	var v VarInt
	err := v.UnmarshalBinary(r)
	need := 1
	if n > 0 && b[0] == 0xFD {
		need = 3
	} else if n > 0 && b[0] == 0xFE {
		need = 5
	} else if n > 0 && b[0] == 0xFF {
		need = 9
	}
	spec.Ensures("decodes exactly complete encodings", (err == nil) == (n >= need))
	if err == nil {
		spec.Ensures("consumes exactly its bytes", r.Len() == n-need)
		var u uint64
		switch need {
		case 1:
			u = uint64(b[0])
		case 3:
			u = uint64(b[1]) | uint64(b[2])<<8
		case 5:
			u = uint64(b[1]) | uint64(b[2])<<8 | uint64(b[3])<<16 | uint64(b[4])<<24
		case 9:
			for k := 0; k < 8; k++ {
				u |= uint64(b[1+k]) << (8 * uint(k))
			}
		}
		x, err := v.Int()
		spec.Ensures("converts", err == nil)
		if u > math.MaxInt64 {
			spec.Ensures("saturates", x == math.MaxInt64)
		} else {
			spec.Ensures("exact", x >= 0 && uint64(x) == u)
		}
	}
}
