package repository

import (
	"github.com/btcsuite/btcd/btcutil"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C23_key_frame: naming a key leaves the caller's bytes alone, whatever room
// the array of the hash has.
func VC_C23_key_frame() {
	room := spec.Any[[40]byte]("array of the hash")
	before := room
	k := FilterKey{BlockHash: room[:32], FilterType: FilterType(spec.Any[byte]("type"))}
	s := k.String()
	spec.Ensures("the caller's data is as it was", room == before && len(k.BlockHash) == 32)
	spec.Ensures("asking again gives the same name", k.String() == s)
}

// VC_C23_key_reach: the name depends on the hash and the type: what is hashed is
// the hash followed by the type, so different keys have different preimages.
func VC_C23_key_reach() {
	a, b := spec.Any[[32]byte]("hash"), spec.Any[[32]byte]("other hash")
	ta, tb := spec.Any[byte]("type"), spec.Any[byte]("other type")
	spec.Assume(a == b && ta == tb)
	ka, kb := FilterKey{BlockHash: a[:], FilterType: FilterType(ta)}, FilterKey{BlockHash: b[:], FilterType: FilterType(tb)}
	spec.Ensures("equal keys have equal names", ka.String() == kb.String())
}

// VC_C23_key_distinct: different keys have different names, as far as the hash
// function tells them apart.
func VC_C23_key_distinct() {
	a, b := spec.Any[[32]byte]("hash"), spec.Any[[32]byte]("other hash")
	ta, tb := spec.Any[byte]("type"), spec.Any[byte]("other type")
	spec.Assume(!spec.SameBytes(btcutil.Hash160(append(a[:32:32], ta)), btcutil.Hash160(append(b[:32:32], tb))))
	ka, kb := FilterKey{BlockHash: a[:], FilterType: FilterType(ta)}, FilterKey{BlockHash: b[:], FilterType: FilterType(tb)}
	spec.Ensures("different keys have different names", ka.String() != kb.String())
}

// VC_C23_key_distinct48: at least the first 48 bits of the hash of the whole key
// tell names apart.
func VC_C23_key_distinct48() {
	a, b := spec.Any[[32]byte]("hash"), spec.Any[[32]byte]("other hash")
	ta, tb := spec.Any[byte]("type"), spec.Any[byte]("other type")
	ha, hb := btcutil.Hash160(append(a[:32:32], ta)), btcutil.Hash160(append(b[:32:32], tb))
	spec.Assume(!spec.SameBytes(ha[:6], hb[:6]))
	ka, kb := FilterKey{BlockHash: a[:], FilterType: FilterType(ta)}, FilterKey{BlockHash: b[:], FilterType: FilterType(tb)}
	spec.Ensures("keys that differ in 48 bits of their digests have different names", ka.String() != kb.String())
}
