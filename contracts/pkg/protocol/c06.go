package protocol

import (
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func specVarint(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return []byte{0xfd, byte(n), byte(n >> 8)}
	case n <= 0xffffffff:
		return []byte{0xfe, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	}
	return []byte{0xff, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24), byte(n >> 32), byte(n >> 40), byte(n >> 48), byte(n >> 56)}
}

// cfilterPayload is the wire form of a compact-filter message.
func cfilterPayload(ftype byte, hash [32]byte, filter []byte) []byte {
	b := append([]byte{ftype}, hash[:]...)
	b = append(b, specVarint(uint64(len(filter)))...)
	return append(b, filter...)
}

func anyFilter() (*gcs.Filter, []byte) {
	n := spec.Any[uint32]("filter elements")
	data := spec.AnyBytes("filter data", spec.AnyLen("filter data length", 1<<24))
	f, err := gcs.FromBytes(n, builder.DefaultP, builder.DefaultM, data)
	spec.Requires(err == nil)
	return f, append(specVarint(uint64(n)), data...)
}

func VC_C06_encode() {
	hash := spec.Any[[32]byte]("block hash")
	h := chainhash.Hash(hash)
	f, fb := anyFilter()
	b, err := binary.Marshal(&MsgCFilter{FilterType: 0, BlockHash: &h, Filter: f})
	spec.Ensures("encodes", err == nil)
	spec.Ensures("type, hash, filter length and filter bytes", spec.SameBytes(b, cfilterPayload(0, hash, fb)))
}

func VC_C06_built_message() {
	hash := spec.Any[[32]byte]("block hash")
	h := chainhash.Hash(hash)
	f, fb := anyFilter()
	m, err := NewMsgCFilter(MagicRegtest, &h, f)
	spec.Ensures("builds", err == nil)
	spec.Ensures("payload carries the filter", spec.SameBytes(m.Payload, cfilterPayload(0, hash, fb)))
}

func VC_C06_decode() {
	hash := spec.Any[[32]byte]("block hash")
	_, fb := anyFilter()
	p := cfilterPayload(0, hash, fb)
	s := spec.NewStream(p)
	var m MsgCFilter
	err := binary.NewDecoder(s).Decode(&m)
	spec.Ensures("decodes", err == nil)
	spec.Ensures("whole payload", s.Left() == 0)
	spec.Ensures("same block hash", [32]byte(*m.BlockHash) == hash)
	got, err := m.Filter.NBytes()
	spec.Ensures("filter built from exactly those bytes", err == nil && spec.SameBytes(got, fb))
	spec.Ensures("filter parameters", m.Filter.P() == builder.DefaultP && m.FilterType == 0)
}

func VC_C06_decode_any() {
	p := spec.AnyBytes("payload", spec.AnyLen("payload length", 1<<24))
	s := spec.NewStream(p)
	var m MsgCFilter
	err := binary.NewDecoder(s).Decode(&m)
	if err != nil {
		return
	}
	spec.Ensures("other filter types are rejected", p[0] == 0)
	spec.Ensures("payloads that end early are rejected", len(p) >= 35)
	var hash [32]byte
	copy(hash[:], p[1:33])
	spec.Ensures("block hash of the payload", [32]byte(*m.BlockHash) == hash)
	got, err := m.Filter.NBytes()
	spec.Ensures("filter bytes come from the payload", err == nil && s.Pos <= len(p) && len(got) <= s.Pos-34)
	spec.Ensures("filter is the payload's tail", spec.SameBytes(got, p[s.Pos-len(got):s.Pos]))
}
