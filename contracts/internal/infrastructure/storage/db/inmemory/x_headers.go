package inmemory

import (
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// Headers made by contracts are told apart by their time, which stands for the
// bytes that determine the hash; different headers have different hashes.
//
//verif:model (*github.com/vulpemventures/go-elements/block.Header).Hash
func headerHash(h *block.Header) (chainhash.Hash, error) { return hashAt(byte(h.Timestamp)), nil }

func hashAt(number byte) chainhash.Hash { return chainhash.Hash{number, 0xaa} }

// headerAt is the header with that number, of any height, on the header numbered prev.
func headerAt(number, prev byte) block.Header {
	p := hashAt(prev)
	return block.Header{Timestamp: uint32(number), PrevBlockHash: p[:], Height: spec.Any[uint32]("height")}
}
