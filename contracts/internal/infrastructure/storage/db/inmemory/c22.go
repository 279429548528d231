package inmemory

import (
	"context"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// The lookup by height is taken by its contract (C21): the header stored at that
// height, or not found.
//
//verif:model (*github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/inmemory.headerInmemory).getBlockHeaderByHeight
func headerByHeight(h *headerInmemory, height uint32) (*block.Header, error) {
	spec.Ensures("only heights up to the tip are asked for", height <= top)
	if gap && spec.Choose("stored", 2) == 0 {
		missing = true
		return nil, repository.ErrBlockNotFound
	}
	heights = append(heights, height)
	return &block.Header{Height: height, Timestamp: uint32(len(heights) - 1)}, nil
}

var (
	top          uint32
	heights      []uint32 // of the stored headers, by number
	gap, missing bool
)

func stored(withGaps bool) repository.BlockHeaderRepository {
	top, gap, missing = spec.Any[uint32]("tip height"), withGaps, false
	heights = []uint32{top}
	s := NewHeaderInmemory()
	s.WriteHeaders(context.Background(), block.Header{Height: top})
	return s
}

// heightIn is the height of a stored header by its hash.
func heightIn(h *chainhash.Hash) (uint32, bool) {
	if h[1] != 0xaa || int(h[0]) >= len(heights) {
		return 0, false
	}
	return heights[h[0]], true
}

// VC_C22_inmemory: the locator of a store with any tip height.
func VC_C22_inmemory() {
	s := stored(false)
	l, err := s.LatestBlockLocator(context.Background())
	spec.Ensures("a locator is built", err == nil && len(l) >= 1)
	spec.Ensures("never longer than the protocol maximum", len(l) <= 500)
	last := uint64(1) << 32
	for i, h := range l {
		height, in := heightIn(h)
		spec.Ensures("all its hashes are of stored headers", in)
		if i == 0 {
			spec.Ensures("it starts with the tip", height == top)
			continue
		}
		spec.Ensures("heights go down after the first entry", uint64(height) < last)
		last = uint64(height)
	}
}

// VC_C22_inmemory_gap: a missing header is an error.
func VC_C22_inmemory_gap() {
	s := stored(true)
	_, err := s.LatestBlockLocator(context.Background())
	spec.Ensures("a missing header is an error", (err != nil) == missing)
}

// VC_C22_inmemory_empty: there is no locator of nothing.
func VC_C22_inmemory_empty() {
	_, err := NewHeaderInmemory().LatestBlockLocator(context.Background())
	spec.Ensures("an empty store has no locator", err == repository.ErrNoBlocksHeaders)
}
