package inmemory

import (
	"context"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var ctx = context.Background()

// written is a store after some writes and the headers written, by number-1.
func written(size int) (repository.BlockHeaderRepository, []block.Header) {
	s := NewHeaderInmemory()
	var hs []block.Header
	for i := 1; i <= size; i++ {
		prev := byte(0)
		if i > 1 {
			prev = byte(i - 1)
			if spec.Choose("link", 2) > 0 {
				prev = 9
			}
		}
		hs = append(hs, headerAt(byte(i), prev))
	}
	var err error
	switch spec.Choose("batches", 3) {
	case 0:
		err = s.WriteHeaders(ctx, hs...)
	case 1:
		for i := range hs {
			if e := s.WriteHeaders(ctx, hs[len(hs)-1-i]); e != nil {
				err = e
			}
		}
	case 2:
		err = s.WriteHeaders(ctx, hs...)
		if e := s.WriteHeaders(ctx, hs[:1]...); e != nil {
			err = e
		}
		s.WriteHeaders(ctx)
	}
	spec.Ensures("headers are written", err == nil)
	return s, hs
}

func same(g *block.Header, w block.Header) bool {
	return g != nil && g.Timestamp == w.Timestamp && g.Height == w.Height && spec.SameBytes(g.PrevBlockHash, w.PrevBlockHash)
}

func lookups(size int) {
	spec.Bounded("stores of at most three headers")
	s, hs := written(size)
	for i := range hs {
		g, err := s.GetBlockHeader(ctx, hashAt(byte(i+1)))
		spec.Ensures("a written header is found under its hash", err == nil && same(g, hs[i]))
	}
	_, err := s.GetBlockHeader(ctx, hashAt(7))
	spec.Ensures("an absent hash is not found", err == repository.ErrBlockNotFound)

	tip, err := s.ChainTip(ctx)
	spec.Ensures("a store that was written to has a tip", err == nil && tip != nil)
	among := false
	for _, h := range hs {
		spec.Ensures("no header is higher than the tip", h.Height <= tip.Height)
		among = among || same(tip, h)
	}
	spec.Ensures("the tip is a stored header", among)
}

func byHeight(size int) {
	spec.Bounded("stores of at most three headers")
	s, hs := written(size)
	q := spec.Any[uint32]("asked height")
	hash, err := s.GetBlockHashByHeight(ctx, q)
	some, right := false, false
	for i, h := range hs {
		if h.Height == q {
			some = true
			right = right || err == nil && *hash == hashAt(byte(i+1))
		}
	}
	spec.Ensures("a height is found exactly when a header has it", (err == nil) == some)
	spec.Ensures("as the hash of such a header", !some || right)
	spec.Ensures("an absent height is not found", some || err == repository.ErrBlockNotFound)
}

// complete is what the ancestors question means.
func complete(hs []block.Header, i int) bool {
	for {
		if hs[i].Height <= 1 {
			return true
		}
		p := int(hs[i].PrevBlockHash[0])
		if p < 1 || p > len(hs) {
			return false
		}
		i = p - 1
	}
}

func ancestors(size int) {
	spec.Bounded("stores of at most three headers")
	s, hs := written(size)
	for i := range hs {
		all, err := s.HasAllAncestors(ctx, hashAt(byte(i+1)))
		spec.Ensures("ancestors are complete exactly when the links reach the bottom", err == nil && all == complete(hs, i))
	}
	all, err := s.HasAllAncestors(ctx, hashAt(7))
	spec.Ensures("the ancestors of an unknown hash are an error", err != nil && !all)
}

func VC_C21_lookups_one() { lookups(1) }
func VC_C21_lookups_two() { lookups(2) }
func VC_C21_lookups_three() {
	spec.Bounded("stores of at most three headers")
	lookups(3)
}
func VC_C21_height_one() { byHeight(1) }
func VC_C21_height_two() { byHeight(2) }
func VC_C21_height_three() {
	spec.Bounded("stores of at most three headers")
	byHeight(3)
}
func VC_C21_ancestors_one() { ancestors(1) }
func VC_C21_ancestors_two() { ancestors(2) }
func VC_C21_ancestors_three() {
	spec.Bounded("stores of at most three headers")
	ancestors(3)
}

// VC_C21_empty: nothing is in a new store.
func VC_C21_empty() {
	s := NewHeaderInmemory()
	tip, err := s.ChainTip(ctx)
	spec.Ensures("an empty store has no tip", tip == nil && err == repository.ErrNoBlocksHeaders)
	_, err = s.GetBlockHeader(ctx, hashAt(1))
	spec.Ensures("and no headers", err == repository.ErrBlockNotFound)
	_, err = s.GetBlockHashByHeight(ctx, spec.Any[uint32]("height"))
	spec.Ensures("at no height", err == repository.ErrBlockNotFound)
	_, err = s.HasAllAncestors(ctx, hashAt(1))
	spec.Ensures("and no ancestors", err != nil)
	_, err = s.LatestBlockLocator(ctx)
	spec.Ensures("and no locator", err == repository.ErrNoBlocksHeaders)
}

// VC_C21_kept: what was written is not changed by what is written later, nor by the caller.
func VC_C21_kept() {
	s := NewHeaderInmemory()
	a, b := headerAt(1, 0), headerAt(2, 1)
	s.WriteHeaders(ctx, a)
	kept := a
	a.Height++
	s.WriteHeaders(ctx, b)
	g, err := s.GetBlockHeader(ctx, hashAt(1))
	spec.Ensures("a stored header stays as it was written", err == nil && same(g, kept))
}
