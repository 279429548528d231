package dbpg

import (
	"context"

	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// chain stores a header of every height up to the tip but the missing ones.
func chain(tip int, missing func(height int) bool) repository.BlockHeaderRepository {
	d = &database{}
	for i := 0; i <= tip; i++ {
		if !missing(i) {
			d.headers = append(d.headers, row(headerAt(byte(i), byte(i-1), uint32(i))))
		}
	}
	repo, _ := NewHeaderRepositoryImpl(service())
	return repo
}

// VC_C22_pg: the locator of a chain in the database.
func VC_C22_pg() {
	spec.Bounded("chains of chosen lengths up to 76 blocks")
	tips := []int{0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 25, 40, 41, 73, 75}
	tip := tips[spec.Choose("tip", len(tips))]
	l, err := chain(tip, func(int) bool { return false }).LatestBlockLocator(context.Background())
	spec.Ensures("a locator is built", err == nil && len(l) >= 1)
	spec.Ensures("never longer than the protocol maximum", len(l) <= 500)
	last := tip + 1
	for i, h := range l {
		height := int(h[0])
		spec.Ensures("all its hashes are of stored headers", height <= tip && *h == hashAt(byte(height)))
		if i == 0 {
			spec.Ensures("it starts with the tip", height == tip)
			continue
		}
		spec.Ensures("heights go down after the first entry", height < last)
		last = height
	}
}

// VC_C22_pg_gap: a missing header is an error or is not needed.
func VC_C22_pg_gap() {
	spec.Bounded("chains of 17 blocks")
	gap := spec.Choose("missing", 16)
	l, err := chain(16, func(i int) bool { return i == gap }).LatestBlockLocator(context.Background())
	if err != nil {
		spec.Ensures("no locator with an error", len(l) == 0)
		return
	}
	for _, h := range l {
		spec.Ensures("all its hashes are of stored headers", int(h[0]) <= 16 && int(h[0]) != gap && *h == hashAt(h[0]))
	}
}

// VC_C22_pg_empty: there is no locator of nothing.
func VC_C22_pg_empty() {
	_, err := chain(-1, func(int) bool { return true }).LatestBlockLocator(context.Background())
	spec.Ensures("an empty store has no locator", err == repository.ErrNoBlocksHeaders)
}
