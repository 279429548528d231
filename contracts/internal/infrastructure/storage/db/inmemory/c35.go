package inmemory

import (
	"context"

	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C35_headers: any operation on the store of headers.
func VC_C35_headers() {
	spec.Bounded("at most two headers")
	h := NewHeaderInmemory().(*headerInmemory)
	n := byte(spec.Choose("headers", 3))
	for i := byte(1); i <= n; i++ {
		b := headerAt(i, i-1)
		b.Height = uint32(i - 1)
		h.headers[hashAt(i)] = &b
	}
	spec.GuardMap("the headers", h.headers, h.locker)
	spec.Guard("the table of headers", &h.headers, h.locker)
	ctx, hash := context.Background(), hashAt(byte(1+spec.Choose("header", 3)))
	switch spec.Choose("operation", 6) {
	case 0:
		h.ChainTip(ctx)
	case 1:
		h.GetBlockHeader(ctx, hash)
	case 2:
		h.GetBlockHashByHeight(ctx, uint32(spec.Choose("height", 3)))
	case 3:
		h.WriteHeaders(ctx, headerAt(2, 1), headerAt(9, 2))
	case 4:
		h.LatestBlockLocator(ctx)
	case 5:
		h.HasAllAncestors(ctx, hash)
	}
	spec.Ensures("the lock is released", spec.LockFree(h.locker))
}

// VC_C35_filters: any operation on the store of filters.
func VC_C35_filters() {
	f := NewFilterInmemory().(*FilterInmemory)
	key := repository.FilterKey{BlockHash: make([]byte, 32), FilterType: repository.FilterType(spec.Any[uint8]("type"))}
	spec.GuardMap("the filters", f.filtersByHash, f.locker)
	spec.Guard("the table of filters", &f.filtersByHash, f.locker)
	ctx := context.Background()
	f.GetFilter(ctx, key)
	spec.Ensures("the lock is released when nothing is found", spec.LockFree(f.locker))
	f.PutFilter(ctx, &repository.FilterEntry{Key: key, NBytes: []byte{1}})
	spec.Ensures("the lock is released after it is stored", spec.LockFree(f.locker))
	f.GetFilter(ctx, key)
	spec.Ensures("the lock is released after it is found", spec.LockFree(f.locker))
}
