package node

import (
	"bytes"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func request(kind byte, start uint32, stop [32]byte) []byte {
	return append(append([]byte{kind}, u32(start)...), stop[:]...)
}

// serve hands a request to the node.
func serve(n *node, p *fakePeer, payload []byte) error {
	return n.handleGetCFilters(headerOf("getcfilters", payload), bytes.NewReader(payload), p)
}

// hashOf makes any hash that differs from those with other numbers.
func hashOf(name string, number byte) chainhash.Hash {
	h := chainhash.Hash(spec.Any[[32]byte](name))
	h[0] = number
	return h
}

// illegal sends a request that may not be answered.
func illegal(kind byte, start, end uint32, asked chainhash.Hash) {
	stop, other := hashOf("stop", 1), chainhash.Hash{7}
	if asked[0] == 1 {
		asked = stop
	}
	h := &headersDB{byHash: tableOf(stop, &block.Header{Height: end}), anyHeight: &other}
	f := &filtersDB{get: func(k repository.FilterKey) (*repository.FilterEntry, error) {
		return &repository.FilterEntry{Key: k, NBytes: []byte{1, 2, 3}}, nil
	}}
	n, p := newNode(h, f), newPeer("p", nil)
	err := serve(n, p, request(kind, start, asked))
	spec.Ensures("an illegal request gets no filters and an error", err != nil && len(p.c.writes) == 0)
}

func VC_C09_filter_type() {
	kind, start := spec.Any[byte]("filter type"), spec.Any[uint32]("start")
	spec.Requires(kind != 0)
	illegal(kind, start, start, chainhash.Hash{1})
}

func VC_C09_unknown_stop() {
	start := spec.Any[uint32]("start")
	illegal(0, start, start, hashOf("unknown", 2))
}

func VC_C09_range() {
	start, end := spec.Any[uint32]("start"), spec.Any[uint32]("height of the stop block")
	spec.Requires(end < start || end-start >= 1000)
	illegal(0, start, end, chainhash.Hash{1})
}

// VC_C09_short: a request that ends early.
func VC_C09_short() {
	h := &headersDB{}
	n, p := newNode(h, &filtersDB{}), newPeer("p", nil)
	payload := spec.AnyBytes("payload", spec.AnyLen("length", 36))
	err := serve(n, p, payload)
	spec.Ensures("an incomplete request gets no filters and an error", err != nil && len(p.c.writes) == 0)
}

// VC_C09_serve: legal requests over a few blocks, some of which have no filter.
func VC_C09_serve() {
	spec.Bounded("ranges of at most three blocks are served")
	size := 1 + spec.Choose("blocks above the start", 3)
	network, magic := "testnet", [4]byte{0x41, 0x0e, 0xdd, 0x62}
	if size == 1 {
		network, magic = someNetwork()
	}
	start := spec.Any[uint32]("start")
	spec.Requires(start <= 0xffffffff-uint32(size-1))
	end := start + uint32(size-1)
	stop := hashOf("stop", byte(size))
	hashes := make([]chainhash.Hash, size)
	h := &headersDB{byHash: tableOf(stop, &block.Header{Height: end}), byHeight: map[uint32]*chainhash.Hash{}}
	var want [][]byte
	var kept table[[]byte]
	for i := range hashes {
		hashes[i] = hashOf("hash", byte(1+i))
		if i == size-1 {
			hashes[i] = stop
		}
		what := spec.Choose("what is stored", 3)
		if what > 0 || i == size-1 {
			h.byHeight[start+uint32(i)] = &hashes[i]
		}
		if what == 2 {
			filter := spec.Any[[4]byte]("filter")
			spec.Requires(filter[0] < 0xfd)
			kept.put(hashes[i], filter[:])
			payload := append([]byte{0}, hashes[i][:]...)
			payload = append(append(payload, 4), filter[:]...)
			want = append(want, message(magic, "cfilter", payload))
		}
	}
	outside := hashOf("hash below", 9)
	if start > 0 {
		h.byHeight[start-1] = &outside
		kept.put(outside, []byte{1, 2, 3})
	}
	f := &filtersDB{get: func(k repository.FilterKey) (*repository.FilterEntry, error) {
		if b, ok := kept.get(k.BlockHash); ok && k.FilterType == 0 {
			return &repository.FilterEntry{Key: k, NBytes: b}, nil
		}
		return nil, repository.ErrFilterNotFound
	}}
	n, p := newNodeOn(network, h, f), newPeer("p", nil)
	err := serve(n, p, request(0, start, stop))
	spec.Ensures("a legal request is served", err == nil)
	spec.Ensures("one message for every block that has a filter", len(p.c.writes) == len(want))
	for i, w := range p.c.writes {
		spec.Ensures("each carries the block's own hash and filter, in order", spec.SameBytes(w, want[i]))
	}
}
