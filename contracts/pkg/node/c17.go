package node

import (
	"bytes"
	"context"

	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/btcutil/gcs/builder"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// recording is a store whose writes may fail.
type recording struct {
	headersDB
	failed []bool
	stored []block.Header
}

func (d *recording) WriteHeaders(_ context.Context, hs ...block.Header) error {
	fails := spec.Choose("write outcome", 2) > 0
	d.failed = append(d.failed, fails)
	d.stored = append(d.stored, hs...)
	if fails {
		return errFake
	}
	return nil
}

// asksFilter is the request for the filter of one block.
func asksFilter(magic [4]byte, h *block.Header) []byte {
	hash, _ := h.Hash()
	return message(magic, "getcfilters", append(append([]byte{0}, u32(h.Height)...), hash[:]...))
}

// storing hands headers to the monitor while one peer is connected.
func storing(size int) {
	spec.Bounded("at most three headers")
	d := &recording{}
	n, p, magic := headersNode(&d.headersDB)
	n.blockHeadersDb = d
	var hs []*block.Header
	for i := 0; i < size; i++ {
		h := someHeader("header", spec.Any[uint32]("height"))
		hs = append(hs, h)
		n.blockHeadersCh <- *h
	}
	spec.UntilBlocked(n.monitorBlockHeaders)
	spec.Ensures("every header is written once", len(d.stored) == size && len(d.failed) == size)
	var want [][]byte
	for i := range d.stored {
		spec.Ensures("in order and unchanged", sameHeader(&d.stored[i], hs[i]))
		if !d.failed[i] {
			want = append(want, asksFilter(magic, hs[i]))
		}
	}
	spec.Ensures("one request for every header that was written", len(p.c.writes) == len(want))
	for i := range want {
		spec.Ensures("for its height and its hash", spec.SameBytes(p.c.writes[i], want[i]))
	}
}

func VC_C17_one_header() { storing(1) }
func VC_C17_two_headers() { storing(2) }
func VC_C17_three_headers() {
	spec.Bounded("at most three headers")
	storing(3)
}

// VC_C17_networks: the request is made for the node's network, to one of the peers.
func VC_C17_networks() {
	network, magic := someNetwork()
	n, p, q := newNodeOn(network, &headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("q", nil)
	n.Peers["p"], n.Peers["q"] = p, q
	h := someHeader("header", spec.Any[uint32]("height"))
	n.blockHeadersCh <- *h
	spec.UntilBlocked(n.monitorBlockHeaders)
	writes := append(p.c.writes, q.c.writes...)
	spec.Ensures("exactly one request is sent", len(writes) == 1)
	spec.Ensures("on the network of the node", spec.SameBytes(writes[0], asksFilter(magic, h)))
}

// VC_C17_no_peer: without a peer headers are still written; a failed request does not end the service.
func VC_C17_no_peer() {
	d := &headersDB{}
	n, p := newNode(d, &filtersDB{}), newPeer("p", nil)
	connected := spec.Choose("connected", 2) > 0
	if connected {
		n.Peers["p"] = p
		p.c.failAt = 0
	}
	h := someHeader("header", spec.Any[uint32]("height"))
	n.blockHeadersCh <- *h
	n.blockHeadersCh <- *h
	spec.UntilBlocked(n.monitorBlockHeaders)
	spec.Ensures("all headers are written", d.writeCalls == 2 && len(d.written) == 2)
	spec.Ensures("and unchanged", sameHeader(&d.written[0], h) && sameHeader(&d.written[1], h))
}

// failing is a store of filters that may fail.
type failing struct{ filtersDB }

func (d *failing) PutFilter(_ context.Context, e *repository.FilterEntry) error {
	d.puts = append(d.puts, e)
	if spec.Choose("put outcome", 2) > 0 {
		return errFake
	}
	return nil
}

// VC_C17_filters: any filters, of any type and length.
func VC_C17_filters() {
	spec.Bounded("at most two filters are observed in a row")
	d := &failing{}
	n := newNode(&headersDB{}, &d.filtersDB)
	n.filtersDb = d
	var kinds []byte
	hashes := make([]chainhash.Hash, 2)
	var filters [][]byte
	for i := 0; i < 2; i++ {
		kinds = append(kinds, spec.Any[byte]("type"))
		hashes[i] = spec.Any[[32]byte]("hash")
		short := spec.Any[[3]byte]("short filter")
		f := short[:]
		if i == 0 {
			f = spec.AnyBytes("filter", spec.AnyLen("length", 4000000))
		}
		spec.Requires(len(f) > 0 && f[0] < 0xfd)
		filters = append(filters, f)
		filter, err := gcs.FromNBytes(builder.DefaultP, builder.DefaultM, f)
		n.compactFiltersCh <- protocol.MsgCFilter{FilterType: kinds[i], BlockHash: &hashes[i], Filter: filter}
		spec.Ensures("a filter is made", err == nil)
	}
	spec.UntilBlocked(n.monitorCFilters)
	spec.Ensures("every filter is stored once", len(d.puts) == 2)
	for i, e := range d.puts {
		spec.Ensures("under its own type", byte(e.Key.FilterType) == kinds[i])
		spec.Ensures("and block", spec.SameBytes(e.Key.BlockHash, hashes[i][:]))
		spec.Ensures("with its own bytes", spec.SameBytes(e.NBytes, filters[i]))
	}
}

// VC_C17_received: a filter that arrives is handed on for storage once.
func VC_C17_received() {
	d := &failing{}
	n := newNode(&headersDB{}, &d.filtersDB)
	n.filtersDb = d
	hash, f := spec.Any[[32]byte]("hash"), spec.Any[[5]byte]("filter")
	spec.Requires(f[0] < 0xfd)
	payload := append(append([]byte{0}, hash[:]...), 5)
	payload = append(payload, f[:]...)
	err := n.handleCFilter(headerOf("cfilter", payload), bytes.NewReader(payload), newPeer("p", nil))
	spec.Ensures("a filter is taken", err == nil)
	spec.UntilBlocked(n.monitorCFilters)
	spec.Ensures("and stored once", len(d.puts) == 1)
	spec.Ensures("under its block", d.puts[0].Key.FilterType == 0 && spec.SameBytes(d.puts[0].Key.BlockHash, hash[:]))
	spec.Ensures("with its bytes", spec.SameBytes(d.puts[0].NBytes, f[:]))
}
