package node

import (
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// someHeader is any header of the given height with a signed-block proof.
func someHeader(name string, height uint32) *block.Header {
	prev, root := spec.Any[[32]byte](name+" previous"), spec.Any[[32]byte](name+" root")
	return &block.Header{
		Version: spec.Any[uint32](name+" version") & 0x7fffffff, PrevBlockHash: prev[:], MerkleRoot: root[:],
		Timestamp: spec.Any[uint32](name + " time"), Height: height,
		ExtData: &block.ExtData{Proof: &block.Proof{Challenge: []byte{0x51}, Solution: []byte{}}},
	}
}

// forwarded are the headers handed on for storage.
func forwarded(n *node) (out []block.Header) {
	for {
		select {
		case h := <-n.blockHeadersCh:
			out = append(out, h)
		default:
			return out
		}
	}
}

// asking is the request for headers with an empty locator.
func asking(magic [4]byte) []byte {
	return message(magic, "getheaders", append(append(u32(protocol.Version), 0), make([]byte, 32)...))
}

// headersNode is a node with one registered peer.
func headersNode(h *headersDB) (*node, *fakePeer, [4]byte) {
	network, magic := "testnet", [4]byte{0x41, 0x0e, 0xdd, 0x62}
	n, p := newNodeOn(network, h, &filtersDB{}), newPeer("p", nil)
	n.Peers["p"] = p
	p.tip = spec.Any[uint32]("announced height")
	return n, p, magic
}

// anyTip is a store with any tip, or an empty one whose tip counts as height 0.
func anyTip() (*headersDB, uint64) {
	if spec.Choose("stored headers", 2) == 0 {
		return &headersDB{tipErr: repository.ErrNoBlocksHeaders}, 0
	}
	h := &headersDB{tip: &block.Header{Height: spec.Any[uint32]("tip height")}}
	return h, uint64(h.tip.Height)
}

func sameHeader(g, w *block.Header) bool {
	return g.Version == w.Version && g.Timestamp == w.Timestamp && g.Height == w.Height &&
		spec.SameBytes(g.PrevBlockHash, w.PrevBlockHash) && spec.SameBytes(g.MerkleRoot, w.MerkleRoot) && g.ExtData == w.ExtData
}
