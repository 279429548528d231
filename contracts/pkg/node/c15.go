package node

import (
	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// from makes the request that carries the given locator.
func from(magic [4]byte, hashes ...[]byte) []byte {
	payload := append(u32(protocol.Version), byte(len(hashes)))
	for _, h := range hashes {
		payload = append(payload, h...)
	}
	return message(magic, "getheaders", append(payload, make([]byte, 32)...))
}

func syncing(network string, h *headersDB) (*node, *fakePeer, *fakePeer) {
	n, p, q := newNodeOn(network, h, &filtersDB{}), newPeer("p", nil), newPeer("q", nil)
	n.Peers["p"], n.Peers["q"] = p, q
	return n, p, q
}

func locating(size int) {
	spec.Bounded("locators of at most three hashes, of thirty, and of the longest length")
	network, magic := someNetwork()
	h := &headersDB{}
	var hashes [][]byte
	for i := 0; i < size; i++ {
		b := chainhash.Hash(spec.Any[[32]byte]("hash"))
		h.locator = append(h.locator, &b)
		hashes = append(hashes, b[:])
	}
	n, p, q := syncing(network, h)
	err := n.syncWithPeer("p")
	spec.Ensures("a sync is requested", err == nil)
	spec.Ensures("by one message to that peer", len(p.c.writes) == 1 && len(q.c.writes) == 0)
	spec.Ensures("that carries the locator in order and no stop hash", spec.SameBytes(p.c.writes[0], from(magic, hashes...)))
}

func VC_C15_locator_empty() { locating(0) }
func VC_C15_locator_one()   { locating(1) }
func VC_C15_locator_two()   { locating(2) }
func VC_C15_locator_three() {
	spec.Bounded("locators of at most three hashes, of thirty, and of the longest length")
	locating(3)
}

// VC_C15_locator_longest: the longest locator fits.
func VC_C15_locator_longest() {
	spec.Bounded("locators of at most three hashes, of thirty, and of the longest length")
	b := chainhash.Hash(spec.Any[[32]byte]("hash"))
	h := &headersDB{}
	for i := 0; i < 500; i++ {
		h.locator = append(h.locator, &b)
	}
	n, p, _ := syncing("regtest", h)
	spec.Ensures("the longest locator is sent", n.syncWithPeer("p") == nil && len(p.c.writes) == 1)
	w := p.c.writes[0]
	spec.Ensures("whole", len(w) == 24+4+3+500*32+32)
	spec.Ensures("after its count", spec.SameBytes(w[24:31], append(u32(protocol.Version), 0xfd, 0xf4, 1)))
	for _, k := range []int{0, 1, 9, 10, 11, 99, 249, 498, 499} {
		spec.Ensures("with the hashes", spec.SameBytes(w[31+32*k:63+32*k], b[:]))
	}
	spec.Ensures("and no stop hash", spec.SameBytes(w[31+500*32:], make([]byte, 32)))
}

// VC_C15_locator_usual: a locator of the length a synchronised chain has.
func VC_C15_locator_usual() {
	spec.Bounded("locators of at most three hashes, of thirty, and of the longest length")
	locating(30)
}

// VC_C15_genesis: an empty store asks from the network's genesis block.
func VC_C15_genesis() {
	network, magic := someNetwork()
	genesis := map[string]string{
		"liquid":  "1466275836220db2944ca059a3a10ef6fd2ea684b0688d2c379296888a206003",
		"testnet": "a771da8e52ee6ad581ed1e9a99825e5b3b7992225534eaa2ae23244fe26ab1c1",
		"regtest": "00902a6b70c2ca83b5d9c815d96a0e2f4202179316970d14ea1847dae5b1ca21",
	}[network]
	want := make([]byte, 32)
	for i := range want {
		want[31-i] = digit(genesis[2*i])<<4 | digit(genesis[2*i+1])
	}
	n, p, q := syncing(network, &headersDB{locatorErr: repository.ErrNoBlocksHeaders})
	err := n.syncWithPeer("p")
	spec.Ensures("a sync is requested", err == nil && len(p.c.writes) == 1 && len(q.c.writes) == 0)
	spec.Ensures("from the genesis block of the network", spec.SameBytes(p.c.writes[0], from(magic, want)))
}

func digit(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - '0'
}

// VC_C15_storage: any other storage error sends nothing, even with a locator.
func VC_C15_storage() {
	b := chainhash.Hash(spec.Any[[32]byte]("hash"))
	n, p, q := syncing("regtest", &headersDB{locator: blockchain.BlockLocator{&b}, locatorErr: errFake})
	err := n.syncWithPeer("p")
	spec.Ensures("a storage failure is reported", err != nil)
	spec.Ensures("and nothing is sent", len(p.c.writes) == 0 && len(q.c.writes) == 0)
}

// VC_C15_unknown: a peer that is not registered gets nothing.
func VC_C15_unknown() {
	n, p, q := syncing("regtest", &headersDB{})
	spec.Ensures("an unknown peer is an error", n.syncWithPeer("x") != nil)
	spec.Ensures("and nothing is sent", len(p.c.writes) == 0 && len(q.c.writes) == 0)
}

// VC_C15_write: a failed write is reported.
func VC_C15_write() {
	n, p, _ := syncing("regtest", &headersDB{})
	p.c.failAt = 0
	spec.Ensures("a failed write is an error", n.syncWithPeer("p") != nil)
}
