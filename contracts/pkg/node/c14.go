package node

import (
	"bytes"

	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

const compactFilters = 1 << 6

// announcing is the payload of a version message.
func announcing(services uint64, height uint32) []byte {
	at, nonce, to, from := spec.Any[uint64]("time"), spec.Any[uint64]("nonce"), spec.Any[[26]byte]("receiver"), spec.Any[[26]byte]("sender")
	b := append(append(u32(protocol.Version), u64(services)...), u64(at)...)
	b = append(append(b, to[:]...), from[:]...)
	b = append(append(b, u64(nonce)...), 2, 'v', 'x')
	return append(append(b, u32(height)...), byte(spec.Choose("relay", 2)))
}

func registered(n *node, id peer.PeerID, p *fakePeer) bool {
	q, ok := n.Peers[id]
	return ok && q == peer.Peer(p)
}

// VC_C14_ineligible: a peer without compact filters.
func VC_C14_ineligible() {
	services := spec.Any[uint64]("services")
	spec.Requires(services&compactFilters == 0)
	payload := announcing(services, spec.Any[uint32]("height"))
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	err := n.handleVersion(headerOf("version", payload), bytes.NewReader(payload), p)
	spawned := spec.Spawned()
	spec.Settle()
	spec.Ensures("a peer without compact filters is refused", err != nil)
	spec.Ensures("it is not registered", len(n.Peers) == 0)
	spec.Ensures("it gets no message", len(p.c.writes) == 0)
	spec.Ensures("nothing is started for it", spawned <= 0)
}

// VC_C14_eligible: a peer with compact filters, the first or a further one.
func VC_C14_eligible() {
	network, magic := someNetwork()
	services, height := spec.Any[uint64]("services"), spec.Any[uint32]("height")
	spec.Requires(services&compactFilters != 0)
	payload := announcing(services, height)
	n, p, q := newNodeOn(network, &headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("q", nil)
	first := spec.Choose("other peers", 2) == 0
	if !first {
		n.Peers["q"] = q
	}
	err := n.handleVersion(headerOf("version", payload), bytes.NewReader(payload), p)
	spec.Ensures("an eligible peer is admitted", err == nil)
	spec.Ensures("it is registered under its identity", registered(n, "p", p))
	spec.Ensures("others stay registered", first && len(n.Peers) == 1 || len(n.Peers) == 2 && registered(n, "q", q))
	want := height
	if height > 0x7fffffff {
		want = 0
	}
	spec.Ensures("its announced height is kept", p.tip == want)
	spec.Ensures("it gets an acknowledgement", len(p.c.writes) >= 2 && (first || len(p.c.writes) == 2) && spec.SameBytes(p.c.writes[0], message(magic, "verack", nil)))
	spec.Ensures("and then the request for header announcements", spec.SameBytes(p.c.writes[1], message(magic, "sendheaders", nil)))
	spec.Ensures("pongs have somewhere to go", n.peersPongCh["p"] != nil)
}

// VC_C14_sync: only the first peer starts the header sync.
func VC_C14_sync() {
	n, p, q := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("q", nil)
	first := spec.Choose("other peers", 2) == 0
	if !first {
		n.Peers["q"] = q
	}
	err := n.addPeer(p)
	spec.Settle()
	spec.Ensures("the peer is added", err == nil && registered(n, "p", p))
	if first {
		spec.Ensures("the first peer starts the header sync", len(p.c.writes) == 1 && name12("getheaders") == commandOf(p.c.writes[0]))
	} else {
		spec.Ensures("later ones do not", len(p.c.writes) == 0)
	}
	spec.Ensures("others are left alone", len(q.c.writes) == 0)
}

func commandOf(msg []byte) (c [12]byte) {
	copy(c[:], msg[4:])
	return c
}

// VC_C14_again: a version message from an identity that is registered already.
func VC_C14_again() {
	services := spec.Any[uint64]("services")
	payload := announcing(services, spec.Any[uint32]("height"))
	n, p, again := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("p", nil)
	n.Peers["p"] = p
	p.tip = spec.Any[uint32]("kept height")
	kept := p.tip
	err := n.handleVersion(headerOf("version", payload), bytes.NewReader(payload), again)
	spec.Settle()
	spec.Ensures("a registered peer is refused", err != nil)
	spec.Ensures("the existing registration is kept", len(n.Peers) == 1 && registered(n, "p", p) && p.tip == kept)
	spec.Ensures("it is not acknowledged", len(again.c.writes) == 0)
}

// VC_C14_add_again: registering an identity twice keeps the first registration.
func VC_C14_add_again() {
	n, p, again := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("p", nil)
	n.Peers["p"] = p
	spec.Ensures("a registered peer is refused", n.addPeer(again) != nil)
	spec.Ensures("the existing registration is kept", len(n.Peers) == 1 && registered(n, "p", p))
}

// VC_C14_write: a peer that cannot be written to is not admitted.
func VC_C14_write() {
	payload := announcing(compactFilters, spec.Any[uint32]("height"))
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	p.c.failAt = spec.Choose("failed write", 2)
	err := n.handleVersion(headerOf("version", payload), bytes.NewReader(payload), p)
	spec.Ensures("a failed write is an error and nobody is registered", err != nil && len(n.Peers) == 0)
}

// VC_C14_short: a version message that ends early admits nobody.
func VC_C14_short() {
	payload := announcing(compactFilters, spec.Any[uint32]("height"))
	cut := spec.AnyLen("cut", 90)
	spec.Requires(cut < len(payload)-1)
	payload = payload[:cut]
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	err := n.handleVersion(headerOf("version", payload), bytes.NewReader(payload), p)
	spec.Ensures("an incomplete version is an error", err != nil)
	spec.Ensures("and admits nobody", len(n.Peers) == 0 && len(p.c.writes) == 0)
}
