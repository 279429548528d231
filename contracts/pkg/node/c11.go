package node

import (
	"bytes"

	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C11_ping: any ping on any network is answered with one pong on that connection.
func VC_C11_ping() {
	network, magic := someNetwork()
	nonce := spec.Any[uint64]("nonce")
	payload := u64(nonce)
	n, p, other := newNodeOn(network, &headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("q", nil)
	n.Peers["q"] = other
	p.c.flaky = true
	n.handlePing(headerOf("ping", payload), bytes.NewReader(payload), p)
	failed := len(p.c.writes) == 0 && !p.c.flaky
	if !failed {
		spec.Ensures("exactly one message answers", len(p.c.writes) == 1)
		spec.Ensures("it is a pong carrying the nonce", spec.SameBytes(p.c.writes[0], message(magic, "pong", u64(nonce))))
	}
	spec.Ensures("nobody else gets anything", len(other.c.writes) == 0)
}

// VC_C11_ping_ok: the answer is reported as sent.
func VC_C11_ping_ok() {
	nonce := spec.Any[uint64]("nonce")
	payload := u64(nonce)
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	err := n.handlePing(headerOf("ping", payload), bytes.NewReader(payload), p)
	spec.Ensures("a well formed ping is handled without error", err == nil && len(p.c.writes) == 1)
}

// VC_C11_ping_short: a ping whose payload ends before the nonce does.
func VC_C11_ping_short() {
	payload := spec.AnyBytes("payload", spec.AnyLen("length", 7))
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	err := n.handlePing(headerOf("ping", payload), bytes.NewReader(payload), p)
	spec.Ensures("a ping that is too short is not answered", len(p.c.writes) == 0)
	spec.Ensures("and is an error", err != nil)
}

// VC_C11_from_peer: from the wire to the wire, two pings in a row.
func VC_C11_from_peer() {
	first, second := spec.Any[uint64]("first nonce"), spec.Any[uint64]("second nonce")
	in := append(message(regtest, "ping", u64(first)), message(regtest, "ping", u64(second))...)
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", in)
	spec.UntilBlocked(func() { n.handlePeerMessages(p) })
	spec.Ensures("every ping is answered once", len(p.c.writes) == 2)
	spec.Ensures("the first with its nonce", spec.SameBytes(p.c.writes[0], message(regtest, "pong", u64(first))))
	spec.Ensures("the second with its nonce", spec.SameBytes(p.c.writes[1], message(regtest, "pong", u64(second))))
}

// VC_C11_pong: a pong delivers its nonce to the monitor and sends nothing.
func VC_C11_pong() {
	nonce := spec.Any[uint64]("nonce")
	payload := u64(nonce)
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	err := n.handlePong(headerOf("pong", payload), bytes.NewReader(payload), p)
	got := nonces(n)
	spec.Ensures("a pong is delivered", err == nil && len(got) == 1)
	spec.Ensures("with exactly its nonce", got[0] == nonce)
	spec.Ensures("a pong is not answered", len(p.c.writes) == 0)
}

// VC_C11_pong_short: an incomplete pong delivers nothing.
func VC_C11_pong_short() {
	payload := spec.AnyBytes("payload", spec.AnyLen("length", 7))
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	err := n.handlePong(headerOf("pong", payload), bytes.NewReader(payload), p)
	spec.Ensures("an incomplete pong is an error and delivers nothing", err != nil && len(nonces(n)) == 0)
}

// VC_C11_monitor: the monitor hands a pong to the peer whose ping it answers.
func VC_C11_monitor() {
	nonce, other := spec.Any[uint64]("nonce"), spec.Any[uint64]("other nonce")
	spec.Requires(nonce != other)
	n, p, q := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil), newPeer("q", nil)
	n.Peers["p"], n.Peers["q"] = p, q
	n.peersPongCh["p"], n.peersPongCh["q"] = make(chan uint64, 1), make(chan uint64, 1)
	n.pingsCh <- peerPing{nonce: nonce, peerID: peer.PeerID("p")}
	n.pingsCh <- peerPing{nonce: other, peerID: peer.PeerID("q")}
	n.pongsCh <- nonce
	spec.UntilBlocked(n.monitorPeers)
	spec.Ensures("a peer is given nobody else's nonce", len(n.peersPongCh["q"]) == 0)
	spec.Ensures("a pong is delivered at most once", len(n.peersPongCh["p"]) <= 1)
	select {
	case v := <-n.peersPongCh["p"]:
		spec.Ensures("and with its own nonce", v == nonce)
	default:
	}
}
