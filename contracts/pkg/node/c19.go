package node

import (
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var (
	submitted  *transaction.Transaction
	serialised []byte
	decodedHex string
)

// The dependency turns a text into a transaction or refuses it.
//
//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromHex
func txFromHex(text string) (*transaction.Transaction, error) {
	decodedHex = text
	if submitted == nil {
		switch spec.Choose("refusal", 2) {
		case 0:
			return nil, errFake
		default:
			panic("verif: decoder panic")
		}
	}
	return submitted, nil
}

// The dependency's serialisation of the transaction.
//
//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).Serialize
func serialize(t *transaction.Transaction) ([]byte, error) {
	if t.Locktime != submitted.Locktime || t.Version != submitted.Version {
		return []byte{0}, nil
	}
	return serialised, nil
}

func submit(peers int) {
	spec.Bounded("at most three peers")
	network, magic := someNetwork()
	text := string(spec.AnyBytes("text", spec.AnyLen("text length", 1<<22)))
	submitted = &transaction.Transaction{Version: spec.Any[int32]("version"), Locktime: spec.Any[uint32]("locktime")}
	serialised = spec.AnyBytes("serialisation", spec.AnyLen("length", 1<<22))
	n := newNodeOn(network, &headersDB{}, &filtersDB{})
	names := []string{"p", "q", "r"}
	var ps []*fakePeer
	fails := false
	for i := 0; i < peers; i++ {
		p := newPeer(names[i], nil)
		if spec.Choose("write outcome", 2) > 0 {
			p.c.failAt = 0
			fails = true
		}
		ps = append(ps, p)
		n.Peers[peer.PeerID(names[i])] = p
	}
	err := n.SendTransaction(text)
	spec.Ensures("the text is decoded as it is", decodedHex == text)
	spec.Ensures("a failed write is reported, success only when all were written", (err != nil) == fails)
	want := message(magic, "tx", serialised)
	for _, p := range ps {
		if !fails {
			spec.Ensures("every peer gets one message", len(p.c.writes) == 1)
		}
		for _, w := range p.c.writes {
			spec.Ensures("that carries the exact serialisation", len(p.c.writes) == 1 && spec.SameBytes(w, want))
		}
	}
}

func VC_C19_no_peer()  { submit(0) }
func VC_C19_one_peer() { submit(1) }
func VC_C19_two_peers() { submit(2) }
func VC_C19_three_peers() {
	spec.Bounded("at most three peers")
	submit(3)
}

// VC_C19_undecodable: whatever the reason, nobody gets anything.
func VC_C19_undecodable() {
	submitted = nil
	n, p := newNode(&headersDB{}, &filtersDB{}), newPeer("p", nil)
	n.Peers["p"] = p
	err := n.SendTransaction("00")
	spec.Ensures("a text that is no transaction is an error", err != nil)
	spec.Ensures("and nothing is sent", len(p.c.writes) == 0)
}
