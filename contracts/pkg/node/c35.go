package node

import (
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func txHash(t *transaction.Transaction) chainhash.Hash { return hashOfTx(t) }

//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromHex
func txFromHex(string) (*transaction.Transaction, error) { return txOf(1), nil }

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).Serialize
func serialize(*transaction.Transaction) ([]byte, error) { return []byte{1}, nil }

// guardPool declares what the locks of the memory pool protect.
func guardPool(m *MemPool) {
	spec.GuardMap("the transactions of the pool", m.txs, m.txsMutex)
	spec.Guard("the table of transactions", &m.txs, m.txsMutex)
	spec.Guard("the subscribers of the pool", &m.txSubscribers, m.txSubscribersMutex)
}

// VC_C35_pool: any operation on the memory pool, with and without content.
func VC_C35_pool() {
	spec.Bounded("at most two transactions and subscribers")
	m := NewMemPool()
	for i, k := 0, spec.Choose("transactions", 3); i < k; i++ {
		m.txs[idOf(byte(i))] = txData{tx: *txOf(byte(i))}
	}
	for i, k := 0, spec.Choose("subscribers", 3); i < k; i++ {
		m.txSubscribers = append(m.txSubscribers, txSubscriber{id: "s", txEvent: make(chan TxEvent, 10)})
	}
	guardPool(&m)
	switch spec.Choose("operation", 7) {
	case 0:
		m.GetMemPool()
	case 1:
		m.AddSubscriber("t")
	case 2:
		// of a block that confirms some of the pool and others
		m.CheckTxConfirmed(blockOf(0, 7, 1))
	case 3:
		m.removeTxFromMemPool(idOf(byte(spec.Choose("removed", 3))))
	case 4:
		if spec.Native() {
			m.txChan = make(chan protocol.MsgTx, 1)
		}
		m.Start()
		m.AddTx(protocol.MsgTx{Transaction: *txOf(byte(spec.Choose("added", 3)))})
	case 5:
		m.notifySubscribers(TxConfirmedEvent{txID: idOf(0)})
	case 6:
		m.Stop()
	}
	spec.Settle()
	spec.Ensures("the lock of the transactions is released", spec.LockFree(m.txsMutex))
	spec.Ensures("the lock of the subscribers is released", spec.LockFree(m.txSubscribersMutex))
}

// VC_C35_peers: any operation on the table of peers.
func VC_C35_peers() {
	spec.Bounded("at most two peers")
	n := newNode(&headersDB{}, &filtersDB{})
	for _, id := range []peer.PeerID{"q", "r"}[:spec.Choose("peers", 3)] {
		q := newPeer(string(id), nil)
		q.tip = spec.Any[uint32]("tip")
		n.Peers[id], n.peersPongCh[id] = q, make(chan uint64, 1)
	}
	spec.GuardMap("the table of peers", n.Peers, &n.peersMutex)
	spec.GuardMap("the table of pongs", n.peersPongCh, &n.peersMutex)
	id := []peer.PeerID{"p", "q"}[spec.Choose("peer", 2)]
	switch spec.Choose("operation", 5) {
	case 0:
		n.addPeer(newPeer(string(id), nil))
	case 1:
		n.disconnectPeer(id)
	case 2:
		n.getBestPeerForSync()
	case 3:
		n.SendTransaction("00")
	case 4:
		n.handlePong(headerOf("pong", u64(7)), spec.NewStream(u64(7)), newPeer(string(id), nil))
	}
	spec.Settle()
	spec.Ensures("the lock is released", spec.LockFree(&n.peersMutex))
}
