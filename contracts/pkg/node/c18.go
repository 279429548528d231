package node

import (
	"bytes"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func txHash(t *transaction.Transaction) chainhash.Hash { return hashOfTx(t) }

var arriving *transaction.Transaction

//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromBuffer
func txFromBuffer(*bytes.Buffer) (*transaction.Transaction, error) {
	if arriving == nil {
		return nil, errFake
	}
	return arriving, nil
}

// arrive has a peer deliver a transaction.
func arrive(n *node, tx *transaction.Transaction) error {
	arriving = tx
	err := n.handleTx(headerOf("tx", nil), bytes.NewReader(nil), newPeer("p", nil))
	spec.UntilBlocked(n.memPool.listenForNewTxs)
	spec.Settle()
	return err
}

func confirm(n *node, numbers ...byte) {
	n.memPool.CheckTxConfirmed(blockOf(numbers...))
	spec.Settle()
}

type seen struct {
	kind TxEventType
	id   string
}

// events are the events a subscriber was sent.
func events(c <-chan TxEvent) (out []seen) {
	for {
		select {
		case e := <-c:
			out = append(out, seen{e.Type(), e.TxID()})
		default:
			return out
		}
	}
}

func count(es []seen, kind TxEventType, id string) (k int) {
	for _, e := range es {
		if e.kind == kind && e.id == id {
			k++
		}
	}
	return k
}

// VC_C18_history: any history of three arrivals and blocks over three transactions.
func VC_C18_history() {
	spec.Bounded("histories of three events over three transactions, two subscribers")
	n := newNode(&headersDB{}, &filtersDB{})
	first := n.memPool.AddSubscriber("first")
	second := n.memPool.AddSubscriber("second")
	pool := map[byte]bool{}
	arrived, confirmed := map[byte]int{}, map[byte]int{}
	for i := 0; i < 3; i++ {
		switch spec.Choose("event", 5) {
		case 0, 1:
			k := byte(1 + spec.Choose("which", 2))
			spec.Ensures("a transaction is taken", arrive(n, txOf(k)) == nil)
			if !pool[k] {
				arrived[k]++
			}
			pool[k] = true
		case 2:
			confirm(n, 1)
			if pool[1] {
				confirmed[1]++
			}
			delete(pool, 1)
		case 3:
			confirm(n, 3)
		case 4:
			confirm(n, 3, 1, 2)
			for k := range pool {
				confirmed[k]++
			}
			pool = map[byte]bool{}
		}
		now := n.memPool.GetMemPool()
		spec.Ensures("the pool holds exactly the unconfirmed transactions", len(now) == len(pool))
		for k := byte(1); k <= 3; k++ {
			tx, in := now[idOf(k)]
			spec.Ensures("under their identifiers", in == pool[k] && (!in || tx.Locktime == uint32(k)))
		}
	}
	es := events(first)
	for k := byte(1); k <= 3; k++ {
		spec.Ensures("every arrival is announced as unconfirmed", count(es, TxUnConfirmed, idOf(k)) >= arrived[k])
		spec.Ensures("only arrivals are", arrived[k] > 0 || count(es, TxUnConfirmed, idOf(k)) == 0)
		spec.Ensures("every removal is announced as confirmed, once", count(es, TxConfirmed, idOf(k)) == confirmed[k])
	}
	other := events(second)
	spec.Ensures("every subscriber is told", len(other) == len(es))
	for k := byte(1); k <= 3; k++ {
		spec.Ensures("the same", count(es, TxUnConfirmed, idOf(k)) == count(other, TxUnConfirmed, idOf(k)) && count(es, TxConfirmed, idOf(k)) == count(other, TxConfirmed, idOf(k)))
	}
}

// VC_C18_again: a transaction that is present already is left as it is.
func VC_C18_again() {
	n := newNode(&headersDB{}, &filtersDB{})
	old, again := txOf(1), txOf(1)
	old.Version, again.Version = spec.Any[int32]("version"), spec.Any[int32]("version again")
	spec.Requires(old.Version != again.Version)
	arrive(n, old)
	at := n.memPool.txs[idOf(1)].timeReceived
	arrive(n, again)
	spec.Ensures("adding a present transaction changes nothing", len(n.memPool.txs) == 1 &&
		n.memPool.txs[idOf(1)].tx.Version == old.Version && n.memPool.txs[idOf(1)].timeReceived == at)
}

// VC_C18_undecodable: what is no transaction does not reach the pool.
func VC_C18_undecodable() {
	n := newNode(&headersDB{}, &filtersDB{})
	c := n.memPool.AddSubscriber("s")
	err := arrive(n, nil)
	spec.Ensures("a payload that is no transaction is an error", err != nil)
	spec.Ensures("and adds nothing", len(n.memPool.GetMemPool()) == 0 && len(events(c)) == 0)
}

// VC_C18_contents: the pool and the events carry the transaction as it arrived.
func VC_C18_contents() {
	n := newNode(&headersDB{}, &filtersDB{})
	tx := txOf(1)
	tx.Version = spec.Any[int32]("version")
	arrive(n, tx)
	got, in := n.memPool.GetMemPool()[idOf(1)]
	spec.Ensures("the pool holds the transaction", in && got.Version == tx.Version && got.Locktime == tx.Locktime)
}

// VC_C18_snapshot: what the pool hands out is a copy.
func VC_C18_snapshot() {
	n := newNode(&headersDB{}, &filtersDB{})
	arrive(n, txOf(1))
	delete(n.memPool.GetMemPool(), idOf(1))
	_, in := n.memPool.GetMemPool()[idOf(1)]
	spec.Ensures("changing the answer leaves the pool alone", in)
}

// VC_C18_direct: transactions that arrive on the pool itself, and a subscriber that came late.
func VC_C18_direct() {
	m := NewMemPool()
	m.AddTx(protocol.MsgTx{Transaction: *txOf(1)})
	spec.UntilBlocked(m.listenForNewTxs)
	spec.Settle()
	late := m.AddSubscriber("late")
	m.AddTx(protocol.MsgTx{Transaction: *txOf(2)})
	spec.UntilBlocked(m.listenForNewTxs)
	spec.Settle()
	es := events(late)
	spec.Ensures("both are in the pool", len(m.GetMemPool()) == 2)
	spec.Ensures("a late subscriber is told of what comes", len(es) == 1 && count(es, TxUnConfirmed, idOf(2)) == 1)
}
