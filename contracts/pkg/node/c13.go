package node

import (
	"bytes"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var delivered *block.Block

// The dependency's decoder returns some block.
//
//verif:model github.com/vulpemventures/go-elements/block.NewFromBuffer
func blockFromBuffer(buf *bytes.Buffer) (*block.Block, error) {
	if delivered == nil {
		return nil, errFake
	}
	return delivered, nil
}

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func txHash(t *transaction.Transaction) chainhash.Hash { return hashOfTx(t) }

// VC_C13_block: any block, any tip, any announced height.
func VC_C13_block() {
	h, tip := anyTip()
	n, p, magic := headersNode(h)
	announced := p.tip
	hdr := someHeader("header", spec.Any[uint32]("height"))
	inside, outside := txOf(1), txOf(2)
	n.memPool.txs[idOf(1)] = txData{tx: *inside}
	n.memPool.txs[idOf(2)] = txData{tx: *outside}
	delivered = &block.Block{Header: hdr, TransactionsData: &block.Transactions{Transactions: []*transaction.Transaction{inside}}}
	err := n.handleBlock(headerOf("block", nil), bytes.NewReader(nil), p)
	spec.Settle()
	got := forwarded(n)
	pool := n.memPool.GetMemPool()
	_, in := pool[idOf(1)]
	_, out := pool[idOf(2)]
	spec.Ensures("a block is handled", err == nil)
	spec.Ensures("transactions outside the block stay in the pool", out)
	if uint64(hdr.Height) == tip+1 {
		spec.Ensures("the next block is forwarded once", len(got) == 1)
		spec.Ensures("unchanged", sameHeader(&got[0], hdr))
		spec.Ensures("its transactions are confirmed", !in)
		spec.Ensures("and the announced height does not go down", p.tip >= announced)
		return
	}
	spec.Ensures("another block stores nothing", len(got) == 0)
	spec.Ensures("and confirms nothing", in)
	if hdr.Height > announced {
		spec.Ensures("a higher block raises the announced height", p.tip == hdr.Height)
		spec.Ensures("and starts a sync with the peer", len(p.c.writes) == 1 && spec.SameBytes(p.c.writes[0], asking(magic)))
	} else {
		spec.Ensures("the announced height stays otherwise", p.tip == announced)
		spec.Ensures("and no sync is started", len(p.c.writes) == 0)
	}
}

// VC_C13_undecodable: a payload that is no block changes nothing.
func VC_C13_undecodable() {
	h, _ := anyTip()
	n, p, _ := headersNode(h)
	announced := p.tip
	delivered = nil
	err := n.handleBlock(headerOf("block", nil), bytes.NewReader(nil), p)
	spec.Ensures("a payload that is no block is an error", err != nil)
	spec.Ensures("and changes nothing", len(forwarded(n)) == 0 && p.tip == announced && len(p.c.writes) == 0)
}

// VC_C13_storage: without knowing the tip nothing is stored.
func VC_C13_storage() {
	n, p, _ := headersNode(&headersDB{tipErr: errFake})
	announced := p.tip
	delivered = &block.Block{Header: someHeader("header", spec.Any[uint32]("height")), TransactionsData: &block.Transactions{}}
	err := n.handleBlock(headerOf("block", nil), bytes.NewReader(nil), p)
	spec.Ensures("a storage failure is an error", err != nil)
	spec.Ensures("and changes nothing", len(forwarded(n)) == 0 && p.tip == announced && len(p.c.writes) == 0)
}
