package node

import (
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
)

// Transactions made by contracts are told apart by their lock time, which stands
// for the bytes that determine the identifier.
func hashOfTx(t *transaction.Transaction) (h chainhash.Hash) {
	h[0] = byte(t.Locktime)
	return h
}

func idOf(number byte) string {
	h := chainhash.Hash{number}
	return h.String()
}

func txOf(number byte) *transaction.Transaction { return &transaction.Transaction{Locktime: uint32(number)} }

func blockOf(numbers ...byte) block.Block {
	b := block.Block{TransactionsData: &block.Transactions{}}
	for _, k := range numbers {
		b.TransactionsData.Transactions = append(b.TransactionsData.Transactions, txOf(k))
	}
	return b
}
