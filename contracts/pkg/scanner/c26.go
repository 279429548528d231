package scanner

import (
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/transaction"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

const script = 40 // bytes at most

func anyScript() []byte { return spec.AnyBytes("script", spec.AnyLen("script length", script)) }

// outputs is a transaction with that many outputs with any scripts.
func paying(n int) (*transaction.Transaction, [][]byte) {
	tx := &transaction.Transaction{}
	var scripts [][]byte
	for i := 0; i < n; i++ {
		s := anyScript()
		scripts = append(scripts, s)
		tx.Outputs = append(tx.Outputs, &transaction.TxOutput{Script: s})
	}
	return tx, scripts
}

func unspent(n int) {
	spec.Bounded("transactions with at most four outputs")
	watched := anyScript()
	tx, scripts := paying(n)
	if n > 0 && spec.Native() && spec.Flip() {
		watched = append([]byte{}, scripts[spec.Upto(n-1)]...)
	}
	w := &UnspentWatchItem{outputScript: watched}
	pays := false
	for _, s := range scripts {
		pays = pays || spec.SameBytes(s, watched)
	}
	spec.Ensures("matches exactly when an output pays to the script", w.Match(tx) == pays)
	spec.Ensures("the watched script is looked up in filters", spec.SameBytes(w.Bytes(), watched))
	spec.Ensures("reports its own event", w.EventType() == UnspentUtxo)
}

func VC_C26_unspent_none() { unspent(0) }
func VC_C26_unspent_one()  { unspent(1) }
func VC_C26_unspent_two()  { unspent(2) }
func VC_C26_unspent_four() {
	spec.Bounded("transactions with at most four outputs")
	unspent(4)
}

// spending is a transaction with that many inputs, whose hashes may have any length.
func spending(n int) *transaction.Transaction {
	tx := &transaction.Transaction{}
	for i := 0; i < n; i++ {
		var h []byte
		switch spec.Choose("length of the hash", 4) {
		case 0:
			h = spec.AnyBytes("hash", 32)
		case 1:
			h = spec.AnyBytes("hash", 31)
		case 2:
			h = spec.AnyBytes("hash", 33)
		}
		tx.Inputs = append(tx.Inputs, &transaction.TxInput{Hash: h, Index: spec.Any[uint32]("index")})
	}
	return tx
}

func spent(n int) {
	spec.Bounded("transactions with at most three inputs")
	hash, index := spec.AnyBytes("watched hash", 32), spec.Any[uint32]("watched index")
	watched := spec.AnyBytes("script", 22)
	tx := spending(n)
	if n > 0 && spec.Native() && spec.Flip() {
		in := tx.Inputs[spec.Upto(n-1)]
		index = in.Index
		if len(in.Hash) == 32 {
			copy(hash, in.Hash)
		}
	}
	w, err := NewSpentWatchItemFromInput(&transaction.TxInput{Hash: append([]byte{}, hash...), Index: index}, watched)
	spec.Ensures("an outpoint can be watched", err == nil)
	spends := false
	for _, in := range tx.Inputs {
		spends = spends || spec.SameBytes(in.Hash, hash) && in.Index == index
	}
	spec.Ensures("matches exactly when an input spends the outpoint", w.Match(tx) == spends)
	spec.Ensures("the watched script is looked up in filters", spec.SameBytes(w.Bytes(), watched))
	spec.Ensures("reports its own event", w.EventType() == SpentUtxo)
}

func VC_C26_spent_none() { spent(0) }
func VC_C26_spent_one()  { spent(1) }
func VC_C26_spent_two()  { spent(2) }
func VC_C26_spent_three() {
	spec.Bounded("transactions with at most three inputs")
	spent(3)
}

// VC_C26_spent_malformed: a watch cannot be made of a malformed hash.
func VC_C26_spent_malformed() {
	h := spec.AnyBytes("hash", spec.AnyLen("length", 70))
	spec.Requires(len(h) != 32)
	w, err := NewSpentWatchItemFromInput(&transaction.TxInput{Hash: h}, nil)
	spec.Ensures("a malformed hash is refused", w == nil && err != nil)
}

// VC_C26_unspent_any: any number of outputs.
func VC_C26_unspent_any() {
	spec.Inductive()
	watched := anyScript()
	tx := &transaction.Transaction{Outputs: spec.Any[[]*transaction.TxOutput]("outputs")}
	n := len(tx.Outputs)
	spec.Requires(spec.Forall(0, n, func(i int) bool { return tx.Outputs[i] != nil }))
	w := &UnspentWatchItem{outputScript: watched}
	pays := spec.Exists(0, n, func(i int) bool { return spec.SameBytes(tx.Outputs[i].Script, watched) })
	spec.Ensures("matches exactly when an output pays to the script", w.Match(tx) == pays)
}

// VC_C26_spent_any: any number of inputs.
func VC_C26_spent_any() {
	spec.Inductive()
	hash, index := spec.Any[[32]byte]("watched hash"), spec.Any[uint32]("watched index")
	tx := &transaction.Transaction{Inputs: spec.Any[[]*transaction.TxInput]("inputs")}
	n := len(tx.Inputs)
	spec.Requires(spec.Forall(0, n, func(i int) bool { return tx.Inputs[i] != nil }))
	h := chainhash.Hash(hash)
	w := &SpentWatchItem{hash: &h, index: index}
	spends := spec.Exists(0, n, func(i int) bool {
		return len(tx.Inputs[i].Hash) == 32 && spec.SameBytes(tx.Inputs[i].Hash, hash[:]) && tx.Inputs[i].Index == index
	})
	spec.Ensures("matches exactly when an input spends the output", w.Match(tx) == spends)
}
