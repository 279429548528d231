package scanner

import (
	"context"
	"errors"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/btcutil/gcs"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/blockservice"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var errChain = errors.New("verif: failure")

// chain is the stores and the explorer a scan works on.
type chain struct {
	tip    uint32
	grow   bool // a block may arrive during the scan
	flaky  bool // every question may fail
	failed bool
	midway bool // the failure left a block unexamined
	txs    int  // per block

	asked   []uint32 // heights whose filter was asked for, in order
	items   [][][]byte
	matched map[uint32]bool // the filter said there may be a match and the block was found
	block   map[uint32]*block.Block
	reading *chainhash.Hash
	absent  bool   // no filter is stored for the block at hand
	calls   int    // of the tip that are still answered, 0 for all
	blank   uint32 // the height of a block without filter
}

// c is the chain of the contract at hand.
var c *chain

func hashAt(height uint32) *chainhash.Hash { return &chainhash.Hash{byte(height), 0xbb} }

func newChain(tip uint32, txs int, flaky bool) *chain {
	c = &chain{blank: 255, tip: tip, txs: txs, flaky: flaky, matched: map[uint32]bool{}, block: map[uint32]*block.Block{}}
	return c
}

func (c *chain) fails() bool {
	if c.flaky && !c.failed && spec.Choose("fails", 2) > 0 {
		c.failed = true
		return true
	}
	return false
}

type headers struct {
	repository.BlockHeaderRepository
}

func (headers) ChainTip(context.Context) (*block.Header, error) {
	switch {
	case c.calls == 1:
		select {} // the scanner is left alone from here
	case c.calls == 2:
		c.calls--
		return nil, errChain // the scan at hand ends before
	case c.calls > 2:
		c.calls--
	}
	if c.fails() {
		return nil, errChain
	}
	if c.grow && spec.Choose("a block arrives", 2) > 0 {
		c.grow = false
		c.tip++
	}
	return &block.Header{Height: c.tip}, nil
}

func (headers) GetBlockHashByHeight(_ context.Context, height uint32) (*chainhash.Hash, error) {
	if c.fails() {
		return nil, errChain
	}
	return hashAt(height), nil
}

func (headers) LatestBlockLocator(context.Context) (blockchain.BlockLocator, error) {
	return nil, errChain
}

type filters struct{ repository.FilterRepository }

// GetFilter finds the filter of a block, or none, under the block's own hash.
func (filters) GetFilter(_ context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	h, err := chainhash.NewHash(k.BlockHash)
	spec.Ensures("filters are asked for by a block hash", err == nil && k.FilterType == repository.RegularFilter)
	c.reading = h
	c.asked = append(c.asked, uint32(h[0]))
	c.items = append(c.items, nil)
	spec.Ensures("of a block of the chain", *h == *hashAt(uint32(h[0])))
	if c.midway = c.fails(); c.midway {
		return nil, errChain
	}
	if c.absent = uint32(h[0]) == c.blank || spec.Choose("filter stored", 2) == 0; c.absent {
		return nil, repository.ErrFilterNotFound
	}
	return &repository.FilterEntry{Key: k, NBytes: []byte{1}}, nil
}

// What a filter says is taken from the filter library: it may contain one of the
// items or does not, or cannot be read.
//
//verif:model github.com/btcsuite/btcd/btcutil/gcs.FromNBytes
func fromNBytes(uint8, uint64, []byte) (*gcs.Filter, error) {
	if c.midway = c.fails(); c.midway {
		return nil, errChain
	}
	return &gcs.Filter{}, nil
}

//verif:model (*github.com/btcsuite/btcd/btcutil/gcs.Filter).MatchAny
func matchAny(_ *gcs.Filter, key [gcs.KeySize]byte, items [][]byte) (bool, error) {
	h := c.asked[len(c.asked)-1]
	c.items[len(c.items)-1] = items
	spec.Ensures("the filter is opened with the key of its block", spec.SameBytes(key[:], hashAt(h)[:gcs.KeySize]))
	if c.midway = c.fails(); c.midway {
		return false, errChain
	}
	return spec.Choose("filter matches", 2) > 0, nil
}

type explorer struct{}

// GetBlock gives the block, does not find it, or fails.
func (explorer) GetBlock(h *chainhash.Hash) (*block.Block, error) {
	spec.Ensures("the block asked for is the one the filter is of", *h == *c.reading)
	spec.Ensures("a missing filter counts as no match", !c.absent)
	if c.midway = c.fails(); c.midway {
		return nil, errChain
	}
	if spec.Choose("block found", 2) == 0 {
		return nil, blockservice.ErrorBlockNotFound
	}
	height := uint32(h[0])
	b := &block.Block{Header: &block.Header{Height: height}, TransactionsData: &block.Transactions{}}
	for i := 0; i < c.txs; i++ {
		b.TransactionsData.Transactions = append(b.TransactionsData.Transactions, txAt(height, i))
	}
	c.matched[height] = true
	c.block[height] = b
	return b, nil
}

// txAt makes the i-th transaction of a block; its lock time stands for all of it.
func txAt(height uint32, i int) *transaction.Transaction {
	return &transaction.Transaction{Locktime: number(height, i)}
}

func number(height uint32, i int) uint32 { return height*16 + uint32(i) }

func newScanner() *scannerService {
	return New(filters{}, headers{}, explorer{}, hashAt(0)).(*scannerService)
}

// reported takes the reports sent so far.
func reported(ch chan Report) []Report {
	var rs []Report
	for {
		select {
		case r := <-ch:
			rs = append(rs, r)
		default:
			return rs
		}
	}
}
