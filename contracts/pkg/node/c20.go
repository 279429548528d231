package node

import (
	"bytes"
	"io"
	"time"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// quiet is a connection that delivers some bytes and then nothing until it is closed.
type quiet struct {
	in     []byte
	gone   chan struct{}
	writes [][]byte
}

func (c *quiet) Read(p []byte) (int, error) {
	if len(c.in) > 0 {
		k := copy(p, c.in)
		c.in = c.in[k:]
		return k, nil
	}
	<-c.gone
	return 0, io.ErrClosedPipe
}

func (c *quiet) Write(p []byte) (int, error) {
	c.writes = append(c.writes, append([]byte{}, p...))
	return len(p), nil
}

func (c *quiet) Close() error {
	select {
	case <-c.gone:
	default:
		close(c.gone)
	}
	return nil
}

type quietPeer struct {
	*fakePeer
	conn *quiet
}

func (p *quietPeer) Connection() io.ReadWriteCloser { return p.conn }

var (
	dialled *quietPeer
	ticks   chan time.Time
)

func dialling(in []byte) *quietPeer {
	dialled = &quietPeer{newPeer("p", nil), &quiet{in: in, gone: make(chan struct{})}}
	ticks = make(chan time.Time, 8)
	return dialled
}

//verif:model github.com/vulpemventures/neutrino-elements/pkg/peer.NewElementsPeer
func newElementsPeer(string) (peer.Peer, error) { return dialled, nil }

// Time passes when the contract says so.
//
//verif:model time.NewTicker
func newTicker(time.Duration) *time.Ticker { return &time.Ticker{C: ticks} }

//verif:model time.NewTimer
func newTimer(time.Duration) *time.Timer {
	t := &time.Timer{}
	if spec.Native() {
		t = time.AfterFunc(time.Hour, func() {})
	}
	t.C = make(chan time.Time)
	return t
}

//verif:model time.After
func after(time.Duration) <-chan time.Time { return make(chan time.Time) }

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func txHash(t *transaction.Transaction) chainhash.Hash { return hashOfTx(t) }

// running starts a node on a connection that delivered some bytes.
func running(h *headersDB, in []byte) (*node, *quietPeer, *bool) {
	p := dialling(in)
	n := newNode(h, &filtersDB{})
	returned := false
	go func() {
		n.Start("p")
		returned = true
	}()
	spec.Settle()
	return n, p, &returned
}

func (n *node) verifStop(p *quietPeer, returned *bool, h *headersDB, f *filtersDB) {
	writes, written, puts := len(p.conn.writes), h.writeCalls, len(f.puts)
	pool := len(n.memPool.txs)
	spec.SendsBlock()
	n.Stop()
	spec.Settle()
	spec.Ensures("starting ends", *returned)
	spec.Ensures("every background task ends", spec.Stuck() <= 0 && spec.Spawned() <= 0)
	spec.Ensures("and does nothing more", len(p.conn.writes) == writes && h.writeCalls == written && len(f.puts) == puts && len(n.memPool.txs) == pool)
}

// VC_C20_idle: a node whose peer says nothing.
func VC_C20_idle() {
	h := &headersDB{tip: someHeader("tip", spec.Any[uint32]("tip height"))}
	n, p, returned := running(h, nil)
	n.verifStop(p, returned, h, n.filtersDb.(*filtersDB))
}

func version() []byte {
	b := append(append(u32(protocol.Version), u64(1<<6)...), u64(0)...)
	b = append(b, make([]byte, 52)...)
	b = append(append(b, u64(7)...), 1, 'x')
	return append(append(b, u32(5)...), 1)
}

// VC_C20_connected: a node with a registered peer, pinged or not, answering or not.
func VC_C20_connected() {
	spec.Bounded("one peer, one round of messages before the stop")
	h := &headersDB{tip: someHeader("tip", spec.Any[uint32]("tip height"))}
	in := message(regtest, "version", version())
	if spec.Choose("the version ends early", 2) > 0 {
		in = in[:30]
	}
	n, p, returned := running(h, in)
	if spec.Choose("a tick", 2) > 0 {
		ticks <- time.Time{}
		spec.Settle()
	}
	n.verifStop(p, returned, h, n.filtersDb.(*filtersDB))
}

// VC_C20_synced: a node that has reported synced.
func VC_C20_synced() {
	h := &headersDB{tip: someHeader("tip", spec.Any[uint32]("tip height")), ancestors: true}
	n, p, returned := running(h, nil)
	spec.Ensures("starting ends when synced", *returned)
	n.verifStop(p, returned, h, n.filtersDb.(*filtersDB))
}

// VC_C20_busy: headers, filters, transactions and blocks arrive before the stop.
func VC_C20_busy() {
	h := &headersDB{tip: someHeader("tip", spec.Any[uint32]("tip height"))}
	n, p, returned := running(h, nil)
	events := n.memPool.AddSubscriber("s")
	switch spec.Choose("arrival", 4) {
	case 0:
		n.blockHeadersCh <- *someHeader("new", spec.Any[uint32]("height"))
	case 1:
		n.memPool.txChan <- protocol.MsgTx{Transaction: *txOf(1)}
	case 2:
		n.pongsCh <- spec.Any[uint64]("nonce")
	case 3:
		n.DisconCh <- "p"
	}
	spec.Settle()
	n.verifStop(p, returned, h, n.filtersDb.(*filtersDB))
	for range events {
	}
}

// VC_C20_subscriber: a subscriber to the pool that does not listen.
func VC_C20_subscriber() {
	h := &headersDB{tip: someHeader("tip", spec.Any[uint32]("tip height"))}
	n, p, returned := running(h, nil)
	spec.Unread(n.memPool.AddSubscriber("s"))
	spec.Unread(n.memPool.AddSubscriber("t"))
	n.memPool.txChan <- protocol.MsgTx{Transaction: *txOf(1)}
	spec.Settle()
	n.verifStop(p, returned, h, n.filtersDb.(*filtersDB))
}

// blocked runs a task that must not wait for anybody once the stop signal was raised.
func blocked(what string, task func(*node, *fakePeer)) {
	n, p := newNode(&headersDB{tip: someHeader("tip", spec.Any[uint32]("tip height"))}, &filtersDB{}), newPeer("p", nil)
	dialling(nil)
	n.Peers["p"] = p
	n.peersPongCh["p"] = make(chan uint64, 1)
	close(n.quit)
	close(n.memPool.quitChan)
	spec.SendsBlock()
	done := false
	go func() {
		task(n, p)
		done = true
	}()
	spec.Settle()
	spec.Ensures(what+" returns after the stop", done && spec.Stuck() <= 0)
	spec.Ensures(what+" does nothing more", len(p.c.writes) == 0)
}

func VC_C20_task_monitors() {
	blocked("the peers monitor", func(n *node, p *fakePeer) { n.monitorPeers() })
	blocked("the peer monitor", func(n *node, p *fakePeer) { n.monitorPeer(p) })
	blocked("the headers monitor", func(n *node, p *fakePeer) { n.monitorBlockHeaders() })
	blocked("the filters monitor", func(n *node, p *fakePeer) { n.monitorCFilters() })
	blocked("the sync check", func(n *node, p *fakePeer) { n.checkSyncedInitial(p) })
	blocked("the pool listener", func(n *node, p *fakePeer) { n.memPool.listenForNewTxs() })
	blocked("the message loop", func(n *node, p *fakePeer) { n.handlePeerMessages(p) })
	blocked("the synced notice", func(n *node, p *fakePeer) { n.notifySynced() })
	blocked("handing on a pong", func(n *node, p *fakePeer) {
		n.handlePong(headerOf("pong", u64(1)), bytes.NewReader(u64(1)), p)
	})
	blocked("a transaction", func(n *node, p *fakePeer) { n.memPool.AddTx(protocol.MsgTx{}) })
}
