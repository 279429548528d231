package node

import (
	"context"
	"crypto/sha256"
	"errors"
	"io"

	"github.com/btcsuite/btcd/blockchain"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/peer"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var regtest = [4]byte{0x12, 0x34, 0x56, 0x78}

var errFake = errors.New("verif: storage failure")

// conn is a connection: reads come from a stream in arbitrary pieces, writes are recorded.
type conn struct {
	s      *spec.Stream
	writes [][]byte
	failAt int // the write with this number fails (-1: none)
	flaky  bool // the first write may fail
	closed bool
}

func newConn(in []byte) *conn { return &conn{s: spec.NewStream(in), failAt: -1} }

func (c *conn) VerifStream() *spec.Stream { return c.s }

func (c *conn) Read(p []byte) (int, error) {
	if c.closed {
		return 0, io.ErrClosedPipe
	}
	return c.s.Read(p)
}

func (c *conn) Write(p []byte) (int, error) {
	if c.flaky {
		c.flaky = false
		if spec.Choose("write outcome", 2) > 0 {
			return 0, spec.ErrBroken
		}
	}
	if c.failAt == len(c.writes) {
		return 0, spec.ErrBroken
	}
	c.writes = append(c.writes, append([]byte{}, p...))
	return len(p), nil
}

func (c *conn) Close() error { c.closed = true; return nil }

// fakePeer is a peer with a recorded connection.
type fakePeer struct {
	id   peer.PeerID
	c    *conn
	addr *protocol.Addr
	tip  uint32
}

func newPeer(id string, in []byte) *fakePeer {
	return &fakePeer{id: peer.PeerID(id), c: newConn(in), addr: &protocol.Addr{}}
}

func (p *fakePeer) ID() peer.PeerID                { return p.id }
func (p *fakePeer) Connection() io.ReadWriteCloser { return p.c }
func (p *fakePeer) Addr() *protocol.Addr           { return p.addr }
func (p *fakePeer) PeersTip() uint32               { return p.tip }
func (p *fakePeer) SetPeersTip(h uint32)           { p.tip = h }

// table is a map from hashes; hashes are told apart by their first byte where possible.
type table[T any] struct {
	keys []chainhash.Hash
	vals []T
}

func (t *table[T]) put(h chainhash.Hash, v T) {
	t.keys = append(t.keys, h)
	t.vals = append(t.vals, v)
}

func (t *table[T]) get(h []byte) (v T, ok bool) {
	if len(h) != 32 {
		return v, false
	}
	for i, k := range t.keys {
		if k[0] == h[0] && spec.SameBytes(k[:], h) {
			return t.vals[i], true
		}
	}
	return v, false
}

// tableOf holds one entry.
func tableOf[T any](h chainhash.Hash, v T) (t table[T]) {
	t.put(h, v)
	return t
}

// headersDB answers as the contract at hand prescribes.
type headersDB struct {
	tip         *block.Header
	tipErr      error
	flaky       bool // asking for the tip may fail or panic, asking for a locator may fail
	locator     blockchain.BlockLocator
	locatorErr  error
	ancestors   bool
	ancErr      error
	ancOf       chainhash.Hash
	ancCalls    int
	byHash      table[*block.Header]
	byHeight    map[uint32]*chainhash.Hash
	anyHeight   *chainhash.Hash // the block of every other height
	writeErr    error
	written     []block.Header
	writeCalls  int
	heightsRead []uint32
}

func (d *headersDB) ChainTip(context.Context) (*block.Header, error) {
	if d.flaky {
		switch spec.Choose("storage outcome", 3) {
		case 1:
			return nil, errFake
		case 2:
			panic("verif: storage panic")
		}
	}
	return d.tip, d.tipErr
}

func (d *headersDB) GetBlockHeader(_ context.Context, h chainhash.Hash) (*block.Header, error) {
	if hdr, ok := d.byHash.get(h[:]); ok {
		return hdr, nil
	}
	return nil, repository.ErrBlockNotFound
}

func (d *headersDB) GetBlockHashByHeight(_ context.Context, height uint32) (*chainhash.Hash, error) {
	d.heightsRead = append(d.heightsRead, height)
	if h, ok := d.byHeight[height]; ok {
		return h, nil
	}
	if d.anyHeight != nil {
		return d.anyHeight, nil
	}
	return nil, repository.ErrBlockNotFound
}

func (d *headersDB) WriteHeaders(_ context.Context, hs ...block.Header) error {
	d.writeCalls++
	if d.writeErr != nil {
		return d.writeErr
	}
	d.written = append(d.written, hs...)
	return nil
}

func (d *headersDB) LatestBlockLocator(context.Context) (blockchain.BlockLocator, error) {
	if d.flaky && spec.Choose("locator outcome", 2) > 0 {
		return nil, errFake
	}
	return d.locator, d.locatorErr
}

func (d *headersDB) HasAllAncestors(_ context.Context, h chainhash.Hash) (bool, error) {
	d.ancOf = h
	d.ancCalls++
	return d.ancestors, d.ancErr
}

// filtersDB is a store of filters.
type filtersDB struct {
	puts   []*repository.FilterEntry
	putErr error
	get    func(repository.FilterKey) (*repository.FilterEntry, error)
}

func (d *filtersDB) PutFilter(_ context.Context, e *repository.FilterEntry) error {
	d.puts = append(d.puts, e)
	return d.putErr
}

func (d *filtersDB) GetFilter(_ context.Context, k repository.FilterKey) (*repository.FilterEntry, error) {
	if d.get != nil {
		return d.get(k)
	}
	return nil, repository.ErrFilterNotFound
}

// someNetwork is any of the networks.
func someNetwork() (string, [4]byte) {
	switch spec.Choose("network", 3) {
	case 0:
		return "liquid", [4]byte{0xfa, 0xbf, 0xb5, 0xda}
	case 1:
		return "testnet", [4]byte{0x41, 0x0e, 0xdd, 0x62}
	}
	return "regtest", [4]byte{0x12, 0x34, 0x56, 0x78}
}

func newNodeOn(network string, h *headersDB, f *filtersDB) *node {
	svc, err := New(NodeConfig{Network: network, UserAgent: "verif", BlockHeadersDB: h, FiltersDB: f})
	spec.Ensures("a node is made for every network", err == nil)
	n := svc.(*node)
	if spec.Native() {
		// a channel is a log to the verifier
		n.pingsCh, n.pongsCh = make(chan peerPing, 1000), make(chan uint64, 1000)
		n.DisconCh = make(chan peer.PeerID, 1000)
		n.compactFiltersCh, n.blockHeadersCh = make(chan protocol.MsgCFilter, 1000), make(chan block.Header, 1000)
		n.memPool.txChan = make(chan protocol.MsgTx, 1000)
	}
	return n
}

func newNode(h *headersDB, f *filtersDB) *node { return newNodeOn("regtest", h, f) }

func sum4(p []byte) [4]byte {
	h := sha256.Sum256(p)
	h = sha256.Sum256(h[:])
	return [4]byte{h[0], h[1], h[2], h[3]}
}

func name12(cmd string) [12]byte {
	var b [12]byte
	copy(b[:], cmd)
	return b
}

func u32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func u64(v uint64) []byte {
	return append(u32(uint32(v)), u32(uint32(v>>32))...)
}

// envelope is the wire form of a message.
func envelope(magic [4]byte, cmd [12]byte, length uint32, sum [4]byte, payload []byte) []byte {
	b := append([]byte{}, magic[:]...)
	b = append(b, cmd[:]...)
	b = append(b, u32(length)...)
	b = append(b, sum[:]...)
	return append(b, payload...)
}

// message is the wire form of a well formed message.
func message(magic [4]byte, cmd string, payload []byte) []byte {
	return envelope(magic, name12(cmd), uint32(len(payload)), sum4(payload), payload)
}

// header makes the header the handler is given with a payload.
func headerOf(cmd string, payload []byte) *protocol.MessageHeader {
	return &protocol.MessageHeader{
		Magic: [4]byte{0x12, 0x34, 0x56, 0x78}, Command: name12(cmd),
		Length: uint32(len(payload)), Checksum: sum4(payload),
	}
}

// nonces are the nonces delivered to the peer monitor.
func nonces(n *node) []uint64 {
	var out []uint64
	for {
		select {
		case v := <-n.pongsCh:
			out = append(out, v)
		default:
			return out
		}
	}
}

func disconnects(n *node) int {
	k := 0
	for {
		select {
		case <-n.DisconCh:
			k++
		default:
			return k
		}
	}
}

func nonceOf(p []byte) uint64 {
	var v uint64
	for i := 7; i >= 0; i-- {
		v = v<<8 | uint64(p[i])
	}
	return v
}
