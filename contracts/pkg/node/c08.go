package node

import (
	"bytes"
	"errors"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

const anyPayload = 1 << 26

var errDecode = errors.New("verif: undecodable")

// thirdParty is all that is assumed of the dependency's decoders: they take some
// bytes off the buffer, then return a value, return an error, or panic.
func thirdParty(buf *bytes.Buffer) error {
	buf.Next(spec.Upto(buf.Len()))
	switch spec.Choose("decoder outcome", 3) {
	case 0:
		return errDecode
	case 1:
		panic("verif: decoder panic")
	}
	return nil
}

//verif:model github.com/vulpemventures/go-elements/block.DeserializeHeader
func deserializeHeader(buf *bytes.Buffer) (*block.Header, error) {
	if err := thirdParty(buf); err != nil {
		return nil, err
	}
	return &block.Header{Height: spec.Any[uint32]("height")}, nil
}

//verif:model github.com/vulpemventures/go-elements/block.NewFromBuffer
func blockFromBuffer(buf *bytes.Buffer) (*block.Block, error) {
	if err := thirdParty(buf); err != nil {
		return nil, err
	}
	return &block.Block{Header: &block.Header{Height: spec.Any[uint32]("height")}, TransactionsData: &block.Transactions{}}, nil
}

//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromBuffer
func txFromBuffer(buf *bytes.Buffer) (*transaction.Transaction, error) {
	if err := thirdParty(buf); err != nil {
		return nil, err
	}
	return &transaction.Transaction{}, nil
}

//verif:model (*github.com/vulpemventures/go-elements/transaction.Transaction).TxHash
func txHash(t *transaction.Transaction) (h chainhash.Hash) { return h }

// VC_C08_pong_then_pong: any message of a kind whose handling can be observed,
// followed by another one, over a connection that splits the bytes anyhow.
func VC_C08_pong_then_pong() {
	p := spec.AnyBytes("payload", spec.AnyLen("length", anyPayload))
	magic := spec.Any[[4]byte]("magic")
	sum := spec.Any[[4]byte]("checksum")
	if spec.Native() && spec.Choose("native: right header", 4) > 0 {
		magic, sum = regtest, sum4(p)
	}
	second := spec.Any[uint64]("second nonce")
	n := newNode(&headersDB{}, &filtersDB{})
	in := envelope(magic, name12("pong"), uint32(len(p)), sum, p)
	in = append(in, message(regtest, "pong", u64(second))...)
	c := newPeer("p", in)
	spec.UntilBlocked(func() { n.handlePeerMessages(c) })
	got := nonces(n)

	oneMagic := magic == regtest || magic == [4]byte{0xfa, 0xbf, 0xb5, 0xda} || magic == [4]byte{0x41, 0x0e, 0xdd, 0x62}
	good := oneMagic && sum == sum4(p) && len(p) >= 8
	if len(p) <= 4000000 {
		spec.Ensures("the second message is handled", len(got) >= 1 && got[len(got)-1] == second)
		spec.Ensures("the first is handled exactly when it is acceptable", len(got) == 2 == good)
		if len(got) == 2 {
			spec.Ensures("the handler sees the announced bytes", got[0] == nonceOf(p))
		}
	} else {
		spec.Ensures("a message that is too long is not misread", len(got) <= 2)
		if !good {
			spec.Ensures("unacceptable messages are not handled", len(got) <= 1)
		}
	}
}

// VC_C08_truncated: a connection that ends inside a message.
func VC_C08_truncated() {
	n := newNode(&headersDB{}, &filtersDB{})
	first := spec.Any[uint64]("first nonce")
	p := spec.AnyBytes("payload", spec.AnyLen("length", 4000000))
	in := message(regtest, "pong", u64(first))
	all := message(regtest, "pong", p)
	cut := spec.AnyLen("cut", 4000024)
	spec.Requires(cut < len(all))
	in = append(in, all[:cut]...)
	spec.UntilBlocked(func() { n.handlePeerMessages(newPeer("p", in)) })
	got := nonces(n)
	spec.Ensures("only complete messages are handled", len(got) == 1 && got[0] == first)
	spec.Ensures("the end of the connection is reported", disconnects(n) == 1)
}

// then checks that a message of the given kind, whatever its payload and however
// its handling ends, leaves the connection at the next message.
func then(cmd string, max int) {
	p := spec.AnyBytes("payload", spec.AnyLen("length", max))
	second := spec.Any[uint64]("second nonce")
	h := &headersDB{tip: &block.Header{Height: spec.Any[uint32]("tip")}, flaky: true}
	n := newNode(h, &filtersDB{})
	in := message(regtest, cmd, p)
	in = append(in, message(regtest, "pong", u64(second))...)
	c := newPeer("p", in)
	c.tip = spec.Any[uint32]("announced height")
	c.c.flaky = true
	spec.UntilBlocked(func() { n.handlePeerMessages(c) })
	got := nonces(n)
	spec.Ensures("the next message is handled", len(got) == 1 && got[0] == second)
}

func VC_C08_after_version()     { then("version", anyPayload/32) }
func VC_C08_after_verack()      { then("verack", anyPayload/32) }
func VC_C08_after_ping()        { then("ping", anyPayload/32) }
func VC_C08_after_tx()          { then("tx", anyPayload/32) }
func VC_C08_after_block()       { then("block", anyPayload/32) }
func VC_C08_after_sendcmpct()   { then("sendcmpct", anyPayload/32) }
func VC_C08_after_cfilter()     { then("cfilter", anyPayload/32) }
func VC_C08_after_getcfilters() { then("getcfilters", anyPayload/32) }
func VC_C08_after_addr()        { then("addr", anyPayload/32) }
func VC_C08_after_unknown()     { then("nonsense", anyPayload/32) }
func VC_C08_after_empty()       { then("", anyPayload/32) }

func VC_C08_after_inv() {
	spec.Bounded("inv payloads of at most 40 bytes")
	then("inv", 40)
}

func VC_C08_after_getheaders() {
	spec.Bounded("getheaders payloads of at most 70 bytes")
	then("getheaders", 70)
}

func VC_C08_after_headers() {
	spec.Bounded("headers payloads of at most 3 bytes")
	then("headers", 3)
}
