package protocol

import (
	"bytes"
	"errors"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/go-elements/transaction"
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// realDecoders makes the models below run the dependency's own code.
var realDecoders bool

var errDecode = errors.New("verif: undecodable")

// thirdParty is all that is assumed of the dependency's decoders: they take some
// bytes off the buffer, then return a value, return an error, or panic.
func thirdParty(buf *bytes.Buffer, min int) error {
	buf.Next(spec.Upto(buf.Len()))
	switch spec.Choose("decoder outcome", 3) {
	case 0:
		return errDecode
	case 1:
		panic("verif: decoder panic")
	}
	return nil
}

//verif:model github.com/vulpemventures/go-elements/block.DeserializeHeader
func deserializeHeader(buf *bytes.Buffer) (*block.Header, error) {
	if realDecoders {
		return block.DeserializeHeader(buf)
	}
	have := buf.Len()
	if err := thirdParty(buf, 78); err != nil {
		return nil, err
	}
	spec.Requires(have-buf.Len() >= 78)
	return &block.Header{}, nil
}

//verif:model github.com/vulpemventures/go-elements/block.NewFromBuffer
func blockFromBuffer(buf *bytes.Buffer) (*block.Block, error) {
	if err := thirdParty(buf, 0); err != nil {
		return nil, err
	}
	return &block.Block{Header: &block.Header{}, TransactionsData: &block.Transactions{}}, nil
}

//verif:model github.com/vulpemventures/go-elements/transaction.NewTxFromBuffer
func txFromBuffer(buf *bytes.Buffer) (*transaction.Transaction, error) {
	if err := thirdParty(buf, 0); err != nil {
		return nil, err
	}
	return &transaction.Transaction{}, nil
}

// hostile decodes an arbitrary payload of at most max bytes.
func hostile(out interface{}, max int) {
	spec.Requires(!spec.Native() || !realDecoders)
	p := spec.AnyBytes("payload", spec.AnyLen("payload length", max))
	spec.AllocLimit(65536 + 64*len(p))
	panicked := spec.Panics(func() {
		binary.NewDecoder(spec.NewStream(p)).Decode(out)
	})
	spec.Ensures("no panic", !panicked)
}

const anySize = 1 << 25

func VC_C07_version()     { hostile(&MsgVersion{}, anySize) }
func VC_C07_cfilter()     { hostile(&MsgCFilter{}, anySize) }
func VC_C07_getcfilters() { hostile(&MsgGetCFilters{}, anySize) }
func VC_C07_ping()        { hostile(&MsgPing{}, anySize) }
func VC_C07_pong()        { hostile(&MsgPong{}, anySize) }
func VC_C07_sendcmpct()   { hostile(&MsgSendCmpct{}, anySize) }

func VC_C07_envelope() {
	var h MessageHeader
	hostile(&h, anySize)
	spec.Ensures("no panic", !spec.Panics(func() {
		h.CommandString()
		h.Validate()
		h.HasValidMagic()
		h.HasValidCommand()
	}))
}

func VC_C07_tx() {
	spec.Requires(!spec.Native())
	hostile(&MsgTx{}, anySize)
}

func VC_C07_block() {
	spec.Requires(!spec.Native())
	hostile(&MsgBlock{}, anySize)
}

func VC_C07_headers() {
	spec.Bounded("headers payloads of at most 200 bytes")
	spec.Requires(!spec.Native())
	hostile(&MsgHeaders{}, 200)
}

func VC_C07_inv() {
	spec.Bounded("inv payloads of at most 120 bytes")
	hostile(&MsgInv{}, 120)
}

func VC_C07_getheaders() {
	spec.Bounded("getheaders payloads of at most 140 bytes")
	hostile(&MsgGetHeaders{}, 140)
}

// VC_C07_dependency_lengths runs the dependency's own decoder on a header whose
// challenge claims 2^40 bytes.
func VC_C07_dependency_lengths() {
	spec.Requires(!spec.Native())
	realDecoders = true
	p := make([]byte, 96)
	p[0] = 1
	p[77] = 0xff // length of the challenge: 2^40
	p[83] = 1
	spec.AllocLimit(65536 + 64*len(p))
	var m MsgHeaders
	spec.Panics(func() { binary.NewDecoder(spec.NewStream(p)).Decode(&m) })
	realDecoders = false
	spec.Ensures("reached", true)
}
