package node

import (
	"bytes"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/protocol"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var batch []*block.Header

// The dependency's decoder takes some bytes and returns some header.
//
//verif:model github.com/vulpemventures/go-elements/block.DeserializeHeader
func deserializeHeader(buf *bytes.Buffer) (*block.Header, error) {
	b, err := buf.ReadByte()
	if err != nil {
		return nil, err
	}
	return batch[b], nil
}

// anyBatch makes a headers message of the given length and the headers it holds.
func anyBatch(size int) []byte {
	batch = nil
	payload := []byte{byte(size)}
	for i := 0; i < size; i++ {
		batch = append(batch, someHeader("header", spec.Any[uint32]("height")))
		payload = append(payload, byte(i), 0)
	}
	return payload
}

// takeBatch hands a batch of any headers to a node with any tip.
func takeBatch(size int) {
	spec.Bounded("batches of at most four headers")
	h, tip := anyTip()
	n, p, magic := headersNode(h)
	payload := anyBatch(size)
	consecutive := true
	for i := 1; i < size; i++ {
		if uint64(batch[i].Height) != uint64(batch[i-1].Height)+1 {
			consecutive = false
		}
	}
	err := n.handleHeaders(headerOf("headers", payload), bytes.NewReader(payload), p)
	spec.Settle()
	got := forwarded(n)
	spec.Ensures("a batch is handled", err == nil)
	if size == 0 {
		spec.Ensures("an empty batch stores nothing", len(got) == 0)
		return
	}
	if !consecutive {
		spec.Ensures("a batch out of sequence stores nothing", len(got) == 0)
		return
	}
	first := uint64(batch[0].Height)
	last := first + uint64(size-1)
	switch {
	case last <= tip:
		spec.Ensures("a batch below the tip stores nothing", len(got) == 0)
	case first > tip+1:
		spec.Ensures("a batch after a gap stores nothing", len(got) == 0)
		spec.Ensures("and the peer is asked again", len(p.c.writes) == 1 && spec.SameBytes(p.c.writes[0], asking(magic)))
	default:
		spec.Ensures("all headers above the tip are forwarded, once", uint64(len(got)) == last-tip)
		for i := range got {
			spec.Ensures("in order and unchanged", sameHeader(&got[i], batch[size-len(got)+i]))
		}
		spec.Ensures("and the peer is asked for more", len(p.c.writes) == 1 && spec.SameBytes(p.c.writes[0], asking(magic)))
	}
}

func VC_C12_empty() { takeBatch(0) }
func VC_C12_one()   { takeBatch(1) }
func VC_C12_two()   { takeBatch(2) }

func VC_C12_three() {
	spec.Bounded("batches of at most four headers")
	takeBatch(3)
}

func VC_C12_four() {
	spec.Bounded("batches of at most four headers")
	takeBatch(4)
}

// VC_C12_undecodable: a payload that ends early or announces too many headers.
func VC_C12_undecodable() {
	h := &headersDB{tip: &block.Header{Height: spec.Any[uint32]("tip height")}}
	n, p, _ := headersNode(h)
	payload := anyBatch(2)
	payload = payload[:spec.Choose("cut", 5)]
	err := n.handleHeaders(headerOf("headers", payload), bytes.NewReader(payload), p)
	spec.Ensures("an incomplete batch is an error and stores nothing", err != nil && len(forwarded(n)) == 0)
}

// VC_C12_storage: without knowing the tip nothing is stored.
func VC_C12_storage() {
	h := &headersDB{tipErr: errFake}
	n, p, _ := headersNode(h)
	payload := anyBatch(1 + spec.Choose("more headers", 2))
	err := n.handleHeaders(headerOf("headers", payload), bytes.NewReader(payload), p)
	spec.Ensures("a storage failure is an error and stores nothing", err != nil && len(forwarded(n)) == 0)
}

// VC_C12_sequence_any: the sequence test on a batch of any length.
func VC_C12_sequence_any() {
	spec.Inductive()
	headers := spec.Any[[]*block.Header]("headers")
	n := len(headers)
	spec.Requires(spec.Forall(0, n, func(i int) bool { return headers[i] != nil }))
	rising := spec.Forall(0, n-1, func(i int) bool { return uint64(headers[i+1].Height) == uint64(headers[i].Height)+1 })
	spec.Ensures("consecutive batches pass, others do not", checkHeadersInSequence(protocol.MsgHeaders{Headers: headers}) == rising)
}
