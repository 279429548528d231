package protocol

import (
	"crypto/sha256"

	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// specChecksum is the first four bytes of the double SHA-256.
func specChecksum(p []byte) []byte {
	h := sha256.Sum256(p)
	h = sha256.Sum256(h[:])
	return h[:4]
}

// specEnvelope is the wire form of a message.
func specEnvelope(magic [4]byte, cmd string, payload []byte) []byte {
	b := append([]byte{}, magic[:]...)
	c := specPad(cmd)
	b = append(b, c[:]...)
	b = append(b, specU32(uint32(len(payload)))...)
	b = append(b, specChecksum(payload)...)
	return append(b, payload...)
}

func VC_C03_any_message() {
	magic := spec.Any[[4]byte]("magic")
	n := spec.AnyLen("payload length", 1<<31)
	payload := spec.AnyBytes("payload", n)
	cmd := specCommands[spec.Choose("command", len(specCommands))]
	msg, err := NewMessage(cmd, magic, payload)
	spec.Ensures("a supported command is accepted", err == nil)
	b, err := binary.Marshal(msg)
	spec.Ensures("the message is encoded", err == nil)
	spec.Ensures("header and payload as the protocol says", spec.SameBytes(b, specEnvelope(magic, cmd, payload)))
	b, err = binary.Marshal(*msg)
	spec.Ensures("same by value", err == nil && spec.SameBytes(b, specEnvelope(magic, cmd, payload)))
}

func VC_C03_unsupported_command() {
	magic := spec.Any[[4]byte]("magic")
	cmd := spec.Any[string]("command")
	msg, err := NewMessage(cmd, magic, []byte{1})
	spec.Ensures("refused exactly when unsupported", (err == nil) == specSupported(cmd))
	spec.Ensures("no message without support", (err == nil) == (msg != nil))
}

// encodes states that the wire form of a built message is an envelope around the payload.
func encodes(label string, msg *Message, err error, magic [4]byte, cmd string, payload []byte) {
	spec.Ensures(label+" is built", err == nil && msg != nil)
	b, err := binary.Marshal(msg)
	spec.Ensures(label+" is an envelope around its payload", err == nil && spec.SameBytes(b, specEnvelope(magic, cmd, payload)))
}

func VC_C03_verack_sendheaders() {
	magic := spec.Any[[4]byte]("magic")
	m, err := NewVerackMsg(magic)
	encodes("verack", m, err, magic, "verack", nil)
	m, err = NewSendHeadersMessage(magic)
	encodes("sendheaders", m, err, magic, "sendheaders", nil)
}

func VC_C03_ping_pong() {
	magic := spec.Any[[4]byte]("magic")
	nonce := spec.Any[uint64]("nonce")
	m, err := NewPongMsg(magic, nonce)
	encodes("pong", m, err, magic, "pong", append(specU32(uint32(nonce)), specU32(uint32(nonce>>32))...))
	m, nonce, err = NewPingMsg(magic)
	encodes("ping", m, err, magic, "ping", append(specU32(uint32(nonce)), specU32(uint32(nonce>>32))...))
}
