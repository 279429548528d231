package protocol

import (
	"bytes"

	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func specKnownMagic(m [4]byte) bool {
	return m == [4]byte{0xfa, 0xbf, 0xb5, 0xda} || m == [4]byte{0x12, 0x34, 0x56, 0x78} || m == [4]byte{0x41, 0x0e, 0xdd, 0x62}
}

func VC_C04_accepts_well_formed() {
	magic := spec.Any[[4]byte]("magic")
	cmd := specCommands[spec.Choose("command", len(specCommands))]
	h := MessageHeader{Magic: magic, Command: specPad(cmd), Length: spec.Any[uint32]("length"), Checksum: spec.Any[[4]byte]("checksum")}
	err := h.Validate()
	spec.Ensures("accepted exactly with a supported magic", (err == nil) == specKnownMagic(magic))
	spec.Ensures("reports the command name", h.CommandString() == cmd)
}

func VC_C04_accepts_only_well_formed() {
	h := spec.Any[MessageHeader]("header")
	err := h.Validate()
	if err == nil {
		spec.Ensures("magic is supported", specKnownMagic(h.Magic))
		name := h.CommandString()
		spec.Ensures("command is supported", specSupported(name))
		spec.Ensures("command is the name followed by zero bytes only", h.Command == specPad(name))
	}
}

func VC_C04_received_header() {
	raw := spec.AnyBytes("header bytes", MsgHeaderLength)
	var h MessageHeader
	err := binary.NewDecoder(bytes.NewReader(raw)).Decode(&h)
	spec.Ensures("decodes", err == nil)
	spec.Ensures("fields at their offsets", spec.SameBytes(raw[:4], h.Magic[:]) && spec.SameBytes(raw[4:16], h.Command[:]) &&
		spec.SameBytes(raw[16:20], specU32(h.Length)) && spec.SameBytes(raw[20:24], h.Checksum[:]))
}
