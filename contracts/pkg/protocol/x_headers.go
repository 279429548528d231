package protocol

import (
	"crypto/sha256"

	"github.com/vulpemventures/go-elements/block"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// someHeader is any header of the given height with a signed-block proof.
func someHeader(name string, height uint32) *block.Header {
	prev, root := spec.Any[[32]byte](name+" previous"), spec.Any[[32]byte](name+" root")
	return &block.Header{
		Version: spec.Any[uint32](name+" version") & 0x7fffffff, PrevBlockHash: prev[:], MerkleRoot: root[:],
		Timestamp: spec.Any[uint32](name + " time"), Height: height,
		ExtData: &block.ExtData{Proof: &block.Proof{Challenge: []byte{0x51}, Solution: []byte{}}},
	}
}

func specSum(p []byte) [4]byte {
	h := sha256.Sum256(p)
	h = sha256.Sum256(h[:])
	return [4]byte{h[0], h[1], h[2], h[3]}
}
