package protocol

import (
	"github.com/vulpemventures/neutrino-elements/pkg/binary"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func VC_C09_request() {
	start := someHeader("start", spec.Any[uint32]("start height"))
	stop := someHeader("stop", spec.Any[uint32]("stop height"))
	if spec.Native() && spec.Choose("native: near", 3) > 0 {
		stop.Height = start.Height + uint32(spec.Choose("distance", 1100))
	}
	stopHash, err := stop.Hash()
	spec.Requires(err == nil)
	m, err := NewGetCFilters(MagicRegtest, start, stop)
	legal := stop.Height >= start.Height && stop.Height-start.Height < 1000
	spec.Ensures("refused exactly when the stop is below the start or the range exceeds a thousand blocks", (err == nil) == legal)
	if err != nil {
		return
	}
	b, err := binary.Marshal(m)
	spec.Ensures("the request can be sent", err == nil)
	want := append([]byte{0}, specU32(start.Height)...)
	want = append(want, stopHash[:]...)
	spec.Ensures("names the start height and the stop block's hash", len(b) == 24+37 && spec.SameBytes(b[24:], want))
}
