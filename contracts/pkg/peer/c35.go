package peer

import (
	"sync"

	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C35_tip: the announced height is read and set.
func VC_C35_tip() {
	var p Peer
	e := &elementsPeer{m: new(sync.RWMutex)}
	p = e
	spec.Guard("the announced height", &e.startBlockHeight, e.m)
	height := spec.Any[uint32]("height")
	p.SetPeersTip(height)
	spec.Ensures("the lock is released after it is set", spec.LockFree(e.m))
	spec.Ensures("what is read is what was set", p.PeersTip() == height)
	spec.Ensures("the lock is released after it is read", spec.LockFree(e.m))
}
