package node

import (
	"context"

	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C16_synced: any tip, any announced height, any answer about the ancestors.
func VC_C16_synced() {
	tip := someHeader("tip", spec.Any[uint32]("tip height"))
	h := &headersDB{tip: tip, ancestors: spec.Any[bool]("all ancestors stored")}
	if spec.Choose("ancestors answer", 2) > 0 {
		h.ancErr = errFake
	}
	n, p := newNode(h, &filtersDB{}), newPeer("p", nil)
	p.tip = spec.Any[uint32]("announced height")
	got, err := n.synced(p)
	want := h.ancErr == nil && h.ancestors && tip.Height >= p.tip
	spec.Ensures("synced exactly when the tip is high enough and complete", got == want)
	spec.Ensures("a storage failure is never synced", err == nil || !got)
	if got {
		hash, _ := tip.Hash()
		spec.Ensures("completeness was asked of the tip", h.ancCalls == 1 && spec.SameBytes(h.ancOf[:], hash[:]))
	}
}

// VC_C16_no_tip: without a tip the node is not synced.
func VC_C16_no_tip() {
	h := &headersDB{ancestors: true}
	switch spec.Choose("tip answer", 3) {
	case 1:
		h.tipErr = errFake
	case 2:
		h.tipErr = repository.ErrNoBlocksHeaders
	}
	n, p := newNode(h, &filtersDB{}), newPeer("p", nil)
	p.tip = spec.Any[uint32]("announced height")
	got, _ := n.synced(p)
	spec.Ensures("without a tip the node is not synced", !got)
}

// changing answers differently every time; the observation ends after some answers.
type changing struct {
	headersDB
	answers int
	now     bool // the last answers amount to synced
	peer    *fakePeer
}

func (d *changing) ChainTip(context.Context) (*block.Header, error) {
	d.answers++
	spec.Assume(d.answers <= 3)
	d.now = false
	switch spec.Choose("tip answer", 3) {
	case 1:
		return nil, errFake
	case 2:
		return nil, nil
	}
	d.tip = someHeader("tip", spec.Any[uint32]("tip height"))
	return d.tip, nil
}

func (d *changing) HasAllAncestors(context.Context, chainhash.Hash) (bool, error) {
	if spec.Choose("ancestors answer", 2) > 0 {
		return true, errFake
	}
	all := spec.Any[bool]("all ancestors stored")
	d.now = all && d.tip.Height >= d.peer.tip
	return all, nil
}

// releases counts how often start-up was released.
func releases(n *node) (k int) {
	for {
		select {
		case <-n.syncedChan:
			k++
		default:
			return k
		}
	}
}

// VC_C16_release: start-up is released once, right after the condition was observed.
func VC_C16_release() {
	spec.Bounded("at most three observations")
	d := &changing{peer: newPeer("p", nil)}
	d.peer.tip = spec.Any[uint32]("announced height")
	n := newNode(&d.headersDB, &filtersDB{})
	n.blockHeadersDb = d
	n.checkSyncedInitial(d.peer)
	spec.Ensures("it ends only when the condition was observed", d.now)
	n.checkSyncedInitial(d.peer)
	n.notifySynced()
	spec.Ensures("start-up is released exactly once", releases(n) == 1)
}

// VC_C16_waiting: while the condition does not hold start-up is not released.
func VC_C16_waiting() {
	spec.Bounded("at most three observations")
	d := &changing{peer: newPeer("p", nil)}
	d.peer.tip = spec.Any[uint32]("announced height")
	n := newNode(&d.headersDB, &filtersDB{})
	n.blockHeadersDb = d
	close(n.quit)
	n.checkSyncedInitial(d.peer)
	spec.Ensures("start-up is released only under the condition", releases(n) == 0 || d.now)
}
