package scanner

import (
	"errors"

	"github.com/vulpemventures/go-elements/descriptor"
	"github.com/vulpemventures/go-elements/transaction"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var errDescriptor = errors.New("verif: not a descriptor")

const derivationRange = 100

// wallet is what is assumed of a parsed descriptor: it derives its one script, or
// as many as it is asked for when it is ranged, or fails.
type wallet struct {
	ranged  bool
	fails   bool
	scripts [][]byte
}

var (
	parsed  descriptor.Wallet
	outcome int
	asked   int
)

//verif:model github.com/vulpemventures/go-elements/descriptor.Parse
func parse(string) (descriptor.Wallet, error) {
	switch outcome {
	case 0:
		return nil, errDescriptor
	case 1:
		return nil, nil // the answer for kinds that are not supported
	case 2:
		panic("verif: malformed key origin")
	}
	return parsed, nil
}

//verif:model github.com/vulpemventures/go-elements/descriptor.WithRange
func withRange(n int) *descriptor.ScriptOpts { asked = n; return &descriptor.ScriptOpts{} }

//verif:model github.com/vulpemventures/go-elements/descriptor.WithIndex
func withIndex(uint32) *descriptor.ScriptOpts { asked = 1; return &descriptor.ScriptOpts{} }

func (w *wallet) Type() string  { return "wpkh" }
func (w *wallet) IsRange() bool { return w.ranged }
func (w *wallet) Script(opts *descriptor.ScriptOpts) ([]descriptor.ScriptResponse, error) {
	if w.fails {
		return nil, errDescriptor
	}
	n := 1
	if w.ranged && opts != nil {
		n = asked
	}
	var rs []descriptor.ScriptResponse
	for i := 0; i < n && i < len(w.scripts); i++ {
		rs = append(rs, descriptor.ScriptResponse{Script: w.scripts[i]})
	}
	return rs, nil
}

// VC_C29_register: any event list, identity and start height.
func VC_C29_register() {
	spec.Bounded("at most three event types")
	w := &wallet{ranged: spec.Choose("ranged", 2) > 0, fails: spec.Choose("derives", 2) == 0}
	parsed, outcome, asked = w, spec.Choose("parses", 4), 0
	n := 1
	if w.ranged {
		n = derivationRange
	}
	own := spec.Any[[2]byte]("script")
	for i := 0; i < n; i++ {
		w.scripts = append(w.scripts, []byte{byte(i), own[0], own[1]})
	}
	w.scripts = append(w.scripts, []byte{0xff}) // beyond the range
	var events []EventType
	unspent := false
	for i := spec.Choose("events", 4); i > 0; i-- {
		e := EventType(spec.Choose("event", 3))
		unspent = unspent || e == UnspentUtxo
		events = append(events, e)
	}
	id, start := spec.Any[[16]byte]("subscriber"), spec.Any[uint32]("start height")

	s := New(nil, nil, nil, nil).(*scannerService)
	err := s.WatchDescriptorWallet(id, "descriptor", events, int(start))
	got := contents(s.requestsQueue)
	if outcome < 3 || w.fails {
		spec.Ensures("a descriptor that does not parse or derive queues nothing", len(got) == 0)
		spec.Ensures("and is an error", err != nil || !unspent)
		return
	}
	spec.Ensures("a descriptor is registered", err == nil)
	if !unspent {
		spec.Ensures("nothing is watched for that was not asked for", len(got) == 0)
		return
	}
	spec.Ensures("exactly one watch per script", len(got) == n)
	seen := make([]bool, n)
	for _, r := range got {
		i := int(r.Item.Bytes()[0])
		spec.Ensures("of the scripts derived, each once", i < n && !seen[i] && spec.SameBytes(r.Item.Bytes(), []byte{byte(i), own[0], own[1]}))
		seen[i] = true
		spec.Ensures("persistent, for the subscriber, from the start height", r.IsPersistent && r.ClientID == id && r.StartHeight == start)
		spec.Ensures("for unspent outputs", r.Item.EventType() == UnspentUtxo &&
			r.Item.Match(&transaction.Transaction{Outputs: []*transaction.TxOutput{{Script: []byte{byte(i), own[0], own[1]}}}}))
	}
}

// VC_C29_twice: what one subscriber registers does not disturb what another did.
func VC_C29_twice() {
	s := New(nil, nil, nil, nil).(*scannerService)
	outcome = 3
	a, b := spec.Any[[16]byte]("subscriber"), spec.Any[[16]byte]("other subscriber")
	ha, hb := spec.Any[uint32]("start height"), spec.Any[uint32]("other start height")
	parsed = &wallet{scripts: [][]byte{{1}}}
	s.WatchDescriptorWallet(a, "descriptor", []EventType{UnspentUtxo}, int(ha))
	parsed = &wallet{scripts: [][]byte{{2}}}
	s.WatchDescriptorWallet(b, "other descriptor", []EventType{UnspentUtxo}, int(hb))
	got := contents(s.requestsQueue)
	spec.Ensures("both are queued in order", len(got) == 2)
	spec.Ensures("each as registered", got[0].ClientID == a && got[0].StartHeight == ha && got[0].Item.Bytes()[0] == 1 &&
		got[1].ClientID == b && got[1].StartHeight == hb && got[1].Item.Bytes()[0] == 2)
}
