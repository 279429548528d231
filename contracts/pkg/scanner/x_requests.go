package scanner

import (
	"github.com/vulpemventures/go-elements/transaction"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// item is a watch that matches the transactions whose lock time it lists.
type item struct {
	number  byte
	matches []uint32
	event   EventType
}

func (i *item) Bytes() []byte        { return []byte{i.number} }
func (i *item) EventType() EventType { return i.event }
func (i *item) Match(tx *transaction.Transaction) bool {
	for _, m := range i.matches {
		if m == tx.Locktime {
			return true
		}
	}
	return false
}

// requests makes that many requests of any start height and kind.
func requests(n int) []*ScanRequest {
	var rs []*ScanRequest
	for i := 0; i < n; i++ {
		rs = append(rs, &ScanRequest{
			ClientID:     spec.Any[[16]byte]("client"),
			StartHeight:  spec.Any[uint32]("start height"),
			Item:         &item{number: byte(i)},
			IsPersistent: spec.Any[bool]("persistent"),
		})
	}
	return rs
}

func same(a, b []*ScanRequest) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// split keeps the order of those at the height and of the others.
func split(rs []*ScanRequest, height uint32) (due, others []*ScanRequest) {
	for _, r := range rs {
		if r.StartHeight == height {
			due = append(due, r)
		} else {
			others = append(others, r)
		}
	}
	return due, others
}

// contents is what is in a queue.
func contents(q *scanRequestQueue) []*ScanRequest { return q.requests }
