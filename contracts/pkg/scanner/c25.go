package scanner

import (
	"sync"

	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func queued(rs []*ScanRequest) *scanRequestQueue {
	q := newScanRequestQueue()
	for _, r := range rs {
		q.enqueue(r)
	}
	return q
}

func taking(n int) {
	spec.Bounded("queues of at most four requests")
	rs := requests(n)
	kept := append([]*ScanRequest{}, rs...)
	q := queued(rs)
	spec.Ensures("added requests are all there in order", same(contents(q), kept))
	spec.Ensures("emptiness is told truly", q.isEmpty() == (n == 0))
	h := spec.Any[uint32]("height")
	due, others := split(kept, h)
	got := q.dequeueAtHeight(h)
	spec.Ensures("exactly the requests of the height are taken, in order", same(got, due))
	spec.Ensures("exactly the others stay, in order", same(contents(q), others))
	spec.Ensures("emptiness is told truly", q.isEmpty() == (len(others) == 0))
	spec.Ensures("nothing is taken twice", len(q.dequeueAtHeight(h)) == 0)

	// what was taken and what stayed do not share memory
	more := requests(1)
	q.enqueue(more[0])
	spec.Ensures("what was taken is not changed by what is added", same(got, due))
	others = append(others, more[0])
	spec.Ensures("an added request comes last", same(contents(q), others))
	for _, r := range got {
		q.enqueue(r)
		others = append(others, r)
	}
	spec.Ensures("requests put back come last", same(contents(q), others))
}

func VC_C25_take_none() { taking(0) }
func VC_C25_take_one()  { taking(1) }
func VC_C25_take_two()  { taking(2) }
func VC_C25_take_four() {
	spec.Bounded("queues of at most four requests")
	taking(4)
}

// VC_C25_take_many: a long queue.
func VC_C25_take_many() {
	spec.Bounded("a queue of 400 requests of three heights")
	q := newScanRequestQueue()
	var due, others []*ScanRequest
	for i := 0; i < 400; i++ {
		r := &ScanRequest{StartHeight: uint32(i % 3)}
		q.enqueue(r)
		if i%3 == 1 {
			due = append(due, r)
		} else {
			others = append(others, r)
		}
	}
	got := q.dequeueAtHeight(1)
	spec.Ensures("exactly the requests of the height are taken, in order", same(got, due))
	spec.Ensures("exactly the others stay, in order", same(contents(q), others))
}

func looking(n int) {
	spec.Bounded("queues of at most four requests")
	rs := requests(n)
	kept := append([]*ScanRequest{}, rs...)
	q := queued(rs)
	next := q.peek()
	spec.Ensures("looking removes and reorders nothing", same(contents(q), kept))
	spec.Ensures("looking again gives the same", q.peek() == next)
	spec.Ensures("nothing is next in an empty queue only", (next == nil) == (n == 0))
	in := false
	for _, r := range kept {
		in = in || r == next
	}
	spec.Ensures("the next request is a queued one", in || n == 0)
	if n > 0 {
		first := kept[0]
		for _, r := range kept {
			if r.StartHeight < first.StartHeight {
				first = r
			}
		}
		spec.Ensures("no queued request is due before it", next.StartHeight == first.StartHeight)
	}
}

func VC_C25_peek_none() { looking(0) }
func VC_C25_peek_one()  { looking(1) }
func VC_C25_peek_two()  { looking(2) }
func VC_C25_peek_four() {
	spec.Bounded("queues of at most four requests")
	looking(4)
}

var woken int

// A signal wakes whoever waits already; a consumer holds the condition's lock
// from its look at the queue until it waits.
//
//verif:model (*sync.Cond).Signal
func signal(c *sync.Cond) {
	if !spec.LockFree(c.L) {
		woken++
	}
}

//verif:model (*sync.Cond).Broadcast
func broadcast(c *sync.Cond) { signal(c) }

// VC_C25_wake: adding a request wakes a consumer, also one that has looked at the
// queue before and is about to wait.
func VC_C25_wake() {
	q := newScanRequestQueue()
	r := requests(2)
	woken = 0
	q.enqueue(r[0])
	spec.Ensures("a consumer about to wait is woken", woken > 0)
	woken = 0
	q.enqueue(r[1])
	spec.Ensures("also when the queue was not empty", woken > 0)
	spec.Ensures("the locks are released", spec.LockFree(q.cond.L) && spec.LockFree(q.locker))
}
