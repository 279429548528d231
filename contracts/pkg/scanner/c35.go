package scanner

import (
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

// VC_C35_queue: any operation on the queue of requests.
func VC_C35_queue() {
	spec.Bounded("at most two requests")
	q := newScanRequestQueue()
	q.requests = requests(spec.Choose("requests", 3))
	spec.Guard("the queue", &q.requests, q.locker)
	switch spec.Choose("operation", 4) {
	case 0:
		q.enqueue(requests(1)[0])
	case 1:
		q.dequeueAtHeight(spec.Any[uint32]("height"))
	case 2:
		q.peek()
	case 3:
		q.isEmpty()
	}
	spec.Ensures("the locks are released", spec.LockFree(q.locker) && spec.LockFree(q.cond.L))
}
