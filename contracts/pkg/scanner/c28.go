package scanner

import spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"

// scanning scans from a height to the tip and looks where every request ended up.
// Requests may start before the scan does, at its heights, or after the tip.
func scanning(n int, from, tip uint32, txs int, flaky, grow bool) {
	spec.Bounded("scans of at most two requests over two blocks")
	newChain(tip, txs, flaky)
	c.grow = grow
	s := newScanner()
	rs := requests(n)
	var starts []uint32
	for _, r := range rs {
		it := r.Item.(*item)
		r.StartHeight = from - 1 + uint32(spec.Choose("start", int(tip-from)+3))
		starts = append(starts, r.StartHeight)
		for h := from; h <= tip || grow && h == tip+1; h++ {
			switch spec.Choose("matches", txs+1) {
			case 1:
				it.matches = append(it.matches, number(h, 0))
			case 2:
				it.matches = append(it.matches, number(h, 0), number(h, 1))
			}
		}
		s.requestsQueue.enqueue(r)
	}
	ch := make(chan Report, 1000)
	err := s.requestWorker(from, ch)
	got := reported(ch)
	spec.Ensures("a failure is an error", c.failed == (err != nil))
	for i, h := range c.asked {
		spec.Ensures("every height is examined once, in order", h == from+uint32(i))
	}
	done := c.tip // the last height examined without failure
	if c.failed {
		done = from + uint32(len(c.asked)) - 1
		if c.midway {
			done--
		}
	} else {
		spec.Ensures("up to the tip", len(c.asked) == int(c.tip-from)+1)
	}

	total := 0
	for i, r := range rs {
		it := r.Item.(*item)
		start, live, last := starts[i], true, uint32(0)
		for h := from; h <= done; h++ {
			if start < from || start > h || !live {
				continue
			}
			if c.items[h-from] != nil {
				in := false
				for _, b := range c.items[h-from] {
					in = in || spec.SameBytes(b, it.Bytes())
				}
				spec.Ensures("all pending requests due by then are looked for", in)
			}
			if !c.matched[h] {
				continue
			}
			k := 0
			for t := 0; t < txs; t++ {
				for _, m := range it.matches {
					if m == number(h, t) {
						k++
					}
				}
			}
			reports := 0
			for _, g := range got {
				if g.Request.Item == r.Item && g.BlockHeight == h {
					reports++
					spec.Ensures("for the subscriber of the request", g.Request.ClientID == r.ClientID)
				}
			}
			spec.Ensures("every match is reported once", reports == k)
			total += k
			if k > 0 {
				last = h
				live = r.IsPersistent
			}
		}
		queued := 0
		for _, q := range contents(s.requestsQueue) {
			if q.Item == r.Item {
				queued++
				spec.Ensures("the watch stays what it was", q.ClientID == r.ClientID && q.IsPersistent == r.IsPersistent)
				want := start
				if last > 0 {
					want = last + 1
				}
				spec.Ensures("for the height after its match, or the one it had", q.StartHeight == want)
			}
		}
		if live {
			spec.Ensures("a watch that is not resolved is queued exactly once", queued == 1)
		} else {
			spec.Ensures("a resolved watch is gone", queued == 0)
		}
	}
	spec.Ensures("nothing else is reported", total == len(got))
	spec.Ensures("the locks are released", spec.LockFree(s.requestsQueue.locker) && spec.LockFree(s.requestsQueue.cond.L))
}

func VC_C28_scan_one()         { scanning(1, 5, 5, 2, false, false) }
func VC_C28_scan_one_two()     { scanning(1, 5, 6, 2, false, false) }
func VC_C28_scan_one_failing() { scanning(1, 5, 6, 1, true, false) }
func VC_C28_scan_growing()     { scanning(1, 5, 5, 1, false, true) }
func VC_C28_scan_two() {
	spec.Bounded("scans of at most two requests over two blocks")
	scanning(2, 5, 6, 1, false, false)
}
func VC_C28_scan_two_failing() {
	spec.Bounded("failing scans of at most two requests over one block")
	scanning(2, 5, 5, 1, true, false)
}

// VC_C28_manager: the scanner serves the requests in the queue, also one behind a
// request for a block that is not there yet, also after a failure.
func VC_C28_manager() {
	spec.Bounded("two requests")
	newChain(5, 1, true)
	c.calls = 6
	s := newScanner()
	rs := requests(2)
	early := spec.Choose("which is due", 2)
	for i, r := range rs {
		r.StartHeight = 9
		if i == early {
			r.StartHeight, r.IsPersistent = 5, false
			r.Item.(*item).matches = []uint32{number(5, 0)}
		}
		s.Watch(WithRequestID(r.ClientID), WithStartBlock(r.StartHeight), WithWatchItem(r.Item))
	}
	out, err := s.Start()
	spec.Ensures("the scanner starts", err == nil)
	spec.Settle()
	n := 0
	for more := 3; more > 0; {
		select {
		case r := <-out:
			n++
			spec.Ensures("the match is reported", r.Request.Item == rs[early].Item && r.BlockHeight == 5)
		default:
			more--
			spec.Settle()
		}
	}
	queued := map[WatchItem]int{}
	for _, q := range contents(s.requestsQueue) {
		queued[q.Item]++
	}
	spec.Ensures("a watch that is due is reported or stays, once", n+queued[rs[early].Item] == 1)
	spec.Ensures("it is reported when its block is found", !c.matched[5] || n == 1)
	spec.Ensures("it has been looked for", len(c.asked) > 0)
	spec.Ensures("a watch for a later block stays", queued[rs[1-early].Item] == 1)
}

// VC_C28_later: a scanner that waits for requests serves one that comes.
func VC_C28_later() {
	spec.Bounded("one request")
	newChain(5, 1, false)
	c.calls = 4
	s := newScanner()
	out, err := s.Start()
	spec.Ensures("the scanner starts", err == nil)
	spec.Settle()
	r := requests(1)[0]
	r.Item.(*item).matches = []uint32{number(5, 0)}
	s.Watch(WithRequestID(r.ClientID), WithStartBlock(5), WithWatchItem(r.Item))
	spec.Settle()
	spec.Ensures("a request that comes later is served", len(c.asked) > 0)
	if c.matched[5] {
		g := <-out
		spec.Ensures("and its match reported", g.Request.Item == r.Item && g.Request.ClientID == r.ClientID)
	}
}
