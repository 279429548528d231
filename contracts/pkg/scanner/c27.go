package scanner

import spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"

// oneBlock scans the block at the tip for some of the requests of the queue. When
// early is set some of them are due a block earlier, which holds nothing.
func oneBlock(n, txs int, height, early uint32) {
	spec.Bounded("blocks of at most three transactions, at most three requests")
	newChain(height, txs, false)
	if early > 0 {
		c.blank = height - 1
	}
	s := newScanner()
	rs := requests(n)
	for _, r := range rs {
		it := r.Item.(*item)
		for i := 0; i < txs; i++ {
			if spec.Choose("matches", 2) > 0 {
				it.matches = append(it.matches, number(height, i))
			}
		}
		r.StartHeight = height - early + uint32(spec.Choose("later", 2+int(early)))
		s.requestsQueue.enqueue(r)
	}
	ch := make(chan Report, 1000)
	err := s.requestWorker(height-early, ch)
	got := reported(ch)
	spec.Ensures("the block is scanned", err == nil && len(c.asked) == 1+int(early) && c.asked[early] == height)

	due, later := split(rs, height)
	if early > 0 {
		before, _ := split(rs, height-1)
		_, later = split(later, height-1)
		due = append(before, due...)
	}
	if c.items[early] != nil {
		spec.Ensures("the filter is asked for every due item", len(c.items[early]) == len(due))
		for i, r := range due {
			spec.Ensures("by the bytes of the items", spec.SameBytes(c.items[early][i], r.Item.Bytes()))
		}
	}
	k := 0
	var unmatched []*ScanRequest
	for _, r := range due {
		before := k
		if c.matched[height] {
			for i, tx := range c.block[height].TransactionsData.Transactions {
				if !r.Item.Match(tx) {
					continue
				}
				spec.Ensures("every match is reported", k < len(got))
				spec.Ensures("in order, naming request, transaction, block and height",
					got[k].Request == r && got[k].Transaction.Locktime == number(height, i) &&
						got[k].BlockHeight == height && *got[k].BlockHash == *hashAt(height))
				k++
			}
		}
		if k == before {
			unmatched = append(unmatched, r)
		}
	}
	spec.Ensures("nothing else is reported", k == len(got))
	var pending, waiting []*ScanRequest
	for _, r := range contents(s.requestsQueue) {
		for _, d := range due {
			if r == d {
				pending = append(pending, r)
			}
		}
		for _, l := range later {
			if r == l {
				waiting = append(waiting, r)
			}
		}
	}
	spec.Ensures("the requests with no match, and only those, remain pending in order", same(pending, unmatched))
	spec.Ensures("requests for later blocks remain in order", same(waiting, later))
}

func VC_C27_none()    { oneBlock(0, 1, 5, 0) }
func VC_C27_one_one() { oneBlock(1, 1, 5, 0) }
func VC_C27_genesis() { oneBlock(1, 1, 0, 0) }
func VC_C27_empty()   { oneBlock(2, 0, 5, 0) }
func VC_C27_one_two() { oneBlock(1, 2, 5, 0) }
func VC_C27_two_two() { oneBlock(2, 2, 5, 0) }
func VC_C27_three_two() {
	spec.Bounded("blocks of at most two transactions and three requests")
	oneBlock(3, 2, 5, 0)
}
func VC_C27_one_three() {
	spec.Bounded("blocks of at most three transactions and one request")
	oneBlock(1, 3, 5, 0)
}

// VC_C27_pending: requests that have been pending since an earlier block.
func VC_C27_pending_one() { oneBlock(1, 2, 5, 1) }
func VC_C27_pending_two() {
	spec.Bounded("blocks of at most one transaction and two requests, one block after they were due")
	oneBlock(2, 1, 5, 1)
}
