package dbpg

import (
	"bytes"
	"context"

	"github.com/vulpemventures/go-elements/block"
	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

var ctx = context.Background()

func stored(h block.Header) bool {
	for _, r := range d.headers {
		if r.Hash == hashAt(byte(h.Timestamp)).String() {
			return r.Height == h.Height && bytes.Equal(r.HeaderBytes, row(h).HeaderBytes)
		}
	}
	return false
}

// writing writes a batch while some of its headers, or rivals at their heights,
// are stored already.
func writing(size int, flaky bool) {
	spec.Bounded("batches of at most three headers")
	d = &database{flaky: flaky}
	repo, _ := NewHeaderRepositoryImpl(service())
	var batch []block.Header
	rival := false
	for i := 1; i <= size; i++ {
		h := headerAt(byte(i), byte(i-1), uint32(4+i))
		batch = append(batch, h)
		switch spec.Choose("stored before", 3) {
		case 1:
			d.headers = append(d.headers, row(h))
		case 2:
			d.headers = append(d.headers, row(headerAt(byte(100+i), 0, h.Height)))
			rival = true
		}
	}
	before := append([]BlockHeader{}, d.headers...)
	err := repo.WriteHeaders(ctx, batch...)
	all := true
	for _, h := range batch {
		all = all && stored(h)
	}
	spec.Ensures("a successful write has stored every header", err != nil || all)
	spec.Ensures("a database failure is an error", !d.failed || err != nil)
	spec.Ensures("a batch that fits is stored", d.failed || rival || err == nil)
	for _, r := range before {
		kept := false
		for _, now := range d.headers {
			kept = kept || now.Hash == r.Hash && now.Height == r.Height && bytes.Equal(now.HeaderBytes, r.HeaderBytes)
		}
		spec.Ensures("what was stored stays stored", kept)
	}
	spec.Ensures("the transaction is ended", !d.open)
}

func VC_C24_write_one()         { writing(1, false) }
func VC_C24_write_two()         { writing(2, false) }
func VC_C24_write_one_failing() { writing(1, true) }
func VC_C24_write_two_failing() { writing(2, true) }
func VC_C24_write_three() {
	spec.Bounded("batches of at most three headers")
	writing(3, false)
}

// VC_C24_write_twice: the same header twice in a batch.
func VC_C24_write_twice() {
	spec.Bounded("batches of at most three headers")
	d = &database{}
	repo, _ := NewHeaderRepositoryImpl(service())
	a, b := headerAt(1, 0, 5), headerAt(2, 1, 6)
	err := repo.WriteHeaders(ctx, a, a, b)
	spec.Ensures("a batch with a repeated header is stored", err == nil && stored(a) && stored(b))
}

// reading asks a store of a few headers, with or without failures.
func reading(ask func(repository.BlockHeaderRepository) error) {
	spec.Bounded("stores of two headers")
	d = &database{flaky: true}
	for i := 1; i <= 2; i++ {
		d.headers = append(d.headers, row(headerAt(byte(i), byte(i-1), uint32(i))))
	}
	broken := spec.Choose("undecodable", 2) > 0
	if broken {
		d.headers[1].HeaderBytes = []byte{2}
	}
	repo, _ := NewHeaderRepositoryImpl(service())
	err := ask(repo)
	spec.Ensures("a database failure or a broken row is an error", !d.failed && !broken || err != nil)
	spec.Ensures("otherwise the answer is given", d.failed || broken || err == nil)
}

func VC_C24_read_tip() {
	reading(func(r repository.BlockHeaderRepository) error {
		h, err := r.ChainTip(ctx)
		spec.Ensures("no answer with an error", err == nil && h != nil && h.Height == 2 || err != nil && h == nil)
		return err
	})
}

func VC_C24_read_header() {
	reading(func(r repository.BlockHeaderRepository) error {
		h, err := r.GetBlockHeader(ctx, hashAt(2))
		spec.Ensures("no answer with an error", err == nil && h != nil && h.Timestamp == 2 || err != nil && h == nil)
		return err
	})
}

func VC_C24_read_height() {
	reading(func(r repository.BlockHeaderRepository) error {
		h, err := r.GetBlockHashByHeight(ctx, 2)
		spec.Ensures("no answer with an error", err == nil && *h == hashAt(2) || err != nil && h == nil)
		return err
	})
}

func VC_C24_read_ancestors() {
	reading(func(r repository.BlockHeaderRepository) error {
		all, err := r.HasAllAncestors(ctx, hashAt(2))
		spec.Ensures("completeness is not claimed with an error", all == (err == nil))
		return err
	})
}

func VC_C24_read_locator() {
	reading(func(r repository.BlockHeaderRepository) error {
		l, err := r.LatestBlockLocator(ctx)
		spec.Ensures("no locator with an error", err == nil && len(l) >= 1 && *l[0] == hashAt(2) || err != nil && len(l) == 0)
		return err
	})
}

// VC_C24_absent: nothing is found in an empty store.
func VC_C24_absent() {
	d = &database{flaky: true}
	repo, _ := NewHeaderRepositoryImpl(service())
	_, err := repo.ChainTip(ctx)
	spec.Ensures("an empty store has no tip", d.failed && err != nil || err == repository.ErrNoBlocksHeaders)
	d.failed = false
	_, err = repo.GetBlockHeader(ctx, hashAt(1))
	spec.Ensures("and no header", d.failed && err != nil || err == repository.ErrBlockNotFound)
	d.failed = false
	_, err = repo.GetBlockHashByHeight(ctx, 1)
	spec.Ensures("at no height", err != nil)
	all, err := repo.HasAllAncestors(ctx, hashAt(1))
	spec.Ensures("and no ancestors", !all && err != nil)
}

// VC_C24_filter: a filter is stored, or an error says that it is not.
func VC_C24_filter() {
	d = &database{flaky: true}
	repo, _ := NewFilterRepositoryImpl(service())
	hash := make([]byte, 32)
	hash[0] = 7
	key := repository.FilterKey{BlockHash: hash}
	b := spec.Any[[3]byte]("filter")
	same := true
	switch spec.Choose("stored before", 3) {
	case 1:
		d.filters = append(d.filters, Filter{Key: key.String(), Value: append([]byte{}, b[:]...)})
	case 2:
		other := spec.Any[[3]byte]("other filter")
		same = other == b
		d.filters = append(d.filters, Filter{Key: key.String(), Value: other[:]})
	}
	before := len(d.filters)
	err := repo.PutFilter(ctx, &repository.FilterEntry{Key: key, NBytes: b[:]})
	spec.Ensures("success means the very bytes are stored", err != nil || len(d.filters) == 1 && spec.SameBytes(d.filters[0].Value, b[:]))
	spec.Ensures("a database failure is an error", !d.failed || err != nil)
	spec.Ensures("another filter under the key is an error", same || err != nil)
	spec.Ensures("and otherwise it is stored", d.failed || !same || err == nil)
	spec.Ensures("nothing that was stored is lost", len(d.filters) >= before && !d.open)

	d.failed = false
	e, err := repo.GetFilter(ctx, key)
	switch {
	case d.failed:
		spec.Ensures("a database failure while reading is an error", err != nil && err != repository.ErrFilterNotFound)
	case len(d.filters) == 0:
		spec.Ensures("a filter that is not stored is not found", err == repository.ErrFilterNotFound)
	default:
		spec.Ensures("a stored filter is found", err == nil && spec.SameBytes(e.NBytes, d.filters[0].Value))
	}
}
