package inmemory

import (
	"context"

	"github.com/vulpemventures/neutrino-elements/pkg/repository"
	spec "github.com/vulpemventures/neutrino-elements/pkg/verifspec"
)

func anyKey(name string) ([32]byte, byte, repository.FilterKey) {
	h, t := spec.Any[[32]byte](name), spec.Any[byte](name+" type")
	own := h
	return h, t, repository.FilterKey{BlockHash: own[:], FilterType: repository.FilterType(t)}
}

// VC_C23_put_get: one arbitrary key is looked up after several were stored under
// arbitrary keys: the last one stored under an equal key is found.
func storedFilters(puts int) {
	spec.Bounded("histories of at most three writes")
	ctx := context.Background()
	s := NewFilterInmemory()
	q, qt, key := anyKey("asked hash")
	var want []byte
	found := false
	for i := 0; i < puts; i++ {
		h, t, k := anyKey("hash")
		b := spec.AnyBytes("filter", 2)
		kept := append([]byte{}, b...)
		err := s.PutFilter(ctx, &repository.FilterEntry{Key: k, NBytes: b})
		spec.Ensures("a filter is stored", err == nil)
		spec.Ensures("the caller's key is as it was", spec.SameBytes(k.BlockHash, h[:]) && byte(k.FilterType) == t)
		if h == q && t == qt {
			want, found = kept, true
		}
		b[0]++
		k.BlockHash[0]++
	}
	for twice := 0; twice < 2; twice++ {
		e, err := s.GetFilter(ctx, key)
		if !found {
			spec.Ensures("a key never stored is not found", e == nil && err == repository.ErrFilterNotFound)
			return
		}
		spec.Ensures("a stored key is found", err == nil && e != nil)
		spec.Ensures("with exactly the bytes stored last under it", spec.SameBytes(e.NBytes, want))
		spec.Ensures("under that key", spec.SameBytes(e.Key.BlockHash, q[:]) && byte(e.Key.FilterType) == qt)
		spec.Ensures("the caller's key is as it was", spec.SameBytes(key.BlockHash, q[:]))
		e.NBytes[0]++
	}
}

func VC_C23_put_get_none() { storedFilters(0) }
func VC_C23_put_get_one()  { storedFilters(1) }
func VC_C23_put_get_two()  { storedFilters(2) }

// VC_C23_put_get_three: three writes over keys that differ in one byte, in the
// type, or not at all.
func VC_C23_put_get_three() {
	spec.Bounded("histories of at most three writes")
	ctx := context.Background()
	s := NewFilterInmemory()
	keyOf := func(i int) repository.FilterKey {
		h := make([]byte, 32)
		h[31] = byte(i & 1)
		return repository.FilterKey{BlockHash: h, FilterType: repository.FilterType(i >> 1)}
	}
	var want [3][]byte
	for i := 0; i < 3; i++ {
		n := spec.Choose("key", 3)
		b := spec.Any[[2]byte]("filter")
		want[n] = append([]byte{}, b[:]...)
		spec.Ensures("a filter is stored", s.PutFilter(ctx, &repository.FilterEntry{Key: keyOf(n), NBytes: b[:]}) == nil)
		b[0]++
	}
	for n := range want {
		e, err := s.GetFilter(ctx, keyOf(n))
		if want[n] == nil {
			spec.Ensures("a key never stored is not found", e == nil && err == repository.ErrFilterNotFound)
			continue
		}
		spec.Ensures("a stored key is found with the bytes stored last under it", err == nil && spec.SameBytes(e.NBytes, want[n]))
		e.NBytes[0]++
	}
}
