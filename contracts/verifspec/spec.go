// Package verifspec is the specification vocabulary of the contracts in
// /verif/contracts. The verifier (govc) gives these functions their logical
// meaning; the bodies below are their meaning when a contract is run natively.
package verifspec

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// ---- native run state ----

type failure struct{ label string }
type skip struct{}

// Run holds the state of one native run of a contract.
type Run struct {
	rnd   *rand.Rand
	given map[string]string // values taken from a solver model
	Trace []string
	level int
	reach map[string]bool
}

var cur *Run

func trace(name string, v interface{}) {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	cur.Trace = append(cur.Trace, name+" = "+s)
}

// Requires restricts the inputs the contract speaks about.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Assume states a fact about the environment (listed as an assumption).
func Assume(c bool) {
	if !c {
		panic(skip{})
	}
}

// Prune drops the path at hand if the quantified assumptions contradict it.
func Prune() {}

// Ensures is a postcondition.
func Ensures(label string, c bool) {
	if cur != nil {
		cur.reach[label] = true
	}
	if !c {
		panic(failure{label})
	}
}

// Inductive lets the search loops of the code under contract be cut: see DESIGN.md.
func Inductive() {}

// Bounded declares that the contract explores only the stated bound.
func Bounded(what string) {}

// Implies is logical implication.
func Implies(a, b bool) bool { return !a || b }

// Forall is universal quantification over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists is existential quantification over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// ForallKeys quantifies over the entries of a map.
func ForallKeys[K comparable, V any](m map[K]V, f func(k K, v V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

// MapCopy is a snapshot of a map.
func MapCopy[K comparable, V any](m map[K]V) map[K]V {
	n := map[K]V{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// SliceCopy is a snapshot of a slice.
func SliceCopy[T any](s []T) []T { return append([]T{}, s...) }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case skip, failure:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// UntilBlocked runs f until it returns or waits for something nobody provides.
func UntilBlocked(f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(30 * time.Millisecond):
	}
}

// Settle lets the goroutines started so far run until they return or block.
func Settle() { time.Sleep(15 * time.Millisecond) }

// Choose returns an arbitrary number in [0,n).
func Choose(name string, n int) int {
	v := cur.rnd.Intn(n)
	if g, ok := cur.given[name]; ok {
		if k, ok := new(big.Int).SetString(g, 10); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() < int64(n) {
			v = int(k.Int64())
		}
	}
	trace(name, v)
	return v
}

// LockFree reports that nobody holds the lock.
func LockFree(l interface{}) bool {
	switch m := l.(type) {
	case interface{ TryLock() bool }:
		if m.TryLock() {
			l.(interface{ Unlock() }).Unlock()
			return true
		}
		return false
	}
	return true
}

// Guard declares that location p is protected by lock l.
func Guard(name string, p interface{}, l interface{}) {}

// GuardMap declares that the contents of map m are protected by lock l.
func GuardMap(name string, m interface{}, l interface{}) {}

// Native tells a native run from the logical meaning.
func Native() bool { return true }

// AllocLimit bounds every allocation of the code under contract from here on.
func AllocLimit(n int) {}

// Spawned is the number of goroutines started by the code under contract, -1 when unknown.
func Spawned() int { return -1 }

// Stuck is the number of goroutines that wait after Settle, -1 when unknown.
func Stuck() int { return -1 }

// SendsBlock: from here on nobody receives from unbuffered channels.
func SendsBlock() {}

// Unread: nobody ever receives from the channel.
func Unread[T any](ch <-chan T) {}

// Rendezvous: from here on what the contract sends on an unbuffered channel
// is received by a goroutine, which runs until it waits, before the sender goes on.
func Rendezvous() {}

// SameBytes compares byte slices.
func SameBytes(a, b []byte) bool { return string(a) == string(b) }

// AnyBytes is an arbitrary byte slice of length n.
func AnyBytes(name string, n int) []byte {
	b := make([]byte, n)
	m := cur.rnd.Intn(4)
	for i := range b {
		switch m {
		case 0:
			b[i] = byte(cur.rnd.Intn(256))
		case 1:
			b[i] = byte(cur.rnd.Intn(3))
		case 2:
			b[i] = []byte{0, 1, 0xfd, 0xfe, 0xff}[cur.rnd.Intn(5)]
		default:
			if cur.rnd.Intn(4) == 0 {
				b[i] = byte(cur.rnd.Intn(256))
			}
		}
	}
	if g, ok := cur.given[name]; ok && strings.HasPrefix(g, "hex:") {
		copy(b, unhex(g[4:]))
	}
	trace(name, fmt.Sprintf("%x", b))
	return b
}

func unhex(s string) []byte {
	var out []byte
	for i := 0; i+1 < len(s); i += 2 {
		var v int
		fmt.Sscanf(s[i:i+2], "%02x", &v)
		out = append(out, byte(v))
	}
	return out
}

// AnyLen is an arbitrary number between 0 and max.
func AnyLen(name string, max int) int {
	small := []int{0, 1, 2, 3, 4, 5, 8, 31, 32, 33, 100, 250, 252, 253, 254, 255, 256, 257, 300, 999, 1000, 1001, 2000, 65535, 65536}
	lim := max
	if lim > 70000 {
		lim = 70000
	}
	var v int
	switch cur.rnd.Intn(4) {
	case 0:
		v = small[cur.rnd.Intn(len(small))]
	case 1:
		v = cur.rnd.Intn(4)
	case 2:
		v = cur.rnd.Intn(600)
	default:
		v = lim
		if v > 1200 {
			v = cur.rnd.Intn(1200)
		}
	}
	if v > lim {
		v = cur.rnd.Intn(lim + 1)
	}
	if g, ok := cur.given[name]; ok {
		if k, ok := new(big.Int).SetString(g, 10); ok && k.IsInt64() && k.Int64() >= 0 && k.Int64() <= int64(lim) {
			v = int(k.Int64())
		}
	}
	trace(name, v)
	return v
}

// Any is an arbitrary value of a type.
func Any[T any](name string) T {
	var v T
	gen(reflect.ValueOf(&v).Elem(), 0)
	if g, ok := cur.given[name]; ok {
		setGiven(reflect.ValueOf(&v).Elem(), g)
	}
	trace(name, v)
	return v
}

func setGiven(v reflect.Value, g string) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if k, ok := new(big.Int).SetString(g, 10); ok && k.IsInt64() {
			v.SetInt(k.Int64())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if k, ok := new(big.Int).SetString(g, 10); ok && k.IsUint64() {
			v.SetUint(k.Uint64())
		}
	case reflect.String:
		if strings.HasPrefix(g, "hex:") {
			v.SetString(string(unhex(g[4:])))
		}
	case reflect.Array, reflect.Slice:
		if strings.HasPrefix(g, "hex:") && v.Type().Elem().Kind() == reflect.Uint8 {
			b := unhex(g[4:])
			if v.Kind() == reflect.Slice {
				v.SetBytes(b)
			} else {
				reflect.Copy(v, reflect.ValueOf(b))
			}
		}
	}
}

func genInt(bits int) uint64 {
	r := cur.rnd
	edge := []uint64{0, 1, 2, 3, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7f, 0x80, 0xffff, 0x10000, 0xfffe, 0x7fff, 0x8000, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 63, 1<<63 - 1, ^uint64(0), 999, 1000, 1001, 2000}
	switch r.Intn(4) {
	case 0:
		return edge[r.Intn(len(edge))]
	case 1:
		return uint64(r.Intn(8))
	case 2:
		return edge[r.Intn(len(edge))] + uint64(r.Intn(5)) - 2
	}
	return r.Uint64() >> uint(r.Intn(64))
}

func gen(v reflect.Value, depth int) {
	r := cur.rnd
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(genInt(v.Type().Bits()))
		sh := uint(64 - v.Type().Bits())
		v.SetInt(x << sh >> sh)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sh := uint(64 - v.Type().Bits())
		v.SetUint(genInt(v.Type().Bits()) << sh >> sh)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(r.Intn(1000)))
	case reflect.String:
		v.SetString(genString())
	case reflect.Array:
		m := r.Intn(3)
		for i := 0; i < v.Len(); i++ {
			if m == 0 && r.Intn(4) != 0 {
				continue
			}
			gen(v.Index(i), depth+1)
		}
	case reflect.Slice:
		n := r.Intn(4)
		if depth == 0 && r.Intn(4) == 0 {
			n = r.Intn(12)
		}
		if depth == 0 && v.Type().Elem().Kind() == reflect.Uint8 {
			n = []int{0, 1, 2, 3, 7, 8, 9, 23, 24, 25, 31, 32, 33, 80, 252, 253, 254, 255, 256, 300}[r.Intn(20)]
		}
		if n == 0 && r.Intn(2) == 0 {
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			gen(v.Index(i), depth+1)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for i := r.Intn(4); i > 0; i-- {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			gen(k, depth+1)
			gen(e, depth+1)
			v.SetMapIndex(k, e)
		}
	case reflect.Ptr:
		if depth > 4 {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		gen(v.Elem(), depth)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			gen(v.Field(i), depth+1)
		}
	}
}

var words = []string{"", "a", "b", "ab", "version", "127.0.0.1", "x\x00y", "ping", "unspentUtxo", "spentUtxo", "é"}

func genString() string {
	r := cur.rnd
	if r.Intn(2) == 0 {
		return words[r.Intn(len(words))]
	}
	n := r.Intn(10)
	if r.Intn(8) == 0 {
		n = 250 + r.Intn(20)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = "ab01:.\x00\xff/ "[r.Intn(10)]
	}
	return string(b)
}

// Result of a native search.
type Result struct {
	Failed  string // label of the violated postcondition, or panic text
	Trace   []string
	Runs    int
	Seed    int64
	Skipped int
	Blocked bool // a native run waits forever
}

// Once runs a contract once.
func Once(f func(), seed int64, given map[string]string) (label string, ok, skipped bool, tr []string) {
	cur = &Run{rnd: rand.New(rand.NewSource(seed)), given: given, reach: map[string]bool{}}
	defer func() {
		tr = cur.Trace
		if r := recover(); r != nil {
			switch e := r.(type) {
			case skip:
				skipped = true
			case failure:
				label = e.label
				ok = false
			default:
				label = fmt.Sprintf("panic: %v", r)
				if os.Getenv("VERIF_STACK") != "" {
					label += "\n" + string(debug.Stack())
				}
				ok = false
			}
		}
	}()
	f()
	return "", true, false, nil
}

// search runs Search until it ends or a run waits for something that never comes:
// a channel is a log to the verifier, a native send needs a receiver.
func search(f func(), seed int64, runs int, budget time.Duration, given []map[string]string) Result {
	done := make(chan Result, 1)
	progress.Store(0)
	go func() { done <- Search(f, seed, runs, budget, given) }()
	last, idle := int64(-1), 0
	for {
		select {
		case r := <-done:
			return r
		default:
		}
		time.Sleep(time.Millisecond)
		if now := progress.Load(); now != last {
			last, idle = now, 0
		} else if idle++; idle > 5000 {
			return Result{Runs: int(now), Blocked: true}
		}
	}
}

var progress atomic.Int64

// Search looks for a failing run, first with the values of the solver's models.
func Search(f func(), seed int64, runs int, budget time.Duration, given []map[string]string) Result {
	t0 := time.Now()
	res := Result{}
	for i := 0; i < runs && time.Since(t0) < budget; i++ {
		var g map[string]string
		if len(given) > 0 && i%2 == 0 {
			g = given[(i/2)%len(given)]
			if i/2 >= len(given) && i%4 == 0 {
				// keep part of the model only
				h := map[string]string{}
				r := rand.New(rand.NewSource(seed + int64(i)))
				for k, v := range g {
					if r.Intn(2) == 0 {
						h[k] = v
					}
				}
				g = h
			}
		}
		s := seed*1000003 + int64(i)
		progress.Store(int64(i + 1))
		l, ok, sk, tr := Once(f, s, g)
		res.Runs++
		if sk {
			res.Skipped++
			continue
		}
		if !ok {
			res.Failed = l
			res.Trace = tr
			res.Seed = s
			return res
		}
	}
	return res
}

type request struct {
	Contracts []string                       `json:"contracts"`
	Seed      int64                          `json:"seed"`
	Runs      int                            `json:"runs"`
	BudgetMS  int64                          `json:"budget_ms"`
	Given     map[string][]map[string]string `json:"given"`
}

// Main runs the requested contracts natively and reports the outcome.
func Main(fs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_REQ"))
	if err != nil {
		return
	}
	var rq request
	if err := json.Unmarshal(b, &rq); err != nil {
		panic(err)
	}
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		panic(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	for _, c := range rq.Contracts {
		enc.Encode(map[string]interface{}{"started": true, "contract": c})
		r := search(fs[c], rq.Seed, rq.Runs, time.Duration(rq.BudgetMS)*time.Millisecond, rq.Given[c])
		enc.Encode(map[string]interface{}{"contract": c, "Failed": r.Failed, "Trace": r.Trace, "Runs": r.Runs, "Skipped": r.Skipped, "Blocked": r.Blocked, "Seed": r.Seed})
	}
}

// Piece is an arbitrary number in [1,max].
func Piece(max int) int {
	switch cur.rnd.Intn(3) {
	case 0:
		return 1
	case 1:
		return max
	}
	return 1 + cur.rnd.Intn(max)
}

// Flip is an arbitrary truth value.
func Flip() bool { return cur.rnd.Intn(2) == 0 }

// Upto is an arbitrary number in [0,max].
func Upto(max int) int { return cur.rnd.Intn(max + 1) }
