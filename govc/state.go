package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- function values ----------

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	bound Val // receiver of a bound method / interface method thunk, unused when nil
	id    int
}

// BoundV is reserved for engine-level callables.
type BoundV struct {
	name string
	call func(x *Exec, st *State, args []Val) Val
	id   int
}

var (
	funcTab  = map[string]Val{}
	funcSeq  = 0
	plainFns = map[*ssa.Function]*FuncV{}
)

func mkFunc(fn *ssa.Function, binds []Val) *FuncV {
	if len(binds) == 0 {
		if f, ok := plainFns[fn]; ok {
			return f
		}
	}
	funcSeq++
	f := &FuncV{fn: fn, binds: binds, id: funcSeq}
	if len(binds) == 0 {
		plainFns[fn] = f
	}
	funcTab[f.term().name] = f
	return f
}
func (f *FuncV) term() *Term { return App(fmt.Sprintf("&fn#%d", f.id), SInt, rng{}) }
func mkBound(name string, call func(x *Exec, st *State, args []Val) Val) *BoundV {
	funcSeq++
	b := &BoundV{name: name, call: call, id: funcSeq}
	funcTab[b.term().name] = b
	return b
}
func (f *BoundV) term() *Term { return App(fmt.Sprintf("&fn#%d", f.id), SInt, rng{}) }

// ---------- state ----------

type facts struct {
	prev *facts
	t    *Term
	n    int
	dec  bool // a path decision, as opposed to a fact that always holds
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type Frame struct {
	shared   bool
	fn       *ssa.Function
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	env      map[ssa.Value]Val
	binds    []Val
	defers   []deferred
	ret      ssa.Value // register of the caller, or nil
	panicVal *Term     // non-nil while panicking
	recov    bool
	deferRun bool                  // this frame is a deferred call
	onRet    func(*State, Val) Val // post-processing of results
	loops    map[*ssa.BasicBlock]*loopCtx
	visits   map[*ssa.BasicBlock]int
	mode     int // 0 normal, 1 contract assumed at a call site
	target   *ssa.Function
	depth    int
	inDefers bool
}

// spawned is a goroutine: about to start, or waiting where its frames say.
type spawned struct {
	fn     Val
	args   []Val
	frames []*Frame
}

type State struct {
	heap   map[string]*Term
	facts  *facts
	known  map[*Term]bool
	bounds map[*Term]rng
	alloc  int64
	frames []*Frame
	spawn  []spawned
	parked []spawned // goroutines that wait
	moved  bool      // something ran since the parked ones were tried
	script []bool
	pos    int
	free   bool

	heapShared, knownShared, boundsShared bool
	snap                                  *State
	guards                                []guard
	labels                                []string // path description
	ghost                                 map[string]Val
	dead                                  bool
	unsupp                                string
	loopID                                int
}

type guard struct {
	key  string
	base *Term
	lock *Term
	name string
}

func (st *State) clone() *State {
	// tables are shared until written to; frames below the top until they are reached
	st.heapShared, st.knownShared, st.boundsShared = true, true, true
	n := *st
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		if i == len(st.frames)-1 {
			n.frames[i] = f.clone()
			continue
		}
		f.shared = true
		n.frames[i] = f
	}
	n.spawn = append([]spawned(nil), st.spawn...)
	n.parked = append([]spawned(nil), st.parked...)
	n.guards = append([]guard(nil), st.guards...)
	n.labels = append([]string(nil), st.labels...)
	n.snap = nil
	return &n
}

func (st *State) setHeap(k string, v *Term) {
	if st.heapShared {
		m := make(map[string]*Term, len(st.heap)+1)
		for k, v := range st.heap {
			m[k] = v
		}
		st.heap, st.heapShared = m, false
	}
	st.heap[k] = v
}

// popTo drops frames and makes the one that becomes the top writable.
func (st *State) popTo(n int) {
	st.frames = st.frames[:n]
	if n > 0 {
		st.own(n - 1)
	}
}

func (st *State) own(i int) {
	if st.frames[i].shared {
		st.frames[i] = st.frames[i].clone()
	}
}

func (f *Frame) clone() *Frame {
	n := *f
	n.shared = false
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	if f.loops != nil {
		n.loops = map[*ssa.BasicBlock]*loopCtx{}
		for k, v := range f.loops {
			n.loops[k] = v
		}
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(t *Term)  { st.assume0(t, false) }
func (st *State) assumeD(t *Term) { st.assume0(t, true) }
func (st *State) assume0(t *Term, dec bool) {
	if t == TTrue || st.known[t] {
		return
	}
	if t == TFalse {
		st.dead = true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume0(a, dec)
		}
		return
	}
	if st.known[Not(t)] {
		st.dead = true
	}
	if st.knownShared {
		m := make(map[*Term]bool, len(st.known)+1)
		for k, v := range st.known {
			m[k] = v
		}
		st.known, st.knownShared = m, false
	}
	st.known[t] = true
	n := 1
	if st.facts != nil {
		n = st.facts.n + 1
	}
	st.facts = &facts{st.facts, t, n, dec}
	st.learn(t)
}

func (st *State) learn(t *Term) {
	switch t.op {
	case OLe:
		d := linOf(t.args[1]).add(linOf(t.args[0]), big.NewInt(-1)) // >=0
		for i, a := range d.as {
			// c*a + rest >= 0
			rest := lin{k: d.k}
			for j := range d.as {
				if j != i {
					rest = rest.add(lin{k: big0, as: []*Term{d.as[j]}, cs: []*big.Int{bigOne}}, d.cs[j])
				}
			}
			_, hi := rest.interval(st.bound1)
			if hi == nil {
				continue
			}
			c := d.cs[i]
			if c.Sign() > 0 { // a >= -hi/c  (ceil)
				lo := new(big.Int).Neg(floorDiv(hi, c))
				st.setBound(a, lo, nil)
			} else {
				st.setBound(a, nil, floorDiv(hi, new(big.Int).Neg(c)))
			}
		}
	case OEq:
		if t.args[0].sort == SInt {
			if t.args[0].isConst() {
				st.setBound(t.args[1], t.args[0].k, t.args[0].k)
			} else if t.args[1].isConst() {
				st.setBound(t.args[0], t.args[1].k, t.args[1].k)
			} else {
				st.learn(intern(&Term{op: OLe, sort: SBool, args: []*Term{t.args[0], t.args[1]}}))
				st.learn(intern(&Term{op: OLe, sort: SBool, args: []*Term{t.args[1], t.args[0]}}))
			}
		}
	}
}

func (st *State) bound1(t *Term) (lo, hi *big.Int) {
	lo, hi = t.lo, t.hi
	if b, ok := st.bounds[t]; ok {
		if b.lo != nil && (lo == nil || b.lo.Cmp(lo) > 0) {
			lo = b.lo
		}
		if b.hi != nil && (hi == nil || b.hi.Cmp(hi) < 0) {
			hi = b.hi
		}
	}
	return
}
func (st *State) setBound(t *Term, lo, hi *big.Int) {
	l, h := st.bound1(t)
	if lo != nil && (l == nil || lo.Cmp(l) > 0) {
		l = lo
	}
	if hi != nil && (h == nil || hi.Cmp(h) < 0) {
		h = hi
	}
	if st.boundsShared {
		m := make(map[*Term]rng, len(st.bounds)+1)
		for k, v := range st.bounds {
			m[k] = v
		}
		st.bounds, st.boundsShared = m, false
	}
	st.bounds[t] = rng{l, h}
}

// norm replaces the parts of a sum that the facts pin to one value.
func (st *State) norm(t *Term) *Term {
	if t.isConst() || t.sort != SInt {
		return t
	}
	if t.op != OSum {
		if lo, hi := st.interval(t); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			return Big(lo)
		}
		return t
	}
	l := linOf(t)
	r := lin{k: l.k}
	ch := false
	for i, a := range l.as {
		if lo, hi := st.interval(a); lo != nil && hi != nil && lo.Cmp(hi) == 0 {
			r = r.add(lin{k: lo}, l.cs[i])
			ch = true
			continue
		}
		r = r.add(linOf(a), l.cs[i])
	}
	if !ch {
		return t
	}
	return r.term()
}

// interval of t under the facts of the state.
func (st *State) interval(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OSum:
		lo, hi = linOf(t).interval(st.interval)
	case OMod:
		if t.args[1].isConst() && t.args[1].k.Sign() > 0 {
			l, h := st.interval(t.args[0])
			if l != nil && h != nil && l.Sign() >= 0 && h.Cmp(t.args[1].k) < 0 {
				lo, hi = l, h
			}
		}
	case OIte:
		l1, h1 := st.interval(t.args[1])
		l2, h2 := st.interval(t.args[2])
		if l1 != nil && l2 != nil {
			lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxB(h1, h2)
		}
	case ODiv:
		if t.args[1].isConst() {
			l, h := st.interval(t.args[0])
			if l != nil {
				lo = floorDiv(l, t.args[1].k)
			}
			if h != nil {
				hi = floorDiv(h, t.args[1].k)
			}
		}
	}
	l, h := st.bound1(t)
	if lo == nil || l != nil && l.Cmp(lo) > 0 {
		lo = l
	}
	if hi == nil || h != nil && h.Cmp(hi) < 0 {
		hi = h
	}
	return
}

// truth evaluates a condition with intervals and known facts: 1 true, -1 false, 0 unknown.
func (st *State) truth(c *Term) int {
	if c == TTrue || st.known[c] {
		return 1
	}
	if c == TFalse || st.known[Not(c)] {
		return -1
	}
	switch c.op {
	case OLe:
		d := linOf(c.args[1]).add(linOf(c.args[0]), big.NewInt(-1)).term()
		lo, hi := st.interval(d)
		if lo != nil && lo.Sign() >= 0 {
			return 1
		}
		if hi != nil && hi.Sign() < 0 {
			return -1
		}
	case OEq:
		if c.args[0].sort == SInt {
			d := Sub(c.args[0], c.args[1])
			lo, hi := st.interval(d)
			if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				return -1
			}
			if lo != nil && hi != nil && lo.Sign() == 0 && hi.Sign() == 0 {
				return 1
			}
		}
	case ONot:
		return -st.truth(c.args[0])
	case OAnd:
		all := 1
		for _, a := range c.args {
			switch st.truth(a) {
			case -1:
				return -1
			case 0:
				all = 0
			}
		}
		return all
	case OOr:
		all := -1
		for _, a := range c.args {
			switch st.truth(a) {
			case 1:
				return 1
			case 0:
				all = 0
			}
		}
		return all
	}
	return 0
}

func (st *State) newRef() *Term {
	st.alloc++
	return I(st.alloc)
}

// ---------- heap ----------

func heapSort(nidx int, s *Sort) *Sort {
	for i := 0; i < nidx; i++ {
		s = SArr(SInt, s)
	}
	return s
}

// get returns the current contents of a heap component.
func (st *State) get(key string, s *Sort, r rng, isRef bool) *Term {
	if h, ok := st.heap[key]; ok {
		return h
	}
	if isRef {
		r.hi = big0
	}
	return NamedVar("H0:"+key, s, r)
}

type location struct {
	key string
	idx []*Term
}

func fieldPtr(base *Term, t types.Type, i int) *Term {
	u := t.Underlying().(*types.Struct)
	return App("&F|"+typeKey(t)+"|"+u.Field(i).Name(), SInt, rng{}, base)
}
func elemPtr(arr, idx *Term, elem types.Type) *Term {
	return App("&E|"+typeKey(elem), SInt, rng{}, arr, idx)
}
func isFieldPtr(p *Term) bool { return p.op == OApp && strings.HasPrefix(p.name, "&F|") }
func isElemPtr(p *Term) bool  { return p.op == OApp && strings.HasPrefix(p.name, "&E|") }

func underElem(p *Term) bool {
	for isFieldPtr(p) {
		p = p.args[0]
	}
	return isElemPtr(p)
}

// resolve maps a pointer to a scalar-typed location to its heap component.
func resolve(p *Term, t types.Type) location {
	path := ""
	root := ""
	for isFieldPtr(p) {
		parts := strings.Split(p.name, "|")
		path = "." + parts[2] + path
		root = parts[1]
		p = p.args[0]
	}
	if isElemPtr(p) {
		return location{"M|" + p.name[3:] + path, []*Term{denull(p.args[0]), p.args[1]}}
	}
	if path == "" {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return location{"F|" + typeKey(t), []*Term{denull(p)}}
		}
		return location{"C|" + typeKey(t), []*Term{denull(p)}}
	}
	return location{"F|" + root + path, []*Term{denull(p)}}
}

// denull drops a nil alternative of a reference used as an index: the nil
// object is never accessed.
func denull(p *Term) *Term {
	if p.op == OIte {
		if p.args[1] == I(0) {
			return denull(p.args[2])
		}
		if p.args[2] == I(0) {
			return denull(p.args[1])
		}
	}
	return p
}

func (st *State) readLeaf(l location, lf leaf) *Term {
	key := l.key + lf.suffix
	h := st.get(key, heapSort(len(l.idx), lf.sort), lf.r, lf.ref)
	for _, i := range l.idx {
		h = Select(h, i)
	}
	return h
}

func (st *State) writeLeaf(l location, lf leaf, v *Term) {
	key := l.key + lf.suffix
	h := st.get(key, heapSort(len(l.idx), lf.sort), lf.r, lf.ref)
	if len(l.idx) == 1 {
		st.setHeap(key, Store(h, l.idx[0], v))
	} else {
		st.setHeap(key, Store(h, l.idx[0], Store(Select(h, l.idx[0]), l.idx[1], v)))
	}
}

const byteKey = "M|uint8"

func (st *State) bytes() *Term {
	return st.get(byteKey, heapSort(2, SInt), byteRng, false)
}
func (st *State) bytesOf(ref *Term) *Term { return Select(st.bytes(), denull(ref)) }
func (st *State) setBytes(ref, arr *Term) {
	st.setHeap(byteKey, Store(st.bytes(), denull(ref), arr))
}

func (st *State) load(p *Term, t types.Type) Val {
	if n, ok := byteArr(t); ok && !underElem(p) {
		return MkStr(st.bytesOf(p), I(0), I(n))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.fs = append(s.fs, st.load(fieldPtr(p, t, i), u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if _, ok := byteArr(t); !ok {
			s := &ArrV{t: t}
			for i := int64(0); i < u.Len(); i++ {
				s.es = append(s.es, st.load(elemPtr(p, I(i), u.Elem()), u.Elem()))
			}
			return s
		}
	}
	loc := resolve(p, t)
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, st.readLeaf(loc, l))
	}
	st.checkGuards(loc, false)
	v := fromLeaves(ts, t)
	if s, ok := v.(*SliceV); ok {
		st.sliceFacts(s)
	}
	if x, ok := v.(*Term); ok && x.sort == SStr {
		if n, isb := byteArr(t); isb {
			st.strLenFact(x, n)
		}
	}
	return v
}

func (st *State) strLenFact(x *Term, n int64) {
	l := StrLen(x)
	if !l.isConst() {
		st.assume(Eq(l, I(n)))
	}
}

func (st *State) sliceFacts(s *SliceV) {
	if s.len.isConst() && s.cap.isConst() {
		return
	}
	st.assume(Le(I(0), s.len))
	st.assume(Le(s.len, s.cap))
	st.assume(Implies(Eq(s.arr, I(0)), Eq(s.cap, I(0))))
	st.assume(Le(Add(s.off, s.cap), Big(lenMax)))
}

func (st *State) store(p *Term, v Val, t types.Type) {
	if n, ok := byteArr(t); ok && !underElem(p) {
		a, off := StrArr(v.(*Term))
		if off == I(0) {
			st.setBytes(p, a)
		} else {
			st.setBytes(p, Splice(ConstArr(SArr(SInt, SInt), I(0)), I(0), a, off, I(n)))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := v.(*StructV)
		for i := 0; i < u.NumFields(); i++ {
			st.store(fieldPtr(p, t, i), s.fs[i], u.Field(i).Type())
		}
		return
	case *types.Array:
		if _, ok := byteArr(t); !ok {
			s := v.(*ArrV)
			for i := int64(0); i < u.Len(); i++ {
				st.store(elemPtr(p, I(i), u.Elem()), s.es[i], u.Elem())
			}
			return
		}
	}
	loc := resolve(p, t)
	st.checkGuards(loc, true)
	ts := flatten(v, t)
	for i, l := range leaves(t) {
		st.writeLeaf(loc, l, ts[i])
	}
}

// zeroMem initialises freshly allocated memory of type t at p.
func (st *State) zeroMem(p *Term, t types.Type) {
	if _, ok := byteArr(t); ok && !underElem(p) {
		st.setBytes(p, ConstArr(SArr(SInt, SInt), I(0)))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			st.zeroMem(fieldPtr(p, t, i), u.Field(i).Type())
		}
		return
	case *types.Array:
		st.zeroElems(p, u.Elem())
		return
	}
	loc := resolve(p, t)
	for _, l := range leaves(t) {
		st.writeLeaf(loc, l, zeroLeaf(l))
	}
}

// zeroElems initialises all elements of a new backing array.
func (st *State) zeroElems(arr *Term, elem types.Type) {
	for _, l := range leaves(elem) {
		key := "M|" + typeKey(elem) + l.suffix
		h := st.get(key, heapSort(2, l.sort), l.r, l.ref)
		st.setHeap(key, Store(h, arr, ConstArr(SArr(SInt, l.sort), zeroLeaf(l))))
	}
}

// elemArrays gives for each leaf of elem the contents array of backing store arr.
func (st *State) elemArray(arr *Term, elem types.Type, l leaf) *Term {
	key := "M|" + typeKey(elem) + l.suffix
	return Select(st.get(key, heapSort(2, l.sort), l.r, l.ref), denull(arr))
}
func (st *State) setElemArray(arr *Term, elem types.Type, l leaf, v *Term) {
	key := "M|" + typeKey(elem) + l.suffix
	h := st.get(key, heapSort(2, l.sort), l.r, l.ref)
	st.setHeap(key, Store(h, denull(arr), v))
}

func (st *State) index(s *SliceV, i *Term, elem types.Type) Val {
	return st.load(elemPtr(s.arr, Add(s.off, i), elem), elem)
}

// fresh makes an unconstrained value of type t.
func (st *State) fresh(hint string, t types.Type) Val {
	var ts []*Term
	ls := leaves(t)
	for _, l := range ls {
		r := l.r
		if l.ref {
			r.hi = big.NewInt(st.alloc)
		}
		v := NewVar(hint+l.suffix, l.sort, r)
		ts = append(ts, v)
	}
	v := fromLeaves(ts, t)
	st.typeFacts(v, t)
	return v
}

// typeFacts assumes what the type guarantees about an unconstrained value.
func (st *State) typeFacts(v Val, t types.Type) {
	switch x := v.(type) {
	case *SliceV:
		st.sliceFacts(x)
	case *StructV:
		u := t.Underlying().(*types.Struct)
		for i, f := range x.fs {
			st.typeFacts(f, u.Field(i).Type())
		}
	case *ArrV:
		u := t.Underlying().(*types.Array)
		for _, f := range x.es {
			st.typeFacts(f, u.Elem())
		}
	case *Term:
		if n, ok := byteArr(t); ok {
			st.strLenFact(x, n)
		}
	case TupleV:
		u := t.(*types.Tuple)
		for i, f := range x {
			st.typeFacts(f, u.At(i).Type())
		}
	}
}

// makeSlice allocates a zeroed backing array.
func (st *State) makeSlice(elem types.Type, n, c *Term) *SliceV {
	r := st.newRef()
	st.zeroElems(r, elem)
	return &SliceV{r, I(0), n, c}
}

// bytesSlice allocates a byte slice with given contents.
func (st *State) bytesSlice(arr, off, n *Term) *SliceV {
	r := st.newRef()
	if off == I(0) {
		st.setBytes(r, arr)
		return &SliceV{r, I(0), n, n}
	}
	st.setBytes(r, Splice(ConstArr(SArr(SInt, SInt), I(0)), I(0), arr, off, n))
	return &SliceV{r, I(0), n, n}
}

func (st *State) strOf(s *SliceV) *Term {
	return MkStr(st.bytesOf(s.arr), s.off, s.len)
}

func (st *State) checkGuards(l location, write bool) {
	for _, g := range st.guards {
		if g.key == l.key && (g.base == nil || decideEq(g.base, l.idx[0]) != -1) {
			if curExec != nil {
				curExec.guardAccess(st, g, l, write)
			}
		}
	}
}
