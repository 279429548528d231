package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one proof goal with the facts of its path.
type Obligation struct {
	Name  string
	Kind  string
	Pos   string
	facts []*Term
	goal  *Term
	state *State
	res   solveRes
	vals  map[string]string
}

type Outcome struct {
	st    *State
	kind  string // return panic blocked
	ret   Val
	panic *Term
}

type Exec struct {
	prog      *ssa.Program
	feas      *feas
	fset      *token.FileSet
	work      []*State
	obls      []*Obligation
	contract  *ssa.Function
	inputs    []inputVar
	steps     int
	paths     int
	deadline  func() bool
	stopped   bool
	probe     bool // no obligations
	weakened  bool // a loop condition was weakened
	inductive bool
	initMode  bool
	undecided []string
	inlined   map[string]bool
	trusted   map[string]bool
	modular   map[string]bool
	flags     map[string]bool
	bounded   []string
	reach     map[string]bool // labels of reached ensures
	sharedPkg map[string]bool
	loopStats map[string]string
	templates []*template
	unroll    int
	depth     int
}

type inputVar struct {
	name string
	t    types.Type
	v    Val
	kind string
}

var curExec *Exec

type forkSignal struct{}
type pathEnd struct{ why string }

// decide returns the truth of c on this path, forking when both are possible.
func (x *Exec) decide(st *State, c *Term) bool {
	if st.dead {
		panic(pathEnd{"dead"})
	}
	if st.pos < len(st.script) {
		b := st.script[st.pos]
		st.pos++
		if b {
			st.assumeD(c)
		} else {
			st.assumeD(Not(c))
		}
		return b
	}
	switch st.truth(c) {
	case 1:
		st.record(true)
		return true
	case -1:
		st.record(false)
		return false
	}
	t, f := true, true
	if !st.free {
		t = x.feas.sat(st.facts, c)
		f = x.feas.sat(st.facts, Not(c))
	}
	if !t && !f {
		panic(pathEnd{"infeasible"})
	}
	if t && f {
		if st.snap == nil {
			panic("decide without snapshot")
		}
		o := st.snap.clone()
		o.snap = nil
		o.script = append(append([]bool{}, st.script...), false)
		o.pos = 0
		x.work = append(x.work, o)
		st.record(true)
		st.assumeD(c)
		return true
	}
	st.record(t)
	if t {
		st.assumeD(c)
	} else {
		st.assumeD(Not(c))
	}
	return t
}

// decideFree decides a condition over a fresh variable: both ways are possible.
func (x *Exec) decideFree(st *State, c *Term) bool {
	st.free = true
	defer func() { st.free = false }()
	return x.decide(st, c)
}

func (st *State) record(b bool) {
	st.script = append(st.script[:st.pos:st.pos], b)
	st.pos++
}

// choose forks over n alternatives.
func (x *Exec) choose(st *State, n int) int {
	for i := 0; i < n-1; i++ {
		v := NewVar("choice", SBool, rng{})
		if x.decideFree(st, v) {
			return i
		}
	}
	return n - 1
}

// require makes the path panic unless c holds. It returns true if execution
// continues normally.
func (x *Exec) require(st *State, c *Term, what string) bool {
	if st.truth(c) == 1 {
		return true
	}
	if x.decide(st, c) {
		return true
	}
	panic(goPanic{x.runtimeError(st, what)})
}

type goPanic struct{ val *Term }

func (x *Exec) runtimeError(st *State, what string) *Term {
	st.labels = append(st.labels, "panic: "+what+" at "+x.where(st))
	return App("box$runtime.Error", SIface, rng{}, StrLit(what))
}

func (x *Exec) where(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if f.block == nil {
			continue
		}
		pc := f.pc
		if pc >= len(f.block.Instrs) {
			pc = len(f.block.Instrs) - 1
		}
		for ; pc >= 0; pc-- {
			if p := f.block.Instrs[pc].Pos(); p.IsValid() {
				ps := x.fset.Position(p)
				return fmt.Sprintf("%s:%d (%s)", strings.TrimPrefix(ps.Filename, "/repo/"), ps.Line, f.fn.Name())
			}
		}
	}
	return "?"
}

func (x *Exec) oblige(st *State, name, kind string, goal *Term) {
	if x.probe {
		return
	}
	if x.reach != nil {
		x.reach[name] = true
	}
	if st.truth(goal) == 1 {
		goal = TTrue
	}
	o := &Obligation{Name: name, Kind: kind, Pos: x.where(st), goal: goal}
	if goal != TTrue {
		o.facts = factList(st.facts)
	} else {
		o.res = solveRes{status: "unsat", solver: "simplifier"}
	}
	x.obls = append(x.obls, o)
}

// run executes states until their frame stack shrinks to base.
func (x *Exec) run(st *State, base int) []*Outcome {
	saved := x.work
	x.work = []*State{st}
	var outs []*Outcome
	x.depth++
	defer func() { x.work = saved; x.depth-- }()
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		o := x.runPath(s, base)
		if o != nil {
			outs = append(outs, o)
			x.paths++
		}
	}
	return outs
}

var maxSteps = 40000000

func (x *Exec) runPath(st *State, base int) (out *Outcome) {
	saved := ctx
	ctx = st
	defer func() { ctx = saved }()
	for {
		if st.dead || x.stopped {
			return nil
		}
		x.steps++
		if x.steps > maxSteps || x.steps%256 == 0 && x.deadline != nil && x.deadline() {
			x.undecided = append(x.undecided, "time or step limit at "+x.where(st))
			x.work = nil
			x.stopped = true
			return nil
		}
		o, done := x.stepSafe(st, base)
		if done {
			return o
		}
	}
}

func (x *Exec) stepSafe(st *State, base int) (out *Outcome, done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				if e.why == "blocked" {
					out, done = &Outcome{st: st, kind: "blocked"}, true
					return
				}
				out, done = nil, true
			case unsupported:
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "unsupported:", e.msg, "at", x.where(st))
				}
				x.undecided = append(x.undecided, e.msg+" at "+x.where(st))
				out, done = nil, true
			case goPanic:
				out, done = x.startPanic(st, e.val, base)
			default:
				fmt.Fprintln(os.Stderr, "engine error at", x.where(st), x.stack(st))
				panic(r)
			}
		}
	}()
	return x.step(st, base)
}

func (x *Exec) stack(st *State) string {
	var s []string
	for _, f := range st.frames {
		s = append(s, f.fn.String())
	}
	return strings.Join(s, " > ")
}

// ---------- panics ----------

func (x *Exec) startPanic(st *State, v *Term, base int) (*Outcome, bool) {
	st.script, st.pos, st.snap = nil, 0, nil
	f := st.top()
	f.panicVal = v
	f.recov = false
	return x.unwind(st, base)
}

// unwind runs the deferred calls of the panicking top frame or pops it.
func (x *Exec) unwind(st *State, base int) (*Outcome, bool) {
	for {
		f := st.top()
		if len(f.defers) > 0 {
			st.snap = st.clone()
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(st.frames)
			x.callVal(st, d.fn, d.args, d.call, nil, func(st *State, v Val) Val {
				return v
			})
			if len(st.frames) > n {
				st.top().deferRun = true
			}
			st.snap, st.script, st.pos = nil, nil, 0
			return nil, false
		}
		v := f.panicVal
		if f.deferRun {
			// a deferred call panicked: replaces the panic of its parent
		}
		st.popTo(len(st.frames) - 1)
		if len(st.frames) <= base {
			return &Outcome{st: st, kind: "panic", panic: v}, true
		}
		st.top().panicVal = v
		st.top().recov = false
	}
}

// ---------- stepping ----------

func (x *Exec) step(st *State, base int) (*Outcome, bool) {
	f := st.top()
	if f.panicVal != nil && f.recov {
		// recovered: run remaining defers, then return
		if len(f.defers) > 0 {
			st.snap = st.clone()
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			n := len(st.frames)
			x.callVal(st, d.fn, d.args, d.call, nil, nil)
			if len(st.frames) > n {
				st.top().deferRun = true
			}
			st.snap, st.script, st.pos = nil, nil, 0
			return nil, false
		}
		f.panicVal = nil
		f.recov = false
		if f.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fn.Recover
			f.pc = 0
			return nil, false
		}
		return x.doReturn(st, zeroResults(f.fn), base)
	}
	if f.panicVal != nil {
		return x.unwind(st, base)
	}
	if f.pc >= len(f.block.Instrs) {
		unsup("fell off block")
	}
	ins := f.block.Instrs[f.pc]
	return x.exec(st, f, ins, base)
}

func zeroResults(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zeroVal(r.At(0).Type())
	}
	return zeroVal(r)
}

func (x *Exec) doReturn(st *State, v Val, base int) (*Outcome, bool) {
	f := st.top()
	if f.onRet != nil {
		v = f.onRet(st, v)
	}
	st.popTo(len(st.frames) - 1)
	if len(st.frames) <= base {
		return &Outcome{st: st, kind: "return", ret: v}, true
	}
	c := st.top()
	if c.panicVal != nil {
		return nil, false
	}
	if f.ret != nil {
		c.env[f.ret] = v
	}
	if !f.deferRun {
		c.pc++
	}
	return nil, false
}

func (x *Exec) jump(st *State, f *Frame, to *ssa.BasicBlock, base int) (*Outcome, bool) {
	st.script, st.pos, st.snap = nil, 0, nil
	from := f.block
	// evaluate phis in parallel
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.eval(st, f, phi.Edges[idx]))
		n++
	}
	f.prev = from
	f.block = to
	f.pc = n
	for i := 0; i < n; i++ {
		f.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	return x.enterBlock(st, f, to, from)
}

func (x *Exec) set(st *State, f *Frame, ins ssa.Instruction, v Val) {
	f.env[ins.(ssa.Value)] = v
	f.pc++
	st.script, st.pos, st.snap = nil, 0, nil
}

func (x *Exec) eval(st *State, f *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return x.global(c)
	case *ssa.Function:
		return mkFunc(c, nil)
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == c {
				return f.binds[i]
			}
		}
	case *ssa.Builtin:
		return mkBound("builtin "+c.Name(), nil)
	}
	r, ok := f.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), f.fn))
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if _, _, ok := intInfo(t); ok {
		if i, ok := constant.Val(constant.ToInt(c.Value)).(int64); ok {
			return I(i)
		}
		b, _ := constant.Val(constant.ToInt(c.Value)).(*big.Int)
		return Big(b)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return B(constant.BoolVal(c.Value))
	case constant.String:
		return StrLit(constant.StringVal(c.Value))
	}
	if leaves(t)[0].sort == SFloat {
		return App("flt:"+c.Value.ExactString(), SFloat, rng{})
	}
	unsup("constant %s", c)
	return nil
}

var globalRefs = map[*ssa.Global]*Term{}

func (x *Exec) global(g *ssa.Global) *Term {
	if r, ok := globalRefs[g]; ok {
		return r
	}
	r := I(int64(1000 + len(globalRefs)))
	globalRefs[g] = r
	return r
}

const firstAlloc = 1000000

func (x *Exec) term(st *State, f *Frame, v ssa.Value) *Term {
	switch r := x.eval(st, f, v).(type) {
	case *Term:
		return r
	case *FuncV:
		return r.term()
	case *BoundV:
		return r.term()
	default:
		unsup("value %T where a scalar is expected", r)
	}
	return nil
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

// splitPtr forks on pointers that are conditional.
func (x *Exec) splitPtr(st *State, p *Term) *Term {
	for p.op == OIte {
		if p.args[1] == I(0) {
			x.require(st, Not(p.args[0]), "nil pointer dereference")
			p = p.args[2]
			continue
		}
		if p.args[2] == I(0) {
			x.require(st, p.args[0], "nil pointer dereference")
			p = p.args[1]
			continue
		}
		if x.decide(st, p.args[0]) {
			p = p.args[1]
		} else {
			p = p.args[2]
		}
	}
	return p
}

func (x *Exec) nonNil(st *State, p *Term) {
	if isRefCtor(p) || p.isConst() && p.k.Sign() != 0 {
		return
	}
	x.require(st, Not(Eq(p, I(0))), "nil pointer dereference")
}

func wrap(st *State, t *Term, ty types.Type) *Term {
	bits, signed, ok := intInfo(ty)
	if !ok {
		return t
	}
	t = st.norm(t)
	r := intRange(ty)
	lo, hi := st.interval(t)
	if lo != nil && hi != nil && lo.Cmp(r.lo) >= 0 && hi.Cmp(r.hi) <= 0 {
		return t
	}
	if !signed {
		return Mod(t, Big(pow2(bits)))
	}
	h := Big(pow2(bits - 1))
	return Sub(Mod(Add(t, h), Big(pow2(bits))), h)
}

func (x *Exec) exec(st *State, f *Frame, ins ssa.Instruction, base int) (*Outcome, bool) {
	switch i := ins.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		r := st.newRef()
		st.zeroMem(r, deref(i.Type()))
		x.set(st, f, i, r)
	case *ssa.BinOp:
		st.snap = st.clone1(ins)
		x.set(st, f, i, x.binop(st, f, i.Op, x.eval(st, f, i.X), x.eval(st, f, i.Y), i.X.Type(), i.Y.Type(), i.Type()))
	case *ssa.UnOp:
		return x.unop(st, f, i, base)
	case *ssa.Call:
		st.snap = st.clone()
		n := len(st.frames)
		x.call(st, f, i.Common(), i)
		if len(st.frames) == n && st.top() == f && f.block.Instrs[f.pc] == ins {
			panic("call did not advance " + i.String())
		}
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.ChangeInterface:
		x.set(st, f, i, x.eval(st, f, i.X))
	case *ssa.ChangeType:
		v := x.eval(st, f, i.X)
		if s, ok := v.(*StructV); ok {
			v = &StructV{t: i.Type(), fs: s.fs}
		}
		x.set(st, f, i, v)
	case *ssa.Convert:
		st.snap = st.clone1(ins)
		x.set(st, f, i, x.convert(st, x.eval(st, f, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		unsup("multiconvert")
	case *ssa.SliceToArrayPointer:
		unsup("slice to array pointer")
	case *ssa.MakeInterface:
		v := x.eval(st, f, i.X)
		switch v.(type) {
		case *RTypeV, *RValueV:
			x.set(st, f, i, v)
		default:
			x.set(st, f, i, box(v, i.X.Type()))
		}
	case *ssa.Extract:
		tv := x.eval(st, f, i.Tuple).(TupleV)
		x.set(st, f, i, tv[i.Index])
	case *ssa.Field:
		s := x.eval(st, f, i.X).(*StructV)
		x.set(st, f, i, s.fs[i.Field])
	case *ssa.FieldAddr:
		st.snap = st.clone1(ins)
		p := x.splitPtr(st, x.term(st, f, i.X))
		x.nonNil(st, p)
		x.set(st, f, i, fieldPtr(p, deref(i.X.Type()), i.Field))
	case *ssa.IndexAddr:
		st.snap = st.clone()
		idx := x.term(st, f, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.eval(st, f, i.X).(*SliceV)
			x.require(st, And(Le(I(0), idx), Lt(idx, s.len)), "index out of range")
			x.set(st, f, i, elemPtr(s.arr, Add(s.off, idx), u.Elem()))
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			p := x.splitPtr(st, x.term(st, f, i.X))
			x.nonNil(st, p)
			x.require(st, And(Le(I(0), idx), Lt(idx, I(a.Len()))), "index out of range")
			if underElem(p) {
				unsup("address of an element of an array inside a slice element")
			}
			x.set(st, f, i, elemPtr(p, idx, a.Elem()))
		default:
			unsup("IndexAddr %s", i.X.Type())
		}
	case *ssa.Index:
		st.snap = st.clone1(ins)
		idx := x.term(st, f, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			x.require(st, And(Le(I(0), idx), Lt(idx, I(u.Len()))), "index out of range")
			v := x.eval(st, f, i.X)
			if a, ok := v.(*ArrV); ok {
				if !idx.isConst() {
					unsup("symbolic index into an array value")
				}
				x.set(st, f, i, a.es[idx.k.Int64()])
			} else {
				a, off := StrArr(v.(*Term))
				x.set(st, f, i, Select(a, Add(off, idx)))
			}
		case *types.Basic: // string
			s := x.term(st, f, i.X)
			x.require(st, And(Le(I(0), idx), Lt(idx, StrLen(s))), "index out of range")
			a, off := StrArr(s)
			x.set(st, f, i, Select(a, Add(off, idx)))
		default:
			unsup("Index %s", i.X.Type())
		}
	case *ssa.Lookup:
		st.snap = st.clone1(ins)
		x.lookup(st, f, i)
	case *ssa.MapUpdate:
		st.snap = st.clone()
		m := x.splitPtr(st, x.term(st, f, i.Map))
		x.require(st, Not(Eq(m, I(0))), "assignment to entry in nil map")
		mt := i.Map.Type().Underlying().(*types.Map)
		x.mapStore(st, m, mt, keyTerm(x.eval(st, f, i.Key), mt.Key()), x.eval(st, f, i.Value))
		f.pc++
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.MakeMap:
		r := st.newRef()
		x.mapInit(st, r, i.Type().Underlying().(*types.Map))
		x.set(st, f, i, r)
	case *ssa.MakeChan:
		r := st.newRef()
		x.chanInit(st, r, i.Type().Underlying().(*types.Chan), x.term(st, f, i.Size))
		x.set(st, f, i, r)
	case *ssa.MakeSlice:
		st.snap = st.clone()
		n, c := x.term(st, f, i.Len), x.term(st, f, i.Cap)
		// a request for more memory than can exist panics or kills the process
		x.require(st, And(Le(I(0), n), Le(n, c), Le(c, Big(lenMax))), "makeslice: len out of range")
		x.allocHook(st, c, i.Type().Underlying().(*types.Slice).Elem())
		x.set(st, f, i, st.makeSlice(i.Type().Underlying().(*types.Slice).Elem(), n, c))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range i.Bindings {
			bs = append(bs, x.eval(st, f, b))
		}
		x.set(st, f, i, mkFunc(i.Fn.(*ssa.Function), bs))
	case *ssa.Slice:
		st.snap = st.clone()
		x.set(st, f, i, x.slice(st, f, i))
	case *ssa.Store:
		st.snap = st.clone()
		p := x.splitPtr(st, x.term(st, f, i.Addr))
		x.nonNil(st, p)
		v := x.eval(st, f, i.Val)
		if _, ok := v.(*RTypeV); ok && x.initMode {
			v = st.fresh("type", i.Val.Type()) // a type kept in a variable is arbitrary
		}
		st.store(p, v, deref(i.Addr.Type()))
		f.pc++
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.TypeAssert:
		st.snap = st.clone1(ins)
		x.typeAssert(st, f, i)
	case *ssa.Range:
		x.rangeInit(st, f, i)
	case *ssa.Next:
		st.snap = st.clone()
		x.rangeNext(st, f, i)
	case *ssa.Send:
		st.snap = st.clone()
		if _, ok := st.ghost["sent"]; ok && x.depth == 1 {
			// the receiver takes it before the sender goes on
			x.settle(st)
			delete(st.ghost, "sent")
			f.pc++
			st.script, st.pos, st.snap = nil, 0, nil
			break
		}
		ch := x.splitPtr(st, x.term(st, f, i.Chan))
		x.chanSend(st, ch, i.Chan.Type().Underlying().(*types.Chan), x.eval(st, f, i.X))
		if _, ok := st.ghost["rendezvous"]; ok && x.depth == 1 && st.truth(Eq(x.chanField(st, ch, "cap"), I(0))) == 1 {
			st.ghost["sent"] = TTrue
		} else {
			f.pc++
		}
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.Select:
		st.snap = st.clone()
		x.set(st, f, i, x.selectOp(st, f, i))
	case *ssa.Go:
		st.snap = st.clone()
		fn, args := x.callTarget(st, f, i.Common())
		st.spawn = append(st.spawn, spawned{fn: fn, args: args})
		f.pc++
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.Defer:
		st.snap = st.clone()
		fn, args := x.callTarget(st, f, i.Common())
		f.defers = append(f.defers, deferred{fn, args, i.Common()})
		f.pc++
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			break
		}
		st.snap = st.clone()
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		n := len(st.frames)
		x.callVal(st, d.fn, d.args, d.call, nil, nil)
		if len(st.frames) > n {
			st.top().deferRun = true
		}
		st.script, st.pos, st.snap = nil, 0, nil
	case *ssa.Panic:
		st.snap = st.clone()
		v := x.term(st, f, i.X)
		st.labels = append(st.labels, "panic at "+x.where(st))
		panic(goPanic{v})
	case *ssa.If:
		return x.doIf(st, f, i, base)
	case *ssa.Jump:
		return x.jump(st, f, f.block.Succs[0], base)
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = x.eval(st, f, i.Results[0])
		default:
			var tv TupleV
			for _, r := range i.Results {
				tv = append(tv, x.eval(st, f, r))
			}
			v = tv
		}
		st.script, st.pos, st.snap = nil, 0, nil
		return x.doReturn(st, v, base)
	default:
		unsup("instruction %T", ins)
	}
	return nil, false
}

// clone1 is a snapshot for instructions that may fork but seldom do.
func (st *State) clone1(ins ssa.Instruction) *State { return st.clone() }

func (x *Exec) doIf(st *State, f *Frame, i *ssa.If, base int) (*Outcome, bool) {
	c := x.term(st, f, i.Cond)
	t := st.truth(c)
	if t == 0 {
		a := x.feas.sat(st.facts, c)
		b := x.feas.sat(st.facts, Not(c))
		switch {
		case !a && !b:
			return nil, true
		case a && b:
			o := st.clone()
			o.assumeD(Not(c))
			of := o.top()
			x.work = append(x.work, o)
			st.assumeD(c)
			// position the other state in its block; jump may end the path
			if oo, done := x.jumpSafe(o, of, of.block.Succs[1], base); done {
				x.work = x.work[:len(x.work)-1]
				_ = oo
			}
			return x.jump(st, f, f.block.Succs[0], base)
		case a:
			st.assumeD(c)
			t = 1
		default:
			st.assumeD(Not(c))
			t = -1
		}
	}
	if t == 1 {
		return x.jump(st, f, f.block.Succs[0], base)
	}
	return x.jump(st, f, f.block.Succs[1], base)
}

func (x *Exec) jumpSafe(st *State, f *Frame, to *ssa.BasicBlock, base int) (o *Outcome, done bool) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case pathEnd:
				o, done = nil, true
			case unsupported:
				x.undecided = append(x.undecided, e.msg+" at "+x.where(st))
				o, done = nil, true
			default:
				panic(r)
			}
		}
	}()
	return x.jump(st, f, to, base)
}

// ---------- operators ----------

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp, base int) (*Outcome, bool) {
	switch i.Op {
	case token.MUL:
		st.snap = st.clone1(i)
		if g, ok := i.X.(*ssa.Global); ok {
			x.ensureInit(st, g)
		}
		p := x.splitPtr(st, x.term(st, f, i.X))
		x.nonNil(st, p)
		x.set(st, f, i, x.loadFn(st.load(p, i.Type()), i.Type()))
	case token.NOT:
		x.set(st, f, i, Not(x.term(st, f, i.X)))
	case token.SUB:
		v := x.term(st, f, i.X)
		if v.sort == SFloat {
			x.set(st, f, i, App("fneg", SFloat, rng{}, v))
			break
		}
		x.set(st, f, i, wrap(st, MulC(v, big.NewInt(-1)), i.Type()))
	case token.XOR:
		v := x.term(st, f, i.X)
		_, signed, _ := intInfo(i.Type())
		if signed {
			x.set(st, f, i, Sub(I(-1), v))
		} else {
			x.set(st, f, i, Sub(Big(intRange(i.Type()).hi), v))
		}
	case token.ARROW:
		st.snap = st.clone()
		ch := x.splitPtr(st, x.term(st, f, i.X))
		v, ok := x.chanRecv(st, ch, i.X.Type().Underlying().(*types.Chan))
		if i.CommaOk {
			x.set(st, f, i, TupleV{v, ok})
		} else {
			x.set(st, f, i, v)
		}
	default:
		unsup("unop %s", i.Op)
	}
	return nil, false
}

// loadFn turns loaded function references back into callable values.
func (x *Exec) loadFn(v Val, t types.Type) Val { return v }

func (x *Exec) eqVal(st *State, a, b Val, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if ta, ok := a.(*RTypeV); ok {
			tb, ok := b.(*RTypeV)
			if !ok {
				return TFalse
			}
			return B(types.Identical(ta.t, tb.t))
		}
		return Eq(a.(*Term), b.(*Term))
	case *types.Slice:
		// only comparison with nil is legal
		sa, sb := a.(*SliceV), b.(*SliceV)
		if sb.arr == I(0) {
			return Eq(sa.arr, I(0))
		}
		return Eq(sb.arr, I(0))
	case *types.Struct:
		sa, sb := a.(*StructV), b.(*StructV)
		var cs []*Term
		for i := range sa.fs {
			cs = append(cs, x.eqVal(st, sa.fs[i], sb.fs[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Array:
		if _, ok := byteArr(t); !ok {
			sa, sb := a.(*ArrV), b.(*ArrV)
			var cs []*Term
			for i := range sa.es {
				cs = append(cs, x.eqVal(st, sa.es[i], sb.es[i], u.Elem()))
			}
			return And(cs...)
		}
	}
	return Eq(asTerm(a), asTerm(b))
}

func asTerm(v Val) *Term {
	switch r := v.(type) {
	case *Term:
		return r
	case *FuncV:
		return r.term()
	case *BoundV:
		return r.term()
	}
	unsup("scalar expected, got %T", v)
	return nil
}

func (x *Exec) binop(st *State, f *Frame, op token.Token, av, bv Val, at, bt, rt types.Type) Val {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		_, ai := at.Underlying().(*types.Interface)
		_, bi := bt.Underlying().(*types.Interface)
		if ai != bi {
			if !ai {
				av = box(av, at)
				at = bt
			} else {
				bv = box(bv, bt)
			}
		}
		r = x.eqVal(st, av, bv, at)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	a, b := asTerm(av), asTerm(bv)
	if a.sort == SStr {
		switch op {
		case token.ADD:
			return StrCat(a, b)
		}
		if a.op == OStrLit && b.op == OStrLit {
			switch op {
			case token.LSS:
				return B(a.name < b.name)
			case token.GTR:
				return B(a.name > b.name)
			case token.LEQ:
				return B(a.name <= b.name)
			case token.GEQ:
				return B(a.name >= b.name)
			}
		}
		switch op {
		case token.LSS:
			return App("strlt", SBool, rng{}, a, b)
		case token.GTR:
			return App("strlt", SBool, rng{}, b, a)
		case token.LEQ:
			return Not(App("strlt", SBool, rng{}, b, a))
		case token.GEQ:
			return Not(App("strlt", SBool, rng{}, a, b))
		}
	}
	if a.sort == SFloat {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return App("f"+op.String(), SBool, rng{}, a, b)
		}
		return App("f"+op.String(), SFloat, rng{}, a, b)
	}
	if a.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		}
	}
	switch op {
	case token.ADD:
		return wrap(st, Add(a, b), rt)
	case token.SUB:
		return wrap(st, Sub(a, b), rt)
	case token.MUL:
		return wrap(st, Mul(a, b), rt)
	case token.QUO, token.REM:
		x.require(st, Not(Eq(b, I(0))), "integer divide by zero")
		alo, _ := st.interval(a)
		blo, _ := st.interval(b)
		if alo == nil || alo.Sign() < 0 || blo == nil || blo.Sign() <= 0 {
			if blo != nil && blo.Sign() > 0 {
				// truncated division of a possibly negative number
				neg := Lt(a, I(0))
				na := MulC(a, big.NewInt(-1))
				if op == token.QUO {
					return Ite(neg, MulC(Div(na, b), big.NewInt(-1)), Div(a, b))
				}
				return Ite(neg, MulC(Mod(na, b), big.NewInt(-1)), Mod(a, b))
			}
			if alo == nil || alo.Sign() < 0 {
				unsup("division of signed values")
			}
			// a>=0, b may be negative
			unsup("division by possibly negative value")
		}
		if op == token.QUO {
			return Div(a, b)
		}
		return Mod(a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	case token.SHL, token.SHR:
		bits, _, _ := intInfo(rt)
		if !b.isConst() {
			lo, hi := st.interval(b)
			if lo != nil && hi != nil && lo.Cmp(hi) == 0 {
				b = Big(lo)
			} else if a.isConst() && a.k.Cmp(bigOne) == 0 && op == token.SHL {
				return App("pow2", SInt, intRange(rt), b)
			} else if lo != nil && hi != nil && lo.Sign() >= 0 && hi.IsInt64() && hi.Int64() < 256 {
				// case split over the shift amount
				for k := lo.Int64(); k < hi.Int64(); k++ {
					if x.decide(st, Eq(b, I(k))) {
						return x.binop(st, f, op, a, I(k), at, bt, rt)
					}
				}
				return x.binop(st, f, op, a, I(hi.Int64()), at, bt, rt)
			} else {
				unsup("symbolic shift")
			}
		}
		x.require(st, Le(I(0), b), "negative shift amount")
		n := int64(bits)
		if b.k.IsInt64() && b.k.Int64() < n {
			n = b.k.Int64()
		}
		if op == token.SHL {
			return wrap(st, MulC(a, pow2(int(n))), rt)
		}
		return Div(a, Big(pow2(int(n))))
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return bitop(st, op, a, b, rt)
	}
	unsup("binop %s", op)
	return nil
}

func bitop(st *State, op token.Token, a, b *Term, rt types.Type) *Term {
	if a.isConst() && b.isConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.k, b.k)
		case token.OR:
			r.Or(a.k, b.k)
		case token.XOR:
			r.Xor(a.k, b.k)
		case token.AND_NOT:
			r.AndNot(a.k, b.k)
		}
		return Big(r)
	}
	if a.isConst() && op != token.AND_NOT {
		a, b = b, a
	}
	alo, ahi := st.interval(a)
	blo, bhi := st.interval(b)
	nonneg := alo != nil && alo.Sign() >= 0 && blo != nil && blo.Sign() >= 0
	if b.isConst() && b.k.Sign() == 0 {
		if op == token.AND {
			return I(0)
		}
		return a
	}
	if b.isConst() && b.k.Sign() > 0 && (op == token.AND || op == token.AND_NOT) && alo != nil && alo.Sign() >= 0 {
		// sum over runs of ones
		m := b.k
		var r *Term = I(0)
		i := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			part := Mod(Div(a, Big(pow2(i))), Big(pow2(j-i)))
			r = Add(r, MulC(part, pow2(i)))
			i = j
		}
		if op == token.AND {
			return r
		}
		return Sub(a, r)
	}
	if nonneg && (op == token.OR || op == token.XOR) {
		try := func(lowT *Term, lowHi *big.Int, highT *Term) *Term {
			if lowHi == nil {
				return nil
			}
			n := lowHi.BitLen()
			if Mod(highT, Big(pow2(n))) == I(0) {
				return Add(lowT, highT)
			}
			return nil
		}
		if r := try(a, ahi, b); r != nil {
			return r
		}
		if r := try(b, bhi, a); r != nil {
			return r
		}
	}
	if op == token.OR && b.isConst() && b.k.Sign() > 0 && alo != nil && alo.Sign() >= 0 {
		// a|m = a + m - (a&m)
		return Sub(Add(a, b), bitop(st, token.AND, a, b, rt))
	}
	if a.id > b.id && op != token.AND_NOT {
		a, b = b, a
	}
	r := intRange(rt)
	if nonneg && op == token.AND && ahi != nil && bhi != nil {
		r = rng{big0, minB(ahi, bhi)}
	}
	return App("bit"+op.String(), SInt, r, a, b)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fi, _, fok := intInfo(from)
	_, _, tok := intInfo(to)
	_ = fi
	fu, tu := from.Underlying(), to.Underlying()
	switch {
	case fok && tok:
		return wrap(st, asTerm(v), to)
	case fok && leaves(to)[0].sort == SStr: // string(rune)
		t := asTerm(v)
		if t.isConst() {
			return StrLit(string(rune(t.k.Int64())))
		}
		return App("runestr", SStr, rng{}, t)
	case fok && leaves(to)[0].sort == SFloat:
		return App("itof", SFloat, rng{}, asTerm(v))
	case tok && asTerm0(v) != nil && asTerm0(v).sort == SFloat:
		r := App("ftoi", SInt, intRange(to), asTerm(v))
		return r
	case asTerm0(v) != nil && asTerm0(v).sort == SFloat:
		return v
	}
	if s, ok := tu.(*types.Slice); ok && isStringT(from) {
		if isByte(s.Elem()) {
			t := asTerm(v)
			a, off := StrArr(t)
			return st.bytesSlice(a, off, StrLen(t))
		}
		unsup("[]rune conversion")
	}
	if s, ok := fu.(*types.Slice); ok && isStringT(to) {
		if isByte(s.Elem()) {
			return st.strOf(v.(*SliceV))
		}
		unsup("string from []rune")
	}
	if isStringT(from) && isStringT(to) {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	unsup("convert %s to %s", from, to)
	return nil
}

func asTerm0(v Val) *Term { t, _ := v.(*Term); return t }

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) Val {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(st, f, v)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.eval(st, f, i.X).(*SliceV)
		lo, hi := get(i.Low, I(0)), get(i.High, s.len)
		mx := get(i.Max, s.cap)
		x.require(st, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, s.cap)), "slice bounds out of range")
		return &SliceV{s.arr, Add(s.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case *types.Basic:
		s := x.term(st, f, i.X)
		lo, hi := get(i.Low, I(0)), get(i.High, StrLen(s))
		x.require(st, And(Le(I(0), lo), Le(lo, hi), Le(hi, StrLen(s))), "slice bounds out of range")
		return substr(s, lo, Sub(hi, lo))
	case *types.Pointer:
		a := u.Elem().Underlying().(*types.Array)
		p := x.splitPtr(st, x.term(st, f, i.X))
		x.nonNil(st, p)
		n := I(a.Len())
		lo, hi := get(i.Low, I(0)), get(i.High, n)
		mx := get(i.Max, n)
		x.require(st, And(Le(I(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), "slice bounds out of range")
		if underElem(p) {
			// snapshot of the array (see DESIGN: arrays inside slice elements)
			v := st.load(p, u.Elem()).(*Term)
			arr, off := StrArr(v)
			b := st.bytesSlice(arr, off, n)
			return &SliceV{b.arr, lo, Sub(hi, lo), Sub(mx, lo)}
		}
		return &SliceV{p, lo, Sub(hi, lo), Sub(mx, lo)}
	}
	unsup("slice of %s", i.X.Type())
	return nil
}

func substr(s, off, n *Term) *Term {
	if s.op == OStrLit && off.isConst() && n.isConst() {
		o := off.k.Int64()
		return StrLit(s.name[o : o+n.k.Int64()])
	}
	if off == I(0) && n == StrLen(s) {
		return s
	}
	a, o := StrArr(s)
	return MkStr(a, Add(o, off), n)
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) {
	v := x.eval(st, f, i.X)
	at := i.AssertedType
	iface, isIface := at.Underlying().(*types.Interface)
	t, ok := v.(*Term)
	if !ok {
		x.set(st, f, i, v)
		return
	}
	var yes *Term
	var val Val
	if isIface {
		switch {
		case isBox(t):
			bt := boxTypes[t.name]
			if bt == nil { // engine-made error value
				yes = B(iface.NumMethods() == 0 || isErrorIface(at))
			} else {
				yes = B(types.Implements(bt, iface))
			}
		case t == TNilIface:
			yes = TFalse
		default:
			// unknown dynamic type: implements the static interface at least
			if types.Implements(i.X.Type(), iface) {
				yes = Not(Eq(t, TNilIface))
			} else {
				yes = And(Not(Eq(t, TNilIface)), App("impl$"+typeKey(at), SBool, rng{}, t))
			}
		}
		val = t
		if i.CommaOk {
			if yes == TFalse {
				val = TNilIface
			} else if yes != TTrue {
				val = Ite(yes, t, TNilIface)
			}
		}
	} else {
		switch {
		case isBox(t):
			if boxTypes[t.name] != nil && types.Identical(boxTypes[t.name], at) {
				yes = TTrue
				val = fromLeaves(t.args, at)
			} else {
				yes = TFalse
			}
		case t == TNilIface:
			yes = TFalse
		case t.op == OIte:
			if x.decide(st, t.args[0]) {
				f.env[i.X] = t.args[1]
			} else {
				f.env[i.X] = t.args[2]
			}
			x.typeAssert(st, f, i)
			return
		default:
			nm := boxName(at)
			var ts []*Term
			for k, l := range leaves(at) {
				r := l.r
				if l.ref {
					r.hi = big.NewInt(st.alloc)
				}
				ts = append(ts, App(fmt.Sprintf("unbox%d$%s", k, strings.TrimPrefix(nm, "box$")), l.sort, r, t))
			}
			val = fromLeaves(ts, at)
			yes = Eq(t, App(nm, SIface, rng{}, ts...))
			if x.decide(st, yes) {
				st.typeFacts(val, at)
				yes = TTrue
			} else {
				yes = TFalse
			}
		}
		if yes == TFalse {
			val = zeroVal(at)
		}
	}
	if i.CommaOk {
		x.set(st, f, i, TupleV{val, yes})
		return
	}
	x.require(st, yes, "interface conversion")
	x.set(st, f, i, val)
}

func isErrorIface(t types.Type) bool {
	return types.Identical(t.Underlying(), types.Universe.Lookup("error").Type().Underlying())
}
