package main

import (
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var specFns map[string]modelFn
var specTail map[string]func(x *Exec, st *State, args []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val)

func (x *Exec) assumeMode(st *State) bool {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if contractFns[f.fn] {
			return f.mode == 1
		}
	}
	return false
}

func lit(v Val) string {
	t := v.(*Term)
	if t.op != OStrLit {
		unsup("label must be a literal")
	}
	return t.name
}

func intBound(name string) *Term { return NewBound(name, SInt, rng{}) }

func init() {
	specFns = map[string]modelFn{
		"Requires": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			if x.assumeMode(st) {
				x.oblige(st, "precondition of "+st.top().target.Name(), "requires", asTerm(a[0]))
				return nil
			}
			st.assumeD(asTerm(a[0]))
			if st.dead || !x.feas.sat(st.facts, TTrue) {
				panic(pathEnd{"requires"})
			}
			return nil
		},
		"Assume": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.assume(asTerm(a[0]))
			return nil
		},
		"Prune": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			saved := ctx
			ctx = nil
			text, _ := script(factList(st.facts), TTrue, nil)
			ctx = saved
			t0 := time.Now()
			out, _ := runSolver("z3-new", []string{"-in", "smt.mbqi=false", "-T:2"}, text+"(check-sat)\n", 2*time.Second)
			x.feas.dur += time.Since(t0)
			x.feas.nq++
			if strings.HasPrefix(strings.TrimSpace(out), "unsat") {
				panic(pathEnd{"infeasible"})
			}
			return nil
		},
		"Ensures": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			if x.assumeMode(st) {
				st.assume(asTerm(a[1]))
				return nil
			}
			x.oblige(st, lit(a[0]), "ensures", asTerm(a[1]))
			st.assume(asTerm(a[1]))
			return nil
		},
		"Inductive": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.ghost["inductive"] = I(1)
			x.inductive = true
			return nil
		},
		"Bounded": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			s := lit(a[0])
			for _, b := range x.bounded {
				if b == s {
					return nil
				}
			}
			x.bounded = append(x.bounded, s)
			st.ghost["unroll"] = I(1)
			return nil
		},
		"Implies": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return Implies(asTerm(a[0]), asTerm(a[1])) },
		"Forall": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			return x.quant(st, asTerm(a[0]), asTerm(a[1]), a[2], true)
		},
		"Exists": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			return x.quant(st, asTerm(a[0]), asTerm(a[1]), a[2], false)
		},
		"ForallKeys": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
			m := asTerm(a[0])
			if keys, ok := finiteDom(x.mapDom(st, m, mt)); ok {
				var cs []*Term
				for _, k := range keys {
					cs = append(cs, x.evalPure(st, a[1], []Val{keyVal(k, mt.Key()), x.mapGet(st, m, mt, k)}))
				}
				return And(cs...)
			}
			if len(leaves(mt.Key())) > 1 {
				unsup("ForallKeys over structured keys")
			}
			r := rng{}
			ks := keySort(mt.Key())
			if ks == SInt {
				r = leaves(mt.Key())[0].r
			}
			b := NewBound("k", ks, r)
			body := x.evalPure(st, a[1], []Val{keyVal(b, mt.Key()), x.mapGet(st, m, mt, b)})
			return Forall([]*Term{b}, Implies(x.mapIn(st, m, mt, b), body))
		},
		"MapCopy": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
			m := asTerm(a[0])
			r := st.newRef()
			x.setMapDom(st, r, mt, x.mapDom(st, m, mt))
			x.setMapLen(st, r, mt, x.mapLen(st, m, mt))
			for _, l := range leaves(mt.Elem()) {
				x.setMapVals(st, r, mt, l, x.mapVals(st, m, mt, l))
			}
			return r
		},
		"SliceCopy": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			et := fn.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			s := a[0].(*SliceV)
			r := st.newRef()
			for _, l := range leaves(et) {
				st.setElemArray(r, et, l, st.elemArray(s.arr, et, l))
			}
			return &SliceV{r, s.off, s.len, s.len}
		},
		"SameBytes": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			return Eq(st.strOf(a[0].(*SliceV)), st.strOf(a[1].(*SliceV)))
		},
		"Any": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			t := fn.Signature.Results().At(0).Type()
			return x.any(st, lit(a[0]), t)
		},
		"AnyBytes": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			r := st.newRef()
			n := asTerm(a[1])
			arr := NewVar(lit(a[0]), SArr(SInt, SInt), byteRng)
			st.setBytes(r, arr)
			x.inputs = append(x.inputs, inputVar{name: lit(a[0]), kind: "bytes", v: MkStr(arr, I(0), n)})
			return &SliceV{r, I(0), n, n}
		},
		"AnyLen": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			m := asTerm(a[1])
			r := rng{big0, lenMax}
			if m.isConst() {
				r.hi = m.k
			}
			v := NewVar(lit(a[0]), SInt, r)
			st.assume(Le(v, m))
			x.inputs = append(x.inputs, inputVar{name: lit(a[0]), kind: "int", v: v})
			return v
		},
		"Piece": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			v := NewVar("piece", SInt, rng{bigOne, lenMax})
			st.assume(Le(v, asTerm(a[0])))
			return v
		},
		"Upto": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			v := NewVar("upto", SInt, rng{big0, lenMax})
			st.assume(Le(v, asTerm(a[0])))
			return v
		},
		"Flip": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			return NewVar("flip", SBool, rng{})
		},
		"Choose": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			n := asTerm(a[1])
			if !n.isConst() {
				v := NewVar(lit(a[0]), SInt, rng{big0, lenMax})
				st.assume(Lt(v, n))
				return v
			}
			v := NewVar(lit(a[0]), SInt, rng{big0, new(big.Int).Sub(n.k, bigOne)})
			x.inputs = append(x.inputs, inputVar{name: lit(a[0]), kind: "int", v: v})
			for i := int64(0); i < n.k.Int64()-1; i++ {
				if x.decideFree(st, Eq(v, I(i))) {
					return I(i)
				}
			}
			st.assume(Eq(v, Sub(n, I(1))))
			return Sub(n, I(1))
		},
		"LockFree": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			t := asTerm(a[0])
			if !isBox(t) {
				unsup("LockFree")
			}
			if len(t.args) != 1 {
				unsup("LockFree of a non-pointer")
			}
			return Eq(x.lockState(st, t.args[0]), I(0))
		},
		"Guard": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			p := asTerm(a[1])
			l := asTerm(a[2])
			pt := deref(boxTypes[p.name])
			loc := resolve(p.args[0], pt)
			st.guards = append(st.guards, guard{key: loc.key, base: loc.idx[0], lock: l.args[0], name: lit(a[0])})
			return nil
		},
		"GuardMap": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			m := asTerm(a[1])
			l := asTerm(a[2])
			st.guards = append(st.guards, guard{key: "map", base: m.args[0], lock: l.args[0], name: lit(a[0])})
			return nil
		},
		"Native": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return TFalse },
		"AllocLimit": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.ghost["alloclimit"] = asTerm(a[0])
			return nil
		},
		"Spawned": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return I(int64(len(st.spawn))) },
		"Stuck":   func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return I(int64(len(st.parked))) },
		"SendsBlock": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.ghost["sendsblock"] = TTrue
			return nil
		},
		"Unread": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.ghost["unread"] = TTrue
			x.setChanField(st, x.splitPtr(st, a[0].(*Term)), "unread", I(1))
			return nil
		},
		"Rendezvous": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.ghost["rendezvous"] = TTrue
			return nil
		},
		"Invariant": func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			st.ghost["inv:"+lit(a[0])] = a[1]
			return nil
		},
	}
	specTail = map[string]func(x *Exec, st *State, args []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val){
		"UntilBlocked": func(x *Exec, st *State, a []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val) {
			x.runBlocking(st, a[0], nil, ret)
		},
		"Settle": func(x *Exec, st *State, a []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val) {
			x.settle(st)
			x.finish(st, ret, nil, nil)
		},
	}
}

// settle lets the next goroutine run, after which the calling instruction is
// executed again; it returns when all of them wait.
func (x *Exec) settle(st *State) {
	if len(st.spawn) == 0 && len(st.parked) > 0 && st.moved {
		st.spawn, st.parked, st.moved = st.parked, nil, false
	}
	if len(st.spawn) == 0 {
		st.moved = true // what the caller does next may wake the parked ones
		return
	}
	s := st.spawn[0]
	st.spawn = append([]spawned(nil), st.spawn[1:]...)
	x.runGoroutine(st, s)
}

// runGoroutine lets a goroutine run until it returns or waits; the calling
// instruction is executed again afterwards.
func (x *Exec) runGoroutine(st *State, g spawned) {
	if g.frames == nil {
		st.moved = true
		x.runBlocking(st, g.fn, g.args, nil)
		return
	}
	s := st.clone()
	s.script, s.pos, s.snap = nil, 0, nil
	base := len(s.frames)
	for _, f := range g.frames {
		s.frames = append(s.frames, f.clone())
	}
	last := g.frames[len(g.frames)-1]
	outs := x.run(s, base)
	for _, o := range outs {
		if o.kind == "panic" {
			x.oblige(o.st, "no panic: "+strings.Join(lastN(o.st.labels, 1), ""), "panic", TFalse)
			continue
		}
		if o.kind == "blocked" {
			t := o.st.top()
			if len(o.st.frames) != len(s.frames) && len(o.st.frames)-base != len(g.frames) || t.block != last.block || t.pc != last.pc || t.visits[t.block] != last.visits[last.block] {
				o.st.moved = true
			}
		} else {
			o.st.moved = true
		}
		x.resumeCaller(o, base, nil)
	}
	panic(pathEnd{"forked"})
}

// resumeCaller continues the frames below a call that returned or waits.
func (x *Exec) resumeCaller(o *Outcome, base int, ret ssa.Value) {
	if o.kind == "blocked" && ret == nil {
		fs := append([]*Frame(nil), o.st.frames[base:]...)
		o.st.parked = append(o.st.parked, spawned{frames: fs})
	}
	o.st.popTo(base)
	o.st.script, o.st.pos, o.st.snap = nil, 0, nil
	f := o.st.top()
	f.panicVal = nil
	if ret != nil {
		f.pc++
	}
	x.work = append(x.work, o.st)
}

// runBlocking executes a call whose paths may end by blocking; every way it
// can end continues the caller. With ret==nil the calling instruction is
// executed again (used to drain the started goroutines one by one).
func (x *Exec) runBlocking(st *State, fn Val, args []Val, ret ssa.Value) {
	s := st.clone()
	s.script, s.pos, s.snap = nil, 0, nil
	// the caller frames stay below; run until they are on top again
	base := len(s.frames)
	var outs []*Outcome
	switch g := fn.(type) {
	case *Term:
		v, ok := funcTab[g.name]
		if !ok {
			unsup("call of unknown function value")
		}
		x.runBlocking(st, v, args, ret)
		return
	case *FuncV:
		n := len(s.frames)
		s.snap = s.clone()
		x.callFn(s, g, args, nil, nil)
		s.snap = nil
		if len(s.frames) == n {
			outs = []*Outcome{{st: s, kind: "return"}}
		} else {
			s.top().deferRun = true
			outs = x.run(s, base)
		}
	case *BoundV:
		s.snap = s.clone()
		g.call(x, s, args)
		s.snap = nil
		outs = []*Outcome{{st: s, kind: "return"}}
	}
	for _, o := range outs {
		if o.kind == "panic" {
			// a panic in the callee is a panic of the program
			x.oblige(o.st, "no panic: "+strings.Join(lastN(o.st.labels, 1), ""), "panic", TFalse)
			continue
		}
		x.resumeCaller(o, base, ret)
	}
	panic(pathEnd{"forked"})
}

func lastN(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func (x *Exec) quant(st *State, lo, hi *Term, f Val, all bool) *Term {
	if lo.isConst() && hi.isConst() {
		n := new(big.Int).Sub(hi.k, lo.k)
		if n.Sign() <= 0 {
			return B(all)
		}
		if n.IsInt64() && n.Int64() <= 40 {
			var cs []*Term
			for i := new(big.Int).Set(lo.k); i.Cmp(hi.k) < 0; i = new(big.Int).Add(i, bigOne) {
				cs = append(cs, x.evalPure(st, f, []Val{Big(i)}))
			}
			if all {
				return And(cs...)
			}
			return Or(cs...)
		}
	}
	r := rng{lo.lo, nil}
	if _, h := st.interval(hi); h != nil {
		r.hi = new(big.Int).Sub(h, bigOne)
	}
	b := NewBound("i", SInt, r)
	s := st.clone()
	s.assume(Le(lo, b))
	s.assume(Lt(b, hi))
	body := x.evalPure(s, f, []Val{b})
	in := And(Le(lo, b), Lt(b, hi))
	if all {
		return Forall([]*Term{b}, Implies(in, body))
	}
	return Exists([]*Term{b}, And(in, body))
}

// any makes an arbitrary value with its own storage.
func (x *Exec) any(st *State, name string, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		r := st.newRef()
		x.anyAt(st, name, r, u.Elem())
		return r
	case *types.Slice:
		r := st.newRef()
		n := NewVar(name+".len", SInt, rng{big0, lenMax})
		x.anyElems(st, name, r, u.Elem())
		if isByte(u.Elem()) {
			x.inputs = append(x.inputs, inputVar{name: name, kind: "bytes", v: MkStr(st.bytesOf(r), I(0), n)})
		}
		isnil := NewVar(name+".nil", SBool, rng{})
		st.assume(Implies(isnil, Eq(n, I(0))))
		return &SliceV{Ite(isnil, I(0), r), I(0), n, n}
	case *types.Map:
		r := st.newRef()
		ks := keySort(u.Key())
		x.setMapDom(st, r, u, NewVar(name+".dom", SArr(ks, SBool), rng{}))
		x.setMapLen(st, r, u, NewVar(name+".len", SInt, rng{big0, lenMax}))
		for _, l := range leaves(u.Elem()) {
			rr := l.r
			if l.ref {
				rr.hi = big0
			}
			x.setMapVals(st, r, u, l, NewVar(name+l.suffix, SArr(ks, l.sort), rr))
		}
		return r
	}
	var ts []*Term
	for _, l := range leaves(t) {
		r := l.r
		if l.ref {
			r.hi = big0
		}
		ts = append(ts, NewVar(name+l.suffix, l.sort, r))
	}
	v := fromLeaves(ts, t)
	st.typeFacts(v, t)
	if len(ts) == 1 {
		kind := map[string]string{"Int": "int", "Bool": "bool", "Str": "bytes"}[ts[0].sort.kind]
		if kind != "" {
			x.inputs = append(x.inputs, inputVar{name: name, kind: kind, v: ts[0]})
		}
	}
	return v
}

func (x *Exec) anyElems(st *State, name string, arr *Term, et types.Type) {
	for _, l := range leaves(et) {
		r := l.r
		if l.ref {
			r.hi = big0
		}
		st.setElemArray(arr, et, l, NewVar(name+l.suffix, SArr(SInt, l.sort), r))
	}
}

func (x *Exec) anyAt(st *State, name string, p *Term, t types.Type) {
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			x.anyAt(st, name+"."+u.Field(i).Name(), fieldPtr(p, t, i), u.Field(i).Type())
		}
		return
	}
	var v Val
	switch t.Underlying().(type) {
	case *types.Slice:
		v = x.any(st, name, t)
	case *types.Array:
		if _, ok := byteArr(t); ok {
			v = x.any(st, name, t)
		} else {
			v = st.fresh(name, t)
		}
	case *types.Pointer, *types.Chan, *types.Signature, *types.Map:
		v = NewVar(name, SInt, rng{nil, big0})
	default:
		v = x.any(st, name, t)
	}
	st.store(p, v, t)
}
