package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, args []Val, fn *ssa.Function) Val

var (
	models   = map[string]modelFn{} // by ssa function name
	goModels = map[string]*ssa.Function{}
	goModelT = map[*ssa.Function]string{}
	// tail models push a call and post-process its result
	tailModels = map[string]func(x *Exec, st *State, args []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val){}
	contracts  = map[*ssa.Function]*ssa.Function{} // modular: target -> contract
)

// packages whose real source is executed
var inlinePkgs = map[string]bool{
	"bytes": true, "strings": true, "io": true, "errors": true, "encoding/binary": true, "encoding/hex": true,
	"internal/byteorder": true, "math/bits": true, "unicode/utf8": true, "strconv": true, "internal/strconv": true, "sort": true, "slices": true, "cmp": true, "maps": true, "internal/bytealg": true,
	"unicode": true, "context": true, "math": true, "internal/stringslite": true, "iter": true,
	"github.com/btcsuite/btcd/chaincfg/chainhash":               true,
	"github.com/btcsuite/btcd/btcutil/gcs":                      true,
	"github.com/btcsuite/btcd/wire":                             true,
	"github.com/vulpemventures/go-elements/block":               true,
	"github.com/vulpemventures/go-elements/internal/bufferutil": true,
	"github.com/vulpemventures/go-elements/network":             true,
	"github.com/go-ozzo/ozzo-validation/v4":                     true,
}

const repoPath = "github.com/vulpemventures/neutrino-elements"
const specPath = repoPath + "/pkg/verifspec"

func (x *Exec) callTarget(st *State, f *Frame, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.eval(st, f, a))
	}
	if !c.IsInvoke() {
		if b, ok := c.Value.(*ssa.Builtin); ok {
			return x.builtin(b.Name(), c), args
		}
		return x.eval(st, f, c.Value), args
	}
	recv := x.eval(st, f, c.Value)
	return x.methodOf(st, recv, c.Method, c.Value.Type(), args)
}

// methodOf resolves a dynamic method call.
func (x *Exec) methodOf(st *State, recv Val, m *types.Func, static types.Type, args []Val) (Val, []Val) {
	switch r := recv.(type) {
	case *RTypeV, *RValueV:
		return mkBound("reflect."+m.Name(), func(x *Exec, st *State, a []Val) Val {
			return reflectMethod(x, st, r, m.Name(), a)
		}), args
	case *Term:
		for r.op == OIte {
			if x.decide(st, r.args[0]) {
				r = r.args[1]
			} else {
				r = r.args[2]
			}
		}
		if r == TNilIface {
			panic(goPanic{x.runtimeError(st, "nil interface method call")})
		}
		if isBox(r) {
			t := boxTypes[r.name]
			if t != nil {
				fn := x.prog.LookupMethod(t, m.Pkg(), m.Name())
				if fn == nil {
					unsup("method %s of %s", m.Name(), t)
				}
				v := unboxTerm(r, t)
				return mkFunc(fn, nil), append([]Val{v}, args...)
			}
		}
		if x.decide(st, Eq(r, TNilIface)) {
			panic(goPanic{x.runtimeError(st, "nil interface method call")})
		}
		// unknown dynamic type: pure observers of opaque values
		sig := m.Type().(*types.Signature)
		switch m.Name() {
		case "Error", "String", "Kind", "Name":
			return mkBound("opaque."+m.Name(), func(x *Exec, st *State, a []Val) Val {
				x.trusted["dynamic method "+m.FullName()+" of an unknown value is a pure function"] = true
				return App("meth$"+m.Name(), leaves(sig.Results().At(0).Type())[0].sort, leaves(sig.Results().At(0).Type())[0].r, r)
			}), nil
		case "Timeout", "Temporary":
			return mkBound("opaque."+m.Name(), func(x *Exec, st *State, a []Val) Val {
				return App("meth$"+m.Name(), SBool, rng{}, r)
			}), nil
		}
		unsup("dynamic call of %s on a value of unknown type %s", m.FullName(), static)
	}
	unsup("dynamic call on %T", recv)
	return nil, nil
}

func (x *Exec) call(st *State, f *Frame, c *ssa.CallCommon, ret ssa.Value) {
	fn, args := x.callTarget(st, f, c)
	x.callVal(st, fn, args, c, ret, nil)
}

// callVal performs a call; ret==nil marks deferred calls.
func (x *Exec) callVal(st *State, fn Val, args []Val, c *ssa.CallCommon, ret ssa.Value, onRet func(*State, Val) Val) {
	switch g := fn.(type) {
	case *Term:
		for g.op == OIte {
			if x.decide(st, g.args[0]) {
				g = g.args[1]
			} else {
				g = g.args[2]
			}
		}
		if g == I(0) {
			panic(goPanic{x.runtimeError(st, "call of nil function")})
		}
		if v, ok := funcTab[g.name]; ok {
			x.callVal(st, v, args, c, ret, onRet)
			return
		}
		unsup("call of an unknown function value")
	case *BoundV:
		x.finish(st, ret, onRet, g.call(x, st, args))
	case *FuncV:
		x.callFn(st, g, args, ret, onRet)
	default:
		unsup("call of %T", fn)
	}
}

func (x *Exec) finish(st *State, ret ssa.Value, onRet func(*State, Val) Val, v Val) {
	if onRet != nil {
		v = onRet(st, v)
	}
	if ret != nil {
		f := st.top()
		f.env[ret] = v
		f.pc++
	}
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return pkgOf(o)
	}
	if fn.Parent() != nil {
		return pkgOf(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (x *Exec) callFn(st *State, g *FuncV, args []Val, ret ssa.Value, onRet func(*State, Val) Val) {
	fn := g.fn
	if x.initMode {
		fs := len(st.frames)
		defer func() {
			if r := recover(); r != nil {
				u, ok := r.(unsupported)
				if !ok {
					panic(r)
				}
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "init: result of", fnName(fn), "arbitrary:", u.msg)
				}
				st.popTo(fs)
				x.finish(st, ret, onRet, x.havocCall(st, fn))
			}
		}()
	}
	name := fnName(fn)
	if fn.Name() == "init" && fn.Synthetic != "" && len(st.frames) > 0 {
		x.finish(st, ret, onRet, nil)
		return
	}
	if pkgOf(fn) == specPath {
		if m, ok := specFns[fn.Name()]; ok && fn.Signature.Recv() == nil {
			x.finish(st, ret, onRet, m(x, st, args, fn))
			return
		}
		if o := fn.Origin(); o != nil {
			if m, ok := specFns[o.Name()]; ok {
				x.finish(st, ret, onRet, m(x, st, args, fn))
				return
			}
		}
		if m, ok := specTail[origName(fn)]; ok {
			m(x, st, args, fn, ret, onRet)
			return
		}
	}
	if tgt := x.assumeTarget(st, fn); tgt {
		x.finish(st, ret, onRet, x.havocCall(st, fn))
		return
	}
	if m, ok := goModels[name]; ok && !x.inModel(st, m) {
		x.trusted["Go model of "+name] = true
		x.push(st, m, args, nil, ret, onRet)
		return
	}
	if m, ok := models[name]; ok {
		x.trusted["model of "+name] = true
		x.finish(st, ret, onRet, m(x, st, args, fn))
		return
	}
	if m, ok := tailModels[name]; ok {
		x.trusted["model of "+name] = true
		m(x, st, args, fn, ret, onRet)
		return
	}
	if ct, ok := contracts[fn]; ok && ct != x.contract {
		if !x.inContract(st, fn) {
			x.modular[name] = true
			x.push(st, ct, args, nil, ret, onRet)
			st.top().mode = 1
			st.top().target = fn
			return
		}
	}
	p := pkgOf(fn)
	if v, ok := x.opaque(st, p, name, fn, args); ok {
		x.finish(st, ret, onRet, v)
		return
	}
	if fn.Blocks == nil {
		unsup("function without body: %s", name)
	}
	if !strings.HasPrefix(p, repoPath) && !inlinePkgs[p] && fn.Synthetic == "" && !inlineFns[name] {
		unsup("call of unmodelled function %s", name)
	}
	if strings.HasPrefix(p, repoPath) && p != specPath && fn.Synthetic == "" && fn.Parent() == nil && !strings.Contains(x.fset.Position(fn.Pos()).Filename, "zz_verif") {
		x.inlined[name] = true
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == fn {
			n++
		}
	}
	if n > 12 {
		unsup("recursion of %s", name)
	}
	x.push(st, fn, args, g.binds, ret, onRet)
}

func origName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.Name()
	}
	return fn.Name()
}

func (x *Exec) inModel(st *State, m *ssa.Function) bool {
	for _, f := range st.frames {
		if f.fn == m {
			return true
		}
	}
	return false
}
func (x *Exec) inContract(st *State, fn *ssa.Function) bool {
	for _, f := range st.frames {
		if f.mode == 1 && f.target == fn {
			return true
		}
	}
	return false
}

// assumeTarget: inside a contract used at a call site, the real call is
// replaced by arbitrary results.
func (x *Exec) assumeTarget(st *State, fn *ssa.Function) bool {
	f := st.top()
	return f.mode == 1 && f.target == fn
}

func (x *Exec) havocCall(st *State, fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return st.fresh("r."+fn.Name(), r.At(0).Type())
	}
	return st.fresh("r."+fn.Name(), r)
}

func (x *Exec) push(st *State, fn *ssa.Function, args []Val, binds []Val, ret ssa.Value, onRet func(*State, Val) Val) {
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	if len(st.frames) > 200 {
		unsup("stack depth")
	}
	f := &Frame{fn: fn, block: fn.Blocks[0], env: make(map[ssa.Value]Val), binds: binds, ret: ret, onRet: onRet, visits: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("argument count of %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	st.frames = append(st.frames, f)
}

// callSync runs a function value to completion in sub-states of st.
func (x *Exec) callSync(st *State, fn Val, args []Val) []*Outcome {
	s := st.clone()
	s.script, s.pos, s.snap = nil, 0, nil
	base := len(s.frames)
	s.snap = s.clone()
	// a pseudo frame is not needed: results come back through Outcome.ret
	switch g := fn.(type) {
	case *Term:
		v, ok := funcTab[g.name]
		if !ok {
			unsup("call of unknown function value")
		}
		return x.callSync(st, v, args)
	case *FuncV:
		x.push(s, g.fn, args, g.binds, nil, nil)
		s.snap = nil
	default:
		unsup("callSync %T", fn)
	}
	return x.run(s, base)
}

// evalPure evaluates a boolean closure without side effects to a term.
func (x *Exec) evalPure(st *State, fn Val, args []Val) *Term {
	outs := x.callSync(st, fn, args)
	base := 0
	if st.facts != nil {
		base = st.facts.n
	}
	var alts []*Term
	for _, o := range outs {
		if o.kind != "return" {
			// a panic inside a specification expression counts as false
			continue
		}
		var conds []*Term
		for x := o.st.facts; x != nil && x.n > base; x = x.prev {
			if x.dec {
				conds = append(conds, x.t)
			} else if !x.t.bnd {
				st.assume(Implies(pathCond(o.st.facts, base), x.t))
			}
		}
		conds = append(conds, asTerm(o.ret))
		alts = append(alts, And(conds...))
	}
	return Or(alts...)
}

func pathCond(f *facts, base int) *Term {
	var cs []*Term
	for ; f != nil && f.n > base; f = f.prev {
		if f.dec && !f.t.bnd {
			cs = append(cs, f.t)
		}
	}
	return And(cs...)
}

// ---------- builtins ----------

func (x *Exec) builtin(name string, c *ssa.CallCommon) Val {
	return mkBoundOnce("builtin "+name, c, func(x *Exec, st *State, args []Val) Val {
		return x.doBuiltin(st, name, c, args)
	})
}

var boundCache = map[*ssa.CallCommon]*BoundV{}

func mkBoundOnce(name string, c *ssa.CallCommon, f func(x *Exec, st *State, args []Val) Val) *BoundV {
	if b, ok := boundCache[c]; ok {
		return b
	}
	b := mkBound(name, f)
	boundCache[c] = b
	return b
}

func (x *Exec) doBuiltin(st *State, name string, c *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				return args[0].(*SliceV).len
			}
			return args[0].(*SliceV).cap
		case *types.Basic:
			return StrLen(args[0].(*Term))
		case *types.Map:
			m := x.splitPtr(st, args[0].(*Term))
			if m == I(0) {
				return I(0)
			}
			return x.mapLen(st, m, u)
		case *types.Chan:
			ch := args[0].(*Term)
			if name == "cap" {
				return x.chanField(st, ch, "cap")
			}
			return Sub(x.chanField(st, ch, "tail"), x.chanField(st, ch, "head"))
		case *types.Array:
			return I(u.Len())
		case *types.Pointer:
			return I(u.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		s := args[0].(*SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if len(args) == 1 {
			return s
		}
		switch t := args[1].(type) {
		case *SliceV:
			return x.appendSlice(st, s, t, et)
		case *Term:
			if t.sort == SStr {
				a, off := StrArr(t)
				return x.appendBytes(st, s, a, off, StrLen(t))
			}
		}
	case "copy":
		d := args[0].(*SliceV)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if s, ok := args[1].(*Term); ok {
			n := x.minT(st, d.len, StrLen(s))
			a, off := StrArr(s)
			st.setBytes(d.arr, Splice(st.bytesOf(d.arr), d.off, a, off, n))
			return n
		}
		s := args[1].(*SliceV)
		n := x.minT(st, d.len, s.len)
		if n == I(0) {
			return n
		}
		for _, l := range leaves(et) {
			src := st.elemArray(s.arr, et, l)
			dst := st.elemArray(d.arr, et, l)
			st.setElemArray(d.arr, et, l, Splice(dst, d.off, src, s.off, n))
		}
		return n
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m := x.splitPtr(st, args[0].(*Term))
		if m == I(0) {
			return nil
		}
		x.mapDelete(st, m, mt, keyTerm(args[1], mt.Key()))
		return nil
	case "close":
		ch := x.splitPtr(st, args[0].(*Term))
		x.require(st, Not(Eq(ch, I(0))), "close of nil channel")
		x.require(st, Not(x.chanClosed(st, ch)), "close of closed channel")
		x.setChanClosed(st, ch)
		return nil
	case "panic":
		st.labels = append(st.labels, "panic at "+x.where(st))
		panic(goPanic{args[0].(*Term)})
	case "print", "println":
		return nil
	case "recover":
		// the frame calling recover must be a deferred call of a panicking frame
		n := len(st.frames)
		if n >= 2 && st.frames[n-1].deferRun && st.frames[n-2].panicVal != nil && !st.frames[n-2].recov {
			st.own(n - 2)
			st.frames[n-2].recov = true
			return st.frames[n-2].panicVal
		}
		return TNilIface
	case "ssa:wrapnilchk":
		p := args[0].(*Term)
		x.nonNil(st, p)
		return p
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(b, r), r, b)
			}
		}
		return r
	}
	unsup("builtin %s", name)
	return nil
}

func (x *Exec) minT(st *State, a, b *Term) *Term {
	c := Le(a, b)
	switch st.truth(c) {
	case 1:
		return a
	case -1:
		return b
	}
	if x.decide(st, c) {
		return a
	}
	return b
}

func (x *Exec) appendSlice(st *State, s, t *SliceV, et types.Type) *SliceV {
	if t.len == I(0) {
		return s
	}
	if isByte(et) {
		return x.appendBytes(st, s, st.bytesOf(t.arr), t.off, t.len)
	}
	n := Add(s.len, t.len)
	inPlace := x.fits(st, s, n)
	r := s.arr
	off := s.off
	if !inPlace {
		r = st.newRef()
		off = I(0)
		// content arrays of the new object are set below
	}
	for _, l := range leaves(et) {
		src := st.elemArray(t.arr, et, l)
		var dst *Term
		if s.arr == I(0) || s.len == I(0) && !inPlace {
			dst = ConstArr(SArr(SInt, l.sort), zeroLeaf(l))
		} else {
			dst = st.elemArray(s.arr, et, l)
		}
		if !inPlace && s.off != I(0) {
			dst = Splice(ConstArr(SArr(SInt, l.sort), zeroLeaf(l)), I(0), dst, s.off, s.len)
		}
		st.setElemArray(r, et, l, Splice(dst, Add(off, s.len), src, t.off, t.len))
	}
	if inPlace {
		return &SliceV{s.arr, s.off, n, s.cap}
	}
	st.assume(Le(n, Big(lenMax)))
	return &SliceV{r, I(0), n, n}
}

func (x *Exec) fits(st *State, s *SliceV, n *Term) bool {
	if s.cap == s.len || s.arr == I(0) {
		return false
	}
	c := Le(n, s.cap)
	switch st.truth(c) {
	case 1:
		return true
	case -1:
		return false
	}
	return x.decide(st, c)
}

func (x *Exec) appendBytes(st *State, s *SliceV, src, off, m *Term) *SliceV {
	if m == I(0) {
		return s
	}
	n := Add(s.len, m)
	if x.fits(st, s, n) {
		st.setBytes(s.arr, Splice(st.bytesOf(s.arr), Add(s.off, s.len), src, off, m))
		return &SliceV{s.arr, s.off, n, s.cap}
	}
	r := st.newRef()
	zero := ConstArr(SArr(SInt, SInt), I(0))
	var dst *Term
	switch {
	case s.len == I(0) || s.arr == I(0):
		dst = zero
	case s.off == I(0):
		dst = st.bytesOf(s.arr)
	default:
		dst = Splice(zero, I(0), st.bytesOf(s.arr), s.off, s.len)
	}
	st.setBytes(r, Splice(dst, s.len, src, off, m))
	st.assume(Le(n, Big(lenMax)))
	arr := r
	if s.arr == I(0) && st.truth(Lt(I(0), m)) != 1 {
		arr = Ite(Eq(m, I(0)), I(0), r)
	}
	return &SliceV{arr, I(0), n, n}
}

// ---------- maps ----------

func mapKeyOf(mt *types.Map) string { return typeKey(mt) }

func (x *Exec) mapDom(st *State, m *Term, mt *types.Map) *Term {
	ks := keySort(mt.Key())
	return Select(st.get("MD|"+mapKeyOf(mt), SArr(SInt, SArr(ks, SBool)), rng{}, false), denull(m))
}
func (x *Exec) setMapDom(st *State, m *Term, mt *types.Map, d *Term) {
	ks := keySort(mt.Key())
	k := "MD|" + mapKeyOf(mt)
	st.setHeap(k, Store(st.get(k, SArr(SInt, SArr(ks, SBool)), rng{}, false), denull(m), d))
}
func (x *Exec) mapLen(st *State, m *Term, mt *types.Map) *Term {
	n := Select(st.get("ML|"+mapKeyOf(mt), SArr(SInt, SInt), rng{big0, lenMax}, false), denull(m))
	if !n.isConst() {
		st.assume(Le(I(0), n))
	}
	return n
}
func (x *Exec) setMapLen(st *State, m *Term, mt *types.Map, n *Term) {
	k := "ML|" + mapKeyOf(mt)
	st.setHeap(k, Store(st.get(k, SArr(SInt, SInt), rng{big0, lenMax}, false), denull(m), n))
}
func (x *Exec) mapVals(st *State, m *Term, mt *types.Map, l leaf) *Term {
	ks := keySort(mt.Key())
	return Select(st.get("MV|"+mapKeyOf(mt)+l.suffix, SArr(SInt, SArr(ks, l.sort)), l.r, l.ref), denull(m))
}
func (x *Exec) setMapVals(st *State, m *Term, mt *types.Map, l leaf, v *Term) {
	ks := keySort(mt.Key())
	k := "MV|" + mapKeyOf(mt) + l.suffix
	st.setHeap(k, Store(st.get(k, SArr(SInt, SArr(ks, l.sort)), l.r, l.ref), denull(m), v))
}

func (x *Exec) mapInit(st *State, m *Term, mt *types.Map) {
	ks := keySort(mt.Key())
	x.setMapDom(st, m, mt, ConstArr(SArr(ks, SBool), TFalse))
	x.setMapLen(st, m, mt, I(0))
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, k *Term) Val {
	var ts []*Term
	for _, l := range leaves(mt.Elem()) {
		ts = append(ts, Select(x.mapVals(st, m, mt, l), k))
	}
	v := fromLeaves(ts, mt.Elem())
	st.typeFacts(v, mt.Elem())
	return v
}

func (x *Exec) mapIn(st *State, m *Term, mt *types.Map, k *Term) *Term {
	return Select(x.mapDom(st, m, mt), k)
}

func (x *Exec) mapStore(st *State, m *Term, mt *types.Map, k *Term, v Val) {
	x.checkMapGuard(st, m, true)
	d := x.mapDom(st, m, mt)
	in := Select(d, k)
	n := x.mapLen(st, m, mt)
	if st.truth(in) == 1 {
		in = TTrue
	} else if st.truth(in) == -1 {
		in = TFalse
	}
	x.setMapLen(st, m, mt, Ite(in, n, Add(n, I(1))))
	x.setMapDom(st, m, mt, Store(d, k, TTrue))
	ts := flatten(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		x.setMapVals(st, m, mt, l, Store(x.mapVals(st, m, mt, l), k, ts[i]))
	}
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, k *Term) {
	x.checkMapGuard(st, m, true)
	d := x.mapDom(st, m, mt)
	in := Select(d, k)
	n := x.mapLen(st, m, mt)
	switch st.truth(in) {
	case 1:
		in = TTrue
		st.assume(Le(I(1), n))
	case -1:
		in = TFalse
	default:
		st.assume(Implies(in, Le(I(1), n)))
	}
	x.setMapLen(st, m, mt, Ite(in, Sub(n, I(1)), n))
	x.setMapDom(st, m, mt, Store(d, k, TFalse))
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) {
	if isStringT(i.X.Type()) {
		s := x.term(st, f, i.X)
		idx := x.term(st, f, i.Index)
		x.require(st, And(Le(I(0), idx), Lt(idx, StrLen(s))), "index out of range")
		a, off := StrArr(s)
		x.set(st, f, i, Select(a, Add(off, idx)))
		return
	}
	mt := i.X.Type().Underlying().(*types.Map)
	m := x.splitPtr(st, x.term(st, f, i.X))
	isNil := Eq(m, I(0))
	in := TFalse
	var v Val
	if st.truth(isNil) != 1 && !x.decide(st, isNil) {
		x.checkMapGuard(st, m, false)
		k := keyTerm(x.eval(st, f, i.Index), mt.Key())
		in = x.mapIn(st, m, mt, k)
		if x.decide(st, in) {
			in = TTrue
			st.assume(Le(I(1), x.mapLen(st, m, mt)))
			v = x.mapGet(st, m, mt, k)
		} else {
			in = TFalse
		}
	}
	if v == nil {
		v = zeroVal(mt.Elem())
	}
	if i.CommaOk {
		v = TupleV{v, in}
	}
	x.set(st, f, i, v)
}

// ---------- iteration ----------

type iterV struct {
	m       *Term
	mt      *types.Map
	visited *Term
	n       *Term
	str     *Term
	pos     *Term
}

func (x *Exec) rangeInit(st *State, f *Frame, i *ssa.Range) {
	if isStringT(i.X.Type()) {
		x.set(st, f, i, &iterV{str: x.term(st, f, i.X), pos: I(0)})
		return
	}
	mt := i.X.Type().Underlying().(*types.Map)
	m := x.term(st, f, i.X)
	x.set(st, f, i, &iterV{m: m, mt: mt, visited: ConstArr(SArr(keySort(mt.Key()), SBool), TFalse), n: I(0)})
}

// finiteDom lists the keys of a syntactically finite domain.
func finiteDom(d *Term) (in []*Term, ok bool) {
	seen := []*Term{}
	for d.op == OStore {
		k := d.args[1]
		dup := false
		for _, s := range seen {
			switch decideEq(s, k) {
			case 1:
				dup = true
			case 0:
				return nil, false
			}
		}
		if !dup {
			seen = append(seen, k)
			switch d.args[2] {
			case TTrue:
				in = append(in, k)
			case TFalse:
			default:
				return nil, false
			}
		}
		d = d.args[0]
	}
	if d.op == OConstArr && d.args[0] == TFalse {
		return in, true
	}
	return nil, false
}

func (x *Exec) rangeNext(st *State, f *Frame, i *ssa.Next) {
	it := x.eval(st, f, i.Iter).(*iterV)
	if i.IsString {
		x.strNext(st, f, i, it)
		return
	}
	tt := i.Type().(*types.Tuple)
	zero := func() {
		x.set(st, f, i, TupleV{TFalse, x.zeroOr(tt.At(1).Type()), x.zeroOr(tt.At(2).Type())})
	}
	m := x.splitPtr(st, it.m)
	if m == I(0) || st.truth(Eq(m, I(0))) == 1 {
		zero()
		return
	}
	x.checkMapGuard(st, m, false)
	dom := x.mapDom(st, m, it.mt)
	var k *Term
	if keys, ok := finiteDom(dom); ok {
		var rest []*Term
		for _, c := range keys {
			if Select(it.visited, c) != TTrue {
				rest = append(rest, c)
			}
		}
		if len(rest) == 0 {
			zero()
			return
		}
		k = rest[x.choose(st, len(rest))]
	} else {
		ks := keySort(it.mt.Key())
		r := rng{}
		if ks == SInt {
			r = leaves(it.mt.Key())[0].r
		}
		more := NewVar("more", SBool, rng{})
		if !x.decide(st, more) {
			b := NewBound("k", ks, r)
			st.assume(Forall([]*Term{b}, Or(Not(Select(dom, b)), Select(it.visited, b))))
			if it.n == I(0) || st.truth(Eq(it.n, I(0))) == 1 {
				st.assume(Eq(x.mapLen(st, m, it.mt), I(0)))
			}
			zero()
			return
		}
		k = NewVar("key", ks, r)
		if len(leaves(it.mt.Key())) > 1 {
			v := st.fresh("key", it.mt.Key())
			k = keyTerm(v, it.mt.Key())
		} else {
			st.typeFacts(fromLeaves([]*Term{k}, it.mt.Key()), it.mt.Key())
		}
		st.assume(Select(dom, k))
		st.assume(Not(Select(it.visited, k)))
		st.assume(Lt(it.n, x.mapLen(st, m, it.mt)))
	}
	f.env[i.Iter] = &iterV{m: it.m, mt: it.mt, visited: Store(it.visited, k, TTrue), n: Add(it.n, I(1))}
	x.set(st, f, i, TupleV{TTrue, keyVal(k, it.mt.Key()), x.mapGet(st, m, it.mt, k)})
}

func (x *Exec) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return I(0)
	}
	return zeroVal(t)
}

func (x *Exec) strNext(st *State, f *Frame, i *ssa.Next, it *iterV) {
	if it.str.op == OStrLit && it.pos.isConst() {
		p := int(it.pos.k.Int64())
		if p >= len(it.str.name) {
			x.set(st, f, i, TupleV{TFalse, I(0), I(0)})
			return
		}
		for j, r := range it.str.name[p:] {
			if j == 0 {
				w := len(string(r))
				f.env[i.Iter] = &iterV{str: it.str, pos: I(int64(p + w))}
				x.set(st, f, i, TupleV{TTrue, it.pos, I(int64(r))})
				return
			}
		}
	}
	// symbolic string: ASCII bytes are exact, others are an opaque rune
	if !x.decide(st, Lt(it.pos, StrLen(it.str))) {
		x.set(st, f, i, TupleV{TFalse, I(0), I(0)})
		return
	}
	a, off := StrArr(it.str)
	b := Select(a, Add(off, it.pos))
	if x.decide(st, Lt(b, I(128))) {
		f.env[i.Iter] = &iterV{str: it.str, pos: Add(it.pos, I(1))}
		x.set(st, f, i, TupleV{TTrue, it.pos, b})
		return
	}
	r := NewVar("rune", SInt, rng{big.NewInt(128), big.NewInt(0x10ffff)})
	w := NewVar("runew", SInt, rng{bigOne, big.NewInt(4)})
	st.assume(Le(Add(it.pos, w), StrLen(it.str)))
	f.env[i.Iter] = &iterV{str: it.str, pos: Add(it.pos, w)}
	x.set(st, f, i, TupleV{TTrue, it.pos, r})
}

// ---------- channels ----------

func (x *Exec) chanField(st *State, ch *Term, name string) *Term {
	return Select(st.get("CH."+name, SArr(SInt, SInt), rng{big0, pow2(62)}, false), denull(ch))
}
func (x *Exec) setChanField(st *State, ch *Term, name string, v *Term) {
	k := "CH." + name
	st.setHeap(k, Store(st.get(k, SArr(SInt, SInt), rng{big0, pow2(62)}, false), denull(ch), v))
}
func (x *Exec) chanClosed(st *State, ch *Term) *Term {
	return Eq(x.chanField(st, ch, "closed"), I(1))
}
func (x *Exec) setChanClosed(st *State, ch *Term) { x.setChanField(st, ch, "closed", I(1)) }
func (x *Exec) chanInit(st *State, ch *Term, ct *types.Chan, size *Term) {
	x.setChanField(st, ch, "head", I(0))
	x.setChanField(st, ch, "tail", I(0))
	x.setChanField(st, ch, "closed", I(0))
	x.setChanField(st, ch, "cap", size)
	x.setChanField(st, ch, "ext", I(0))
	x.setChanField(st, ch, "unread", I(0))
}
func (x *Exec) chanBuf(st *State, ch *Term, et types.Type, l leaf) *Term {
	return Select(st.get("CHB|"+typeKey(et)+l.suffix, SArr(SInt, SArr(SInt, l.sort)), l.r, l.ref), denull(ch))
}
func (x *Exec) setChanBuf(st *State, ch *Term, et types.Type, l leaf, v *Term) {
	k := "CHB|" + typeKey(et) + l.suffix
	st.setHeap(k, Store(st.get(k, SArr(SInt, SArr(SInt, l.sort)), l.r, l.ref), denull(ch), v))
}

func (x *Exec) chanSend(st *State, ch *Term, ct *types.Chan, v Val) {
	if st.truth(Eq(ch, I(0))) == 1 {
		panic(pathEnd{"blocked"})
	}
	x.require(st, Not(x.chanClosed(st, ch)), "send on closed channel")
	if x.sendsBlock(st, ch) && !x.decide(st, x.chanRoom(st, ch)) {
		panic(pathEnd{"blocked"})
	}
	tail := x.chanField(st, ch, "tail")
	ts := flatten(v, ct.Elem())
	for i, l := range leaves(ct.Elem()) {
		x.setChanBuf(st, ch, ct.Elem(), l, Store(x.chanBuf(st, ch, ct.Elem(), l), tail, ts[i]))
	}
	x.setChanField(st, ch, "tail", Add(tail, I(1)))
}

func (x *Exec) chanItem(st *State, ch *Term, et types.Type, i *Term) Val {
	var ts []*Term
	for _, l := range leaves(et) {
		ts = append(ts, Select(x.chanBuf(st, ch, et, l), i))
	}
	v := fromLeaves(ts, et)
	st.typeFacts(v, et)
	return v
}

// sendsBlock: nobody receives from the channel.
func (x *Exec) sendsBlock(st *State, ch *Term) bool {
	if _, b := st.ghost["sendsblock"]; b {
		return true
	}
	_, b := st.ghost["unread"]
	return b && st.truth(Eq(x.chanField(st, ch, "unread"), I(1))) == 1
}

// chanRoom: a buffered channel takes another item.
func (x *Exec) chanRoom(st *State, ch *Term) *Term {
	used := Sub(x.chanField(st, ch, "tail"), x.chanField(st, ch, "head"))
	return Lt(used, x.chanField(st, ch, "cap"))
}

func (x *Exec) recvReady(st *State, ch *Term) *Term {
	return Or(Lt(x.chanField(st, ch, "head"), x.chanField(st, ch, "tail")), x.chanClosed(st, ch), Eq(x.chanField(st, ch, "ext"), I(1)))
}

func (x *Exec) chanRecv(st *State, ch *Term, ct *types.Chan) (Val, *Term) {
	if st.truth(Eq(ch, I(0))) == 1 {
		panic(pathEnd{"blocked"})
	}
	h := x.chanField(st, ch, "head")
	if x.decide(st, Lt(h, x.chanField(st, ch, "tail"))) {
		v := x.chanItem(st, ch, ct.Elem(), h)
		x.setChanField(st, ch, "head", Add(h, I(1)))
		return v, TTrue
	}
	if x.decide(st, Eq(x.chanField(st, ch, "ext"), I(1))) {
		return st.fresh("recv", ct.Elem()), TTrue
	}
	if x.decide(st, x.chanClosed(st, ch)) {
		return zeroVal(ct.Elem()), TFalse
	}
	panic(pathEnd{"blocked"})
}

func (x *Exec) selectOp(st *State, f *Frame, i *ssa.Select) Val {
	tt := i.Type().(*types.Tuple)
	mk := func(idx int, v Val, ok *Term) Val {
		tv := TupleV{I(int64(idx)), ok}
		r := 2
		for k, s := range i.States {
			if s.Dir == types.RecvOnly {
				if k == idx {
					tv = append(tv, v)
				} else {
					tv = append(tv, zeroVal(tt.At(r).Type()))
				}
				r++
			}
		}
		return tv
	}
	var ready []int
	for k, s := range i.States {
		ch := x.splitPtr(st, x.term(st, f, s.Chan))
		if st.truth(Eq(ch, I(0))) == 1 {
			continue
		}
		if s.Dir == types.SendOnly {
			if i.Blocking && !x.sendsBlock(st, ch) {
				ready = append(ready, k)
				continue
			}
			if x.decide(st, x.chanRoom(st, ch)) {
				ready = append(ready, k)
			}
			continue
		}
		if x.decide(st, x.recvReady(st, ch)) {
			ready = append(ready, k)
		}
	}
	if len(ready) == 0 {
		if !i.Blocking {
			return mk(-1, nil, TFalse)
		}
		panic(pathEnd{"blocked"})
	}
	// external (timer-like) channels may stay silent: a default is possible then
	k := ready[x.choose(st, len(ready))]
	s := i.States[k]
	ch := x.splitPtr(st, x.term(st, f, s.Chan))
	ct := s.Chan.Type().Underlying().(*types.Chan)
	if s.Dir == types.SendOnly {
		x.chanSend(st, ch, ct, x.eval(st, f, s.Send))
		return mk(k, nil, TFalse)
	}
	v, ok := x.chanRecv(st, ch, ct)
	return mk(k, v, ok)
}

// ---------- guards ----------

func (x *Exec) guardAccess(st *State, g guard, l location, write bool) {
	if x.inSpec(st) {
		return
	}
	x.lockObligation(st, g, write)
}

func (x *Exec) inSpec(st *State) bool {
	return isContractFn(st.top().fn, x.fset)
}

func isContractFn(fn *ssa.Function, fset interface{}) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if pkgOf(fn) == specPath {
		return true
	}
	return contractFns[fn]
}

var contractFns = map[*ssa.Function]bool{}

// locksOf is the state of all locks; a contract starts with none held.
func locksOf(st *State) *Term {
	if h, ok := st.heap["LK"]; ok {
		return h
	}
	return ConstArr(SArr(SInt, SInt), I(0))
}
func (x *Exec) lockState(st *State, lock *Term) *Term { return Select(locksOf(st), lock) }
func (x *Exec) setLock(st *State, lock, v *Term)      { st.setHeap("LK", Store(locksOf(st), lock, v)) }

func (x *Exec) lockObligation(st *State, g guard, write bool) {
	s := x.lockState(st, g.lock)
	if write {
		x.oblige(st, "write of "+g.name+" under its lock", "lock", Eq(s, I(-1)))
	} else {
		x.oblige(st, "read of "+g.name+" under its lock", "lock", Not(Eq(s, I(0))))
	}
}

// checkMapGuard: accesses to the contents of a guarded map.
func (x *Exec) checkMapGuard(st *State, m *Term, write bool) {
	if len(st.guards) == 0 || x.inSpec(st) {
		return
	}
	for _, g := range st.guards {
		if g.key == "map" && decideEq(g.base, m) == 1 {
			x.lockObligation(st, g, write)
		}
	}
}

func (x *Exec) allocHook(st *State, n *Term, et types.Type) {
	k, ok := st.ghost["alloclimit"]
	if !ok || x.inSpec(st) {
		return
	}
	x.oblige(st, "allocation bounded by received bytes in "+st.top().fn.Name(), "alloc", Le(n, asTerm(k)))
}
