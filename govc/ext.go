package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var inlineFns = map[string]bool{"io/ioutil.ReadFile": true, "io/ioutil.WriteFile": true, "(net/http.noBody).Close": true, "net/http.StatusText": true, "(net/http.HandlerFunc).ServeHTTP": true, "io/ioutil.ReadAll": true, "io.ReadAll": true, "net/http.NewRequest": true, "net/http.Get": true, "(*net/http.Client).Get": true, "github.com/btcsuite/btcd/btcutil/gcs/builder.DeriveKey": true, "(net.IP).To4": true, "net.isZeros": true, "(net.IP).To16": true, "net.SplitHostPort": true, "net.SplitHostPort$1": true}

// packages whose functions do nothing the properties can observe
var opaquePkgs = map[string]bool{
	"github.com/sirupsen/logrus": true,
	"log":                        true,
	"runtime/debug":              true,
}

var opaqueFns = map[string]bool{"(github.com/google/uuid.UUID).String": true, 
	"time.Now": true, "(time.Time).UTC": true, "(time.Time).Local": true, "(time.Time).Format": true, "(time.Time).UnixMilli": true, "time.Since": true, "(time.Time).Sub": true, "(time.Time).Unix": true, "(time.Time).UnixNano": true, "time.Unix": true,
	"(time.Duration).String": true, "(time.Time).Add": true, "(time.Time).Before": true, "(time.Time).After": true, "(time.Duration).Seconds": true, "(time.Duration).Milliseconds": true,
	"math/rand.Intn": true, "math/rand.Uint64": true, "math/rand.Int63": true, "math/rand.Seed": true, "math/rand.Uint32": true, "math/rand.Int": true, "math/rand.Float64": true,
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "time.Sleep": true,
	"runtime.Gosched": true, "runtime.NumGoroutine": true,
	"crypto/rand.Int": true, "crypto/rand.Read": true,
}

func (x *Exec) opaque(st *State, p, name string, fn *ssa.Function, args []Val) (Val, bool) {
	if opaquePkgs[p] && (strings.Contains(fn.Name(), "Fatal") || strings.Contains(fn.Name(), "Panic")) {
		panic(pathEnd{"exit"})
	}
	if !opaquePkgs[p] && !opaqueFns[name] {
		return nil, false
	}
	x.trusted["opaque, no effect: "+name] = true
	r := fn.Signature.Results()
	mk := func(t types.Type) Val {
		v := st.fresh(fn.Name(), t)
		switch t.Underlying().(type) {
		case *types.Pointer:
			return st.newRef()
		case *types.Interface:
			if isErrorIface(t) {
				return v
			}
		}
		return v
	}
	switch r.Len() {
	case 0:
		return nil, true
	case 1:
		return mk(r.At(0).Type()), true
	}
	var tv TupleV
	for i := 0; i < r.Len(); i++ {
		tv = append(tv, mk(r.At(i).Type()))
	}
	return tv, true
}

// ---------- errors ----------

func newErr(st *State, wrapped *Term) *Term {
	if wrapped == nil {
		wrapped = TNilIface
	}
	return App("box$error", SIface, rng{}, st.newRef(), wrapped)
}

func errIs(a, b *Term) *Term {
	if r := Eq(a, b); r == TTrue || a == TNilIface {
		return r
	}
	if a.op == OIte {
		return Ite(a.args[0], errIs(a.args[1], b), errIs(a.args[2], b))
	}
	if isBox(a) {
		if a.name == "box$error" {
			return Or(Eq(a, b), errIs(a.args[1], b))
		}
		return Eq(a, b)
	}
	return Or(Eq(a, b), And(Not(Eq(a, TNilIface)), App("errIs", SBool, rng{}, a, b)))
}

// ---------- fmt ----------

func (x *Exec) variadic(st *State, s *SliceV) []Val {
	if !s.len.isConst() {
		unsup("variadic call with unknown argument count")
	}
	et := types.NewInterfaceType(nil, nil)
	var out []Val
	for i := int64(0); i < s.len.k.Int64(); i++ {
		loc := location{"M|interface{}", []*Term{denull(s.arr), Add(s.off, I(i))}}
		out = append(out, st.readLeaf(loc, leaves(et)[0]))
	}
	return out
}

func (x *Exec) sprintf(st *State, format *Term, args []Val) *Term {
	if format.op != OStrLit {
		ts := []*Term{format}
		for _, a := range args {
			ts = append(ts, asTerm(a))
		}
		return App(fmt.Sprintf("sprintf%d", len(args)), SStr, rng{}, ts...)
	}
	f := format.name
	res := StrLit("")
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			res = StrCat(res, StrLit(f[i:j]))
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			res = StrCat(res, StrLit("%"))
			continue
		}
		if ai >= len(args) {
			res = StrCat(res, StrLit("%!"+verb))
			continue
		}
		a := asTerm(args[ai])
		ai++
		if isBox(a) && boxTypes[a.name] != nil {
			t := boxTypes[a.name]
			if _, named := types.Unalias(t).(*types.Named); !named || !hasFmtMethod(x, t) {
				if isStringT(t) && (verb == "%s" || verb == "%v") {
					res = StrCat(res, a.args[0])
					continue
				}
				if _, _, ok := intInfo(t); ok && (verb == "%d" || verb == "%v") {
					res = StrCat(res, itoa(a.args[0]))
					continue
				}
			}
			if _, _, ok := intInfo(t); ok && verb == "%d" {
				res = StrCat(res, itoa(a.args[0]))
				continue
			}
			if n, ok := byteArr(t); ok && n > 0 && (verb == "%x") {
				res = StrCat(res, App("hexstr", SStr, rng{}, a.args[0]))
				continue
			}
			if len(a.args) == 4 && verb == "%x" && typeKey(t) == "[]uint8" {
				res = StrCat(res, App("hexstr", SStr, rng{}, st.strOf(&SliceV{a.args[0], a.args[1], a.args[2], a.args[3]})))
				continue
			}
		}
		res = StrCat(res, App("fmt"+verb, SStr, rng{}, a))
	}
	return res
}

func itoa(n *Term) *Term {
	if n.isConst() {
		return StrLit(n.k.String())
	}
	return App("itoa", SStr, rng{}, n)
}

func hasFmtMethod(x *Exec, t types.Type) bool {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format":
			return true
		}
	}
	return false
}

// ---------- reflect ----------

type RTypeV struct{ t types.Type }
type RValueV struct {
	t    types.Type
	v    Val
	addr *Term
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.String:
			return reflect.String
		case types.Float64:
			return reflect.Float64
		case types.Float32:
			return reflect.Float32
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

func reflectTypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return tkRe.ReplaceAllStringFunc(s, func(w string) string {
		return map[string]string{"byte": "uint8", "rune": "int32", "any": "interface {}"}[w]
	})
}

func (x *Exec) rvalue(st *State, v *Term) Val {
	for v.op == OIte {
		if x.decide(st, v.args[0]) {
			v = v.args[1]
		} else {
			v = v.args[2]
		}
	}
	if v == TNilIface {
		return &RValueV{}
	}
	if !isBox(v) || boxTypes[v.name] == nil {
		unsup("reflection on a value of unknown type")
	}
	t := boxTypes[v.name]
	return &RValueV{t: t, v: fromLeaves(v.args, t)}
}

func (r *RValueV) val(st *State) Val {
	if r.addr != nil {
		return st.load(r.addr, r.t)
	}
	return r.v
}

func reflectMethod(x *Exec, st *State, recv Val, name string, a []Val) Val {
	x.trusted["model of reflect"] = true
	switch r := recv.(type) {
	case *RTypeV:
		switch name {
		case "Kind":
			return I(int64(kindOf(r.t)))
		case "String":
			return StrLit(reflectTypeString(r.t))
		case "Name":
			if n, ok := types.Unalias(r.t).(*types.Named); ok {
				return StrLit(n.Obj().Name())
			}
			return StrLit("")
		case "Elem":
			switch u := r.t.Underlying().(type) {
			case *types.Pointer:
				return &RTypeV{u.Elem()}
			case *types.Slice:
				return &RTypeV{u.Elem()}
			case *types.Array:
				return &RTypeV{u.Elem()}
			}
		case "NumField":
			return I(int64(r.t.Underlying().(*types.Struct).NumFields()))
		case "Len":
			return I(r.t.Underlying().(*types.Array).Len())
		case "Field":
			i := asTerm(a[0])
			u := r.t.Underlying().(*types.Struct)
			if i.isConst() {
				sf := x.lookupType("reflect", "StructField")
				v := zeroVal(sf).(*StructV)
				v.fs[0] = StrLit(u.Field(int(i.k.Int64())).Name())
				return v
			}
		}
	case *RValueV:
		switch name {
		case "Kind":
			if r.t == nil {
				return I(0)
			}
			return I(int64(kindOf(r.t)))
		case "Type":
			return &RTypeV{r.t}
		case "IsValid":
			return B(r.t != nil)
		case "CanSet", "CanAddr":
			return B(r.addr != nil)
		case "CanInterface":
			return TTrue
		case "Interface":
			if r.t == nil {
				panic(goPanic{x.runtimeError(st, "Interface of zero reflect.Value")})
			}
			return box(r.val(st), r.t)
		case "Elem":
			switch u := r.t.Underlying().(type) {
			case *types.Pointer:
				p := x.splitPtr(st, asTerm(r.val(st)))
				if x.decide(st, Eq(p, I(0))) {
					return &RValueV{}
				}
				return &RValueV{t: u.Elem(), addr: p}
			case *types.Interface:
				return x.rvalue(st, asTerm(r.val(st)))
			}
		case "NumField":
			return I(int64(r.t.Underlying().(*types.Struct).NumFields()))
		case "Field":
			i := asTerm(a[0])
			u := r.t.Underlying().(*types.Struct)
			if i.isConst() {
				k := int(i.k.Int64())
				if r.addr != nil {
					return &RValueV{t: u.Field(k).Type(), addr: fieldPtr(r.addr, r.t, k)}
				}
				return &RValueV{t: u.Field(k).Type(), v: r.v.(*StructV).fs[k]}
			}
		case "Addr":
			if r.addr != nil {
				return &RValueV{t: types.NewPointer(r.t), v: r.addr}
			}
			panic(goPanic{x.runtimeError(st, "reflect.Value.Addr of unaddressable value")})
		case "IsNil":
			switch v := r.val(st).(type) {
			case *SliceV:
				return Eq(v.arr, I(0))
			case *Term:
				if v.sort == SIface {
					return Eq(v, TNilIface)
				}
				return Eq(v, I(0))
			}
		case "Len":
			switch v := r.val(st).(type) {
			case *SliceV:
				return v.len
			case *Term:
				return StrLen(v)
			}
		case "Index":
			if s, ok := r.val(st).(*SliceV); ok {
				et := r.t.Underlying().(*types.Slice).Elem()
				i := asTerm(a[0])
				x.require(st, And(Le(I(0), i), Lt(i, s.len)), "reflect: slice index out of range")
				return &RValueV{t: et, addr: elemPtr(s.arr, Add(s.off, i), et)}
			}
			if u, ok := r.t.Underlying().(*types.Array); ok && isByte(u.Elem()) && r.addr != nil {
				i := asTerm(a[0])
				x.require(st, And(Le(I(0), i), Lt(i, I(u.Len()))), "reflect: array index out of range")
				return &RValueV{t: u.Elem(), addr: elemPtr(r.addr, i, u.Elem())}
			}
		case "Uint", "Int", "Bool", "String":
			return r.val(st)
		case "Bytes":
			return r.val(st)
		case "Set":
			if r.addr == nil {
				panic(goPanic{x.runtimeError(st, "reflect.Set of unaddressable value")})
			}
			o := a[0].(*RValueV)
			st.store(r.addr, o.val(st), r.t)
			return nil
		case "SetUint", "SetInt", "SetBool", "SetString", "SetBytes":
			if r.addr == nil {
				panic(goPanic{x.runtimeError(st, "reflect.Set of unaddressable value")})
			}
			v := a[0]
			if _, _, ok := intInfo(r.t); ok {
				v = wrap(st, asTerm(v), r.t)
			}
			st.store(r.addr, v, r.t)
			return nil
		}
	}
	unsup("reflect method %s on %T", name, recv)
	return nil
}

func (x *Exec) lookupType(pkg, name string) types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Pkg.Scope().Lookup(name).Type()
		}
	}
	unsup("type %s.%s not loaded", pkg, name)
	return nil
}

// ---------- registration ----------

func pureApp(name string, s *Sort, r rng, st *State, ts ...*Term) *Term {
	return App(name, s, r, ts...)
}

// hash256 gives the bytes of a 32-byte digest as a fresh slice.
func (x *Exec) digest(st *State, name string, n int64, content *Term) *Term {
	h := App(name, SStr, rng{}, content)
	st.assume(Eq(StrLen(h), I(n)))
	return h
}

func strBytes(st *State, s *Term) *SliceV {
	a, off := StrArr(s)
	return st.bytesSlice(a, off, StrLen(s))
}

func init() {
	M := func(name string, f modelFn) { models[name] = f }
	M("reflect.TypeOf", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		if _, ok := a[0].(*Term); !ok {
			unsup("TypeOf")
		}
		r := x.rvalue(st, a[0].(*Term)).(*RValueV)
		if r.t == nil {
			return TNilIface
		}
		return &RTypeV{r.t}
	})
	M("reflect.ValueOf", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return x.rvalue(st, a[0].(*Term)) })
	M("reflect.Indirect", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		r := a[0].(*RValueV)
		if r.t != nil && kindOf(r.t) == reflect.Ptr {
			return reflectMethod(x, st, r, "Elem", nil)
		}
		return r
	})
	for _, m := range []string{"Kind", "Type", "IsValid", "CanSet", "CanAddr", "CanInterface", "Interface", "Elem", "NumField", "Field", "Addr", "IsNil", "Len", "Index", "Uint", "Int", "Bool", "String", "Bytes", "Set", "SetUint", "SetInt", "SetBool", "SetString", "SetBytes"} {
		m := m
		M("(reflect.Value)."+m, func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			return reflectMethod(x, st, a[0], m, a[1:])
		})
	}
	M("fmt.Errorf", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		var w *Term
		if f := a[0].(*Term); f.op == OStrLit && strings.Contains(f.name, "%w") {
			for _, v := range x.variadic(st, a[1].(*SliceV)) {
				if t, ok := v.(*Term); ok {
					if isBox(t) && boxTypes[t.name] != nil && !types.Implements(boxTypes[t.name], types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						continue
					}
					w = t
				}
			}
		}
		return newErr(st, w)
	})
	M("errors.Is", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return errIs(a[0].(*Term), a[1].(*Term)) })
	M("fmt.Sprintf", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		return x.sprintf(st, a[0].(*Term), x.variadic(st, a[1].(*SliceV)))
	})
	M("fmt.Sprint", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		var ts []*Term
		for _, v := range x.variadic(st, a[0].(*SliceV)) {
			ts = append(ts, asTerm(v))
		}
		return App(fmt.Sprintf("sprint%d", len(ts)), SStr, rng{}, ts...)
	})
	// bytes.Buffer growth is exact
	grow := func(x *Exec, st *State, b *Term, src, off, n *Term) {
		bt := x.lookupType("bytes", "Buffer")
		u := bt.Underlying().(*types.Struct)
		p := fieldPtr(b, bt, 0)
		s := st.load(p, u.Field(0).Type()).(*SliceV)
		r := x.appendBytes(st, s, src, off, n)
		st.store(p, r, u.Field(0).Type())
	}
	M("(*bytes.Buffer).Write", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		b := x.splitPtr(st, a[0].(*Term))
		x.nonNil(st, b)
		s := a[1].(*SliceV)
		grow(x, st, b, st.bytesOf(s.arr), s.off, s.len)
		return TupleV{s.len, TNilIface}
	})
	M("(*bytes.Buffer).WriteString", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		b := x.splitPtr(st, a[0].(*Term))
		x.nonNil(st, b)
		ar, off := StrArr(a[1].(*Term))
		grow(x, st, b, ar, off, StrLen(a[1].(*Term)))
		return TupleV{StrLen(a[1].(*Term)), TNilIface}
	})
	M("(*bytes.Buffer).WriteByte", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		b := x.splitPtr(st, a[0].(*Term))
		x.nonNil(st, b)
		grow(x, st, b, ConstArr(SArr(SInt, SInt), a[1].(*Term)), I(0), I(1))
		return TNilIface
	})
	M("bytes.Equal", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		return Eq(st.strOf(a[0].(*SliceV)), st.strOf(a[1].(*SliceV)))
	})
	digest := func(name string, f string) {
		M(name, func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			h := x.digest(st, f, 32, st.strOf(a[0].(*SliceV)))
			if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
				return strBytes(st, h)
			}
			return h
		})
	}
	digest("crypto/sha256.Sum256", "sha256")
	M("github.com/btcsuite/btcd/chaincfg/chainhash.DoubleHashB", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		h := x.digest(st, "sha256", 32, st.strOf(a[0].(*SliceV)))
		return strBytes(st, x.digest(st, "sha256", 32, h))
	})
	M("github.com/btcsuite/btcd/chaincfg/chainhash.DoubleHashH", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		h := x.digest(st, "sha256", 32, st.strOf(a[0].(*SliceV)))
		return x.digest(st, "sha256", 32, h)
	})
	M("github.com/btcsuite/btcd/btcutil.Hash160", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		h := x.digest(st, "sha256", 32, st.strOf(a[0].(*SliceV)))
		return strBytes(st, x.digest(st, "ripemd160", 20, h))
	})
	M("encoding/hex.EncodeToString", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		return hexStr(st, st.strOf(a[0].(*SliceV)))
	})
	// locks
	lk := func(name string, f func(x *Exec, st *State, l, cur *Term)) {
		M(name, func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			l := x.splitPtr(st, a[0].(*Term))
			x.nonNil(st, l)
			f(x, st, l, x.lockState(st, l))
			return nil
		})
	}
	lock := func(x *Exec, st *State, l, cur *Term) {
		if st.truth(Eq(cur, I(0))) == -1 && len(st.parked) == 0 {
			x.oblige(st, "no self-deadlock on a lock", "lock", TFalse)
			panic(pathEnd{"blocked"})
		}
		if !x.decide(st, Eq(cur, I(0))) {
			panic(pathEnd{"blocked"})
		}
		x.setLock(st, l, I(-1))
	}
	unlock := func(x *Exec, st *State, l, cur *Term) {
		x.require(st, Not(Eq(cur, I(0))), "unlock of unlocked mutex")
		x.setLock(st, l, I(0))
	}
	rlock := func(x *Exec, st *State, l, cur *Term) {
		if st.truth(Eq(cur, I(-1))) == 1 && len(st.parked) == 0 {
			x.oblige(st, "no self-deadlock on a lock", "lock", TFalse)
			panic(pathEnd{"blocked"})
		}
		if x.decide(st, Eq(cur, I(-1))) {
			panic(pathEnd{"blocked"})
		}
		x.setLock(st, l, Add(cur, I(1)))
	}
	runlock := func(x *Exec, st *State, l, cur *Term) {
		x.require(st, Lt(I(0), cur), "RUnlock of unlocked mutex")
		x.setLock(st, l, Sub(cur, I(1)))
	}
	lk("(*sync.Mutex).Lock", lock)
	lk("(*sync.Mutex).Unlock", unlock)
	lk("(*sync.RWMutex).Lock", lock)
	lk("(*sync.RWMutex).Unlock", unlock)
	lk("(*sync.RWMutex).RLock", rlock)
	lk("(*sync.RWMutex).RUnlock", runlock)
	wg := func(x *Exec, st *State, d *Term, r *Term) {
		r = x.splitPtr(st, r)
		x.nonNil(st, r)
		n := Add(Select(waitGroups(st), r), d)
		x.require(st, Le(I(0), n), "negative WaitGroup counter")
		st.setHeap("WG", Store(waitGroups(st), r, n))
	}
	M("(*sync.WaitGroup).Add", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		wg(x, st, asTerm(a[1]), a[0].(*Term))
		return nil
	})
	M("(*sync.WaitGroup).Done", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		wg(x, st, I(-1), a[0].(*Term))
		return nil
	})
	// the contract's own Wait lets the goroutines run until the counter is zero
	tailModels["(*sync.WaitGroup).Wait"] = func(x *Exec, st *State, a []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val) {
		r := x.splitPtr(st, a[0].(*Term))
		x.nonNil(st, r)
		if x.decide(st, Eq(Select(waitGroups(st), r), I(0))) {
			x.finish(st, ret, onRet, nil)
			return
		}
		if x.depth == 1 {
			x.settle(st)
		}
		panic(pathEnd{"blocked"})
	}
	M("sync.NewCond", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		r := st.newRef()
		ct := x.lookupType("sync", "Cond")
		st.zeroMem(r, ct)
		u := ct.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "L" {
				st.store(fieldPtr(r, ct, i), a[0], u.Field(i).Type())
			}
		}
		st.setHeap("COND", Store(st.get("COND", SArr(SInt, SInt), rng{big0, pow2(62)}, false), r, I(0)))
		return r
	})
	sig := func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		r := x.splitPtr(st, a[0].(*Term))
		x.nonNil(st, r)
		h := st.get("COND", SArr(SInt, SInt), rng{big0, pow2(62)}, false)
		st.setHeap("COND", Store(h, r, Add(Select(h, r), I(1))))
		return nil
	}
	M("(*sync.Cond).Signal", sig)
	M("(*sync.Cond).Broadcast", sig)
	M("(*sync.Cond).Wait", condWait)
	tailModels["(*sync.Once).Do"] = func(x *Exec, st *State, a []Val, fn *ssa.Function, ret ssa.Value, onRet func(*State, Val) Val) {
		r := x.splitPtr(st, a[0].(*Term))
		h, ok := st.heap["ONCE"]
		if !ok {
			h = ConstArr(SArr(SInt, SInt), I(0))
		}
		if x.decide(st, Eq(Select(h, r), I(0))) {
			st.setHeap("ONCE", Store(h, r, I(1)))
			x.callVal(st, a[1], nil, nil, ret, func(st *State, v Val) Val { return nil })
			return
		}
		x.finish(st, ret, onRet, nil)
	}
	atomicOp := func(name string, f func(x *Exec, st *State, p *Term, t types.Type, a []Val) Val) {
		M("sync/atomic."+name, func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			p := x.splitPtr(st, a[0].(*Term))
			x.nonNil(st, p)
			return f(x, st, p, deref(fn.Signature.Params().At(0).Type()), a)
		})
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		atomicOp("Load"+w, func(x *Exec, st *State, p *Term, t types.Type, a []Val) Val { return st.load(p, t) })
		atomicOp("Store"+w, func(x *Exec, st *State, p *Term, t types.Type, a []Val) Val { st.store(p, a[1], t); return nil })
		atomicOp("Add"+w, func(x *Exec, st *State, p *Term, t types.Type, a []Val) Val {
			v := wrap(st, Add(asTerm(st.load(p, t)), asTerm(a[1])), t)
			st.store(p, v, t)
			return v
		})
		atomicOp("CompareAndSwap"+w, func(x *Exec, st *State, p *Term, t types.Type, a []Val) Val {
			if x.decide(st, Eq(asTerm(st.load(p, t)), asTerm(a[1]))) {
				st.store(p, a[2], t)
				return TTrue
			}
			return TFalse
		})
	}
	extChan := func(x *Exec, st *State, et types.Type) *Term {
		r := st.newRef()
		x.chanInit(st, r, types.NewChan(types.SendRecv, et), I(1))
		x.setChanField(st, r, "ext", I(1))
		return r
	}
	M("time.After", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		return extChan(x, st, x.lookupType("time", "Time"))
	})
	ticker := func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		t := deref(fn.Signature.Results().At(0).Type())
		r := st.newRef()
		st.zeroMem(r, t)
		st.store(fieldPtr(r, t, 0), extChan(x, st, x.lookupType("time", "Time")), t.Underlying().(*types.Struct).Field(0).Type())
		return r
	}
	M("time.NewTicker", ticker)
	M("time.NewTimer", ticker)
	M("(*time.Ticker).Stop", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return nil })
	M("(*time.Timer).Stop", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		return st.fresh("stop", types.Typ[types.Bool])
	})
	// the free list of the wire package hands out 8-byte scratch buffers
	for _, p := range []string{"github.com/btcsuite/btcd/wire", "github.com/vulpemventures/go-elements/internal/bufferutil"} {
		M("("+p+".binaryFreeList).Borrow", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
			return st.makeSlice(types.Typ[types.Uint8], I(8), I(8))
		})
		M("("+p+".binaryFreeList).Return", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return nil })
	}
	M("strconv.Itoa", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return itoa(a[0].(*Term)) })
	for _, n := range []string{"strings.Clone", "internal/stringslite.Clone"} {
		M(n, func(x *Exec, st *State, a []Val, fn *ssa.Function) Val { return a[0] })
	}
	M("internal/bytealg.MakeNoZero", func(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
		return st.makeSlice(types.Typ[types.Uint8], asTerm(a[0]), asTerm(a[0]))
	})
}

func waitGroups(st *State) *Term {
	if h, ok := st.heap["WG"]; ok {
		return h
	}
	return ConstArr(SArr(SInt, SInt), I(0))
}

// condWait gives up the lock, waits for a signal that comes later and takes the lock again.
func condWait(x *Exec, st *State, a []Val, fn *ssa.Function) Val {
	c := x.splitPtr(st, a[0].(*Term))
	x.nonNil(st, c)
	ct := deref(fn.Signature.Recv().Type())
	u := ct.Underlying().(*types.Struct)
	var l *Term
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == "L" {
			b := asTerm(st.load(fieldPtr(c, ct, i), u.Field(i).Type()))
			l = b.args[0]
		}
	}
	n := Select(st.get("COND", SArr(SInt, SInt), rng{big0, pow2(62)}, false), c)
	f := st.top()
	call := f.block.Instrs[f.pc].(*ssa.Call)
	if since := f.env[call]; since != nil {
		if x.decide(st, Eq(n, since.(*Term))) || !x.decide(st, Eq(x.lockState(st, l), I(0))) {
			panic(pathEnd{"blocked"})
		}
		delete(f.env, call)
		x.setLock(st, l, I(-1))
		return nil
	}
	x.require(st, Eq(x.lockState(st, l), I(-1)), "waiting without the lock")
	f.env[call] = n
	x.setLock(st, l, I(0))
	panic(pathEnd{"blocked"})
}

var _ = big.NewInt
var _ = constant.MakeBool

func hexStr(st *State, s *Term) *Term {
	if s.op == OStrLit {
		return StrLit(fmt.Sprintf("%x", s.name))
	}
	h := App("hexstr", SStr, rng{}, s)
	st.assume(Eq(StrLen(h), MulC(StrLen(s), big.NewInt(2))))
	st.assume(Eq(App("unhex", SStr, rng{}, h), s))
	return h
}
