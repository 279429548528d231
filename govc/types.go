package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// Val is a symbolic value held in an SSA register.
//
//	*Term      scalars, strings, byte arrays (as strings), references, interfaces
//	*SliceV    slices
//	*StructV   structures
//	*ArrV      non-byte arrays
//	TupleV     multiple results
//	*FuncV     function values (also representable as a reference)
//	others     models (reflect values, iterators)
type Val interface{}

type SliceV struct{ arr, off, len, cap *Term }
type StructV struct {
	t  types.Type
	fs []Val
}
type ArrV struct {
	t  types.Type
	es []Val
}
type TupleV []Val

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

var (
	tkCache = map[types.Type]string{}
	tkRe    = regexp.MustCompile(`\b(byte|rune|any)\b`)
)

func typeKey(t types.Type) string {
	if s, ok := tkCache[t]; ok {
		return s
	}
	s := types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
	s = tkRe.ReplaceAllStringFunc(s, func(w string) string {
		return map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}[w]
	})
	tkCache[t] = s
	return s
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// byteArr reports [N]byte-like types.
func byteArr(t types.Type) (int64, bool) {
	if a, ok := t.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		return a.Len(), true
	}
	return 0, false
}

func intInfo(t types.Type) (bits int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return
}

func intRange(t types.Type) rng {
	bits, signed, ok := intInfo(t)
	if !ok {
		return rng{}
	}
	if signed {
		return rng{new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne)}
	}
	return rng{big0, new(big.Int).Sub(pow2(bits), bigOne)}
}

type leaf struct {
	suffix string
	sort   *Sort
	r      rng
	ref    bool // reference: bounded by the allocation counter
	n      int64
}

var leafCache = map[string][]leaf{}

// leaves lists the scalar components of a type that is held by value.
func leaves(t types.Type) []leaf {
	k := typeKey(t)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intInfo(t); ok {
			return []leaf{{"", SInt, intRange(t), false, 0}}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, rng{}, false, 0}}
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SStr, rng{}, false, 0}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []leaf{{"", SFloat, rng{}, false, 0}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", SInt, rng{}, true, 0}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{"", SInt, rng{}, true, 0}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []leaf{{"", SInt, rng{}, true, 0}}
	case *types.Interface:
		return []leaf{{"", SIface, rng{}, false, 0}}
	case *types.Slice:
		return []leaf{{".arr", SInt, rng{}, true, 0}, {".off", SInt, rng{big0, lenMax}, false, 0}, {".len", SInt, rng{big0, lenMax}, false, 0}, {".cap", SInt, rng{big0, lenMax}, false, 0}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.suffix = "." + u.Field(i).Name() + l.suffix
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		if n, ok := byteArr(t); ok {
			return []leaf{{"", SStr, rng{}, false, n}}
		}
		if u.Len() > 256 {
			unsup("array type %s", typeKey(t))
		}
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leaves(u.Elem()) {
				l.suffix = fmt.Sprintf("[%d]%s", i, l.suffix)
				out = append(out, l)
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, leaves(u.At(i).Type())...)
		}
		return out
	}
	unsup("leaves of %s", typeKey(t))
	return nil
}

// flatten gives the leaf terms of a value of type t.
func flatten(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *SliceV:
		return []*Term{x.arr, x.off, x.len, x.cap}
	case *StructV:
		u := t.Underlying().(*types.Struct)
		var out []*Term
		for i, f := range x.fs {
			out = append(out, flatten(f, u.Field(i).Type())...)
		}
		return out
	case *ArrV:
		u := t.Underlying().(*types.Array)
		var out []*Term
		for _, e := range x.es {
			out = append(out, flatten(e, u.Elem())...)
		}
		return out
	case *FuncV:
		return []*Term{x.term()}
	case *BoundV:
		return []*Term{x.term()}
	case TupleV:
		u := t.(*types.Tuple)
		var out []*Term
		for i, e := range x {
			out = append(out, flatten(e, u.At(i).Type())...)
		}
		return out
	}
	unsup("flatten %T as %s", v, typeKey(t))
	return nil
}

// unflatten builds a value of type t from leaf terms, returning the rest.
func unflatten(ts []*Term, t types.Type) (Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3]}, ts[4:]
	case *types.Struct:
		s := &StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Val
			f, ts = unflatten(ts, u.Field(i).Type())
			s.fs = append(s.fs, f)
		}
		return s, ts
	case *types.Array:
		if _, ok := byteArr(t); ok {
			return ts[0], ts[1:]
		}
		s := &ArrV{t: t}
		for i := int64(0); i < u.Len(); i++ {
			var f Val
			f, ts = unflatten(ts, u.Elem())
			s.es = append(s.es, f)
		}
		return s, ts
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			var f Val
			f, ts = unflatten(ts, u.At(i).Type())
			tv = append(tv, f)
		}
		return tv, ts
	}
	return ts[0], ts[1:]
}

func fromLeaves(ts []*Term, t types.Type) Val { v, _ := unflatten(ts, t); return v }

func zeroLeaf(l leaf) *Term {
	switch l.sort.kind {
	case "Bool":
		return TFalse
	case "Int":
		return I(0)
	case "Str":
		return StrLit(strings.Repeat("\x00", int(l.n)))
	case "Iface":
		return TNilIface
	case "Float":
		return App("f0", SFloat, rng{})
	}
	panic("zero")
}

func zeroVal(t types.Type) Val {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, zeroLeaf(l))
	}
	return fromLeaves(ts, t)
}

// ---------- interface boxing ----------

var boxTypes = map[string]types.Type{}

func boxName(t types.Type) string {
	k := "box$" + typeKey(t)
	if _, ok := boxTypes[k]; !ok {
		boxTypes[k] = t
	}
	return k
}

func box(v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(*Term)
	}
	return App(boxName(t), SIface, rng{}, flatten(v, t)...)
}

func unboxTerm(b *Term, t types.Type) Val {
	return fromLeaves(b.args, t)
}

// ---------- map keys ----------

func keySort(t types.Type) *Sort {
	ls := leaves(t)
	if len(ls) == 1 {
		return ls[0].sort
	}
	return SIface
}
func keyTerm(v Val, t types.Type) *Term {
	ts := flatten(v, t)
	if len(ts) == 1 {
		return ts[0]
	}
	return App(boxName(t), SIface, rng{}, ts...)
}
func keyVal(k *Term, t types.Type) Val {
	ls := leaves(t)
	if len(ls) == 1 {
		return fromLeaves([]*Term{k}, t)
	}
	if isBox(k) {
		return fromLeaves(k.args, t)
	}
	var ts []*Term
	for i, l := range ls {
		ts = append(ts, App(fmt.Sprintf("unbox%d$%s", i, typeKey(t)), l.sort, l.r, k))
	}
	return fromLeaves(ts, t)
}
