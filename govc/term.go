package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// ---------- sorts ----------

type Sort struct {
	kind string // Bool Int Str Iface Float Array
	idx  *Sort
	elem *Sort
	name string
}

var (
	SBool  = &Sort{kind: "Bool", name: "Bool"}
	SInt   = &Sort{kind: "Int", name: "Int"}
	SStr   = &Sort{kind: "Str", name: "Str"}
	SIface = &Sort{kind: "Iface", name: "Iface"}
	SFloat = &Sort{kind: "Float", name: "Float"}
	arrTab = map[[2]*Sort]*Sort{}
)

func SArr(i, e *Sort) *Sort {
	k := [2]*Sort{i, e}
	if s, ok := arrTab[k]; ok {
		return s
	}
	s := &Sort{kind: "Array", idx: i, elem: e, name: "(Array " + i.name + " " + e.name + ")"}
	arrTab[k] = s
	return s
}

// ---------- terms ----------

type Op uint8

const (
	OTrue Op = iota
	OFalse
	OConst // int constant
	OVar
	OBound // bound variable
	OApp   // uninterpreted application
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLe
	OSum
	OMul
	ODiv
	OMod
	OSelect
	OStore
	OConstArr
	OSplice // dst at src off n
	OHavoc  // havocAbove(H, bound, F): select r = age(r)<=bound ? H[r] : F[r]
	OForall
	OExists
	OStrLit
)

type Term struct {
	id   int
	op   Op
	sort *Sort
	args []*Term
	k    *big.Int   // OConst value, OSum constant
	cs   []*big.Int // OSum coefficients
	name string     // OVar/OApp/OStrLit
	lo   *big.Int   // Int range (or innermost element range for arrays)
	hi   *big.Int
	bnd  bool // contains bound variable
	qnt  bool // contains quantifier
}

type rng struct{ lo, hi *big.Int }

var (
	tab   = map[string]*Term{}
	terms []*Term
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('A' + t.op))
	sb.WriteString(t.name)
	if t.op == OVar || t.op == OApp || t.op == OConstArr || t.op == OBound {
		sb.WriteByte('|')
		sb.WriteString(t.sort.name)
	}
	if t.k != nil {
		sb.WriteByte('#')
		sb.WriteString(t.k.String())
	}
	for i, a := range t.args {
		sb.WriteByte(',')
		if t.cs != nil {
			sb.WriteString(t.cs[i].String())
			sb.WriteByte('*')
		}
		sb.WriteString(strconv.Itoa(a.id))
	}
	key := sb.String()
	if o, ok := tab[key]; ok {
		return o
	}
	t.id = len(terms)
	for _, a := range t.args {
		if a.bnd {
			t.bnd = true
		}
		if a.qnt {
			t.qnt = true
		}
	}
	if t.op == OBound {
		t.bnd = true
	}
	if t.op == OForall || t.op == OExists {
		t.qnt = true
	}
	terms = append(terms, t)
	tab[key] = t
	return t
}

var (
	TTrue  = intern(&Term{op: OTrue, sort: SBool})
	TFalse = intern(&Term{op: OFalse, sort: SBool})
	bigOne = big.NewInt(1)
	big0   = big.NewInt(0)
)

func I(n int64) *Term { return Big(big.NewInt(n)) }
func Big(n *big.Int) *Term {
	return intern(&Term{op: OConst, sort: SInt, k: n, lo: n, hi: n})
}
func pow2(n int) *big.Int { return new(big.Int).Lsh(bigOne, uint(n)) }

func (t *Term) isConst() bool { return t.op == OConst }

var varCount = 0

// NewVar makes a fresh variable.
func NewVar(hint string, s *Sort, r rng) *Term {
	varCount++
	return intern(&Term{op: OVar, sort: s, name: hint + "!" + strconv.Itoa(varCount), lo: r.lo, hi: r.hi})
}
func NamedVar(name string, s *Sort, r rng) *Term {
	return intern(&Term{op: OVar, sort: s, name: name, lo: r.lo, hi: r.hi})
}
func NewBound(hint string, s *Sort, r rng) *Term {
	varCount++
	return intern(&Term{op: OBound, sort: s, name: hint + "?" + strconv.Itoa(varCount), lo: r.lo, hi: r.hi})
}
func StrLit(s string) *Term { return intern(&Term{op: OStrLit, sort: SStr, name: s}) }

func App(name string, s *Sort, r rng, args ...*Term) *Term {
	return intern(&Term{op: OApp, sort: s, name: name, args: args, lo: r.lo, hi: r.hi})
}

// ---------- booleans ----------

func B(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.args[0]
	case OLe: // not(a<=b) == b+1<=a
		return Le(Add(a.args[1], I(1)), a.args[0])
	}
	return intern(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func nary(op Op, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.op == op {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a.id] {
			return true
		}
		if n := Not(a); seen[n.id] {
			return false
		}
		seen[a.id] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return intern(&Term{op: op, sort: SBool, args: out})
}
func And(as ...*Term) *Term    { return nary(OAnd, TTrue, TFalse, as) }
func Or(as ...*Term) *Term     { return nary(OOr, TFalse, TTrue, as) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if a.sort == SBool {
		return Or(And(c, a), And(Not(c), b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	t := &Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}}
	t.lo, t.hi = union(a, b)
	return intern(t)
}

func union(a, b *Term) (lo, hi *big.Int) {
	if a.lo != nil && b.lo != nil {
		lo = minB(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		hi = maxB(a.hi, b.hi)
	}
	return
}
func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// ---------- integers ----------

type lin struct {
	k  *big.Int
	as []*Term
	cs []*big.Int
}

func linOf(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{k: t.k}
	case OSum:
		return lin{k: t.k, as: t.args, cs: t.cs}
	}
	return lin{k: big0, as: []*Term{t}, cs: []*big.Int{bigOne}}
}

func (l lin) add(m lin, c *big.Int) lin {
	r := lin{k: new(big.Int).Add(l.k, new(big.Int).Mul(m.k, c))}
	i, j := 0, 0
	for i < len(l.as) || j < len(m.as) {
		if j >= len(m.as) || (i < len(l.as) && l.as[i].id < m.as[j].id) {
			r.as = append(r.as, l.as[i])
			r.cs = append(r.cs, l.cs[i])
			i++
		} else if i >= len(l.as) || l.as[i].id > m.as[j].id {
			r.as = append(r.as, m.as[j])
			r.cs = append(r.cs, new(big.Int).Mul(m.cs[j], c))
			j++
		} else {
			s := new(big.Int).Add(l.cs[i], new(big.Int).Mul(m.cs[j], c))
			if s.Sign() != 0 {
				r.as = append(r.as, l.as[i])
				r.cs = append(r.cs, s)
			}
			i++
			j++
		}
	}
	return r
}

// recompose merges c*mod(x,m) + c*m*mod(div(x,m),m2) and c*mod(x,m)+c*m*div(x,m).
func (l lin) recompose() (lin, bool) {
	for i, a := range l.as {
		if a.op != OMod || !a.args[1].isConst() {
			continue
		}
		x, m := a.args[0], a.args[1]
		d := Div(x, m)
		want := new(big.Int).Mul(l.cs[i], m.k)
		for j, b := range l.as {
			if j == i {
				continue
			}
			if b == d && l.cs[j].Cmp(want) == 0 {
				r := lin{k: l.k}
				for q := range l.as {
					if q != i && q != j {
						r = r.add(lin{k: big0, as: []*Term{l.as[q]}, cs: []*big.Int{l.cs[q]}}, bigOne)
					}
				}
				return r.add(linOf(x), l.cs[i]), true
			}
			if b.op == OMod && b.args[0] == d && b.args[1].isConst() && l.cs[j].Cmp(want) == 0 {
				nm := Mod(x, Big(new(big.Int).Mul(m.k, b.args[1].k)))
				r := lin{k: l.k}
				for q := range l.as {
					if q != i && q != j {
						r = r.add(lin{k: big0, as: []*Term{l.as[q]}, cs: []*big.Int{l.cs[q]}}, bigOne)
					}
				}
				return r.add(linOf(nm), l.cs[i]), true
			}
		}
	}
	return l, false
}

func (l lin) term() *Term {
	if len(l.as) > 1 {
		for {
			n, ok := l.recompose()
			if !ok {
				break
			}
			l = n
		}
	}
	if len(l.as) == 0 {
		return Big(l.k)
	}
	if len(l.as) == 1 && l.k.Sign() == 0 && l.cs[0].Cmp(bigOne) == 0 {
		return l.as[0]
	}
	t := &Term{op: OSum, sort: SInt, args: l.as, cs: l.cs, k: l.k}
	t.lo, t.hi = l.interval(nil)
	return intern(t)
}

func (l lin) interval(bounds func(*Term) (lo, hi *big.Int)) (lo, hi *big.Int) {
	lo, hi = l.k, l.k
	for i, a := range l.as {
		alo, ahi := a.lo, a.hi
		if bounds != nil {
			alo, ahi = bounds(a)
		}
		c := l.cs[i]
		if c.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, new(big.Int).Mul(c, alo))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, new(big.Int).Mul(c, ahi))
			}
		}
	}
	return
}

func Add(a, b *Term) *Term { return linOf(a).add(linOf(b), bigOne).term() }
func Sub(a, b *Term) *Term { return linOf(a).add(linOf(b), big.NewInt(-1)).term() }
func MulC(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return I(0)
	}
	return lin{k: big0}.add(linOf(a), c).term()
}
func Mul(a, b *Term) *Term {
	if a.isConst() {
		return MulC(b, a.k)
	}
	if b.isConst() {
		return MulC(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := &Term{op: OMul, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && b.lo != nil && a.hi != nil && b.hi != nil {
		var ps []*big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				ps = append(ps, new(big.Int).Mul(x, y))
			}
		}
		t.lo, t.hi = ps[0], ps[0]
		for _, p := range ps {
			t.lo, t.hi = minB(t.lo, p), maxB(t.hi, p)
		}
	}
	return intern(t)
}

func floorDiv(a, b *big.Int) *big.Int { // b>0
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q
}

// Div is floor division; constant divisors are positive.
func Div(a, b *Term) *Term {
	if b.isConst() && b.k.Sign() > 0 {
		m := b.k
		if m.Cmp(bigOne) == 0 {
			return a
		}
		if a.isConst() {
			return Big(floorDiv(a.k, m))
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, m), floorDiv(a.hi, m)
			if l.Cmp(h) == 0 {
				return Big(l)
			}
		}
		if a.op == ODiv && a.args[1].isConst() {
			return Div(a.args[0], Big(new(big.Int).Mul(a.args[1].k, m)))
		}
		if a.op == OMod && a.args[1].isConst() {
			q, r := new(big.Int).DivMod(a.args[1].k, m, new(big.Int))
			if r.Sign() == 0 {
				return Mod(Div(a.args[0], b), Big(q))
			}
		}
		if a.op == OSum {
			// split off multiples of m
			q := lin{k: big0}
			r := lin{k: big0}
			kq, kr := new(big.Int).DivMod(a.k, m, new(big.Int))
			q.k = kq
			r.k = kr
			moved := kq.Sign() != 0
			for i, x := range a.args {
				if new(big.Int).Mod(a.cs[i], m).Sign() == 0 {
					q = q.add(linOf(x), new(big.Int).Div(a.cs[i], m))
					moved = true
				} else {
					r = r.add(linOf(x), a.cs[i])
				}
			}
			if moved {
				return q.add(linOf(Div(r.term(), b)), bigOne).term()
			}
		}
		t := &Term{op: ODiv, sort: SInt, args: []*Term{a, b}}
		if a.lo != nil {
			t.lo = floorDiv(a.lo, m)
		}
		if a.hi != nil {
			t.hi = floorDiv(a.hi, m)
		}
		return intern(t)
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		t.lo, t.hi = big0, a.hi
	}
	return intern(t)
}

func Mod(a, b *Term) *Term {
	if b.isConst() && b.k.Sign() > 0 {
		m := b.k
		if a.isConst() {
			return Big(new(big.Int).Mod(a.k, m))
		}
		if a.lo != nil && a.hi != nil {
			l, h := floorDiv(a.lo, m), floorDiv(a.hi, m)
			if l.Cmp(h) == 0 {
				return Sub(a, Big(new(big.Int).Mul(l, m)))
			}
		}
		if a.op == OMod && a.args[1].isConst() && new(big.Int).Mod(a.args[1].k, m).Sign() == 0 {
			return Mod(a.args[0], b)
		}
		if a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Mod(a.args[1], b), Mod(a.args[2], b))
		}
		if a.op == OSum {
			half := new(big.Int).Rsh(m, 1)
			r := lin{k: new(big.Int).Mod(a.k, m)}
			ch := r.k.Cmp(a.k) != 0
			for i, x := range a.args {
				c := new(big.Int).Mod(a.cs[i], m)
				if c.Cmp(half) > 0 {
					c.Sub(c, m)
				}
				y := x
				if x.op == OMod && x.args[1].isConst() && new(big.Int).Mod(x.args[1].k, m).Sign() == 0 {
					y = x.args[0]
				}
				if c.Cmp(a.cs[i]) != 0 || y != x {
					ch = true
				}
				if c.Sign() != 0 {
					r = r.add(linOf(y), c)
				}
			}
			if ch {
				return Mod(r.term(), b)
			}
		}
		t := &Term{op: OMod, sort: SInt, args: []*Term{a, b}, lo: big0, hi: new(big.Int).Sub(m, bigOne)}
		return intern(t)
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{a, b}}
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big0
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, bigOne)
		}
	}
	return intern(t)
}

// split a linear form d into pos - neg with natural coefficients
func splitLin(d lin) (pos, neg *Term) {
	p, n := lin{k: big0}, lin{k: big0}
	if d.k.Sign() > 0 {
		p.k = d.k
	} else {
		n.k = new(big.Int).Neg(d.k)
	}
	for i, a := range d.as {
		if d.cs[i].Sign() > 0 {
			p = p.add(lin{k: big0, as: []*Term{a}, cs: []*big.Int{bigOne}}, d.cs[i])
		} else {
			n = n.add(lin{k: big0, as: []*Term{a}, cs: []*big.Int{bigOne}}, new(big.Int).Neg(d.cs[i]))
		}
	}
	return p.rawTerm(), n.rawTerm()
}

func (l lin) rawTerm() *Term {
	if len(l.as) == 0 {
		return Big(l.k)
	}
	if len(l.as) == 1 && l.k.Sign() == 0 && l.cs[0].Cmp(bigOne) == 0 {
		return l.as[0]
	}
	t := &Term{op: OSum, sort: SInt, args: l.as, cs: l.cs, k: l.k}
	t.lo, t.hi = l.interval(nil)
	return intern(t)
}

func Le(a, b *Term) *Term {
	d := linOf(b).add(linOf(a), big.NewInt(-1)) // b-a >= 0
	dt := d.term()
	d = linOf(dt)
	lo, hi := d.interval(nil)
	if lo != nil && lo.Sign() >= 0 {
		return TTrue
	}
	if hi != nil && hi.Sign() < 0 {
		return TFalse
	}
	if dt.op == OIte && dt.args[1].isConst() && dt.args[2].isConst() {
		return Ite(dt.args[0], B(dt.args[1].k.Sign() >= 0), B(dt.args[2].k.Sign() >= 0))
	}
	// gcd normalisation
	if len(d.cs) > 0 {
		g := new(big.Int).Abs(d.cs[0])
		for _, c := range d.cs[1:] {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			n := lin{k: floorDiv(d.k, g), as: d.as}
			for _, c := range d.cs {
				n.cs = append(n.cs, new(big.Int).Quo(c, g))
			}
			d = n
		}
	}
	p, n := splitLin(d)
	return intern(&Term{op: OLe, sort: SBool, args: []*Term{n, p}})
}
func Lt(a, b *Term) *Term { return Le(Add(a, I(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---------- equality ----------

// strBytes of a literal or a MKSTR term as (array, off, len)
func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s %s: %s %s", a.sort.name, b.sort.name, a, b))
	}
	switch a.sort.kind {
	case "Bool":
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	case "Int":
		d := linOf(a).add(linOf(b), big.NewInt(-1)).term()
		if d.isConst() {
			return B(d.k.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return TFalse
		}
		if r, ok := refDistinct(a, b); ok && r {
			return TFalse
		}
		if isRefCtor(a) && isRefCtor(b) && a.name == b.name {
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		if a.op == OIte && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == OIte && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
		if d.op == OIte && d.args[1].isConst() && d.args[2].isConst() {
			return Ite(d.args[0], B(d.args[1].k.Sign() == 0), B(d.args[2].k.Sign() == 0))
		}
		dl := linOf(d)
		if len(dl.cs) > 0 {
			g := new(big.Int).Abs(dl.cs[0])
			for _, c := range dl.cs[1:] {
				g.GCD(nil, nil, g, new(big.Int).Abs(c))
			}
			if g.Cmp(bigOne) > 0 {
				if new(big.Int).Mod(dl.k, g).Sign() != 0 {
					return TFalse
				}
				n := lin{k: new(big.Int).Quo(dl.k, g), as: dl.as}
				for _, c := range dl.cs {
					n.cs = append(n.cs, new(big.Int).Quo(c, g))
				}
				dl = n
			}
		}
		if len(dl.cs) > 0 && dl.cs[0].Sign() < 0 {
			dl = lin{k: big0}.add(dl, big.NewInt(-1))
		}
		p, n := splitLin(dl)
		a, b = p, n
	case "Str":
		if a.op == OStrLit && b.op == OStrLit {
			return TFalse
		}
		if a.op == OStrLit {
			a, b = b, a
		}
		if b.op == OStrLit && a.op == OApp && a.name == "mkstr" {
			cs := []*Term{Eq(a.args[2], I(int64(len(b.name))))}
			for i := 0; i < len(b.name); i++ {
				cs = append(cs, Eq(Select(a.args[0], Add(a.args[1], I(int64(i)))), I(int64(b.name[i]))))
			}
			return And(cs...)
		}
		if b.op == OStrLit && a.op == OApp && a.name == "strcat" {
			// prefix/suffix literal mismatch is decided, otherwise left
			if x := a.args[0]; x.op == OStrLit && !strings.HasPrefix(b.name, x.name) {
				return TFalse
			}
			if x := a.args[1]; x.op == OStrLit && !strings.HasSuffix(b.name, x.name) {
				return TFalse
			}
		}
		if a.op == OIte && a.args[1].op == OStrLit && a.args[2].op == OStrLit && b.op == OStrLit {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	case "Iface":
		if isBox(a) && isBox(b) {
			if a.name != b.name {
				return TFalse
			}
			var cs []*Term
			for i := range a.args {
				cs = append(cs, Eq(a.args[i], b.args[i]))
			}
			return And(cs...)
		}
		if isBox(a) && b == TNilIface || isBox(b) && a == TNilIface {
			return TFalse
		}
	case "Array":
		ma, ba, oka := constChain(a)
		mb, bb, okb := constChain(b)
		if oka && okb && ba == bb {
			cs := []*Term{}
			for k := range ma {
				y, ok := mb[k]
				if !ok {
					y = ba
				}
				cs = append(cs, Eq(ma[k], y))
			}
			for k := range mb {
				if _, ok := ma[k]; !ok {
					cs = append(cs, Eq(ba, mb[k]))
				}
			}
			return And(cs...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

// constChain views a as stores with literal int indices over a constant array.
func constChain(a *Term) (map[string]*Term, *Term, bool) {
	m := map[string]*Term{}
	for a.op == OStore {
		if !a.args[1].isConst() {
			return nil, nil, false
		}
		k := a.args[1].k.String()
		if _, ok := m[k]; !ok {
			m[k] = a.args[2]
		}
		a = a.args[0]
	}
	if a.op == OConstArr {
		return m, a.args[0], true
	}
	return nil, nil, false
}

// ---------- references ----------
// positive numerals: allocations; 0: nil; negative: interior pointers made by constructors.

func isRefCtor(t *Term) bool {
	return t.op == OApp && t.sort == SInt && len(t.name) > 1 && t.name[0] == '&'
}

// ageRange bounds the age (allocation number of the root object) of a reference.
func ageRange(t *Term) (lo, hi *big.Int) {
	for isRefCtor(t) {
		if len(t.args) == 0 {
			return big0, big0
		}
		t = t.args[0]
	}
	if t.op == OConst {
		return t.k, t.k
	}
	// opaque: hi is the epoch bound, lo unknown (0)
	lo = nil
	if t.lo != nil && t.lo.Sign() > 0 {
		lo = t.lo
	}
	return lo, t.hi
}

// refDistinct decides inequality of references where ages/constructors tell.
func refDistinct(a, b *Term) (bool, bool) {
	ca, cb := isRefCtor(a), isRefCtor(b)
	if !ca && !cb {
		return false, false
	}
	if ca && cb {
		if a.name != b.name {
			return true, true
		}
		if a.name == "&E" { // compared argument-wise by Eq
			return false, false
		}
		return false, false
	}
	if !ca {
		a, b = b, a
	}
	// a ctor, b not: b constant (alloc or nil) or old opaque with smaller age
	if b.op == OConst {
		return true, true
	}
	la, _ := ageRange(a)
	_, hb := ageRange(b)
	if la != nil && hb != nil && hb.Cmp(la) < 0 {
		return true, true
	}
	return false, false
}

func Age(t *Term) *Term {
	for isRefCtor(t) {
		if len(t.args) == 0 {
			return I(0)
		}
		t = t.args[0]
	}
	if t.op == OConst {
		return t
	}
	return App("age", SInt, rng{big0, t.hi}, t)
}

// ---------- interfaces ----------

var TNilIface = intern(&Term{op: OVar, sort: SIface, name: "nilIface"})

func isBox(t *Term) bool {
	return t.op == OApp && t.sort == SIface && strings.HasPrefix(t.name, "box$")
}

// ---------- arrays ----------

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: OConstArr, sort: s, args: []*Term{v}, lo: v.lo, hi: v.hi})
}

// decideEq returns 1 equal, -1 distinct, 0 unknown
func decideEq(a, b *Term) int {
	if a == b {
		return 1
	}
	e := Eq(a, b)
	if e == TTrue {
		return 1
	}
	if e == TFalse {
		return -1
	}
	if ctx != nil && a.sort == SInt {
		return ctx.truth(e)
	}
	return 0
}

// ctx is the state whose path facts may be used to simplify terms: terms built
// while it is set are only stored in states that extend it.
var ctx *State

// holds decides a condition structurally or with the facts of the current path.
func holds(c *Term) int {
	if c == TTrue {
		return 1
	}
	if c == TFalse {
		return -1
	}
	if ctx != nil {
		return ctx.truth(c)
	}
	return 0
}

func Select(a, i *Term) *Term { return SelectB(a, i, 0) }

func SelectB(a, i *Term, depth int) *Term {
	switch a.op {
	case OStore:
		switch decideEq(a.args[1], i) {
		case 1:
			return a.args[2]
		case -1:
			return Select(a.args[0], i)
		}
		if i.sort == SInt && !i.isConst() && a.args[1].isConst() && a.sort.elem != SBool {
			// literal store chain with symbolic index: keep
			break
		}
		if i.sort == SStr && a.args[1].op == OStrLit && finiteStrChain(a) {
			return Ite(Eq(a.args[1], i), a.args[2], Select(a.args[0], i))
		}
		if i.sort.kind != "Int" || depth < 0 {
			break
		}
	case OConstArr:
		return a.args[0]
	case OApp:
		if a.name == "sbytes" && a.args[0].op == OApp && a.args[0].name == "strcat" {
			x, y := a.args[0].args[0], a.args[0].args[1]
			n := StrLen(x)
			c := Lt(i, n)
			first := func() *Term { r, off := StrArr(x); return Select(r, Add(off, i)) }
			second := func() *Term { r, off := StrArr(y); return Select(r, Add(off, Sub(i, n))) }
			switch holds(c) {
			case 1:
				return first()
			case -1:
				return second()
			}
			return Ite(c, first(), second())
		}
	case OSplice:
		dst, at, src, off, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		c := And(Le(at, i), Lt(i, Add(at, n)))
		switch holds(c) {
		case 1:
			return Select(src, Add(off, Sub(i, at)))
		case -1:
			return Select(dst, i)
		}
		return Ite(c, Select(src, Add(off, Sub(i, at))), Select(dst, i))
	case OHavoc:
		H, bd, F := a.args[0], a.args[1], a.args[2]
		lo, hi := ageRange(i)
		if hi != nil && hi.Cmp(bd.k) <= 0 {
			return Select(H, i)
		}
		if lo != nil && lo.Cmp(bd.k) > 0 {
			return Select(F, i)
		}
		return Ite(Le(Age(i), bd), Select(H, i), Select(F, i))
	case OIte:
		return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
	}
	t := &Term{op: OSelect, sort: a.sort.elem, args: []*Term{a, i}, lo: a.lo, hi: a.hi}
	return intern(t)
}

// finiteStrChain: a chain of stores at literal strings over a constant array.
func finiteStrChain(a *Term) bool {
	for n := 0; n < 80; n++ {
		if a.op == OConstArr {
			return true
		}
		if a.op != OStore || a.args[1].op != OStrLit {
			return false
		}
		a = a.args[0]
	}
	return false
}

func Store(a, i, v *Term) *Term {
	if a.sort.elem != v.sort {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.sort.name, a.sort.name))
	}
	if a.op == OStore && decideEq(a.args[1], i) == 1 {
		return Store(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	if a.op == OConstArr && a.args[0] == v {
		return a
	}
	// order literal stores so that equal contents give equal terms
	if a.op == OStore && i.isConst() && a.args[1].isConst() && i.k.Cmp(a.args[1].k) < 0 {
		return Store(Store(a.args[0], i, v), a.args[1], a.args[2])
	}
	t := &Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}}
	t.lo, t.hi = union(a, v)
	return intern(t)
}

// Splice copies n elements of src from off into dst at at.
func Splice(dst, at, src, off, n *Term) *Term {
	if n.isConst() && n.k.Sign() <= 0 {
		return dst
	}
	if n.isConst() && n.k.Cmp(big.NewInt(64)) <= 0 {
		c := int(n.k.Int64())
		if c <= 2 || srcLiteral(src) {
			r := dst
			for j := 0; j < c; j++ {
				r = Store(r, Add(at, I(int64(j))), Select(src, Add(off, I(int64(j)))))
			}
			return r
		}
	}
	// full overwrite of a previous splice at the same place
	if dst.op == OSplice && dst.args[1] == at && dst.args[4] == n {
		return Splice(dst.args[0], at, src, off, n)
	}
	// adjacent copies of one source
	if dst.op == OSplice && dst.args[2] == src && at == Add(dst.args[1], dst.args[4]) && off == Add(dst.args[3], dst.args[4]) {
		return Splice(dst.args[0], dst.args[1], src, dst.args[3], Add(dst.args[4], n))
	}
	// flatten copies of copies
	for src.op == OSplice {
		s := src
		inside := And(Le(s.args[1], off), Le(Add(off, n), Add(s.args[1], s.args[4])))
		if holds(inside) == 1 {
			off = Add(s.args[3], Sub(off, s.args[1]))
			src = s.args[2]
			continue
		}
		before := Or(Le(Add(off, n), s.args[1]), Le(Add(s.args[1], s.args[4]), off))
		if holds(before) == 1 {
			src = s.args[0]
			continue
		}
		break
	}
	if src == dst && at == off {
		return dst
	}
	t := &Term{op: OSplice, sort: dst.sort, args: []*Term{dst, at, src, off, n}}
	t.lo, t.hi = union(dst, src)
	return intern(t)
}

func srcLiteral(a *Term) bool {
	for a.op == OStore && a.args[1].isConst() {
		a = a.args[0]
	}
	return a.op == OConstArr
}

func HavocAbove(H *Term, bound *big.Int, F *Term) *Term {
	t := &Term{op: OHavoc, sort: H.sort, args: []*Term{H, Big(bound), F}}
	t.lo, t.hi = union(H, F)
	return intern(t)
}

// MkStr is the string with the given bytes.
func MkStr(arr, off, n *Term) *Term {
	for {
		if arr.op == OSplice {
			s := arr
			if And(Le(s.args[1], off), Le(Add(off, n), Add(s.args[1], s.args[4]))) == TTrue {
				off = Add(s.args[3], Sub(off, s.args[1]))
				arr = s.args[2]
				continue
			}
			if Or(Le(Add(off, n), s.args[1]), Le(Add(s.args[1], s.args[4]), off)) == TTrue {
				arr = s.args[0]
				continue
			}
		}
		if arr.op == OStore {
			i := arr.args[1]
			if Or(Lt(i, off), Le(Add(off, n), i)) == TTrue {
				arr = arr.args[0]
				continue
			}
		}
		break
	}
	if arr.op == OApp && arr.name == "sbytes" && off == I(0) && n == StrLen(arr.args[0]) {
		return arr.args[0]
	}
	if n == I(0) {
		return StrLit("")
	}
	if n.isConst() && n.k.IsInt64() && n.k.Int64() <= 256 && off.isConst() {
		bs := make([]byte, n.k.Int64())
		ok := true
		for j := range bs {
			e := Select(arr, Add(off, I(int64(j))))
			if !e.isConst() {
				ok = false
				break
			}
			bs[j] = byte(e.k.Int64())
		}
		if ok {
			return StrLit(string(bs))
		}
	}
	return App("mkstr", SStr, rng{}, arr, off, n)
}

var byteRng = rng{big0, big.NewInt(255)}
var lenMax = pow2(48)

func StrLen(s *Term) *Term {
	if s.op == OStrLit {
		return I(int64(len(s.name)))
	}
	if s.op == OApp && s.name == "mkstr" {
		return s.args[2]
	}
	if s.op == OApp && s.name == "strcat" {
		return Add(StrLen(s.args[0]), StrLen(s.args[1]))
	}
	return App("slen", SInt, rng{big0, lenMax}, s)
}

// StrArr gives the bytes of s as an array (index 0 based at the returned offset).
func StrArr(s *Term) (*Term, *Term) {
	if s.op == OStrLit {
		a := ConstArr(SArr(SInt, SInt), I(0))
		for i := 0; i < len(s.name); i++ {
			a = Store(a, I(int64(i)), I(int64(s.name[i])))
		}
		return a, I(0)
	}
	if s.op == OApp && s.name == "mkstr" {
		return s.args[0], s.args[1]
	}
	return App("sbytes", SArr(SInt, SInt), byteRng, s), I(0)
}

func StrCat(a, b *Term) *Term {
	if a.op == OStrLit && a.name == "" {
		return b
	}
	if b.op == OStrLit && b.name == "" {
		return a
	}
	if a.op == OStrLit && b.op == OStrLit {
		return StrLit(a.name + b.name)
	}
	return App("strcat", SStr, rng{}, a, b)
}

// ---------- quantifiers ----------

func Forall(vs []*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	var use []*Term
	for _, v := range vs {
		if occurs(body, v) {
			use = append(use, v)
		}
	}
	if len(use) == 0 {
		return body
	}
	t := &Term{op: OForall, sort: SBool, args: append(append([]*Term{}, use...), body)}
	r := intern(t)
	r.bnd = hasFree(r)
	return r
}
func Exists(vs []*Term, body *Term) *Term { return Not(Forall(vs, Not(body))) }

func occurs(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bnd && v.op == OBound {
		return false
	}
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func freeBound(t *Term) map[int]*Term {
	out := map[int]*Term{}
	var f func(t *Term, bound map[int]bool)
	f = func(t *Term, bound map[int]bool) {
		if t.op == OBound {
			if !bound[t.id] {
				out[t.id] = t
			}
			return
		}
		if t.op == OForall || t.op == OExists {
			b2 := map[int]bool{}
			for k := range bound {
				b2[k] = true
			}
			n := len(t.args) - 1
			for _, v := range t.args[:n] {
				b2[v.id] = true
			}
			f(t.args[n], b2)
			return
		}
		for _, a := range t.args {
			if a.bnd {
				f(a, bound)
			}
		}
	}
	f(t, map[int]bool{})
	return out
}
func hasFree(t *Term) bool { return len(freeBound(t)) > 0 }

// Subst replaces variables (by term identity) in t, re-simplifying.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OEq:
		return Eq(as[0], as[1])
	case OLe:
		return Le(as[0], as[1])
	case OSum:
		l := lin{k: t.k}
		for i := range as {
			l = l.add(linOf(as[i]), t.cs[i])
		}
		return l.term()
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return Div(as[0], as[1])
	case OMod:
		return Mod(as[0], as[1])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OConstArr:
		return ConstArr(t.sort, as[0])
	case OSplice:
		return Splice(as[0], as[1], as[2], as[3], as[4])
	case OHavoc:
		return HavocAbove(as[0], as[1].k, as[2])
	case OForall:
		return Forall(as[:len(as)-1], as[len(as)-1])
	case OApp:
		if t.name == "mkstr" {
			return MkStr(as[0], as[1], as[2])
		}
		if t.name == "slen" {
			return StrLen(as[0])
		}
		return App(t.name, t.sort, rng{t.lo, t.hi}, as...)
	}
	panic("rebuild")
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return t.k.String()
	case OVar, OBound:
		return t.name
	case OStrLit:
		return strconv.Quote(t.name)
	}
	if d == 0 {
		return "…"
	}
	var ss []string
	for i, a := range t.args {
		s := a.str(d - 1)
		if t.cs != nil && t.cs[i].Cmp(bigOne) != 0 {
			s = t.cs[i].String() + "*" + s
		}
		ss = append(ss, s)
	}
	switch t.op {
	case OSum:
		if t.k.Sign() != 0 {
			ss = append(ss, t.k.String())
		}
		return "(" + strings.Join(ss, "+") + ")"
	case OApp:
		return t.name + "(" + strings.Join(ss, ",") + ")"
	case OSelect:
		return ss[0] + "[" + ss[1] + "]"
	}
	n := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OLe: "<=", OMul: "*", ODiv: "div", OMod: "mod", OStore: "store", OConstArr: "const", OSplice: "splice", OHavoc: "havoc", OForall: "forall"}[t.op]
	return "(" + n + " " + strings.Join(ss, " ") + ")"
}
