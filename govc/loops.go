package main

import (
	"go/token"
	"go/types"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopCtx is the state of the search rule at a loop head of a frame.
type loopCtx struct {
	probing bool
	head    *State // at the head, with k iterations behind it
	base    int    // facts before the body
	mark    int    // variables made in the body have greater numbers
	conds   []*Term
	fail    string
	weak    bool
}
type template struct{}

const outsideRule = "loop outside the search rule"

// natural returns the blocks of the loop with that head, or nil.
func natural(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{head: true}
	found := false
	var back func(b *ssa.BasicBlock)
	back = func(b *ssa.BasicBlock) {
		if in[b] {
			return
		}
		in[b] = true
		for _, p := range b.Preds {
			back(p)
		}
	}
	for _, p := range head.Preds {
		if head.Dominates(p) {
			found = true
			back(p)
		}
	}
	if !found {
		return nil
	}
	return in
}

// steps returns what each phi of the head grows by per iteration.
func steps(head *ssa.BasicBlock, in map[*ssa.BasicBlock]bool) ([]int64, bool) {
	var out []int64
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int && b.Kind() != types.Int64 {
			return nil, false
		}
		var step int64
		seen := false
		for i, p := range head.Preds {
			if !in[p] {
				continue
			}
			add, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || add.X != phi || add.Op != token.ADD && add.Op != token.SUB {
				return nil, false
			}
			c, ok := add.Y.(*ssa.Const)
			if !ok || c.Value == nil {
				return nil, false
			}
			n := c.Int64()
			if add.Op == token.SUB {
				n = -n
			}
			if n < -64 || n > 64 || seen && n != step {
				return nil, false
			}
			step, seen = n, true
		}
		if !seen {
			return nil, false
		}
		out = append(out, step)
	}
	return out, true
}

func (x *Exec) enterBlock(st *State, f *Frame, to, from *ssa.BasicBlock) (*Outcome, bool) {
	f.visits[to]++
	if f.visits[to] > 20000 {
		unsup("loop bound")
	}
	if st.ghost["inductive"] == nil || !to.Dominates(from) && len(to.Preds) < 2 {
		return nil, false
	}
	if strings.Contains(x.fset.Position(f.fn.Pos()).Filename, "zz_verif") || !strings.HasPrefix(pkgOf(f.fn), repoPath) {
		return nil, false
	}
	if to.Dominates(from) {
		if c := f.loops[to]; c != nil {
			if c.probing {
				x.collect(st, c)
			}
			panic(pathEnd{"cut"})
		}
		if f.visits[to] > 6 {
			x.undecided = append(x.undecided, outsideRule+" at "+x.where(st))
			x.work, x.stopped = nil, true
		}
		return nil, false
	}
	x.cut(st, f, to)
	return nil, false
}

// cut replaces the iterations behind a loop head by the condition under which each
// of them goes round, when the loop only searches.
func (x *Exec) cut(st *State, f *Frame, head *ssa.BasicBlock) {
	delete(f.loops, head)
	in := natural(head)
	if in == nil {
		return
	}
	by, ok := steps(head, in)
	if !ok || len(by) == 0 {
		return
	}
	lim := new(big.Int).Lsh(bigOne, 50)
	move := func(s *State, k *Term) {
		fr := s.top()
		for i, n := range by {
			phi := head.Instrs[i].(*ssa.Phi)
			fr.env[phi] = Add(asTerm(fr.env[phi]), Mul(I(n), k))
		}
	}
	b := NewBound("iteration", SInt, rng{big0, lim})
	p := st.clone()
	move(p, b)
	c := &loopCtx{probing: true, mark: varCount}
	if p.facts != nil {
		c.base = p.facts.n
	}
	pf := p.top()
	if pf.loops == nil {
		pf.loops = map[*ssa.BasicBlock]*loopCtx{}
	}
	pf.loops[head] = c
	c.head = p.clone()
	saveProbe, saveUnd, saveBnd, savePaths := x.probe, x.undecided, x.bounded, x.paths
	x.probe, x.undecided = true, nil
	x.run(p, len(p.frames)-1)
	und := x.undecided
	x.probe, x.undecided, x.bounded, x.paths = saveProbe, saveUnd, saveBnd, savePaths
	if x.stopped || len(und) > 0 || c.fail != "" || len(c.conds) == 0 {
		x.loopStats[f.fn.String()] = "not cut: " + c.fail + strings.Join(und, "; ")
		return
	}
	k := NewVar("iterations", SInt, rng{big0, lim})
	move(st, k)
	each := Forall([]*Term{b}, Implies(And(Le(I(0), b), Lt(b, k)), Or(c.conds...)))
	st.assume(each)
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]*loopCtx{}
	}
	f.loops[head] = &loopCtx{}
	if c.weak {
		x.weakened = true
	}
	x.loopStats[f.fn.String()] = "search loop, proved by induction for any number of iterations"
}

// collect takes the condition of a path round the loop.
func (x *Exec) collect(st *State, c *loopCtx) {
	h := c.head
	if len(st.spawn) != len(h.spawn) || len(st.parked) != len(h.parked) || len(st.guards) != len(h.guards) ||
		len(st.frames) != len(h.frames) || len(st.top().defers) != len(h.top().defers) || len(st.ghost) != len(h.ghost) {
		c.fail = "the body has effects"
		return
	}
	for k, v := range st.ghost {
		if !reflect.DeepEqual(v, h.ghost[k]) {
			c.fail = "the body changes " + k
			return
		}
	}
	for k, v := range st.heap {
		if !onlyNew(v, h.heap[k], h.alloc) {
			c.fail = "the body writes " + k
			return
		}
	}
	var cs []*Term
	for t := st.facts; t != nil && t.n > c.base; t = t.prev {
		if !t.dec {
			continue
		}
		if newerThan(t.t, c.mark) {
			c.weak = true
			continue
		}
		cs = append(cs, t.t)
	}
	c.conds = append(c.conds, And(cs...))
}

// onlyNew tells whether a table differs from what it was in new objects only.
func onlyNew(now, was *Term, alloc int64) bool {
	for now != was {
		if now.op != OStore || !now.args[1].isConst() || now.args[1].k.Cmp(big.NewInt(alloc)) < 0 {
			// a table that was not there before holds what is unknown about old objects
			return was == nil && now.op == OVar
		}
		now = now.args[0]
	}
	return true
}

// newerThan tells whether a term mentions variables made after that many.
func newerThan(t *Term, mark int) bool {
	seen := map[int]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.op == OVar || t.op == OBound {
			i := strings.LastIndexAny(t.name, "!?")
			if i >= 0 {
				if n, err := strconv.Atoi(t.name[i+1:]); err == nil && n > mark {
					return true
				}
			}
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// ensureInit gives package variables of packages whose initialisers are not
// executed the values the documentation promises: sentinel errors are non-nil
// and distinct.
func (x *Exec) ensureInit(st *State, g *ssa.Global) {
	p := g.Pkg.Pkg.Path()
	if (strings.HasPrefix(p, repoPath) || initPkgs[p]) && initFailed[p] == "" {
		return
	}
	k := "ginit:" + g.String()
	if _, ok := st.ghost[k]; ok {
		return
	}
	st.ghost[k] = TTrue
	t := deref(g.Type())
	r := x.global(g)
	if isErrorIface(t) {
		x.trusted["package variable "+g.String()+" is a distinct non-nil error"] = true
		st.store(r, App("box$error", SIface, rng{}, Add(r, I(500000)), TNilIface), t)
		return
	}
	x.trusted["package variable "+g.String()+" has an arbitrary value"] = true
	if _, ok := t.Underlying().(*types.Pointer); ok {
		st.store(r, Add(r, I(500000)), t)
	}
}
