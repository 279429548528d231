package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------- printing ----------

type printer struct {
	sb      *strings.Builder
	done    map[int]string // term id -> smt name
	decl    map[string]bool
	quick   bool // ground facts only (feasibility checks)
	axioms  []string
	strs    []*Term // Str-sorted terms seen
	strSeen map[int]bool
	eqs     [][2]*Term
	refs    []*Term // ref constructor terms
	lits    map[string]string
	facts   func(s string) // emit an assertion that belongs to a term
	apps    map[string][]*Term
	decLvl  map[string]bool
}

func newPrinter(quick bool) *printer {
	return &printer{sb: &strings.Builder{}, done: map[int]string{}, decl: map[string]bool{}, quick: quick,
		strSeen: map[int]bool{}, lits: map[string]string{}, apps: map[string][]*Term{}}
}

const prelude = `(set-option :global-declarations true)
(declare-sort Str 0)
(declare-sort Iface 0)
(declare-sort Float 0)
(declare-fun slen (Str) Int)
(declare-fun sbytes (Str) (Array Int Int))
(declare-fun mkstr ((Array Int Int) Int Int) Str)
(declare-fun itag (Iface) Int)
(declare-const nilIface Iface)
(assert (= (itag nilIface) 0))
(declare-fun age (Int) Int)
(declare-fun ctag (Int) Int)
`

func sym(s string) string { return "|" + strings.ReplaceAll(s, "|", "/") + "|" }

var tagIDs = map[string]int{}

func tagID(s string) int {
	if n, ok := tagIDs[s]; ok {
		return n
	}
	tagIDs[s] = len(tagIDs) + 1
	return tagIDs[s]
}

func (p *printer) declare(name string, args []*Term, res *Sort) string {
	n := sym(name)
	key := n
	if !p.decl[key] {
		p.decl[key] = true
		if len(args) == 0 {
			fmt.Fprintf(p.sb, "(declare-const %s %s)\n", n, res.name)
		} else {
			var as []string
			for _, a := range args {
				as = append(as, a.sort.name)
			}
			fmt.Fprintf(p.sb, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), res.name)
		}
	}
	return n
}

func num(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}

// ax records an axiom about a term (asserted globally).
func (p *printer) ax(f string, a ...interface{}) { p.axioms = append(p.axioms, fmt.Sprintf(f, a...)) }

func (p *printer) rangeAx(n string, t *Term) {
	if t.sort == SInt {
		if t.lo != nil {
			p.ax("(<= %s %s)", num(t.lo), n)
		}
		if t.hi != nil {
			p.ax("(<= %s %s)", n, num(t.hi))
		}
	}
}

// ref gives the SMT text of t; ground terms are named by definitions.
func (p *printer) ref(t *Term) string {
	if s, ok := p.done[t.id]; ok {
		return s
	}
	s := p.body(t)
	if t.bnd {
		return s
	}
	switch t.op {
	case OTrue, OFalse, OConst, OVar, OStrLit:
	default:
		if len(s) > 24 {
			n := "t" + strconv.Itoa(t.id)
			fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, t.sort.name, s)
			s = n
		}
	}
	p.done[t.id] = s
	p.post(t, s)
	return s
}

// post emits facts that hold of every ground term of this form.
func (p *printer) post(t *Term, s string) {
	switch t.op {
	case OVar, OSelect, OApp:
		p.rangeAx(s, t)
	}
	if t.sort == SStr && !p.strSeen[t.id] {
		p.strSeen[t.id] = true
		p.strs = append(p.strs, t)
		if t.op != OStrLit {
			p.ax("(<= 0 (slen %s))", s)
			p.ax("(<= (slen %s) %s)", s, lenMax.String())
		}
	}
	switch t.op {
	case OStrLit:
		p.ax("(= (slen %s) %d)", s, len(t.name))
		if len(t.name) <= 80 {
			for i := 0; i < len(t.name); i++ {
				p.ax("(= (select (sbytes %s) %d) %d)", s, i, t.name[i])
			}
		}
		for o, on := range p.lits {
			if o != t.name && len(o) == len(t.name) {
				p.ax("(not (= %s %s))", s, on)
			}
		}
		p.lits[t.name] = s
	case OMod:
		if !t.args[1].isConst() {
			return
		}
	case OSplice:
		if !p.quick {
			dst, at, src, off, n := p.ref(t.args[0]), p.ref(t.args[1]), p.ref(t.args[2]), p.ref(t.args[3]), p.ref(t.args[4])
			p.ax("(forall ((i Int)) (! (= (select %s i) (ite (and (<= %s i) (< i (+ %s %s))) (select %s (+ %s (- i %s))) (select %s i))) :pattern ((select %s i))))", s, at, at, n, src, off, at, dst, s)
		}
	case OHavoc:
		if !p.quick {
			H, bd, F := p.ref(t.args[0]), p.ref(t.args[1]), p.ref(t.args[2])
			p.ax("(forall ((r Int)) (! (= (select %s r) (ite (<= (age r) %s) (select %s r) (select %s r))) :pattern ((select %s r))))", s, bd, H, F, s)
		}
	case OApp:
		switch {
		case t.name == "mkstr":
			a, off, n := p.ref(t.args[0]), p.ref(t.args[1]), p.ref(t.args[2])
			p.ax("(=> (<= 0 %s) (= (slen %s) %s))", n, s, n)
			if t.args[2].isConst() && t.args[2].k.IsInt64() && t.args[2].k.Int64() <= 40 {
				for i := int64(0); i < t.args[2].k.Int64(); i++ {
					e := p.ref(Select(t.args[0], Add(t.args[1], I(i))))
					p.ax("(= (select (sbytes %s) %d) %s)", s, i, e)
				}
			} else if !p.quick {
				p.ax("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select (sbytes %s) i) (select %s (+ %s i)))) :pattern ((select (sbytes %s) i))))", n, s, a, off, s)
			}
		case t.name == "strcat":
			a, b := p.ref(t.args[0]), p.ref(t.args[1])
			p.ax("(= (slen %s) (+ (slen %s) (slen %s)))", s, a, b)
			if !p.quick {
				p.ax("(forall ((i Int)) (! (= (select (sbytes %s) i) (ite (< i (slen %s)) (select (sbytes %s) i) (select (sbytes %s) (- i (slen %s))))) :pattern ((select (sbytes %s) i))))", s, a, a, b, a, s)
			}
		case t.sort == SIface:
			p.ax("(= (itag %s) %d)", s, tagID(t.name))
			for i, a := range t.args {
				f := p.declare(fmt.Sprintf("unbox%d$%s", i, strings.TrimPrefix(t.name, "box$")), []*Term{t}, a.sort)
				p.ax("(= (%s %s) %s)", f, s, p.ref(a))
			}
		case isRefCtor(t):
			p.ax("(= (ctag %s) %d)", s, tagID(t.name))
			p.ax("(not (= %s 0))", s)
			for i, a := range t.args {
				f := p.declare(fmt.Sprintf("inv%d%s", i, t.name), []*Term{t}, a.sort)
				p.ax("(= (%s %s) %s)", f, s, p.ref(a))
			}
			p.refs = append(p.refs, t)
		}
		if len(t.args) > 0 && t.name != "mkstr" && t.name != "slen" && t.name != "sbytes" {
			p.apps[t.name] = append(p.apps[t.name], t)
		}
	case OEq:
		if t.args[0].sort == SStr && !t.bnd {
			p.eqs = append(p.eqs, [2]*Term{t.args[0], t.args[1]})
		}
	case OVar:
		if t.sort.kind == "Array" && !p.quick {
			e := t.sort
			var vs, sel string
			sel = s
			d := 0
			for e.kind == "Array" {
				if e.idx != SInt && d == 0 && e.elem.kind != "Int" {
				}
				v := fmt.Sprintf("i%d", d)
				vs += "(" + v + " " + e.idx.name + ")"
				sel = "(select " + sel + " " + v + ")"
				e = e.elem
				d++
			}
			if e == SInt && (t.lo != nil || t.hi != nil) {
				var cs []string
				if t.lo != nil {
					cs = append(cs, "(<= "+num(t.lo)+" "+sel+")")
				}
				if t.hi != nil {
					cs = append(cs, "(<= "+sel+" "+num(t.hi)+")")
				}
				p.ax("(forall (%s) (! (and %s) :pattern (%s)))", vs, strings.Join(cs, " "), sel)
			}
		}
	}
}

func (p *printer) body(t *Term) string {
	r := func(i int) string { return p.ref(t.args[i]) }
	nary := func(op string) string {
		var ss []string
		for _, a := range t.args {
			ss = append(ss, p.ref(a))
		}
		return "(" + op + " " + strings.Join(ss, " ") + ")"
	}
	switch t.op {
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OConst:
		return num(t.k)
	case OVar:
		if t == TNilIface {
			return "nilIface"
		}
		return p.declare(t.name, nil, t.sort)
	case OBound:
		return sym(t.name)
	case OStrLit:
		return p.declare("lit:"+strconv.Itoa(t.id), nil, SStr)
	case OApp:
		if t.name == "mkstr" || t.name == "slen" || t.name == "sbytes" || t.name == "age" {
			return nary(t.name)
		}
		if strings.HasPrefix(t.name, "strcat") {
			p.declare(t.name, t.args, t.sort)
		}
		f := p.declare(t.name, t.args, t.sort)
		if len(t.args) == 0 {
			return f
		}
		return nary(f)
	case ONot:
		return nary("not")
	case OAnd:
		return nary("and")
	case OOr:
		return nary("or")
	case OIte:
		return nary("ite")
	case OEq:
		return nary("=")
	case OLe:
		return nary("<=")
	case OMul:
		return nary("*")
	case ODiv:
		return nary("div")
	case OMod:
		return nary("mod")
	case OSelect:
		return nary("select")
	case OStore:
		return nary("store")
	case OConstArr:
		return "((as const " + t.sort.name + ") " + r(0) + ")"
	case OSum:
		ss := []string{}
		for i, a := range t.args {
			s := p.ref(a)
			if t.cs[i].Cmp(bigOne) != 0 {
				s = "(* " + num(t.cs[i]) + " " + s + ")"
			}
			ss = append(ss, s)
		}
		if t.k.Sign() != 0 {
			ss = append(ss, num(t.k))
		}
		if len(ss) == 1 {
			return ss[0]
		}
		return "(+ " + strings.Join(ss, " ") + ")"
	case OSplice, OHavoc:
		if t.bnd {
			unsup("array operation under a quantifier")
		}
		for i := range t.args {
			r(i)
		}
		return p.declare("arr:"+strconv.Itoa(t.id), nil, t.sort)
	case OForall:
		n := len(t.args) - 1
		var vs []string
		var rs []string
		for _, v := range t.args[:n] {
			vs = append(vs, "("+sym(v.name)+" "+v.sort.name+")")
			if v.lo != nil {
				rs = append(rs, "(<= "+num(v.lo)+" "+sym(v.name)+")")
			}
			if v.hi != nil {
				rs = append(rs, "(<= "+sym(v.name)+" "+num(v.hi)+")")
			}
		}
		b := r(n)
		if len(rs) > 0 {
			b = "(=> (and " + strings.Join(rs, " ") + ") " + b + ")"
		}
		return "(forall (" + strings.Join(vs, " ") + ") " + b + ")"
	}
	panic("smt body " + strconv.Itoa(int(t.op)))
}

// pairAxioms emits extensionality for the string pairs that matter.
func (p *printer) pairAxioms() {
	pairs := map[[2]int][2]*Term{}
	add := func(a, b *Term) {
		if a == b || a.op == OStrLit && b.op == OStrLit || a.bnd || b.bnd {
			return
		}
		if a.id > b.id {
			a, b = b, a
		}
		if la, lb := StrLen(a), StrLen(b); decideEq(la, lb) == -1 {
			return
		}
		pairs[[2]int{a.id, b.id}] = [2]*Term{a, b}
	}
	rich := func(t *Term) bool {
		return t.op == OStrLit || t.op == OApp && (t.name == "mkstr" || t.name == "strcat")
	}
	for _, e := range p.eqs {
		add(e[0], e[1])
	}
	for _, l := range p.apps {
		for i := range l {
			for j := 0; j < i; j++ {
				for k := range l[i].args {
					if l[i].args[k].sort == SStr && (rich(l[i].args[k]) || rich(l[j].args[k])) {
						add(l[i].args[k], l[j].args[k])
					}
				}
			}
		}
	}
	if len(p.strs) <= 40 {
		for i, a := range p.strs {
			for _, b := range p.strs[:i] {
				if rich(a) || rich(b) {
					add(a, b)
				}
			}
		}
	}
	var ks [][2]int
	for k := range pairs {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1] })
	for _, k := range ks {
		a, b := pairs[k][0], pairs[k][1]
		sa, sb := p.ref(a), p.ref(b)
		la, lb := StrLen(a), StrLen(b)
		var n int64 = -1
		if la.isConst() && la.k.IsInt64() {
			n = la.k.Int64()
		} else if lb.isConst() && lb.k.IsInt64() {
			n = lb.k.Int64()
		}
		if n >= 0 && n <= 40 {
			cs := []string{fmt.Sprintf("(not (= (slen %s) (slen %s)))", sa, sb)}
			for i := int64(0); i < n; i++ {
				cs = append(cs, fmt.Sprintf("(not (= (select (sbytes %s) %d) (select (sbytes %s) %d)))", sa, i, sb, i))
			}
			p.ax("(or (= %s %s) %s)", sa, sb, strings.Join(cs, " "))
			continue
		}
		w := p.declare(fmt.Sprintf("wit:%d:%d", a.id, b.id), nil, SInt)
		p.ax("(or (= %s %s) (not (= (slen %s) (slen %s))) (and (<= 0 %s) (< %s (slen %s)) (not (= (select (sbytes %s) %s) (select (sbytes %s) %s)))))",
			sa, sb, sa, sb, w, w, sa, sa, w, sb, w)
	}
}

// script renders a full satisfiability query.
func script(fs []*Term, goalNeg *Term, model []*Term) (string, []string) {
	saved := ctx
	ctx = nil
	defer func() { ctx = saved }()
	p := newPrinter(false)
	var as []string
	for _, f := range fs {
		as = append(as, p.ref(f))
	}
	if goalNeg != nil {
		as = append(as, p.ref(goalNeg))
	}
	var ms []string
	for _, m := range model {
		ms = append(ms, p.ref(m))
	}
	p.pairAxioms()
	var out strings.Builder
	out.WriteString(prelude)
	out.WriteString(p.sb.String())
	for _, a := range p.axioms {
		out.WriteString("(assert " + a + ")\n")
	}
	for _, a := range as {
		out.WriteString("(assert " + a + ")\n")
	}
	return out.String(), ms
}

// ---------- one-shot solving ----------

type solveRes struct {
	status string // unsat sat unknown
	solver string
	dur    time.Duration
	out    string
}

func runSolver(name string, args []string, text string, timeout time.Duration) (string, time.Duration) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, name, args...)
	c.Stdin = strings.NewReader(text)
	t0 := time.Now()
	out, _ := c.CombinedOutput()
	return string(out), time.Since(t0)
}

var solverSem = make(chan struct{}, 8)

var dumpDir = os.Getenv("GOVC_DUMP")
var dumpN int
var dumpMu sync.Mutex

// discharge tries to prove facts => goal.
func discharge(text string, model []string, timeout time.Duration) solveRes {
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	if dumpDir != "" {
		dumpMu.Lock()
		dumpN++
		os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", dumpDir, dumpN), []byte(text+"(check-sat)\n"), 0o644)
		dumpMu.Unlock()
	}
	secs := int(timeout.Seconds())
	q := text + "(check-sat)\n"
	if len(model) > 0 {
		q += "(get-value (" + strings.Join(model, " ") + "))\n"
	}
	total := time.Duration(0)
	last := solveRes{status: "unknown"}
	short := secs
	if short > 10 {
		short = 10
	}
	try := []struct {
		n    string
		args []string
		to   int
	}{
		{"z3-new", []string{"-in", fmt.Sprintf("-T:%d", short)}, short},
		{"cvc5", []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", short*1000)}, short},
		{"z3", []string{"-in", fmt.Sprintf("-T:%d", short)}, short},
		{"z3-new", []string{"-in", "smt.random_seed=7", "smt.mbqi=false", fmt.Sprintf("-T:%d", secs)}, secs},
		{"cvc5", []string{"--lang=smt2", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", secs*1000)}, secs},
	}
	// A "sat" answer in the presence of quantifiers may be spurious: the other
	// back ends get the chance to refute it. Only "unsat" proves.
	for i, s := range try {
		if last.status == "sat" && (i > 2) {
			break
		}
		if last.status == "sat" && s.to > 5 {
			s.to = 5
		}
		in := q
		if s.n == "cvc5" {
			in = "(set-logic ALL)\n" + q
		}
		out, d := runSolver(s.n, s.args, in, time.Duration(s.to)*time.Second)
		total += d
		first := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
		switch {
		case first == "unsat":
			return solveRes{"unsat", s.n, total, ""}
		case first == "sat" && last.status != "sat":
			last = solveRes{"sat", s.n, total, out}
		case last.status == "sat":
		case strings.HasPrefix(first, "(error"):
			last.out = first
		case first == "unknown" && last.out == "":
			last.out = out
		}
	}
	last.dur = total
	return last
}

// ---------- incremental feasibility solver ----------

type feas struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	p      *printer
	stack  []*Term
	cache  map[string]bool
	nq     int
	dur    time.Duration
	axDone int
	base   int // axioms in place after the first query since the last start
	limit  int // resource limit of a query, lowered while queries are too hard
}

const feasLimit = 400000

func newFeas() *feas {
	f := &feas{cache: map[string]bool{}}
	f.start()
	return f
}

func (f *feas) start() {
	f.cmd = exec.Command("z3-new", "-in", "smt.array.extensional=false")
	f.in, _ = f.cmd.StdinPipe()
	if n := os.Getenv("GOVC_FEAS"); n != "" {
		l, _ := os.Create(n)
		f.in = teeCloser{f.in, l}
	}
	o, _ := f.cmd.StdoutPipe()
	f.out = bufio.NewReaderSize(o, 1<<16)
	f.cmd.Start()
	f.p = newPrinter(true)
	f.stack = nil
	f.axDone = 0
	f.limit = feasLimit
	f.base = 0
	io.WriteString(f.in, "(set-option :timeout 1000)\n"+prelude)
}

func (f *feas) close() {
	f.in.Close()
	f.cmd.Process.Kill()
	f.cmd.Wait()
}

func factList(fs *facts) []*Term {
	if fs == nil {
		return nil
	}
	out := make([]*Term, fs.n)
	for x := fs; x != nil; x = x.prev {
		out[x.n-1] = x.t
	}
	return out
}

// sat reports whether the quantifier-free facts together with c may hold.
func (f *feas) sat(fs *facts, c *Term) bool {
	saved := ctx
	ctx = nil
	defer func() { ctx = saved }()
	t0 := time.Now()
	defer func() { f.dur += time.Since(t0) }()
	f.nq++
	// axioms of paths long left slow every query down: start afresh
	if f.base > 0 && f.axDone > 2*f.base+200 {
		f.close()
		f.start()
	}
	var list []*Term
	for _, t := range factList(fs) {
		if !t.qnt {
			list = append(list, t)
		}
	}
	if c.qnt {
		return true
	}
	// relevance: keep it simple, all ground facts
	n := 0
	for n < len(list) && n < len(f.stack) && list[n] == f.stack[n] {
		n++
	}
	if n < len(f.stack) {
		fmt.Fprintf(f.in, "(pop %d)\n", len(f.stack)-n)
		f.stack = f.stack[:n]
	}
	var asserts []string
	for _, t := range list[n:] {
		asserts = append(asserts, f.p.ref(t))
	}
	cs := f.p.ref(c)
	f.p.pairAxiomsQuick()
	// definitions and axioms are global: emit the axioms inside the current
	// level would lose them on pop, so they are attached to every level lazily
	io.WriteString(f.in, f.p.sb.String())
	f.p.sb.Reset()
	// axioms: re-assert those not yet asserted at base level
	if f.axDone < len(f.p.axioms) {
		// pop to base, assert axioms, push everything again
		if len(f.stack) > 0 {
			fmt.Fprintf(f.in, "(pop %d)\n", len(f.stack))
		}
		for _, a := range f.p.axioms[f.axDone:] {
			io.WriteString(f.in, "(assert "+a+")\n")
		}
		f.axDone = len(f.p.axioms)
		for _, t := range f.stack {
			io.WriteString(f.in, "(push 1)(assert "+f.p.ref(t)+")\n")
		}
	}
	for i, t := range list[n:] {
		io.WriteString(f.in, "(push 1)(assert "+asserts[i]+")\n")
		f.stack = append(f.stack, t)
	}
	fmt.Fprintf(f.in, "(set-option :rlimit %d)\n(push 1)(assert %s)(check-sat)(pop 1)(echo \"@\")\n", f.limit, cs)
	res := ""
	for {
		l, err := f.out.ReadString('\n')
		if err != nil {
			f.cmd.Wait()
			f.start()
			return true
		}
		l = strings.TrimSpace(l)
		if l == "@" {
			break
		}
		if strings.HasPrefix(l, "(error") && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "feas:", l)
		}
		if res == "" {
			res = l
		}
	}
	if f.base == 0 {
		f.base = f.axDone + 1
	}
	switch {
	case res == "unknown" && f.limit > feasLimit/8:
		f.limit -= f.limit / 5
	case res == "unsat" && f.limit < feasLimit:
		f.limit += f.limit / 2
	}
	return res != "unsat"
}

// pairAxiomsQuick adds extensionality only for equalities of short fixed strings.
func (p *printer) pairAxiomsQuick() {
	for _, e := range p.eqs {
		a, b := e[0], e[1]
		la := StrLen(a)
		if !la.isConst() {
			la = StrLen(b)
		}
		if !la.isConst() || !la.k.IsInt64() || la.k.Int64() > 16 {
			continue
		}
		if !(a.op == OApp && a.name == "mkstr" || b.op == OApp && b.name == "mkstr") {
			continue
		}
		n := la.k.Int64()
		sa, sb := p.ref(a), p.ref(b)
		cs := []string{fmt.Sprintf("(not (= (slen %s) (slen %s)))", sa, sb)}
		for i := int64(0); i < n; i++ {
			cs = append(cs, fmt.Sprintf("(not (= (select (sbytes %s) %d) (select (sbytes %s) %d)))", sa, i, sb, i))
		}
		p.ax("(or (= %s %s) %s)", sa, sb, strings.Join(cs, " "))
	}
	p.eqs = nil
}

type teeCloser struct {
	io.WriteCloser
	l io.Writer
}

func (t teeCloser) Write(b []byte) (int, error) {
	t.l.Write(b)
	return t.WriteCloser.Write(b)
}
