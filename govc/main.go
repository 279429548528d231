package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type OblReport struct {
	Name   string            `json:"name"`
	Kind   string            `json:"kind"`
	Pos    string            `json:"pos"`
	Status string            `json:"status"`
	Solver string            `json:"solver"`
	MS     int64             `json:"ms"`
	Model  map[string]string `json:"model,omitempty"`
	Goal   string            `json:"goal,omitempty"`
	Output string            `json:"output,omitempty"`
	Cross  string            `json:"cross,omitempty"`
}

type ContractReport struct {
	Name         string      `json:"name"`
	Pkg          string      `json:"pkg"`
	Dir          string      `json:"dir"`
	Obls         []OblReport `json:"obligations"`
	Paths        int         `json:"paths"`
	Steps        int         `json:"steps"`
	Ended        int         `json:"returned"`
	Undecided    []string    `json:"undecided"`
	NotInductive bool        `json:"not_inductive"`
	Functions    []string    `json:"functions"`
	Trusted      []string    `json:"trusted"`
	Modular      []string    `json:"modular"`
	Bounded      []string    `json:"bounded"`
	Loops        []string    `json:"loops"`
	WallMS       int64       `json:"wall_ms"`
	FeasN        int         `json:"feasibility_queries"`
	FeasMS       int64       `json:"feasibility_ms"`
	Vacuous      bool        `json:"vacuous"`
}

type Report struct {
	Contracts []*ContractReport `json:"contracts"`
	Error     string            `json:"error,omitempty"`
}

var (
	repo     = flag.String("repo", "/repo", "repository")
	cdir     = flag.String("contracts", "/verif/contracts", "contracts directory")
	prefix   = flag.String("run", "", "comma separated contract name prefixes")
	outF     = flag.String("out", "", "report file")
	obTO     = flag.Int("to", 20, "solver timeout per obligation (s)")
	ctTO     = flag.Int("ct", 300, "symbolic execution limit per contract (s)")
	pkgsF    = flag.String("pkgs", "", "packages (default: those with contracts)")
	verbose  = flag.Bool("v", false, "")
	prop     = flag.String("prop", "", "property: only its contract files are used")
	totalTO  = flag.Int("total", 0, "limit for all contracts (s)")
	cross    = flag.Bool("cross", false, "discharge every obligation with a second back end too")
	exact    = flag.Bool("exact", false, "the names given are complete names")
	par      = flag.Int("par", 7, "contracts verified at the same time, each in its own process")
	hooksF   = flag.String("hooks", "", "only write the hooks for native runs into this directory")
	maxPaths = flag.Int("paths", 200000, "")
)

var propFile = regexp.MustCompile(`^(c\d\d(?:_c?\d\d)*)(_.*)?\.go$`)
var digits = regexp.MustCompile(`\d\d`)
var tStart = time.Now()

// Overlay maps target file names in the repository to contract files.
func overlay() (map[string][]byte, map[string]string, []string, error) {
	ov := map[string][]byte{}
	src := map[string]string{}
	dirs := map[string]bool{}
	err := filepath.Walk(*cdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*cdir, p)
		dir, base := filepath.Split(rel)
		own := propFile.FindStringSubmatch(base)
		if *prop != "" && own != nil {
			in := false
			for _, d := range digits.FindAllString(own[1], -1) {
				in = in || "C"+d == *prop
			}
			if !in {
				return nil
			}
		}
		if dir == "verifspec/" {
			dir = "pkg/verifspec/"
		} else {
			base = "zz_verif_" + base
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		t := filepath.Join(*repo, dir, base)
		ov[t] = b
		src[t] = p
		if own == nil {
			return nil
		}
		dirs["./"+strings.TrimSuffix(dir, "/")] = true
		return nil
	})
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, src, ds, err
}

func fatal(f string, a ...interface{}) {
	msg := fmt.Sprintf(f, a...)
	if *outF != "" {
		b, _ := json.Marshal(Report{Error: msg})
		os.WriteFile(*outF, b, 0o644)
	}
	fmt.Fprintln(os.Stderr, msg)
	os.Exit(3)
}

func main() {
	if f := os.Getenv("GOVC_CPU"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	flag.Parse()
	if *hooksF != "" {
		writeHooks(*hooksF)
		return
	}
	debug.SetGCPercent(300)
	ov, _, dirs, err := overlay()
	if err != nil {
		fatal("%v", err)
	}
	if names := contractNames(ov); len(names) > 1 && *par > 1 && !*exact {
		report(inParallel(names))
		return
	}
	if *pkgsF != "" {
		dirs = strings.Split(*pkgsF, ",")
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repo, Overlay: ov, Fset: fset,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	t0 := time.Now()
	pkgs, err := packages.Load(cfg, dirs...)
	if err != nil {
		fatal("load: %v", err)
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		fatal("the contracts do not fit the code: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	if *verbose {
		fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0))
	}

	var cts []*ssa.Function
	all := map[*ssa.Function]bool{}
	roots := map[*packages.Package]bool{}
	for _, p := range pkgs {
		roots[p] = true
	}
	var withSpec []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if roots[p] || strings.HasPrefix(p.PkgPath, repoPath) {
			withSpec = append(withSpec, p)
		}
	})
	for _, p := range withSpec {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			fn := fset.Position(f.Pos()).Filename
			if !strings.Contains(fn, "zz_verif_") && !strings.Contains(fn, "/verifspec/") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if fd.Recv != nil {
					continue
				}
				sf := sp.Func(fd.Name.Name)
				if sf == nil {
					continue
				}
				contractFns[sf] = true
				all[sf] = true
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						s := strings.TrimPrefix(c.Text, "//verif:model ")
						if s == c.Text { // semantics: only the verifier needs it
							s = strings.TrimPrefix(c.Text, "//verif:semantics ")
						}
						if s != c.Text {
							goModels[strings.TrimSpace(s)] = sf
						}
						if s := strings.TrimPrefix(c.Text, "//verif:modular "); s != c.Text {
							if t := findFunc(prog, strings.TrimSpace(s)); t != nil {
								contracts[t] = sf
							} else {
								fatal("contract for unknown function %s", s)
							}
						}
					}
				}
				if strings.HasPrefix(fd.Name.Name, "VC_") {
					cts = append(cts, sf)
				}
			}
		}
	}
	initProgram(prog, fset)
	rep := &Report{}
	var sel []*ssa.Function
	for _, c := range cts {
		ok := *prefix == ""
		for _, p := range strings.Split(*prefix, ",") {
			if strings.HasPrefix(c.Name(), p) && (!*exact || c.Name() == p) {
				ok = true
			}
		}
		if ok {
			sel = append(sel, c)
		}
	}
	sort.Slice(sel, func(i, j int) bool { return sel[i].Name() < sel[j].Name() })
	for _, c := range sel {
		rep.Contracts = append(rep.Contracts, verify(prog, fset, c))
	}
	report(rep)
}

func report(rep *Report) {
	b, _ := json.MarshalIndent(rep, "", " ")
	if *outF != "" {
		os.WriteFile(*outF, b, 0o644)
	}
	bad := 0
	for _, c := range rep.Contracts {
		n, ok := 0, 0
		for _, o := range c.Obls {
			n++
			if o.Status == "unsat" {
				ok++
			}
		}
		fmt.Printf("%-46s obligations %3d proved %3d undecided %d paths %d ended %d wall %dms feas %d/%dms\n", c.Name, n, ok, len(c.Undecided), c.Paths, c.Ended, c.WallMS, c.FeasN, c.FeasMS)
		for _, o := range c.Obls {
			if o.Status != "unsat" {
				bad++
				fmt.Printf("   FAIL %s [%s] at %s: %s %s %v\n", o.Name, o.Kind, o.Pos, o.Status, o.Output, o.Model)
				if *verbose {
					fmt.Printf("        %s\n", o.Goal)
				}
			}
		}
		for _, u := range c.Undecided {
			bad++
			fmt.Printf("   UNDECIDED %s\n", u)
		}
		if *verbose {
			for _, l := range c.Loops {
				fmt.Printf("   loop %s\n", l)
			}
		}
		if c.Vacuous {
			bad++
			fmt.Printf("   VACUOUS\n")
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// contractNames lists the selected contracts of the overlay.
func contractNames(ov map[string][]byte) []string {
	var names []string
	for _, b := range ov {
		for _, m := range vcName.FindAllSubmatch(b, -1) {
			n := string(m[1])
			ok := *prefix == ""
			for _, p := range strings.Split(*prefix, ",") {
				ok = ok || strings.HasPrefix(n, p)
			}
			if ok {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	return names
}

var vcName = regexp.MustCompile(`(?m)^func (VC_\w+)\(\)`)

// inParallel verifies every contract in a process of its own.
func inParallel(names []string) *Report {
	dir, err := os.MkdirTemp("", "govc")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	reps := make([]*Report, len(names))
	sem := make(chan struct{}, *par)
	var wg sync.WaitGroup
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			out := filepath.Join(dir, n+".json")
			args := []string{"-repo", *repo, "-contracts", *cdir, "-run", n, "-exact", "-prop", *prop, "-out", out,
				"-to", fmt.Sprint(*obTO), "-ct", fmt.Sprint(*ctTO)}
			if *totalTO > 0 {
				left := *totalTO - int(time.Since(tStart).Seconds())
				if left < 5 {
					left = 5
				}
				args = append(args, "-total", fmt.Sprint(left))
			}
			if *cross {
				args = append(args, "-cross")
			}
			if *pkgsF != "" {
				args = append(args, "-pkgs", *pkgsF)
			}
			c := exec.Command(os.Args[0], args...)
			if os.Getenv("GOVC_DEBUG") != "" {
				c.Stderr = os.Stderr
			}
			c.Run()
			r := &Report{}
			if b, err := os.ReadFile(out); err != nil || json.Unmarshal(b, r) != nil {
				r = &Report{Contracts: []*ContractReport{{Name: n, Undecided: []string{"the verifier ended without a report"}}}}
			}
			reps[i] = r
		}(i, n)
	}
	wg.Wait()
	all := &Report{}
	for _, r := range reps {
		if r.Error != "" {
			all.Error = r.Error
		}
		all.Contracts = append(all.Contracts, r.Contracts...)
	}
	if all.Error != "" {
		fatal("%s", all.Error)
	}
	return all
}

func findFunc(prog *ssa.Program, name string) *ssa.Function {
	for fn := range ssautil.AllFunctions(prog) {
		if fn.String() == name {
			return fn
		}
	}
	return nil
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var baseState *State

func initProgram(prog *ssa.Program, fset *token.FileSet) {
	baseState = &State{heap: map[string]*Term{}, known: map[*Term]bool{}, bounds: map[*Term]rng{}, ghost: map[string]Val{}, alloc: firstAlloc}
	runInits(prog, fset)
}

func newExec(prog *ssa.Program, fset *token.FileSet) *Exec {
	return &Exec{prog: prog, fset: fset, feas: newFeas(), inlined: map[string]bool{}, trusted: map[string]bool{}, modular: map[string]bool{},
		flags: map[string]bool{}, reach: map[string]bool{}, loopStats: map[string]string{}}
}

func verify(prog *ssa.Program, fset *token.FileSet, c *ssa.Function) *ContractReport {
	t0 := time.Now()
	x := newExec(prog, fset)
	defer x.feas.close()
	curExec = x
	x.contract = c
	lim := time.Duration(*ctTO) * time.Second
	if *totalTO > 0 {
		left := time.Duration(*totalTO)*time.Second - time.Since(tStart)
		if left < 20*time.Second {
			left = 20 * time.Second
		}
		if left < lim {
			lim = left
		}
	}
	x.deadline = func() bool { return time.Since(t0) > lim }
	st := baseState.clone()
	x.push(st, c, nil, nil, nil, nil)
	outs := x.run(st, 0)
	r := &ContractReport{Name: c.Name(), Pkg: pkgOf(c)}
	for _, o := range outs {
		switch o.kind {
		case "return":
			r.Ended++
		case "panic":
			x.oblige(o.st, "no panic: "+strings.Join(lastN(o.st.labels, 1), ""), "panic", TFalse)
		case "blocked":
			if !blockOK[c] {
				x.oblige(o.st, "does not block", "block", TFalse)
			}
		}
	}
	dischargeAll(x)
	r.Paths = x.paths
	r.Steps = x.steps
	r.Undecided = dedupe(x.undecided)
	r.Functions = keysOf(x.inlined)
	r.Trusted = keysOf(x.trusted)
	r.Modular = keysOf(x.modular)
	r.Bounded = x.bounded
	for k, v := range x.loopStats {
		r.Loops = append(r.Loops, k+": "+v)
	}
	sort.Strings(r.Loops)
	for _, o := range x.obls {
		rp := OblReport{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Status: o.res.status, Solver: o.res.solver, MS: o.res.dur.Milliseconds(), Model: o.vals}
		if o.res.status != "unsat" {
			rp.Goal = o.goal.str(12)
			rp.Output = firstLine(o.res.out)
		}
		r.Obls = append(r.Obls, rp)
	}
	if x.inductive {
		bad := len(r.Undecided) > 0 && strings.Contains(strings.Join(r.Undecided, " "), outsideRule)
		for _, o := range x.obls {
			bad = bad || x.weakened && o.res.status != "unsat"
		}
		if bad {
			r.NotInductive, r.Undecided, r.Obls, r.Ended = true, nil, nil, 1
		}
	}
	r.Vacuous = r.Ended == 0 && len(r.Undecided) == 0
	r.WallMS = time.Since(t0).Milliseconds()
	r.FeasN = x.feas.nq
	r.FeasMS = x.feas.dur.Milliseconds()
	return r
}

var blockOK = map[*ssa.Function]bool{}

func firstLine(s string) string {
	s = strings.SplitN(s, "\n", 2)[0]
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func dedupe(s []string) []string {
	m := map[string]bool{}
	out := []string{}
	for _, v := range s {
		if !m[v] {
			m[v] = true
			out = append(out, v)
		}
	}
	return out
}

// dischargeAll proves the pending obligations, sharing identical ones.
func dischargeAll(x *Exec) {
	type job struct {
		text  string
		ms    []string
		names []string
		obls  []*Obligation
	}
	jobs := map[string]*job{}
	var order []*job
	for _, o := range x.obls {
		if o.res.status != "" {
			continue
		}
		var mt []*Term
		var names []string
		for _, in := range x.inputs {
			t, ok := in.v.(*Term)
			if !ok {
				continue
			}
			if in.kind == "bytes" {
				mt = append(mt, StrLen(t))
				names = append(names, in.name+"#len")
				a, off := StrArr(t)
				for i := 0; i < 48; i++ {
					mt = append(mt, Select(a, Add(off, I(int64(i)))))
					names = append(names, fmt.Sprintf("%s#%d", in.name, i))
				}
			} else {
				mt = append(mt, t)
				names = append(names, in.name)
			}
		}
		var text string
		var ms []string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(unsupported); ok {
						o.res = solveRes{status: "unknown", out: u.msg}
						return
					}
					panic(r)
				}
			}()
			text, ms = script(o.facts, Not(o.goal), mt)
		}()
		if o.res.status != "" {
			continue
		}
		if j, ok := jobs[text]; ok {
			j.obls = append(j.obls, o)
			continue
		}
		j := &job{text, ms, names, []*Obligation{o}}
		jobs[text] = j
		order = append(order, j)
	}
	var wg sync.WaitGroup
	started, limit := time.Now(), time.Duration(*ctTO)*time.Second
	// stop spending time once several obligations have failed
	var mu sync.Mutex
	failed := 0
	for _, j := range order {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			to := time.Duration(*obTO) * time.Second
			mu.Lock()
			f := failed
			mu.Unlock()
			if f >= 4 {
				to = 3 * time.Second
			}
			if f >= 12 || time.Since(started) > limit {
				for _, o := range j.obls {
					o.res = solveRes{status: "unknown", out: "not attempted after earlier failures"}
				}
				return
			}
			r := discharge(j.text, j.ms, to)
			if r.status != "unsat" && *verbose {
				fmt.Printf("   .. %s %s: %s\n", r.status, j.obls[0].Name, j.obls[0].goal.String())
			}
			if r.status != "unsat" {
				mu.Lock()
				failed++
				mu.Unlock()
			}
			vals := map[string]string{}
			if r.status == "sat" {
				vals = parseModel(r.out, j.names)
			}
			for _, o := range j.obls {
				o.res = r
				o.vals = vals
			}
		}(j)
	}
	wg.Wait()
}

// parseModel reads the get-value answer in order.
func parseModel(out string, names []string) map[string]string {
	i := strings.Index(out, "(")
	if i < 0 {
		return nil
	}
	toks := sexp(out[i:])
	vals := map[string]string{}
	if toks == nil {
		return vals
	}
	lens := map[string]int{}
	bs := map[string][]byte{}
	for k, p := range toks.kids {
		if k >= len(names) || len(p.kids) != 2 {
			continue
		}
		v := p.kids[1].text()
		n := names[k]
		if h := strings.LastIndexByte(n, '#'); h >= 0 {
			base := n[:h]
			if n[h+1:] == "len" {
				fmt.Sscanf(v, "%d", new(int))
				var l int
				fmt.Sscanf(v, "%d", &l)
				lens[base] = l
			} else {
				var b int
				fmt.Sscanf(v, "%d", &b)
				bs[base] = append(bs[base], byte(b))
			}
			continue
		}
		vals[n] = v
	}
	for n, l := range lens {
		if l > len(bs[n]) {
			l = len(bs[n])
		}
		vals[n] = fmt.Sprintf("hex:%x", bs[n][:l])
	}
	return vals
}

type sx struct {
	atom string
	kids []*sx
}

func (s *sx) text() string {
	if s.kids == nil {
		return s.atom
	}
	if len(s.kids) == 2 && s.kids[0].atom == "-" {
		return "-" + s.kids[1].text()
	}
	var ss []string
	for _, k := range s.kids {
		ss = append(ss, k.text())
	}
	return "(" + strings.Join(ss, " ") + ")"
}

func sexp(s string) *sx {
	pos := 0
	var parse func() *sx
	parse = func() *sx {
		for pos < len(s) && strings.IndexByte(" \n\t\r", s[pos]) >= 0 {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			n := &sx{kids: []*sx{}}
			for {
				for pos < len(s) && strings.IndexByte(" \n\t\r", s[pos]) >= 0 {
					pos++
				}
				if pos >= len(s) {
					return n
				}
				if s[pos] == ')' {
					pos++
					return n
				}
				k := parse()
				if k == nil {
					return n
				}
				n.kids = append(n.kids, k)
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &sx{atom: s[st:pos]}
		}
		for pos < len(s) && strings.IndexByte(" \n\t\r()", s[pos]) < 0 {
			pos++
		}
		return &sx{atom: s[st:pos]}
	}
	return parse()
}

// runInits executes the package initialisers of the repository and of the
// dependencies whose variables the contracts read.
func runInits(prog *ssa.Program, fset *token.FileSet) {
	x := newExec(prog, fset)
	defer x.feas.close()
	curExec = x
	done := map[string]bool{}
	var pkgs []*ssa.Package
	for _, p := range prog.AllPackages() {
		pkgs = append(pkgs, p)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Pkg.Path() < pkgs[j].Pkg.Path() })
	// dependencies first: a simple fixed order over the import graph
	var visit func(p *ssa.Package)
	var order []*ssa.Package
	seen := map[*ssa.Package]bool{}
	visit = func(p *ssa.Package) {
		if p == nil || seen[p] {
			return
		}
		seen[p] = true
		for _, im := range p.Pkg.Imports() {
			visit(prog.Package(im))
		}
		order = append(order, p)
	}
	for _, p := range pkgs {
		visit(p)
	}
	for _, p := range order {
		path := p.Pkg.Path()
		if done[path] || !(strings.HasPrefix(path, repoPath) || initPkgs[path]) {
			continue
		}
		done[path] = true
		in := p.Func("init")
		if in == nil || in.Blocks == nil {
			continue
		}
		s := baseState.clone()
		x.undecided = nil
		x.initMode = true
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsupported); !ok {
								panic(r)
							}
						}
					}()
					s.zeroMem(x.global(g), deref(g.Type()))
				}()
			}
		}
		x.push(s, in, nil, nil, nil, nil)
		outs := x.run(s, 0)
		if len(outs) == 1 && outs[0].kind == "return" && len(x.undecided) == 0 {
			baseState = outs[0].st
			baseState.facts = nil
		} else {
			initFailed[path] = strings.Join(x.undecided, "; ")
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init of", path, "not executed:", initFailed[path], len(outs))
			}
		}
	}
	baseState.frames = nil
	baseState.spawn, baseState.parked = nil, nil
}

var initFailed = map[string]string{}
var initPkgs = map[string]bool{
	"io": true, "errors": true, "encoding/binary": true, "bytes": true, "strings": true, "strconv": true, "encoding/hex": true,
	"github.com/btcsuite/btcd/chaincfg/chainhash":   true,
	"github.com/vulpemventures/go-elements/network": true,
	"github.com/go-ozzo/ozzo-validation/v4":         true,
}
