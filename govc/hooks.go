package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	goprinter "go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Native runs of a contract use the same models of functions as its proof: the
// modelled function gets a hook at its start. Sources are changed in copies only
// (an overlay, and copies of dependencies used through replace directives).

type hooksOut struct {
	Overlay map[string]string // file of the repository or of the standard library -> changed copy
	Modules map[string]string // module path -> changed copy
	Tests   map[string]*hookTest
}

// hookTest is what the test file of a package adds to set the hooks.
type hookTest struct {
	Imports []string
	Stmts   []string
}

var modelName = regexp.MustCompile(`^(?:\(\*?([^()]+)\.(\w+)\)|([^()]+))\.(\w+)$`)

type hookReq struct{ pkg, recv, fn, model, in string }

type edit struct {
	at   int
	text string
	end  int
}

func writeHooks(dir string) {
	ov, _, _, err := overlay()
	if err != nil {
		fatal("%v", err)
	}
	var reqs []hookReq
	for t, b := range ov {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, t, b, parser.ParseComments)
		if err != nil {
			continue
		}
		in, _ := filepath.Rel(*repo, filepath.Dir(t))
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			for _, c := range fd.Doc.List {
				s := strings.TrimPrefix(c.Text, "//verif:model ")
				m := modelName.FindStringSubmatch(strings.TrimSpace(s))
				if s == c.Text || m == nil {
					continue
				}
				reqs = append(reqs, hookReq{pkg: m[1] + m[3], recv: m[2], fn: m[4], model: fd.Name.Name, in: in})
			}
		}
	}
	out := hooksOut{Overlay: map[string]string{}, Modules: map[string]string{}, Tests: map[string]*hookTest{}}
	var paths []string
	seen := map[string]bool{}
	for _, r := range reqs {
		if !seen[r.pkg] {
			seen[r.pkg] = true
			paths = append(paths, r.pkg)
		}
	}
	sort.Strings(paths)
	sort.Slice(reqs, func(i, j int) bool { return reqs[i].fn+reqs[i].in < reqs[j].fn+reqs[j].in })
	if len(paths) > 0 {
		cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedModule, Dir: *repo,
			Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
		pkgs, err := packages.Load(cfg, paths...)
		if err != nil {
			fatal("%v", err)
		}
		for _, p := range pkgs {
			if err := hookPackage(dir, p, reqs, &out); err != nil {
				fatal("%v", err)
			}
		}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(dir, "hooks.json"), b, 0o644)
}

func hookPackage(dir string, p *packages.Package, reqs []hookReq, out *hooksOut) error {
	inRepo := strings.HasPrefix(p.PkgPath, repoPath)
	alias := regexp.MustCompile(`\W`).ReplaceAllString(p.PkgPath, "_")
	for _, file := range p.GoFiles {
		src, err := os.ReadFile(file)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			return nil // does not compile: reported elsewhere
		}
		var edits []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string {
			var b strings.Builder
			goprinter.Fprint(&b, fset, n)
			return b.String()
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			recv := ""
			if fd.Recv != nil && len(fd.Recv.List) == 1 {
				recv = strings.TrimPrefix(text(fd.Recv.List[0].Type), "*")
			}
			hook := ""
			for _, r := range reqs {
				if r.pkg != p.PkgPath || r.fn != fd.Name.Name || r.recv != recv {
					continue
				}
				hook = "VerifHook_" + recv + "_" + r.fn
				t := out.Tests[r.in]
				if t == nil {
					t = &hookTest{}
					out.Tests[r.in] = t
				}
				at := hook
				if rel := strings.TrimPrefix(p.PkgPath, repoPath+"/"); rel != r.in {
					at = alias + "." + hook
					t.Imports = append(t.Imports, fmt.Sprintf("%s %q", alias, p.PkgPath))
				}
				t.Stmts = append(t.Stmts, at+" = "+r.model)
			}
			if hook == "" {
				continue
			}
			// name what has no name, and pass it all on
			var types, args []string
			n := 0
			fields := []*ast.Field{}
			if fd.Recv != nil {
				fields = append(fields, fd.Recv.List...)
			}
			fields = append(fields, fd.Type.Params.List...)
			for _, fl := range fields {
				dots := ""
				if _, ok := fl.Type.(*ast.Ellipsis); ok {
					dots = "..."
				}
				if len(fl.Names) == 0 {
					n++
					nm := fmt.Sprintf("verifArg%d", n)
					edits = append(edits, edit{at: off(fl.Type.Pos()), end: off(fl.Type.Pos()), text: nm + " "})
					args = append(args, nm+dots)
					types = append(types, text(fl.Type))
					continue
				}
				for _, id := range fl.Names {
					nm := id.Name
					if nm == "_" {
						n++
						nm = fmt.Sprintf("verifArg%d", n)
						edits = append(edits, edit{at: off(id.Pos()), end: off(id.End()), text: nm})
					}
					args = append(args, nm+dots)
					types = append(types, text(fl.Type))
				}
			}
			res := ""
			call := hook + "(" + strings.Join(args, ", ") + ")"
			if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
				var rs []string
				for _, fl := range fd.Type.Results.List {
					k := len(fl.Names)
					if k == 0 {
						k = 1
					}
					for ; k > 0; k-- {
						rs = append(rs, text(fl.Type))
					}
				}
				res = " (" + strings.Join(rs, ", ") + ")"
				call = "return " + call
			} else {
				call += "; return"
			}
			edits = append(edits, edit{at: off(fd.Body.Lbrace) + 1, end: off(fd.Body.Lbrace) + 1, text: " if " + hook + " != nil { " + call + " };"})
			edits = append(edits, edit{at: len(src), end: len(src), text: "\nvar " + hook + " func(" + strings.Join(types, ", ") + ")" + res + "\n"})
		}
		if len(edits) == 0 {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.at])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(src[last:])
		if p.Module == nil || inRepo {
			t := filepath.Join(dir, alias+"_"+filepath.Base(file))
			if err := os.WriteFile(t, []byte(b.String()), 0o644); err != nil {
				return err
			}
			out.Overlay[file] = t
			continue
		}
		// dependencies are changed in a copy of their module
		md := filepath.Join(dir, "mod_"+regexp.MustCompile(`\W`).ReplaceAllString(p.Module.Path, "_"))
		if out.Modules[p.Module.Path] == "" {
			if o, err := exec.Command("cp", "-r", "--no-preserve=mode", p.Module.Dir, md).CombinedOutput(); err != nil {
				return fmt.Errorf("%s", o)
			}
			if _, err := os.Stat(filepath.Join(md, "go.mod")); err != nil {
				os.WriteFile(filepath.Join(md, "go.mod"), []byte("module "+p.Module.Path+"\n"), 0o644)
			}
			out.Modules[p.Module.Path] = md
		}
		rel, err := filepath.Rel(p.Module.Dir, file)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(md, rel), []byte(b.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}
