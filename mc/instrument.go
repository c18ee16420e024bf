package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter derives, from the current source of the library, a variant with two kinds of
// controlled nondeterminism. It is compiled through a build overlay, the source tree is untouched.
//
//   - Every loop over a map iterates in an order chosen by a hook instead of a random one.
//   - A hook is called before every statement (unless a lock is held), where a scheduler can switch to another thread.

const repoPkgDir = "/repo/deflect"

const hookSource = `package deflect

import (
	"fmt"
	"sort"
)

// VerifOrder returns the permutation to be used for iterating over a map with n entries.
var VerifOrder func(n int) []int

// VerifStep is called before every statement.
var VerifStep func(id int32)

// VerifLocks counts the locks held by the running thread.
var VerifLocks int

func verifY(id int32) {
	if VerifStep != nil && VerifLocks == 0 {
		VerifStep(id)
	}
}

// VerifReset gives all variables of the package the values they have when a process starts.
func VerifReset() {
	for _, f := range verifResets {
		f()
	}
}

func verifL(d int) { VerifLocks += d }

type verifPair[M ~map[K]V, K comparable, V any] struct {
	M M
	K K
	V V
}

func (p *verifPair[M, K, V]) Ok() bool {
	v, ok := p.M[p.K]
	p.V = v
	return ok
}

func verifEntries[M ~map[K]V, K comparable, V any](m M) []verifPair[M, K, V] {
	type named struct {
		n string
		p verifPair[M, K, V]
	}
	l := make([]named, 0, len(m))
	for k, v := range m {
		l = append(l, named{fmt.Sprintf("%v", k), verifPair[M, K, V]{m, k, v}})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
	out := make([]verifPair[M, K, V], len(l))
	for i := range l {
		out[i] = l[i].p
	}
	if VerifOrder != nil && len(l) > 1 {
		if order := VerifOrder(len(l)); order != nil {
			for i, k := range order {
				out[i] = l[k].p
			}
		}
	}
	return out
}
`

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

type instrumented struct {
	MapLoops, Steps, Locks int
	Goroutines             bool
	Files                  map[string]string
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// instrumentLibrary type-checks the library and returns the rewritten files.
func instrumentLibrary(steps bool) (*instrumented, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}", "./deflect")
	cmd.Dir, cmd.Env = filepath.Dir(repoPkgDir), goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	list, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v %v", err, stderr.String())
	}
	exports := map[string]string{}
	for _, l := range strings.Split(string(list), "\n") {
		if p, f, ok := strings.Cut(l, "="); ok {
			exports[p] = f
		}
	}
	cmd = exec.Command("go", "list", "-f", "{{range .GoFiles}}{{.}}\n{{end}}", "./deflect")
	cmd.Dir, cmd.Env = filepath.Dir(repoPkgDir), goEnv()
	names, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	src := map[*ast.File][]byte{}
	path := map[*ast.File]string{}
	for _, n := range strings.Fields(string(names)) {
		p := filepath.Join(repoPkgDir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
		src[f], path[f] = b, p
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := exports[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %v", p)
		}
		return os.Open(f)
	})}
	if _, err := conf.Check("github.com/lubgr/deflect/deflect", fset, files, info); err != nil {
		return nil, err
	}
	res := &instrumented{Files: map[string]string{}}
	id := 0
	appended := map[*ast.File]string{}
	var resets []string
	if steps {
		resets = resetsOf(files, info, func(f *ast.File, n ast.Node) string {
			return string(src[f][fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
		}, appended)
	}
	inits := 0
	for _, f := range files {
		var edits []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		ins := func(p token.Pos, text string) { edits = append(edits, edit{off(p), 0, text, len(edits)}) }
		text := func(a, b token.Pos) string { return string(src[f][off(a):off(b)]) }
		list := func(stmts []ast.Stmt) {
			if !steps {
				return
			}
			for _, s := range stmts {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				res.Steps++
				id++
				ins(s.Pos(), fmt.Sprintf("verifY(%d); ", id))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.FuncDecl:
				if steps && s.Recv == nil && s.Name.Name == "init" {
					name := fmt.Sprintf("verifInitFunc%d", inits)
					inits++
					edits = append(edits, edit{off(s.Name.Pos()), len("init"), name, len(edits)})
					appended[f] += "\nfunc init() { " + name + "() }\n"
					resets = append(resets, name)
				}
			case *ast.BlockStmt:
				list(s.List)
			case *ast.CaseClause:
				list(s.Body)
			case *ast.CommClause:
				list(s.Body)
			case *ast.GoStmt:
				res.Goroutines = true
			case *ast.CallExpr:
				sel, ok := s.Fun.(*ast.SelectorExpr)
				if !ok || !steps || info.Selections[sel] == nil || info.Selections[sel].Obj().Pkg() == nil || info.Selections[sel].Obj().Pkg().Path() != "sync" {
					return true
				}
				switch sel.Sel.Name {
				case "Lock", "RLock", "Unlock", "RUnlock", "Do":
				default:
					return true
				}
				res.Locks++
				args := ""
				if len(s.Args) == 1 {
					args = text(s.Args[0].Pos(), s.Args[0].End())
				}
				call := text(sel.Pos(), sel.End()) + "(" + args + ")"
				wrapped := ""
				switch sel.Sel.Name {
				case "Lock", "RLock":
					wrapped = "func() { verifL(1); " + call + " }()"
				case "Unlock", "RUnlock":
					wrapped = "func() { " + call + "; verifL(-1) }()"
				case "Do":
					wrapped = "func() { verifL(1); defer verifL(-1); " + call + " }()"
				}
				edits = append(edits, edit{off(s.Pos()), off(s.End()) - off(s.Pos()), wrapped, len(edits)})
				return false
			case *ast.RangeStmt:
				t := info.Types[s.X].Type
				if t == nil {
					return true
				}
				if _, ok := t.Underlying().(*types.Map); !ok {
					return true
				}
				if _, isParam := t.(*types.TypeParam); isParam {
					return true
				}
				res.MapLoops++
				kv := fmt.Sprintf("verifKV%d", off(s.Pos()))
				names, vals := []string{}, []string{}
				if s.Key != nil {
					names, vals = append(names, text(s.Key.Pos(), s.Key.End())), append(vals, kv+".K")
				}
				if s.Value != nil {
					names, vals = append(names, text(s.Value.Pos(), s.Value.End())), append(vals, kv+".V")
				}
				body := "if !" + kv + ".Ok() { continue }; "
				named := false
				for _, nm := range names {
					named = named || nm != "_"
				}
				if len(names) > 0 && named {
					body += strings.Join(names, ", ") + " " + s.Tok.String() + " " + strings.Join(vals, ", ") + "; "
				}
				// for <k, v :=> range X {   becomes   for _, kv := range verifEntries(X) { <k, v := kv.K, kv.V>
				edits = append(edits, edit{off(s.For), off(s.X.Pos()) - off(s.For), "for _, " + kv + " := range verifEntries(", len(edits)})
				ins(s.X.End(), ")")
				edits = append(edits, edit{off(s.Body.Lbrace) + 1, 0, " " + body, -1})
			}
			return true
		})
		if len(edits) == 0 && appended[f] == "" {
			continue
		}
		sort.SliceStable(edits, func(i, j int) bool {
			if edits[i].off != edits[j].off {
				return edits[i].off < edits[j].off
			}
			// insertions before deletions at the same place
			if (edits[i].del == 0) != (edits[j].del == 0) {
				return edits[i].del == 0
			}
			return edits[i].seq < edits[j].seq
		})
		var out bytes.Buffer
		at := 0
		b := src[f]
		for _, e := range edits {
			if e.off < at {
				return nil, fmt.Errorf("overlapping edits in %v", path[f])
			}
			out.Write(b[at:e.off])
			out.WriteString(e.text)
			at = e.off + e.del
		}
		out.Write(b[at:])
		res.Files[path[f]] = out.String() + appended[f]
	}
	res.Files[filepath.Join(repoPkgDir, "zz_verif_hooks.go")] = hookSource + "\nvar verifResets []func()\n\nfunc init() { verifResets = []func(){" + strings.Join(resets, ", ") + "} }\n"
	return res, nil
}

// resetsOf appends functions to the files that initialise their variables again, and returns the
// functions' names in the order of initialisation.
func resetsOf(files []*ast.File, info *types.Info, text func(f *ast.File, n ast.Node) string, appended map[*ast.File]string) (names []string) {
	add := func(f *ast.File, body string) {
		name := fmt.Sprintf("verifInitVar%d", len(names))
		names = append(names, name)
		appended[f] += "\nfunc " + name + "() { " + body + " }\n"
	}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, spec := range g.Specs {
				v := spec.(*ast.ValueSpec)
				for _, n := range v.Names {
					if len(v.Values) == 0 && n.Name != "_" {
						add(f, n.Name+" = *new("+text(f, v.Type)+")")
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		for _, f := range files {
			if f.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() < f.FileEnd {
				add(f, strings.Join(lhs, ", ")+" = "+text(f, in.Rhs))
			}
		}
	}
	return names
}

// buildInstrumented builds this harness against the instrumented library.
func buildInstrumented(root string, steps bool) (bin string, res *instrumented, cleanup func(), err error) {
	dir, err := os.MkdirTemp("", "verifmc")
	if err != nil {
		return "", nil, func() {}, err
	}
	cleanup = func() { os.RemoveAll(dir) }
	if res, err = instrumentLibrary(steps); err != nil {
		return "", nil, cleanup, err
	}
	overlay := map[string]map[string]string{"Replace": {}}
	i := 0
	for p, text := range res.Files {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		i++
		if err := os.WriteFile(f, []byte(text), 0o644); err != nil {
			return "", nil, cleanup, err
		}
		overlay["Replace"][p] = f
	}
	b, _ := json.Marshal(overlay)
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return "", nil, cleanup, err
	}
	bin = filepath.Join(dir, "verifmc-instrumented")
	cmd := exec.Command("go", "build", "-tags", "verifinstr", "-overlay", of, "-o", bin, ".")
	cmd.Dir, cmd.Env = filepath.Join(root, "mc"), goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", res, cleanup, fmt.Errorf("build of the instrumented library: %v\n%s", err, out)
	}
	return bin, res, cleanup, nil
}
