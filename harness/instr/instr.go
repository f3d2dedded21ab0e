// Package instr rewrites the sources of the package under test at check time, for use with go build -overlay: a hook call
// before every statement, or parameter values read from the environment. It never touches the originals.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	flagWork  = 1
	flagEntry = 2
	flagSync  = 4
)

type edit struct {
	off  int
	del  int
	text string
	seq  int
}

func apply(src []byte, eds []edit) []byte {
	for i := range eds {
		eds[i].seq = i
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		return eds[i].seq < eds[j].seq
	})
	var out []byte
	pos := 0
	for _, e := range eds {
		if e.off < pos {
			continue
		}
		out = append(out, src[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.off + e.del
	}
	return append(out, src[pos:]...)
}

type source struct {
	path string
	src  []byte
	file *ast.File
}

func load(dir string) (*token.FileSet, []*source, error) {
	fs := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	var out []*source
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		p := filepath.Join(dir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, nil, err
		}
		f, err := parser.ParseFile(fs, p, b, parser.ParseComments)
		if err != nil {
			return nil, nil, err
		}
		if f.Name.Name == "main" {
			continue
		}
		out = append(out, &source{p, b, f})
	}
	return fs, out, nil
}

// traits of a function body, not looking into nested function literals
type traits struct {
	loop, index, sync bool
	calls             []string
}

func traitsOf(ft *ast.FuncType, body *ast.BlockStmt) (t traits) {
	params := map[string]bool{}
	if ft.Params != nil {
		for _, p := range ft.Params.List {
			switch p.Type.(type) {
			case *ast.ChanType, *ast.StarExpr:
				t.sync = true
			}
			for _, n := range p.Names {
				params[n.Name] = true
			}
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ForStmt, *ast.RangeStmt, *ast.LabeledStmt:
			t.loop = true
		case *ast.IndexExpr:
			t.index = true
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType, *ast.DeferStmt:
			t.sync = true
		case *ast.UnaryExpr:
			if v.Op == token.ARROW {
				t.sync = true
			}
		case *ast.SelectorExpr:
			if id, ok := v.X.(*ast.Ident); ok {
				switch id.Name {
				case "atomic", "sync", "runtime", "time":
					t.sync = true
				}
			}
		case *ast.CallExpr:
			switch f := v.Fun.(type) {
			case *ast.Ident:
				t.calls = append(t.calls, f.Name)
				if params[f.Name] {
					t.index = true
				}
			case *ast.SelectorExpr:
				t.calls = append(t.calls, f.Sel.Name)
			case *ast.IndexExpr: // instantiated generic
				if id, ok := f.X.(*ast.Ident); ok {
					t.calls = append(t.calls, id.Name)
				}
			}
		}
		return true
	})
	return
}

// syncStmt tells whether a statement itself, not the blocks nested in it, synchronizes: channel and atomic operations, goroutine
// creation, calls of package functions that synchronize.
func syncStmt(st ast.Stmt, byName map[string]*traits) (found bool) {
	ast.Inspect(st, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
			found = true
		case *ast.UnaryExpr:
			found = found || v.Op == token.ARROW
		case *ast.Ident:
			found = found || v.Name == "MaxGor"
		case *ast.SelectorExpr:
			if id, ok := v.X.(*ast.Ident); ok {
				switch id.Name {
				case "atomic", "sync", "runtime", "time":
					found = true
				}
			}
		case *ast.CallExpr:
			if id, ok := v.Fun.(*ast.Ident); ok {
				if t := byName[id.Name]; t != nil && t.sync {
					found = true
				}
			}
			if se, ok := v.Fun.(*ast.SelectorExpr); ok {
				if t := byName[se.Sel.Name]; t != nil && t.sync {
					found = true
				}
			}
		}
		return !found
	})
	return
}

// Hooks writes instrumented copies of all non-test sources of dir into out, and an overlay file. It returns the overlay's path.
func Hooks(dir, out string) (string, error) {
	fs, srcs, err := load(dir)
	if err != nil {
		return "", err
	}
	pkg := "sorty"
	byName := map[string]*traits{}
	for _, s := range srcs {
		pkg = s.file.Name.Name
		for _, d := range s.file.Decls {
			if f, ok := d.(*ast.FuncDecl); ok && f.Body != nil {
				t := traitsOf(f.Type, f.Body)
				if f.Recv != nil {
					for _, r := range f.Recv.List {
						if _, ok := r.Type.(*ast.StarExpr); ok {
							t.sync = true
						}
					}
				}
				if o := byName[f.Name.Name]; o != nil {
					t.sync = t.sync || o.sync
				}
				byName[f.Name.Name] = &t
			}
		}
	}
	for again := true; again; {
		again = false
		for _, t := range byName {
			if t.sync {
				continue
			}
			for _, c := range t.calls {
				if o := byName[c]; o != nil && o.sync {
					t.sync, again = true, true
					break
				}
			}
		}
	}
	overlay := map[string]string{}
	for _, s := range srcs {
		var eds []edit
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		for _, cg := range s.file.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:nosplit") {
					eds = append(eds, edit{off: off(c.Pos()), del: len("//go:nosplit"), text: "// nosplit"})
				}
			}
		}
		var doFunc func(ft *ast.FuncType, body *ast.BlockStmt, work bool)
		doFunc = func(ft *ast.FuncType, body *ast.BlockStmt, work bool) {
			fl := 0
			if work {
				fl = flagWork
			}
			hook := fmt.Sprintf("verifHook(%d);", fl)
			eds = append(eds, edit{off: off(body.Lbrace) + 1, text: fmt.Sprintf("verifHook(%d);", fl|flagEntry)})
			// labels that break/continue statements need to stay on their loops
			loopLabels := map[string]bool{}
			ast.Inspect(body, func(n ast.Node) bool {
				if b, ok := n.(*ast.BranchStmt); ok && b.Label != nil && b.Tok != token.GOTO {
					loopLabels[b.Label.Name] = true
				}
				return true
			})
			before := func(st ast.Stmt) {
				for {
					l, ok := st.(*ast.LabeledStmt)
					if !ok || loopLabels[l.Label.Name] {
						break
					}
					st = l.Stmt
				}
				switch st.(type) {
				case *ast.EmptyStmt:
					return
				}
				h := hook
				if syncStmt(st, byName) {
					h = fmt.Sprintf("verifHook(%d);", fl|flagSync)
				}
				eds = append(eds, edit{off: off(st.Pos()), text: h})
			}
			list := func(l []ast.Stmt) {
				for _, st := range l {
					before(st)
				}
			}
			ast.Inspect(body, func(n ast.Node) bool {
				switch v := n.(type) {
				case *ast.FuncLit:
					t := traitsOf(v.Type, v.Body)
					doFunc(v.Type, v.Body, t.loop && t.index && !t.sync)
					return false
				case *ast.BlockStmt:
					list(v.List)
				case *ast.CaseClause:
					list(v.Body)
				case *ast.CommClause:
					list(v.Body)
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
					// their Body block contains clauses, not statements
					var b *ast.BlockStmt
					switch w := v.(type) {
					case *ast.SwitchStmt:
						b = w.Body
					case *ast.TypeSwitchStmt:
						b = w.Body
					case *ast.SelectStmt:
						b = w.Body
					}
					for _, cl := range b.List {
						ast.Inspect(cl, func(m ast.Node) bool {
							switch u := m.(type) {
							case *ast.FuncLit:
								t := traitsOf(u.Type, u.Body)
								doFunc(u.Type, u.Body, t.loop && t.index && !t.sync)
								return false
							case *ast.BlockStmt:
								if len(u.List) > 0 {
									if _, ok := u.List[0].(*ast.CaseClause); ok {
										return true
									}
									if _, ok := u.List[0].(*ast.CommClause); ok {
										return true
									}
								}
								list(u.List)
							case *ast.CaseClause:
								list(u.Body)
							case *ast.CommClause:
								list(u.Body)
							}
							return true
						})
					}
					return false
				case *ast.ForStmt:
					eds = append(eds, edit{off: off(v.Body.Lbrace) + 1, text: hook})
				case *ast.RangeStmt:
					eds = append(eds, edit{off: off(v.Body.Lbrace) + 1, text: hook})
				}
				return true
			})
		}
		for _, d := range s.file.Decls {
			switch v := d.(type) {
			case *ast.FuncDecl:
				if v.Body == nil {
					continue
				}
				t := byName[v.Name.Name]
				doFunc(v.Type, v.Body, t.loop && t.index && !t.sync)
			case *ast.GenDecl: // function literals in variable initializers
				ast.Inspect(v, func(n ast.Node) bool {
					if f, ok := n.(*ast.FuncLit); ok {
						t := traitsOf(f.Type, f.Body)
						doFunc(f.Type, f.Body, t.loop && t.index && !t.sync)
						return false
					}
					return true
				})
			}
		}
		o := filepath.Join(out, filepath.Base(s.path))
		if err := os.WriteFile(o, apply(s.src, eds), 0o644); err != nil {
			return "", err
		}
		overlay[s.path] = o
	}
	hook := "package " + pkg + `

// VerifHook is called before each statement.
var VerifHook func(int)

func verifHook(f int) {
	if h := VerifHook; h != nil {
		h(f)
	}
}
`
	h := filepath.Join(out, "zz_verif_hook.go")
	if err := os.WriteFile(h, []byte(hook), 0o644); err != nil {
		return "", err
	}
	overlay[filepath.Join(dir, "zz_verif_hook.go")] = h
	return writeOverlay(out, overlay)
}

func writeOverlay(out string, m map[string]string) (string, error) {
	b, _ := json.Marshal(map[string]any{"Replace": m})
	p := filepath.Join(out, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

// Params substitutes package-level parameter values. With fromEnv the initial values of variables are read from the environment
// variables VP_<name> at start-up (falling back to the original ones); values holds replacements for constants.
func Params(dir, out string, names []string, fromEnv bool, values map[string]string) (string, map[string]bool, error) {
	fs, srcs, err := load(dir)
	if err != nil {
		return "", nil, err
	}
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	found := map[string]bool{} // name -> it is a variable in some file
	overlay := map[string]string{}
	pkg := "sorty"
	for _, s := range srcs {
		pkg = s.file.Name.Name
		var eds []edit
		for _, d := range s.file.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.CONST && g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				for i, n := range v.Names {
					if !want[n.Name] || i >= len(v.Values) {
						continue
					}
					a, b := fs.Position(v.Values[i].Pos()).Offset, fs.Position(v.Values[i].End()).Offset
					old := string(s.src[a:b])
					if g.Tok == token.VAR && fromEnv {
						found[n.Name+" var"] = true
						conv := "int"
						if n.Name == "MaxGor" {
							conv = "uint64"
						}
						eds = append(eds, edit{off: a, del: b - a, text: fmt.Sprintf("%s(verifEnv(%q, int64(%s)))", conv, "VP_"+n.Name, old)})
					} else if x, ok := values[n.Name]; ok && g.Tok == token.CONST {
						found[n.Name+" const"] = true
						eds = append(eds, edit{off: a, del: b - a, text: x})
					}
				}
			}
		}
		if len(eds) > 0 {
			o := filepath.Join(out, filepath.Base(s.path))
			if err := os.WriteFile(o, apply(s.src, eds), 0o644); err != nil {
				return "", nil, err
			}
			overlay[s.path] = o
		}
	}
	h := filepath.Join(out, "zz_verif_env.go")
	code := "package " + pkg + `

import (
	"os"
	"strconv"
)

func verifEnv(name string, def int64) int64 {
	if s := os.Getenv(name); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			os.Exit(4)
		}
		return v
	}
	return def
}
`
	if err := os.WriteFile(h, []byte(code), 0o644); err != nil {
		return "", nil, err
	}
	overlay[filepath.Join(dir, "zz_verif_env.go")] = h
	p, err := writeOverlay(out, overlay)
	return p, found, err
}
