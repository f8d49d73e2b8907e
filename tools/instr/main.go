// Command instr writes an instrumented copy of packages of the repository
// and an overlay file that makes the go command use it.
//
//	instr LEVEL REPO OUTDIR OVERLAY.json [pkg...]
//
// Level 3 adds scheduling points, level 2 replaces mutexes and files, level 1
// only the file system functions, the clock, os.Exit and the HTTP server.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

var osFuncs = map[string]bool{"WriteFile": true, "MkdirAll": true, "Mkdir": true, "Remove": true, "RemoveAll": true, "Rename": true, "Symlink": true, "Link": true,
	"Truncate": true, "Chmod": true, "ReadFile": true, "ReadDir": true, "Stat": true, "Lstat": true, "MkdirTemp": true, "Exit": true}
var fileFuncs = map[string]bool{"OpenFile": true, "Create": true, "Open": true, "CreateTemp": true}
var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "After": true, "Sleep": true, "NewTimer": true, "Tick": true, "NewTicker": true}

const hook = "github.com/cloudflare/cfrpki/zzverif/vhook"

func main() {
	level := 0
	fmt.Sscan(os.Args[1], &level)
	repo, out, overlay := os.Args[2], os.Args[3], os.Args[4]
	rep := map[string]string{}
	for _, pkg := range os.Args[5:] {
		dir := filepath.Join(repo, pkg)
		es, err := os.ReadDir(dir)
		check(err)
		fset := token.NewFileSet()
		files := map[string]*ast.File{}
		src := map[string][]byte{}
		for _, e := range es {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, n))
			check(err)
			f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
			check(err)
			files[n], src[n] = f, b
		}
		main := false
		fields := map[string]map[string]bool{}
		for _, f := range files {
			main = main || f.Name.Name == "main"
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range g.Specs {
					ts, ok := s.(*ast.TypeSpec)
					if !ok {
						continue
					}
					st, ok := ts.Type.(*ast.StructType)
					if !ok {
						continue
					}
					m := map[string]bool{}
					for _, fl := range st.Fields.List {
						for _, id := range fl.Names {
							m[id.Name] = true
						}
					}
					fields[ts.Name.Name] = m
				}
			}
		}
		names := make([]string, 0)
		for n := range files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			b := instrument(fset, files[n], src[n], level, main, fields)
			p := filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_"+n)
			check(os.WriteFile(p, b, 0644))
			rep[filepath.Join(dir, n)] = p
		}
		if main {
			p := filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_zz_verif_main.go")
			check(os.WriteFile(p, []byte("package main\n\nimport \"github.com/cloudflare/cfrpki/zzverif/hocto\"\n\nfunc main() { hocto.Main(verifMain) }\n"), 0644))
			rep[filepath.Join(dir, "zz_verif_main.go")] = p
			// the identity of the current goroutine
			p = filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_zz_verif_amd64.go")
			check(os.WriteFile(p, []byte("package main\n\nimport \""+hook+"\"\n\nfunc verifGetg() uintptr\n\nfunc init() { vhook.GetG = verifGetg }\n"), 0644))
			rep[filepath.Join(dir, "zz_verif_amd64.go")] = p
			p = filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_zz_verif_amd64.s")
			check(os.WriteFile(p, []byte("#include \"textflag.h\"\n\nTEXT ·verifGetg(SB), NOSPLIT, $0-8\n\tMOVQ (TLS), AX\n\tMOVQ AX, ret+0(FP)\n\tRET\n"), 0644))
			rep[filepath.Join(dir, "zz_verif_amd64.s")] = p
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": rep}, "", " ")
	check(os.WriteFile(overlay, b, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, level int, main bool, fields map[string]map[string]bool) []byte {
	var es []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	pkgs := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := filepath.Base(path)
		if im.Name != nil {
			name = im.Name.Name
		}
		pkgs[name] = path
	}
	isPkg := func(e ast.Expr, path string) bool {
		id, ok := e.(*ast.Ident)
		return ok && id.Obj == nil && pkgs[id.Name] == path
	}
	es = append(es, edit{off(f.Name.End()), off(f.Name.End()), "; import verifhook \"" + hook + "\""})
	tailText := "\nvar _ = verifhook.Now\n"
	for name, path := range pkgs {
		switch path {
		case "os":
			tailText += "var _ = " + name + ".Getpid\n"
		case "io/ioutil":
			tailText += "var _ = " + name + ".Discard\n"
		case "time":
			tailText += "var _ " + name + ".Duration\n"
		case "sync":
			tailText += "var _ " + name + ".Once\n"
		case "net/http":
			tailText += "var _ " + name + ".Header\n"
		}
	}
	rep := func(n ast.Node, s string) { es = append(es, edit{off(n.Pos()), off(n.End()), s}) }
	stmt := func(s ast.Stmt) {
		es = append(es, edit{off(s.Pos()), off(s.Pos()), "verifhook.P(); "})
	}
	list := func(l []ast.Stmt) {
		if level >= 3 && main {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				stmt(s)
			}
		}
	}
	var walk func(n ast.Node, recv string, flds map[string]bool)
	walk = func(root ast.Node, recv string, flds map[string]bool) {
		ast.Inspect(root, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			case *ast.SwitchStmt:
				// the body's "statements" are clauses
				if x.Init != nil {
					walk(x.Init, recv, flds)
				}
				if x.Tag != nil {
					walk(x.Tag, recv, flds)
				}
				for _, c := range x.Body.List {
					walk(c, recv, flds)
				}
				return false
			case *ast.TypeSwitchStmt:
				if x.Init != nil {
					walk(x.Init, recv, flds)
				}
				walk(x.Assign, recv, flds)
				for _, c := range x.Body.List {
					walk(c, recv, flds)
				}
				return false
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					walk(c, recv, flds)
				}
				return false
			case *ast.CallExpr:
				if se, ok := x.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "ListenAndServe" && main {
					if isPkg(se.X, "net/http") && len(x.Args) == 2 {
						rep(se, "verifhook.ListenAndServe")
						for _, a := range x.Args {
							walk(a, recv, flds)
						}
						return false
					}
					if len(x.Args) == 0 {
						rep(x, "verifhook.Serve("+string(src[off(se.X.Pos()):off(se.X.End())])+")")
						return false
					}
				}
			case *ast.SelectorExpr:
				switch {
				case isPkg(x.X, "os") && osFuncs[x.Sel.Name]:
					rep(x, "verifhook."+x.Sel.Name)
					return false
				case isPkg(x.X, "os") && fileFuncs[x.Sel.Name]:
					if level >= 2 {
						rep(x, "verifhook."+x.Sel.Name)
					} else {
						rep(x, "verifhook.Raw"+x.Sel.Name)
					}
					return false
				case isPkg(x.X, "os") && x.Sel.Name == "File" && level >= 2:
					rep(x, "verifhook.File")
					return false
				case isPkg(x.X, "io/ioutil") && (x.Sel.Name == "WriteFile" || x.Sel.Name == "ReadFile"):
					rep(x, "verifhook."+x.Sel.Name)
					return false
				case isPkg(x.X, "io/ioutil") && x.Sel.Name == "ReadDir":
					rep(x, "verifhook.IoutilReadDir")
					return false
				case isPkg(x.X, "io/ioutil") && x.Sel.Name == "TempDir":
					rep(x, "verifhook.MkdirTemp")
					return false
				case isPkg(x.X, "io/ioutil") && x.Sel.Name == "TempFile":
					if level >= 2 {
						rep(x, "verifhook.CreateTemp")
					} else {
						rep(x, "verifhook.RawCreateTemp")
					}
					return false
				case main && isPkg(x.X, "time") && timeFuncs[x.Sel.Name]:
					rep(x, "verifhook."+x.Sel.Name)
					return false
				case main && level >= 2 && isPkg(x.X, "sync") && (x.Sel.Name == "Mutex" || x.Sel.Name == "RWMutex"):
					rep(x, "verifhook."+x.Sel.Name)
					return false
				}
				if level >= 3 && recv != "" && flds[x.Sel.Name] {
					if id, ok := x.X.(*ast.Ident); ok && id.Name == recv && (id.Obj == nil || id.Obj.Kind == ast.Var) {
						t := string(src[off(x.Pos()):off(x.End())])
						rep(x, "(*verifhook.At(&"+t+"))")
						return false
					}
				}
			}
			return true
		})
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			walk(d, "", nil)
			continue
		}
		if fd.Recv == nil && fd.Name.Name == "main" && main {
			rep(fd.Name, "verifMain")
		}
		recv := ""
		var flds map[string]bool
		if fd.Recv != nil && len(fd.Recv.List) == 1 && len(fd.Recv.List[0].Names) == 1 {
			if st, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
				if id, ok := st.X.(*ast.Ident); ok && fields[id.Name] != nil {
					recv, flds = fd.Recv.List[0].Names[0].Name, fields[id.Name]
				}
			}
		}
		if recv == "_" {
			recv = ""
		}
		walk(fd.Type, "", nil)
		if fd.Body != nil {
			if recv != "" && main && level >= 3 {
				es = append(es, edit{off(fd.Body.Lbrace) + 1, off(fd.Body.Lbrace) + 1, " verifhook.Recv(" + recv + "); "})
			}
			if !main {
				recv = ""
			}
			walk(fd.Body, recv, flds)
		}
	}
	if main && level >= 3 {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, id := range vs.Names {
					if id.Name != "_" {
						tailText += "func init() { verifhook.Globals(&" + id.Name + ") }\n"
					}
				}
			}
		}
	}
	es = append(es, edit{len(src), len(src), tailText})
	sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
	var out []byte
	p := 0
	for _, e := range es {
		if e.off < p {
			check(fmt.Errorf("overlapping edits at %d in %s", e.off, f.Name.Name))
		}
		out = append(out, src[p:e.off]...)
		out = append(out, e.text...)
		p = e.end
	}
	return append(out, src[p:]...)
}
