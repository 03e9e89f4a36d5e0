// prep copies a Go tree into a scratch module and rewrites it so that every
// source of nondeterminism goes through the model checker's shims.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	modPath = "github.com/companyzero/zkc"
	zz      = modPath + "/zz/"
)

var baseMap = map[string]string{
	"os":                                   zz + "vos",
	"io/ioutil":                            zz + "vioutil",
	"path/filepath":                        zz + "vfilepath",
	"time":                                 zz + "vtime",
	"sync":                                 zz + "vsync",
	"crypto/rand":                          zz + "vrand",
	"flag":                                 zz + "vflag",
	"github.com/vaughan0/go-ini":           zz + "goini",
	"github.com/marcopeereboom/goutil":     zz + "goutil",
	"github.com/companyzero/ttk":           zz + "ttk",
	"golang.org/x/crypto/nacl/secretbox":   zz + "vsecretbox",
	"golang.org/x/crypto/scrypt":           zz + "vscrypt",
	"github.com/companyzero/sntrup4591761": zz + "vsntrup",
}

var defName = map[string]string{
	"github.com/vaughan0/go-ini": "ini",
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	fw := flag.String("fw", "/verif/fw", "")
	fake := flag.Bool("fakesession", true, "")
	flag.Parse()

	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Run(); err != nil {
		die("go list: %v\n%s", err, se.String())
	}
	pk := map[string]*pkgInfo{}
	dec := json.NewDecoder(&so)
	var repoPk []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		pk[p.ImportPath] = p
		if p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/") {
			repoPk = append(repoPk, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	for _, p := range repoPk {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		m := map[string]string{}
		for k, v := range baseMap {
			m[k] = v
		}
		if *fake && (rel == "zkserver" || rel == "zkclient") {
			m[modPath+"/session"] = zz + "fakesession"
			m[modPath+"/debug"] = zz + "debugq"
			defName[modPath+"/debug"] = "debug"
		}
		if rel == "zkclient" || rel == "zkserver" || strings.HasPrefix(rel, "tools/") {
			m["crypto/tls"] = zz + "vtls"
		}
		if rel == "zkserver" || rel == "tools/zkserverctl" {
			m["net"] = zz + "vnet"
			m["os/signal"] = zz + "vsignal"
		}
		name := p.Name
		if name == "main" {
			name = strings.ReplaceAll(filepath.Base(rel), "-", "_")
		}
		rewritePkg(fset, imp, p, m, filepath.Join(*out, rel), p.Name == "main", name)
	}
	// a second copy of the session package: the peer's process
	if p := pk[modPath+"/session"]; p != nil {
		rewritePkg(fset, imp, p, baseMap, filepath.Join(*out, "zz", "session2"), false, "session2")
	}
	// go-ini, same treatment
	if p := pk["github.com/vaughan0/go-ini"]; p != nil {
		rewritePkg(fset, imp, p, baseMap, filepath.Join(*out, "zz", "goini"), false, p.Name)
	}
	if p := pk["github.com/marcopeereboom/goutil"]; p != nil {
		rewritePkg(fset, imp, p, baseMap, filepath.Join(*out, "zz", "goutil"), false, p.Name)
	}
	if p := pk["github.com/companyzero/ttk"]; p != nil {
		dropFuncs = map[string]bool{"ttk.go:init": true, "Init": true, "Deinit": true, "Queue": true, "NewWindow": true,
			"DefaultAttributes": true, "flush": true, "Flush": true, "setCursor": true, "Focus": true, "FocusPrevious": true,
			"Panic": true, "Exit": true, "KeyChannel": true, "resizeAndRender": true, "initKeyHandler": true, "focusWindow": true, "List.Display": true, "Window.printf": true}
		m := map[string]string{"sync": zz + "vsync"}
		rewritePkg(fset, imp, p, m, filepath.Join(*out, "zz", "ttk"), false, p.Name)
		dropFuncs = nil
	}
	copyTree(filepath.Join(*fw, "zz"), filepath.Join(*out, "zz"), "")
	copyTree(filepath.Join(*fw, "harness"), *out, "zz_")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		if err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(filepath.Join(*out, f), b, 0644); err != nil {
			die("%v", err)
		}
	}
	for std, dir := range map[string]string{"os": "vos", "io/ioutil": "vioutil", "path/filepath": "vfilepath", "time": "vtime", "sync": "vsync", "crypto/rand": "vrand", "crypto/tls": "vtls",
		"net": "vnet", "os/signal": "vsignal", "flag": "vflag"} {
		reexport(fset, imp, std, filepath.Join(*out, "zz", dir))
	}
}

func copyTree(src, dst, prefix string) {
	filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		d, b := filepath.Split(rel)
		to := filepath.Join(dst, d, prefix+b)
		os.MkdirAll(filepath.Dir(to), 0755)
		c, err := os.ReadFile(p)
		if err == nil {
			err = os.WriteFile(to, c, 0644)
		}
		if err != nil {
			die("%v", err)
		}
		return nil
	})
}

// reexport writes forwarding declarations for everything the hand written
// shim in dir does not define itself.
func reexport(fset *token.FileSet, imp types.Importer, std, dir string) {
	pkg, err := imp.Import(std)
	if err != nil {
		die("import %s: %v", std, err)
	}
	have := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	name := ""
	for _, f := range fs {
		a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			die("%v", err)
		}
		name = a.Name.Name
		for _, d := range a.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					have[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						have[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport r %q\n\n", name, std)
	sc := pkg.Scope()
	for _, n := range sc.Names() {
		o := sc.Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		if strings.Contains(types.ObjectString(o, nil), "*os.File") || strings.Contains(types.ObjectString(o, nil), "*os.Root") {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = r.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = r.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = r.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = r.%s\n", n, n)
		}
	}
	if !bytes.Contains(b.Bytes(), []byte("= r.")) {
		return
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_gen.go"), b.Bytes(), 0644); err != nil {
		die("%v", err)
	}
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *pkgInfo, m map[string]string, out string, isMain bool, name string) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(err error) {}}
	conf.Check(p.ImportPath, fset, files, info)
	os.MkdirAll(out, 0755)
	for i, a := range files {
		r := &rw{fset: fset, info: info, file: filepath.Base(p.GoFiles[i]), pkg: p.ImportPath, fields: fieldPkgs[p.ImportPath],
			vars: p.ImportPath == modPath+"/session"}
		// imports
		for _, s := range a.Imports {
			path, _ := strconv.Unquote(s.Path.Value)
			n, ok := m[path]
			if !ok {
				continue
			}
			if s.Name == nil {
				d := defName[path]
				if d == "" {
					d = filepath.Base(path)
				}
				s.Name = ast.NewIdent(d)
			}
			s.Path.Value = strconv.Quote(n)
			s.EndPos = 0
		}
		if dropFuncs != nil {
			var nd []ast.Decl
			for _, d := range a.Decls {
				if f, ok := d.(*ast.FuncDecl); ok && (dropFuncs[funcName(f)] || dropFuncs[filepath.Base(p.GoFiles[i])+":"+funcName(f)]) {
					continue
				}
				nd = append(nd, d)
			}
			a.Decls = nd
			fixImports(a)
		}
		if isMain {
			for _, d := range a.Decls {
				if f, ok := d.(*ast.FuncDecl); ok && f.Recv == nil && f.Name.Name == "main" {
					f.Name.Name = "zzMain"
				}
			}
		}
		a.Name.Name = name
		r.walk(a)
		if r.used {
			a.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
				Name: ast.NewIdent("zzmc"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zz + "mc")}}}}}, a.Decls...)
		}
		var b bytes.Buffer
		b.WriteString("//go:build go1.21\n\n")
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&b, fset, a); err != nil {
			die("print %s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(out, p.GoFiles[i]), b.Bytes(), 0644); err != nil {
			die("%v", err)
		}
	}
	_ = sort.Strings
}

// fieldPkgs are small packages meant for concurrent use, of which every access
// to a field is noted.
var fieldPkgs = map[string]bool{modPath + "/tagstack": true, modPath + "/zkclient/addressbook": true}

var dropFuncs map[string]bool

// funcName returns the name of a function or Type.Name of a method.
func funcName(f *ast.FuncDecl) string {
	if f.Recv == nil || len(f.Recv.List) != 1 {
		return f.Name.Name
	}
	t := f.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	if i, ok := t.(*ast.Ident); ok {
		return i.Name + "." + f.Name.Name
	}
	return "?." + f.Name.Name
}

// fixImports blanks imports that are no longer used.
func fixImports(a *ast.File) {
	used := map[string]bool{}
	ast.Inspect(a, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, s := range a.Imports {
		path, _ := strconv.Unquote(s.Path.Value)
		n := filepath.Base(path)
		if n == "termbox-go" {
			n = "termbox"
		}
		if s.Name != nil {
			n = s.Name.Name
		}
		if !used[n] {
			s.Name = ast.NewIdent("_")
		}
	}
}
