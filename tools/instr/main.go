// Command instr copies the Go package(s) of a module into a scratch module
// "ustack", replacing every source of nondeterminism (goroutines, channels,
// select, locks, atomics, clock, network, map iteration) by calls into the
// controlled runtime ustack/vrt, and making accesses to shared fields visible
// to its happens-before race detector.
//
//	instr -src /repo -rt /verif/rt/vrt -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	Module     *struct {
		Path      string
		Main      bool
		GoVersion string
	}
}

// std package -> shim package; only the listed names are redirected.
var shims = map[string]string{
	"sync": "vsync", "sync/atomic": "vatomic", "time": "vtime", "net": "vnet",
	"os": "vos", "log": "vlog", "fmt": "vfmt", "math/rand": "vrand", "context": "vcontext",
	"runtime": "vruntime",
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src := flag.String("src", "/repo", "module to rewrite")
	rt := flag.String("rt", "", "directory of the vrt runtime sources")
	out := flag.String("out", "", "output module directory")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Imports,Module", ".")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pk := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pk[p.ImportPath] = p
		if p.Module != nil && p.Module.Main {
			order = append(order, p)
		}
	}
	if len(order) == 0 {
		die("no package found")
	}
	modPath := order[len(order)-1].Module.Path
	goVer := order[len(order)-1].Module.GoVersion
	names := shimNames(*rt)

	if goVer == "" {
		goVer = "1.16"
	}
	if minor(goVer) < 21 {
		goVer = "1.21"
	}
	must(os.MkdirAll(*out, 0o755))
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module ustack\n\ngo "+goVer+"\n"), 0o644))
	copyTree(*rt, filepath.Join(*out, "vrt"))

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pk[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	ids := &idTable{m: map[string]int{}}
	for _, p := range order {
		rewritePkg(fset, imp, p, modPath, *out, names, ids)
	}
	// field name table
	var sb strings.Builder
	sb.WriteString("package vrt\n\nfunc init() {\n")
	for i, n := range ids.names {
		fmt.Fprintf(&sb, "\tFieldNames[%d] = %q\n", i, n)
	}
	fmt.Fprintf(&sb, "\tTryLocks = %v\n", ids.try)
	sb.WriteString("}\n")
	must(os.WriteFile(filepath.Join(*out, "vrt", "zz_fields.go"), []byte(sb.String()), 0o644))
}

func minor(v string) int {
	f := strings.Split(v, ".")
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func copyTree(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	}))
}

// shimNames lists the exported names of each shim package.
func shimNames(rt string) map[string]map[string]bool {
	res := map[string]map[string]bool{}
	for std, sh := range shims {
		fs := token.NewFileSet()
		pkgs, err := parser.ParseDir(fs, filepath.Join(rt, sh), nil, 0)
		if err != nil {
			die("shim %s: %v", sh, err)
		}
		m := map[string]bool{}
		for _, p := range pkgs {
			for _, f := range p.Files {
				for _, d := range f.Decls {
					switch d := d.(type) {
					case *ast.FuncDecl:
						if d.Recv == nil && d.Name.IsExported() {
							m[d.Name.Name] = true
						}
					case *ast.GenDecl:
						for _, s := range d.Specs {
							switch s := s.(type) {
							case *ast.TypeSpec:
								if s.Name.IsExported() {
									m[s.Name.Name] = true
								}
							case *ast.ValueSpec:
								for _, n := range s.Names {
									if n.IsExported() {
										m[n.Name] = true
									}
								}
							}
						}
					}
				}
			}
		}
		res[std] = m
	}
	return res
}

type idTable struct {
	try   bool // the code uses TryLock
	m     map[string]int
	names []string
}

func (t *idTable) id(s string) int {
	if i, ok := t.m[s]; ok {
		return i
	}
	i := len(t.names)
	t.m[s] = i
	t.names = append(t.names, s)
	return i
}

type rw struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	names    map[string]map[string]bool
	ids      *idTable
	captured map[*types.Var]bool
	assigned map[*types.Var]bool
	used     map[string]bool // shim packages used in the current file
	usesVrt  bool
	n        int
	modPath  string
	inits    []string
	extra    []ast.Decl
	resetOf  map[string]string
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *listPkg, modPath, out string, names map[string]map[string]bool, ids *idTable) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	r := &rw{fset: fset, info: info, pkg: tp, names: names, ids: ids, captured: map[*types.Var]bool{}, assigned: map[*types.Var]bool{}, modPath: modPath, resetOf: map[string]string{}}
	for _, f := range files {
		r.findAssigned(f)
	}
	for _, f := range files {
		r.findCaptured(f)
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
	dir := filepath.Join(out, rel)
	must(os.MkdirAll(dir, 0o755))

	for i, f := range files {
		r.used = map[string]bool{}
		r.usesVrt = false
		for _, d := range f.Decls {
			r.decl(d)
		}
		f.Decls = append(f.Decls, r.extra...)
		r.extra = nil
		r.fixImports(f)
		var buf bytes.Buffer
		buf.WriteString("// generated by instr\n\n")
		f.Comments = nil
		f.Doc = nil
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, token.NewFileSet(), f); err != nil {
			die("print %s: %v", p.GoFiles[i], err)
		}
		must(os.WriteFile(filepath.Join(dir, p.GoFiles[i]), buf.Bytes(), 0o644))
	}
	// reset of package-level state
	var vars []string
	sc := tp.Scope()
	inited := map[string]bool{}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport \"ustack/vrt\"\n\nfunc init() {\n\tvrt.OnReset(func() {\n", tp.Name())
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			inited[l.Name()] = true
		}
	}
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok && !inited[v.Name()] && v.Name() != "_" {
			vars = append(vars, v.Name())
		}
	}
	sort.Strings(vars)
	for _, v := range vars {
		fmt.Fprintf(&sb, "\t\tvrt.Zero(&%s)\n", v)
	}
	done := map[string]bool{}
	for _, in := range info.InitOrder {
		for _, l := range in.Lhs {
			if fn := r.resetOf[l.Name()]; fn != "" && !done[fn] {
				done[fn] = true
				fmt.Fprintf(&sb, "\t\t%s()\n", fn)
			}
		}
	}
	for _, in := range r.inits {
		fmt.Fprintf(&sb, "\t\t%s()\n", in)
	}
	sb.WriteString("\t})\n")
	for _, in := range r.inits {
		fmt.Fprintf(&sb, "\t%s()\n", in)
	}
	sb.WriteString("}\n")
	must(os.WriteFile(filepath.Join(dir, "zz_vrt_reset.go"), []byte(sb.String()), 0o644))
}

// findAssigned finds local variables that are assigned after their declaration
// or whose address is taken.
func (r *rw) findAssigned(f *ast.File) {
	mark := func(e ast.Expr) {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
				continue
			case *ast.SelectorExpr:
				e = x.X
				continue
			case *ast.IndexExpr:
				e = x.X
				continue
			case *ast.Ident:
				if v, ok := r.info.Uses[x].(*types.Var); ok {
					r.assigned[v] = true
				}
			}
			return
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.ReturnStmt:
			// named results are assigned by return
		}
		return true
	})
}

func (r *rw) findCaptured(f *ast.File) {
	var stack []*ast.FuncLit
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			stack = append(stack, n)
			ast.Inspect(n.Type, visit)
			ast.Inspect(n.Body, visit)
			stack = stack[:len(stack)-1]
			return false
		case *ast.Ident:
			if len(stack) == 0 {
				return true
			}
			v, ok := r.info.Uses[n].(*types.Var)
			if !ok || v.IsField() || v.Parent() == nil || v.Parent() == r.pkg.Scope() || v.Pkg() != r.pkg {
				return true
			}
			fl := stack[len(stack)-1]
			if r.assigned[v] && (v.Pos() < fl.Pos() || v.Pos() > fl.End()) {
				r.captured[v] = true
			}
		}
		return true
	}
	ast.Inspect(f, visit)
}

func (r *rw) fixImports(f *ast.File) {
	// count remaining uses of each import
	uses := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if s.Sel.Name == "TryLock" || s.Sel.Name == "TryRLock" {
				r.ids.try = true
			}
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					uses[pn.Imported().Path()] = true
				}
			}
		}
		return true
	})
	var specs []ast.Spec
	add := func(name, path string) {
		s := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
		if name != "" {
			s.Name = ast.NewIdent(name)
		}
		specs = append(specs, s)
	}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		nm := ""
		if im.Name != nil {
			nm = im.Name.Name
		}
		if nm != "_" && nm != "." && !uses[path] {
			continue
		}
		if path == r.modPath {
			path = "ustack"
		} else if strings.HasPrefix(path, r.modPath+"/") {
			path = "ustack" + strings.TrimPrefix(path, r.modPath)
		}
		add(nm, path)
	}
	var sh []string
	for s := range r.used {
		sh = append(sh, s)
	}
	sort.Strings(sh)
	for _, s := range sh {
		add("", "ustack/vrt/"+s)
	}
	if r.usesVrt {
		add("", "ustack/vrt")
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 1, Specs: specs})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}

func (r *rw) vrt(name string, args ...ast.Expr) *ast.CallExpr {
	r.usesVrt = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vrt"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rw) tmp(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("_vrt_%s%d", p, r.n))
}

func lit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (r *rw) decl(d ast.Decl) {
	switch d := d.(type) {
	case *ast.FuncDecl:
		d.Doc = nil
		if d.Recv == nil && d.Name.Name == "init" {
			nm := fmt.Sprintf("_vrt_init%d", len(r.inits))
			r.inits = append(r.inits, nm)
			d.Name = ast.NewIdent(nm)
		}
		if d.Recv != nil {
			r.fieldList(d.Recv)
		}
		r.typ(d.Type)
		if d.Body != nil {
			r.block(d.Body)
			r.enter(d.Body)
		}
	case *ast.GenDecl:
		d.Doc = nil
		if d.Tok == token.IMPORT {
			return
		}
		for _, s := range d.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				s.Doc, s.Comment = nil, nil
				s.Type = r.expr(s.Type)
			case *ast.ValueSpec:
				s.Doc, s.Comment = nil, nil
				if s.Type != nil {
					s.Type = r.expr(s.Type)
				}
				if d.Tok == token.VAR {
					for i := range s.Values {
						s.Values[i] = r.expr(s.Values[i])
					}
					if len(s.Values) > 0 {
						r.globalInit(s)
					}
				}
			}
		}
	}
}

