// Command instr rewrites the packages of the repository under test so that every
// source of nondeterminism goes through simrt, and writes a go build overlay.
//
//	instr -repo /repo -simrt DIR -harness DIR -out WORKDIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	simrtD  = flag.String("simrt", "/verif/sim/simrt", "simrt sources")
	harnD   = flag.String("harness", "/verif/sim/harness", "harness sources")
	outD    = flag.String("out", "", "work directory")
	verbose = flag.Bool("v", false, "verbose")
	race    = flag.Bool("race", false, "report every access to shared memory to simrt")
)

var modPath = "github.com/go-air/gini"

const simPath = "github.com/go-air/gini/internal/simrt"
const sim = "simrt_"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

// package-level names replaced by simrt ones: "pkgpath.Name" -> simrt name
var repl = map[string]string{
	"time.Now": "Now", "time.Since": "Since", "time.Until": "Until", "time.Sleep": "Sleep",
	"time.After": "After", "time.AfterFunc": "AfterFunc", "time.NewTimer": "NewTimer",
	"time.NewTicker": "NewTicker", "time.Tick": "Tick", "time.Timer": "Timer", "time.Ticker": "Ticker",
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.WaitGroup": "WaitGroup", "sync.Once": "Once",
	"sync.Cond": "Cond", "sync.NewCond": "NewCond", "sync.Map": "Map", "sync.Pool": "Pool",
	"sync.OnceFunc": "OnceFunc",
	"io.Pipe":       "Pipe", "io.PipeReader": "PipeReader", "io.PipeWriter": "PipeWriter",
	"net.Dial": "Dial", "net.Listen": "Listen", "net.DialTimeout": "DialTimeout", "net.Dialer": "Dialer",
	"os.Exit": "Exit", "os.Stat": "Stat", "os.Lstat": "Lstat", "os.Remove": "Remove", "os.Open": "Open", "os.Readlink": "Readlink",
	"os.Getenv": "Getenv", "os.Environ": "Environ", "os.Mkdir": "Mkdir", "os.MkdirAll": "MkdirAll",
	"os.RemoveAll": "RemoveAll", "os.Rename": "Rename", "os.Chdir": "Chdir", "os.Symlink": "Symlink",
	"os.Create": "Create", "os.OpenFile": "OpenFile", "os.File": "File", "os.ReadFile": "ReadFile", "os.WriteFile": "WriteFile",
	"os.Getwd": "Getwd", "os.ReadDir": "ReadDir", "os.LookupEnv": "LookupEnv", "os.Process": "Process", "os.ProcessState": "ProcessState",
	"os/exec.Command": "Command", "os/exec.CommandContext": "CommandContext", "os/exec.Cmd": "Cmd", "os/exec.ExitError": "ExitError", "os/exec.LookPath": "LookPath",
	"path/filepath.Walk": "Walk", "path/filepath.WalkDir": "WalkDir", "path/filepath.Abs": "FileAbs",
	"io/ioutil.ReadDir": "IoReadDir", "io/ioutil.ReadFile": "ReadFile", "io/ioutil.WriteFile": "WriteFile",
	"os/signal.Notify": "Notify", "os/signal.Stop": "NotifyStop",
	"runtime.NumCPU": "NumCPU", "runtime.Gosched": "Gosched", "runtime.GOMAXPROCS": "GOMAXPROCS",
	"runtime.NumGoroutine": "NumGoroutine", "runtime.GC": "GC",
	"log.Fatal": "Fatal", "log.Fatalf": "Fatalf", "log.Fatalln": "Fatalln",
	"fmt.Printf": "Printf", "fmt.Println": "Println", "fmt.Print": "Print",
	"math/rand.Int": "RandInt", "math/rand.Intn": "RandIntn", "math/rand.Int31": "RandInt31",
	"math/rand.Int31n": "RandInt31n", "math/rand.Int63": "RandInt63", "math/rand.Int63n": "RandInt63n",
	"math/rand.Uint32": "RandUint32", "math/rand.Uint64": "RandUint64", "math/rand.Float64": "RandFloat64",
	"math/rand.Float32": "RandFloat32", "math/rand.Perm": "RandPerm", "math/rand.Shuffle": "RandShuffle",
	"math/rand.Seed":      "RandSeed",
	"context.WithTimeout": "CtxWithTimeout", "context.WithCancel": "CtxWithCancel", "context.WithDeadline": "CtxWithDeadline",
}

// variables replaced by calls
var replCall = map[string]string{"os.Stdin": "OsStdin", "os.Stdout": "OsStdout", "os.Stderr": "OsStderr"}

var knobConsts = map[string]bool{"RestartAfter": true, "RestartFactor": true, "PropTick": true, "CancelTicks": true}

var skipPkgs = map[string]bool{}

type ctx struct {
	fset  *token.FileSet
	pkg   *types.Package
	info  *types.Info
	rel   string
	file  *ast.File
	fine  bool
	used  bool // simrt import needed
	n     int
	fnN   string
	inXo  bool
	depth int // inside function bodies
	knobs []string
	// race mode
	shared     map[*types.Var]bool
	simpleOnly bool
	after      []ast.Stmt
}

func main() {
	flag.Parse()
	if *outD == "" {
		die("-out is required")
	}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*listPkg
	dec := json.NewDecoder(bytes.NewReader(o))
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Dir == *repo {
			modPath = p.Module.Path
			pkgs = append(pkgs, p)
		}
	}
	overlay := map[string]string{}
	must(os.MkdirAll(*outD, 0755))
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		rel, _ := filepath.Rel(*repo, p.Dir)
		if skipPkgs[rel] || strings.HasPrefix(rel, "internal/simrt") || strings.HasPrefix(rel, "internal/verifsim") {
			continue
		}
		doPkg(fset, imp, p, rel, overlay)
	}
	addDir := func(src, dst string) {
		es, err := os.ReadDir(src)
		must(err)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(*repo, dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	addDir(*simrtD, "internal/simrt")
	addDir(*harnD, "internal/verifsim")
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*outD, "overlay.json"), b, 0644))
	// module file with a language version that has generics
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	lines := strings.Split(string(gm), "\n")
	found := false
	for i, l := range lines {
		if strings.HasPrefix(l, "go ") {
			found = true
			if v := strings.TrimSpace(l[3:]); vless(v, 1, 21) {
				lines[i] = "go 1.21"
			}
		}
	}
	if !found {
		lines = append(lines, "go 1.21")
	}
	must(os.WriteFile(filepath.Join(*outD, "go.mod"), []byte(strings.Join(lines, "\n")), 0644))
	if gs, err := os.ReadFile(filepath.Join(*repo, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*outD, "go.sum"), gs, 0644))
	}
}

func vless(v string, a, b int) bool {
	p := strings.SplitN(v, ".", 3)
	x, _ := strconv.Atoi(p[0])
	y := 0
	if len(p) > 1 {
		y, _ = strconv.Atoi(p[1])
	}
	return x < a || x == a && y < b
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (c *ctx) sim(n string) ast.Expr {
	c.used = true
	return &ast.SelectorExpr{X: id(sim), Sel: id(n)}
}
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func (c *ctx) tmp(p string) string                 { c.n++; return fmt.Sprintf("_%s%d", p, c.n) }
func (c *ctx) y() ast.Stmt                         { return &ast.ExprStmt{X: call(c.sim("Y"))} }
func def(n string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(n)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}
func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func doPkg(fset *token.FileSet, imp types.Importer, p *listPkg, rel string, overlay map[string]string) {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		af.Comments = nil
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type checking %s: %v", p.ImportPath, err)
	}
	isMain := p.Name == "main"
	// reset information, from the declarations
	declFile := map[types.Object]*ctx{}
	ctxs := make([]*ctx, len(files))
	for i, f := range files {
		c := &ctx{fset: fset, pkg: tp, info: info, rel: rel, file: f, inXo: rel == "internal/xo", shared: map[*types.Var]bool{}}
		c.fine = fineFile(f, info) || rel != "internal/xo"
		ctxs[i] = c
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, n := range s.(*ast.ValueSpec).Names {
						declFile[info.Defs[n]] = c
					}
				}
			}
		}
	}
	type resetFn struct {
		name string
	}
	var resets []string
	extra := make(map[*ctx][]ast.Decl)
	addReset := func(c *ctx, body ...ast.Stmt) {
		n := fmt.Sprintf("verifReset_%d", len(resets))
		resets = append(resets, n)
		extra[c] = append(extra[c], &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
	}
	// rewrite
	site0 := len(raceSites)
	for _, c := range ctxs {
		c.rewriteFile(isMain)
	}
	if len(raceSites) > site0 {
		c := ctxs[0]
		extra[c] = append(extra[c], &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(c.sim("RaceSites"), intLit(site0), siteTable(site0))}}}})
	}
	// zero variables without initialisers first
	for _, c := range ctxs {
		for _, d := range c.file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					if len(vs.Values) == 0 {
						for _, n := range vs.Names {
							if n.Name != "_" {
								addReset(c, &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: call(id("new"), vs.Type)}}})
							}
						}
					}
				}
			}
		}
	}
	specOf := map[types.Object]*ast.ValueSpec{}
	for _, c := range ctxs {
		for _, d := range c.file.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						specOf[info.Defs[n]] = vs
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		var lhs []ast.Expr
		all := true
		for _, v := range in.Lhs {
			if v.Name() != "_" {
				all = false
			}
			lhs = append(lhs, id(v.Name()))
		}
		if all {
			continue
		}
		c := declFile[in.Lhs[0]]
		vs := specOf[in.Lhs[0]]
		if c == nil || vs == nil {
			continue
		}
		// the rewritten initialiser
		var rhs ast.Expr
		if len(vs.Values) == 1 {
			rhs = vs.Values[0]
		} else {
			for i, n := range vs.Names {
				if info.Defs[n] == in.Lhs[0] {
					rhs = vs.Values[i]
				}
			}
		}
		addReset(c, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}})
	}
	// init functions become reset functions
	for _, c := range ctxs {
		for _, d := range c.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				fd.Name = id(fmt.Sprintf("verifReset_%d", len(resets)))
				resets = append(resets, fd.Name.Name)
			}
		}
	}
	if len(resets) > 0 {
		c := ctxs[0]
		var body []ast.Stmt
		for _, r := range resets {
			body = append(body, &ast.ExprStmt{X: call(id(r))})
		}
		extra[c] = append(extra[c], &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(c.sim("RegisterReset"),
				&ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rel)},
				&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})}}}})
	}
	for i, c := range ctxs {
		if len(c.knobs) > 0 {
			var args []ast.Expr
			for _, k := range c.knobs {
				args = append(args, &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(k)})
			}
			extra[c] = append(extra[c], &ast.FuncDecl{Name: id("init"), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(c.sim("KnobsPresent"), args...)}}}})
		}
		c.file.Decls = append(c.file.Decls, extra[c]...)
		if isMain {
			c.file.Name = id("ginimain")
		}
		c.fixImports()
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&buf, token.NewFileSet(), c.file); err != nil {
			die("printing %s: %v", p.GoFiles[i], err)
		}
		dst := filepath.Join(*outD, "src", rel, p.GoFiles[i])
		must(os.MkdirAll(filepath.Dir(dst), 0755))
		must(os.WriteFile(dst, buf.Bytes(), 0644))
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
	}
}

// fineFile tells whether a file has concurrency, in which case every statement is
// a scheduling point; other files yield at function entries and loop bodies.
func fineFile(f *ast.File, info *types.Info) bool {
	r := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SelectStmt, *ast.SendStmt, *ast.ChanType:
			r = true
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				if pn, ok := info.Uses[x].(*types.PkgName); ok {
					switch pn.Imported().Path() {
					case "sync", "sync/atomic", "context":
						r = true
					}
				}
			}
		}
		return true
	})
	return r
}

func (c *ctx) fixImports() {
	used := map[string]bool{}
	for _, d := range c.file.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if x, ok := s.X.(*ast.Ident); ok {
					used[x.Name] = true
				}
			}
			return true
		})
	}
	var decls []ast.Decl
	var specs []ast.Spec
	for _, d := range c.file.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			var name string
			if is.Name != nil {
				name = is.Name.Name
			} else if pn, ok := c.info.Implicits[is].(*types.PkgName); ok {
				name = pn.Imported().Name()
			} else {
				name = filepath.Base(path)
			}
			if name == "_" || name == "." || used[name] {
				specs = append(specs, &ast.ImportSpec{Name: is.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: is.Path.Value}})
			}
		}
	}
	if c.used {
		specs = append(specs, &ast.ImportSpec{Name: id(sim), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}})
	}
	var nd []ast.Decl
	for _, s := range specs {
		nd = append(nd, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	c.file.Imports = nil
	c.file.Decls = append(nd, decls...)
}

func (c *ctx) rewriteFile(isMain bool) {
	for _, d := range c.file.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			d.Doc = nil
			c.fieldList(d.Recv)
			d.Type = c.expr(d.Type).(*ast.FuncType)
			c.fnN = c.rel + "." + d.Name.Name
			if d.Recv != nil && len(d.Recv.List) > 0 {
				c.fnN = c.rel + "." + types.ExprString(d.Recv.List[0].Type) + "." + d.Name.Name
			}
			if d.Body != nil {
				if *race {
					c.findShared(d)
				}
				c.depth++
				c.body(d.Body)
				c.depth--
			}
			if isMain && d.Recv == nil && d.Name.Name == "main" {
				d.Name = id("Main")
			}
		case *ast.GenDecl:
			d.Doc = nil
			if d.Tok == token.IMPORT {
				continue
			}
			c.genDecl(d)
		}
	}
}

func (c *ctx) genDecl(d *ast.GenDecl) {
	for _, s := range d.Specs {
		switch s := s.(type) {
		case *ast.ValueSpec:
			s.Doc, s.Comment = nil, nil
			if d.Tok == token.CONST {
				continue
			}
			s.Type = c.expr(s.Type)
			if len(s.Names) == 2 && len(s.Values) == 1 {
				if r := c.recv2(s.Values[0]); r != nil {
					s.Values[0] = r
					continue
				}
			}
			for i := range s.Values {
				s.Values[i] = c.expr(s.Values[i])
			}
		case *ast.TypeSpec:
			s.Doc, s.Comment = nil, nil
			s.Type = c.expr(s.Type)
		}
	}
}

func (c *ctx) fieldList(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		f.Type = c.expr(f.Type)
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (c *ctx) recv2(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return call(c.sim("Recv2"), c.expr(u.X))
	}
	return nil
}

func (c *ctx) chanType(e ast.Expr) *types.Chan {
	tv, ok := c.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	ch, _ := tv.Type.Underlying().(*types.Chan)
	return ch
}

func isNil(e any) bool {
	switch x := e.(type) {
	case nil:
		return true
	case ast.Expr:
		return x == nil
	}
	return false
}

func (c *ctx) exprs(es []ast.Expr) {
	for i := range es {
		es[i] = c.expr(es[i])
	}
}

func (c *ctx) knob(e ast.Expr, name string) ast.Expr {
	tv, ok := c.info.Types[e]
	if !ok || tv.Value == nil || tv.Type == nil {
		return e
	}
	b, ok := tv.Type.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
		return e
	}
	v, ok := constant.Int64Val(constant.ToInt(tv.Value))
	if !ok {
		return e
	}
	if _, named := tv.Type.(*types.Basic); !named {
		return e
	}
	c.knobs = append(c.knobs, name)
	return call(id(b.Name()), call(c.sim("Knob"), &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(name)},
		&ast.BasicLit{Kind: token.INT, Value: strconv.FormatInt(v, 10)}))
}

// expr rewrites an expression.
func (c *ctx) expr(e ast.Expr) ast.Expr {
	if *race && c.depth > 0 && !isNil(e) {
		if r := c.raceExpr(e); r != nil {
			return r
		}
	}
	return c.exprOld(e)
}

func (c *ctx) exprOld(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident:
		if c.inXo && c.depth > 0 && knobConsts[x.Name] {
			if _, ok := c.info.Uses[x].(*types.Const); ok {
				return c.knob(x, x.Name)
			}
		}
		return x
	case *ast.BasicLit:
		if c.inXo && c.depth > 0 && x.Kind == token.INT && x.Value == "2048" {
			return c.knob(x, "GcFactor")
		}
		return x
	case *ast.FuncLit:
		x.Type = c.expr(x.Type).(*ast.FuncType)
		c.depth++
		so, af := c.simpleOnly, c.after
		c.simpleOnly, c.after = false, nil
		c.body(x.Body)
		c.simpleOnly, c.after = so, af
		c.depth--
	case *ast.CompositeLit:
		x.Type = c.expr(x.Type)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				// a struct field key must stay as it is
				if _, isId := kv.Key.(*ast.Ident); !isId {
					kv.Key = c.expr(kv.Key)
				} else if tv, ok := c.info.Types[x]; ok && tv.Type != nil {
					t := tv.Type.Underlying()
					if p, ok := t.(*types.Pointer); ok {
						t = p.Elem().Underlying()
					}
					if _, st := t.(*types.Struct); !st {
						kv.Key = c.constSafe(kv.Key)
					}
				}
				kv.Value = c.expr(kv.Value)
			} else {
				x.Elts[i] = c.expr(el)
			}
		}
	case *ast.ParenExpr:
		x.X = c.expr(x.X)
	case *ast.SelectorExpr:
		if xi, ok := x.X.(*ast.Ident); ok {
			if pn, ok := c.info.Uses[xi].(*types.PkgName); ok {
				k := pn.Imported().Path() + "." + x.Sel.Name
				if r, ok := repl[k]; ok {
					return c.sim(r)
				}
				if r, ok := replCall[k]; ok {
					return call(c.sim(r))
				}
				return x
			}
		}
		x.X = c.expr(x.X)
	case *ast.IndexExpr:
		x.X = c.expr(x.X)
		x.Index = c.expr(x.Index)
	case *ast.IndexListExpr:
		x.X = c.expr(x.X)
		c.exprs(x.Indices)
	case *ast.SliceExpr:
		x.X = c.expr(x.X)
		x.Low = c.expr(x.Low)
		x.High = c.expr(x.High)
		x.Max = c.expr(x.Max)
	case *ast.TypeAssertExpr:
		x.X = c.expr(x.X)
		x.Type = c.expr(x.Type)
	case *ast.CallExpr:
		if f, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := c.info.Uses[f].(*types.Builtin); ok {
				if len(x.Args) == 1 {
					if ch := c.chanType(x.Args[0]); ch != nil {
						suffix := ""
						if ch.Dir() == types.SendOnly {
							suffix = "S"
						}
						switch b.Name() {
						case "close":
							return call(c.sim("Close"), c.expr(x.Args[0]))
						case "len":
							return call(c.sim("Len"+suffix), c.expr(x.Args[0]))
						case "cap":
							return call(c.sim("Cap"+suffix), c.expr(x.Args[0]))
						}
					}
				}
			}
		}
		x.Fun = c.expr(x.Fun)
		c.exprs(x.Args)
	case *ast.StarExpr:
		x.X = c.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(c.sim("Recv"), c.expr(x.X))
		}
		x.X = c.expr(x.X)
	case *ast.BinaryExpr:
		x.X = c.expr(x.X)
		x.Y = c.expr(x.Y)
	case *ast.KeyValueExpr:
		x.Key = c.expr(x.Key)
		x.Value = c.expr(x.Value)
	case *ast.ArrayType:
		x.Elt = c.expr(x.Elt)
	case *ast.StructType:
		c.fieldList(x.Fields)
	case *ast.FuncType:
		c.fieldList(x.TypeParams)
		c.fieldList(x.Params)
		c.fieldList(x.Results)
	case *ast.InterfaceType:
		c.fieldList(x.Methods)
	case *ast.MapType:
		x.Key = c.expr(x.Key)
		x.Value = c.expr(x.Value)
	case *ast.ChanType:
		x.Value = c.expr(x.Value)
	case *ast.Ellipsis:
		x.Elt = c.expr(x.Elt)
	}
	return e
}

// constSafe leaves constants alone (map and array keys).
func (c *ctx) constSafe(e ast.Expr) ast.Expr {
	if tv, ok := c.info.Types[e]; ok && tv.Value != nil {
		return e
	}
	return c.expr(e)
}

func (c *ctx) body(b *ast.BlockStmt) {
	b.List = c.stmts(b.List)
	if !c.fine {
		b.List = append([]ast.Stmt{c.y()}, b.List...)
	}
}

func (c *ctx) loopBody(b *ast.BlockStmt) {
	b.List = c.stmts(b.List)
	if !c.fine || len(b.List) == 0 {
		b.List = append([]ast.Stmt{c.y()}, b.List...)
	}
}

func (c *ctx) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		fine := c.fine
		switch x := s.(type) {
		case *ast.DeclStmt:
			fine = false
		case *ast.EmptyStmt:
			fine = false
		case *ast.LabeledStmt:
			// a label may be a goto target
			if !c.fine {
				x.Stmt = c.stmt1(x.Stmt, x.Label)
				if lb, ok := x.Stmt.(*ast.BlockStmt); ok && labelInside(lb, x.Label.Name) {
					out = append(out, lb)
				} else {
					out = append(out, c.y(), s)
				}
				continue
			}
		}
		if fine {
			out = append(out, c.y())
		}
		if ls, ok := s.(*ast.LabeledStmt); ok {
			r := c.stmt1(ls.Stmt, ls.Label)
			if lb, ok := r.(*ast.BlockStmt); ok && labelInside(lb, ls.Label.Name) {
				out = append(out, lb)
				continue
			}
			ls.Stmt = r
			// a goto back to the label must pass a scheduling point
			out = append(out, ls)
			continue
		}
		out = append(out, c.stmt1(s, nil))
		out = append(out, c.after...)
		c.after = nil
	}
	return out
}

func labelInside(b *ast.BlockStmt, name string) bool {
	for _, s := range b.List {
		if l, ok := s.(*ast.LabeledStmt); ok && l.Label.Name == name {
			return true
		}
	}
	return false
}

func (c *ctx) stmtOpt(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	if _, isIf := s.(*ast.IfStmt); isIf {
		return c.stmt1(s, nil)
	}
	if _, isB := s.(*ast.BlockStmt); isB {
		return c.stmt1(s, nil)
	}
	o := c.simpleOnly
	c.simpleOnly = true
	r := c.stmt1(s, nil)
	c.simpleOnly = o
	return r
}

func (c *ctx) simple(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return c.simple(x.X)
	case *ast.StarExpr:
		return c.simple(x.X)
	}
	return false
}

func hasCall(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if f, ok := x.Fun.(*ast.Ident); ok {
				switch f.Name {
				case "len", "cap", "append", "int", "uint", "int64", "uint32", "min", "max":
					return true
				}
			}
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		case *ast.FuncLit:
			r = true
		}
		return true
	})
	return r
}

// sharedTarget: a field or a package variable, which other tasks may also use.
func (c *ctx) sharedTarget(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr:
		return c.simple(x.X)
	case *ast.Ident:
		if v, ok := c.info.Uses[x].(*types.Var); ok {
			return v.Parent() == c.pkg.Scope()
		}
	}
	return false
}

var opAssign = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func block(l ...ast.Stmt) *ast.BlockStmt { return &ast.BlockStmt{List: l} }

func lab(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

// stmt1 rewrites one statement; if it returns a block holding the label itself the
// caller must not label it again.
func (c *ctx) stmt1(s ast.Stmt, label *ast.Ident) ast.Stmt {
	switch x := s.(type) {
	case *ast.DeclStmt:
		c.genDecl(x.Decl.(*ast.GenDecl))
	case *ast.LabeledStmt:
		x.Stmt = c.stmt1(x.Stmt, nil)
	case *ast.ExprStmt:
		x.X = c.expr(x.X)
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(c.sim("SendC"), c.expr(x.Chan)), c.expr(x.Value))}
	case *ast.IncDecStmt:
		if *race {
			x.X = c.lhs(x.X, !c.syncs(x.X))
			return x
		}
		split := c.fine && c.sharedTarget(x.X)
		x.X = c.expr(x.X)
		if split {
			t := c.tmp("t")
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return block(def(t, x.X), c.y(), &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN,
				Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: op, Y: intLit(1)}}})
		}
	case *ast.AssignStmt:
		if *race && c.depth > 0 {
			return c.raceAssign(x)
		}
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if r := c.recv2(x.Rhs[0]); r != nil {
				c.exprs(x.Lhs)
				x.Rhs[0] = r
				return x
			}
		}
		split := 0
		if c.fine && len(x.Lhs) == 1 && len(x.Rhs) == 1 && c.sharedTarget(x.Lhs[0]) && !hasCall(x.Rhs[0]) {
			if _, ok := opAssign[x.Tok]; ok {
				split = 1
			} else if x.Tok == token.ASSIGN {
				tv := c.info.Types[x.Rhs[0]]
				lt := c.info.Types[x.Lhs[0]]
				if tv.Value == nil && tv.Type != nil && lt.Type != nil && types.Identical(tv.Type, lt.Type) {
					ls := types.ExprString(x.Lhs[0])
					ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
						if e, ok := n.(ast.Expr); ok && types.ExprString(e) == ls {
							split = 2
						}
						return true
					})
				}
			}
		}
		c.exprs(x.Lhs)
		c.exprs(x.Rhs)
		switch split {
		case 1:
			t := c.tmp("t")
			return block(def(t, x.Lhs[0]), c.y(), &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN,
				Rhs: []ast.Expr{&ast.BinaryExpr{X: id(t), Op: opAssign[x.Tok], Y: &ast.ParenExpr{X: x.Rhs[0]}}}})
		case 2:
			t := c.tmp("t")
			return block(def(t, x.Rhs[0]), c.y(), &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
		}
	case *ast.GoStmt:
		return c.goStmt(x)
	case *ast.DeferStmt:
		x.Call = c.deferCall(x.Call)
	case *ast.ReturnStmt:
		c.exprs(x.Results)
	case *ast.BlockStmt:
		x.List = c.stmts(x.List)
	case *ast.IfStmt:
		x.Init = c.stmtOpt(x.Init)
		x.Init = c.noBlockInit(x.Init)
		x.Cond = c.expr(x.Cond)
		x.Body.List = c.stmts(x.Body.List)
		x.Else = c.stmtOpt(x.Else)
	case *ast.CaseClause:
		for i := range x.List {
			x.List[i] = c.constSafe(x.List[i])
		}
		x.Body = c.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = c.noBlockInit(c.stmtOpt(x.Init))
		x.Tag = c.expr(x.Tag)
		for i := range x.Body.List {
			x.Body.List[i] = c.stmt1(x.Body.List[i], nil)
		}
	case *ast.TypeSwitchStmt:
		x.Init = c.noBlockInit(c.stmtOpt(x.Init))
		x.Assign = c.stmtOpt(x.Assign)
		for i := range x.Body.List {
			cc := x.Body.List[i].(*ast.CaseClause)
			c.exprs(cc.List)
			cc.Body = c.stmts(cc.Body)
		}
	case *ast.ForStmt:
		x.Init = c.noBlockInit(c.stmtOpt(x.Init))
		x.Cond = c.expr(x.Cond)
		x.Post = c.noBlockInit(c.stmtOpt(x.Post))
		c.loopBody(x.Body)
	case *ast.RangeStmt:
		return c.rangeStmt(x, label)
	case *ast.SelectStmt:
		return c.selectStmt(x, label)
	}
	return s
}

// noBlockInit undoes a split in a place where only simple statements may stand.
func (c *ctx) noBlockInit(s ast.Stmt) ast.Stmt {
	b, ok := s.(*ast.BlockStmt)
	if !ok {
		return s
	}
	// t := lhs ; Y ; lhs = t op e
	t := b.List[0].(*ast.AssignStmt)
	as := b.List[2].(*ast.AssignStmt)
	if be, ok := as.Rhs[0].(*ast.BinaryExpr); ok {
		if i, ok := be.X.(*ast.Ident); ok && i.Name == t.Lhs[0].(*ast.Ident).Name {
			be.X = t.Rhs[0]
			return as
		}
	}
	as.Rhs[0] = t.Rhs[0]
	return as
}

func (c *ctx) deferCall(ce *ast.CallExpr) *ast.CallExpr {
	r := c.expr(ce)
	return r.(*ast.CallExpr)
}

// local tells whether an identifier is a variable of a function.
func (c *ctx) local(x *ast.Ident) bool {
	v, ok := c.info.Uses[x].(*types.Var)
	return ok && !v.IsField() && v.Parent() != nil && v.Parent() != c.pkg.Scope() && v.Parent() != types.Universe
}

// captured returns the addresses of the variables which a function literal uses of the
// functions around it.
func (c *ctx) captured(f *ast.FuncLit) []ast.Expr {
	var r []ast.Expr
	seen := map[types.Object]bool{}
	ast.Inspect(f.Body, func(n ast.Node) bool {
		if x, ok := n.(*ast.Ident); ok && c.local(x) {
			v := c.info.Uses[x]
			if !seen[v] && (v.Pos() < f.Pos() || v.Pos() >= f.End()) {
				seen[v] = true
				r = append(r, &ast.UnaryExpr{Op: token.AND, X: id(x.Name)})
			}
		}
		return true
	})
	return r
}

func (c *ctx) goStmt(g *ast.GoStmt) ast.Stmt {
	name := &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(c.fnN)}
	ce := g.Call
	var held []ast.Expr
	goNamed := func(f ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: call(c.sim("GoNamed"), append([]ast.Expr{name, f}, held...)...)}
	}
	switch f := unparen(ce.Fun).(type) {
	case *ast.FuncLit:
		held = c.captured(f)
	case *ast.SelectorExpr:
		if x, ok := f.X.(*ast.Ident); ok && c.local(x) {
			held = append(held, id(x.Name))
		}
	}
	if fl, ok := unparen(ce.Fun).(*ast.FuncLit); ok && len(ce.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		return goNamed(c.expr(fl))
	}
	builtin := false
	if f, ok := unparen(ce.Fun).(*ast.Ident); ok {
		_, builtin = c.info.Uses[f].(*types.Builtin)
	}
	var pre []ast.Stmt
	isConst := make([]bool, len(ce.Args))
	for i, a := range ce.Args {
		tv := c.info.Types[a]
		isConst[i] = tv.Value != nil || tv.IsNil()
	}
	var fun ast.Expr
	if builtin {
		r := c.expr(ce)
		return goNamed(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: r})})
	}
	direct := false
	if f, ok := unparen(ce.Fun).(*ast.Ident); ok {
		if _, ok := c.info.Uses[f].(*types.Func); ok {
			direct = true
		}
	}
	if s, ok := unparen(ce.Fun).(*ast.SelectorExpr); ok {
		if xi, ok := s.X.(*ast.Ident); ok {
			if _, ok := c.info.Uses[xi].(*types.PkgName); ok {
				direct = true
			}
		}
	}
	fun = c.expr(ce.Fun)
	if !direct {
		n := c.tmp("f")
		pre = append(pre, def(n, fun))
		fun = id(n)
	}
	args := make([]ast.Expr, len(ce.Args))
	for i, a := range ce.Args {
		if isConst[i] {
			args[i] = c.expr(a)
			continue
		}
		n := c.tmp("a")
		pre = append(pre, def(n, c.expr(a)))
		args[i] = id(n)
		held = append(held, id(n))
	}
	nc := &ast.CallExpr{Fun: fun, Args: args}
	if ce.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	st := goNamed(&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: block(&ast.ExprStmt{X: nc})})
	if len(pre) == 0 {
		return st
	}
	return block(append(pre, st)...)
}

func (c *ctx) rangeStmt(x *ast.RangeStmt, label *ast.Ident) ast.Stmt {
	tv := c.info.Types[x.X]
	var u types.Type
	if tv.Type != nil {
		u = tv.Type.Underlying()
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		i, ok := e.(*ast.Ident)
		return ok && i.Name == "_"
	}
	switch u.(type) {
	case *types.Chan:
		ch := c.tmp("c")
		ok := c.tmp("ok")
		v := "_"
		if !blank(x.Key) {
			v = c.tmp("v")
		}
		key := x.Key
		if !blank(key) && x.Tok == token.ASSIGN {
			key = c.target(key)
		}
		chx := c.expr(x.X)
		c.loopBody(x.Body)
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(v), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(c.sim("Recv2"), id(ch))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: token.BREAK})},
		}
		if v != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: x.Tok, Rhs: []ast.Expr{id(v)}})
		}
		return &ast.ForStmt{Init: def(ch, chx), Body: block(append(pre, x.Body)...)}
	case *types.Map:
		var outer []ast.Stmt
		var mx ast.Expr
		if _, ok := unparen(x.X).(*ast.Ident); ok {
			mx = x.X
		} else {
			n := c.tmp("m")
			outer = append(outer, def(n, c.expr(x.X)))
			mx = id(n)
		}
		kn, vn, ok := c.tmp("k"), "_", c.tmp("ok")
		if !blank(x.Value) {
			vn = c.tmp("v")
		}
		key, val := x.Key, x.Value
		if x.Tok == token.ASSIGN {
			key, val = c.target(key), c.target(val)
		}
		c.loopBody(x.Body)
		pre := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(vn), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: mx, Index: id(kn)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: block(&ast.BranchStmt{Tok: token.CONTINUE})},
		}
		if !blank(key) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{key}, Tok: x.Tok, Rhs: []ast.Expr{id(kn)}})
		}
		if vn != "_" {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val}, Tok: x.Tok, Rhs: []ast.Expr{id(vn)}})
		}
		var f ast.Stmt = &ast.RangeStmt{Key: id("_"), Value: id(kn), Tok: token.DEFINE, X: call(c.sim("MapKeys"), c.mapRead(mx, x.X)), Body: block(append(pre, x.Body)...)}
		if len(outer) == 0 {
			return f
		}
		return block(append(outer, lab(label, f))...)
	}
	if x.Tok == token.ASSIGN {
		x.Key, x.Value = c.target(x.Key), c.target(x.Value)
	}
	if *race && !blank(x.Value) && x.Tok == token.DEFINE && !(label != nil && c.gotoTarget(label.Name)) {
		if _, ok := u.(*types.Slice); ok {
			sl := c.tmp("r")
			st := c.site(x.X)
			outer := def(sl, c.expr(x.X))
			x.X = id(sl)
			key := ""
			if blank(x.Key) {
				key = c.tmp("i")
				x.Key = id(key)
			} else {
				key = x.Key.(*ast.Ident).Name
			}
			c.loopBody(x.Body)
			x.Body.List = append([]ast.Stmt{&ast.ExprStmt{X: call(c.sim("RaceR"), &ast.UnaryExpr{Op: token.AND, X: &ast.IndexExpr{X: id(sl), Index: id(key)}}, st)}}, x.Body.List...)
			return block(outer, lab(label, x))
		}
	}
	if *race && u != nil {
		if _, ok := u.(*types.Array); ok && tv.Addressable() {
			x.X = c.place(x.X)
			c.loopBody(x.Body)
			return x
		}
	}
	x.X = c.expr(x.X)
	c.loopBody(x.Body)
	return x
}

func (c *ctx) gotoTarget(name string) bool {
	r := false
	ast.Inspect(c.file, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.GOTO && b.Label.Name == name {
			r = true
		}
		return true
	})
	return r
}

// target rewrites a variable which is assigned to.
func (c *ctx) target(e ast.Expr) ast.Expr {
	if e == nil || !*race {
		return c.expr(e)
	}
	return c.lhs(e, false)
}

func (c *ctx) mapRead(m ast.Expr, at ast.Expr) ast.Expr {
	if !*race {
		return m
	}
	if i, ok := m.(*ast.Ident); ok {
		if _, ok := c.info.Uses[i]; ok && c.tracked(m) {
			m = c.ptr("RaceR", m)
		}
	}
	return call(c.sim("RaceRM"), m, c.site(at))
}

func (c *ctx) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(id("panic"), call(c.sim("BlockForever")))}
	}
	var pre []ast.Stmt
	hasDef := false
	var cases []ast.Expr
	var clauses []*ast.CaseClause
	var defClause *ast.CaseClause
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			defClause = &ast.CaseClause{Body: c.stmts(cc.Body)}
			continue
		}
		n := c.tmp("s")
		var first []ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, def(n, call(call(c.sim("NewSend"), c.expr(s.Chan)), c.expr(s.Value))))
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			pre = append(pre, def(n, call(c.sim("NewRecv"), c.expr(u.X))))
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			pre = append(pre, def(n, call(c.sim("NewRecv"), c.expr(u.X))))
			rhs := []ast.Expr{&ast.SelectorExpr{X: id(n), Sel: id("V")}}
			if len(s.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: id(n), Sel: id("Ok")})
			}
			if s.Tok == token.ASSIGN {
				for i := range s.Lhs {
					s.Lhs[i] = c.target(s.Lhs[i])
				}
			}
			allBlank := true
			for _, l := range s.Lhs {
				if i, ok := l.(*ast.Ident); !ok || i.Name != "_" {
					allBlank = false
				}
			}
			if !allBlank {
				first = append(first, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs})
			}
		}
		body := append(first, c.stmts(cc.Body)...)
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{intLit(len(cases))}, Body: body})
		cases = append(cases, id(n))
	}
	if defClause == nil {
		clauses[len(clauses)-1].List = nil
	} else {
		clauses = append(clauses, defClause)
	}
	sort.SliceStable(clauses, func(i, j int) bool { return len(clauses[i].List) > len(clauses[j].List) })
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	sw.Tag = call(c.sim("Select"), append([]ast.Expr{id(strconv.FormatBool(hasDef))}, cases...)...)
	for _, cl := range clauses {
		sw.Body.List = append(sw.Body.List, cl)
	}
	pre = append(pre, lab(label, sw))
	return block(pre...)
}
