package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// Race mode: every load and store of memory which another goroutine could reach is
// reported to simrt, which orders accesses by the synchronisation of the simulated
// primitives. Variables which no other goroutine can name are left alone.

var raceSites []string

func (c *ctx) site(e ast.Expr) ast.Expr {
	p := c.fset.Position(e.Pos())
	f := p.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	if c.rel != "." {
		f = c.rel + "/" + f
	}
	raceSites = append(raceSites, fmt.Sprintf("%s:%d %s", f, p.Line, c.fnN))
	return intLit(len(raceSites) - 1)
}

func siteTable(from int) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(strings.Join(raceSites[from:], "\n"))}
}

// findShared marks the local variables which closures use or whose address is taken.
func (c *ctx) findShared(fd *ast.FuncDecl) {
	var lits []*ast.FuncLit
	mark := func(id *ast.Ident) {
		if v, ok := c.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Parent() != c.pkg.Scope() {
			c.shared[v] = true
		}
	}
	var root func(e ast.Expr)
	root = func(e ast.Expr) {
		switch x := unparen(e).(type) {
		case *ast.Ident:
			mark(x)
		case *ast.SelectorExpr:
			if tv := c.info.Types[x.X]; tv.Type != nil && !isPtr(tv.Type) {
				root(x.X)
			}
		case *ast.IndexExpr:
			if tv := c.info.Types[x.X]; tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Array); ok {
					root(x.X)
				}
			}
		}
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				root(x.X)
			}
		}
		return true
	})
	for _, l := range lits {
		ast.Inspect(l.Body, func(n ast.Node) bool {
			if i, ok := n.(*ast.Ident); ok {
				if v, ok := c.info.Uses[i].(*types.Var); ok && (v.Pos() < l.Pos() || v.Pos() >= l.End()) {
					mark(i)
				}
			}
			return true
		})
	}
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// tracked tells whether e denotes memory which another goroutine could reach.
func (c *ctx) tracked(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		if v, ok := c.info.Uses[x].(*types.Var); ok && !v.IsField() {
			return v.Parent() == c.pkg.Scope() || c.shared[v]
		}
	case *ast.SelectorExpr:
		if xi, ok := x.X.(*ast.Ident); ok {
			if pn, ok := c.info.Uses[xi].(*types.PkgName); ok {
				_, v := c.info.Uses[x.Sel].(*types.Var)
				return v && strings.HasPrefix(pn.Imported().Path()+"/", modPath+"/")
			}
		}
		s := c.info.Selections[x]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return c.tracked(x.X)
	case *ast.IndexExpr:
		switch t := c.info.Types[x.X].Type.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := t.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return c.tracked(x.X)
		}
	case *ast.StarExpr:
		return true
	}
	return false
}

// place rewrites e, which denotes a variable, without loading it.
func (c *ctx) place(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = c.place(x.X)
	case *ast.SelectorExpr:
		if xi, ok := x.X.(*ast.Ident); ok {
			if _, ok := c.info.Uses[xi].(*types.PkgName); ok {
				return c.exprOld(x)
			}
		}
		if tv := c.info.Types[x.X]; tv.Type != nil && !isPtr(tv.Type) && tv.Addressable() {
			x.X = c.place(x.X)
		} else {
			x.X = c.expr(x.X)
		}
	case *ast.IndexExpr:
		tv := c.info.Types[x.X]
		if _, ok := tv.Type.Underlying().(*types.Array); ok && tv.Addressable() {
			x.X = c.place(x.X)
		} else {
			x.X = c.expr(x.X)
		}
		x.Index = c.expr(x.Index)
	case *ast.StarExpr:
		x.X = c.expr(x.X)
	case *ast.Ident:
	default:
		return c.exprOld(e)
	}
	return e
}

func (c *ctx) ptr(fn string, e ast.Expr) ast.Expr {
	s := c.site(e)
	var a ast.Expr
	if st, ok := unparen(e).(*ast.StarExpr); ok {
		a = c.expr(st.X)
	} else {
		a = &ast.UnaryExpr{Op: token.AND, X: c.place(e)}
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(c.sim(fn), a, s)}}
}

func (c *ctx) isMap(e ast.Expr) bool {
	tv := c.info.Types[e]
	if tv.Type == nil || !tv.IsValue() {
		return false
	}
	_, ok := tv.Type.Underlying().(*types.Map)
	return ok
}

// lhs rewrites the target of an assignment; with mark, the store is reported.
func (c *ctx) lhs(e ast.Expr, mark bool) ast.Expr {
	if i, ok := unparen(e).(*ast.Ident); ok && i.Name == "_" {
		return e
	}
	if x, ok := unparen(e).(*ast.IndexExpr); ok && c.isMap(x.X) {
		if mark {
			s := c.site(e)
			x.X = call(c.sim("RaceWM"), c.expr(x.X), s)
		} else {
			x.X = c.expr(x.X)
		}
		x.Index = c.expr(x.Index)
		return x
	}
	if mark && c.tracked(e) {
		return c.ptr("RaceW", e)
	}
	return c.place(e)
}

var stdObjects = map[string]bool{"bufio": true, "bytes": true, "strings": true, "math/rand": true, "encoding/json": true, "text/tabwriter": true}

// raceExpr rewrites e if it is something race mode cares about, or returns nil.
func (c *ctx) raceExpr(e ast.Expr) ast.Expr {
	tv, ok := c.info.Types[e]
	if ok && (tv.Value != nil || tv.IsType()) {
		return nil
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.StarExpr:
		if ok && tv.IsValue() && c.tracked(e) {
			return c.ptr("RaceR", e)
		}
	case *ast.IndexExpr:
		xv := c.info.Types[x.X]
		if !ok || !tv.IsValue() || !xv.IsValue() || xv.Type == nil {
			return nil
		}
		if c.isMap(x.X) {
			s := c.site(e)
			x.X = call(c.sim("RaceRM"), c.expr(x.X), s)
			x.Index = c.expr(x.Index)
			return x
		}
		if _, isF := xv.Type.Underlying().(*types.Signature); isF {
			return nil
		}
		if tv.Addressable() {
			if c.tracked(e) {
				return c.ptr("RaceR", e)
			}
			return c.place(e)
		}
	case *ast.SelectorExpr:
		if xi, ok := x.X.(*ast.Ident); ok {
			if pn, ok := c.info.Uses[xi].(*types.PkgName); ok {
				k := pn.Imported().Path() + "." + x.Sel.Name
				if repl[k] == "" && replCall[k] == "" && c.tracked(x) {
					return c.ptr("RaceR", e)
				}
				return nil
			}
		}
		s := c.info.Selections[x]
		if s == nil {
			return nil
		}
		switch s.Kind() {
		case types.FieldVal:
			if tv.Addressable() {
				if c.tracked(e) {
					return c.ptr("RaceR", e)
				}
				return c.place(e)
			}
		case types.MethodVal:
			xt := c.info.Types[x.X]
			sig, _ := s.Obj().Type().(*types.Signature)
			if sig == nil || sig.Recv() == nil || xt.Type == nil {
				return nil
			}
			pkg := ""
			if s.Obj().Pkg() != nil {
				pkg = s.Obj().Pkg().Path()
			}
			st := c.site(e)
			if isPtr(sig.Recv().Type()) && !isPtr(xt.Type) && xt.Addressable() {
				direct := len(s.Index()) == 1
				x.X = c.place(x.X)
				if pkg == "sync/atomic" && direct {
					x.X = call(c.sim("RaceAtomic"), &ast.UnaryExpr{Op: token.AND, X: x.X}, atomicOp(s.Obj().Name()), st)
				} else if stdObjects[pkg] && direct {
					x.X = call(c.sim("RaceObj"), &ast.UnaryExpr{Op: token.AND, X: x.X}, st)
				}
				return x
			}
			x.X = c.expr(x.X)
			if isPtr(xt.Type) && len(s.Index()) == 1 {
				if pkg == "sync/atomic" {
					x.X = call(c.sim("RaceAtomic"), x.X, atomicOp(s.Obj().Name()), st)
				} else if stdObjects[pkg] {
					x.X = call(c.sim("RaceObj"), x.X, st)
				}
			}
			return x
		}
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			if _, lit := unparen(x.X).(*ast.CompositeLit); !lit {
				x.X = c.place(x.X)
				return x
			}
		}
	case *ast.SliceExpr:
		xv := c.info.Types[x.X]
		if xv.Type != nil {
			if _, arr := xv.Type.Underlying().(*types.Array); arr {
				x.X = c.place(x.X)
				x.Low, x.High, x.Max = c.expr(x.Low), c.expr(x.High), c.expr(x.Max)
				return x
			}
		}
	case *ast.CallExpr:
		if f, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := c.info.Uses[f].(*types.Builtin); ok {
				return c.raceBuiltin(x, b.Name())
			}
		}
		if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
			if xi, ok := s.X.(*ast.Ident); ok {
				if pn, ok := c.info.Uses[xi].(*types.PkgName); ok && pn.Imported().Path() == "sync/atomic" && len(x.Args) > 0 {
					c.exprs(x.Args)
					x.Args[0] = call(c.sim("RaceAtomic"), x.Args[0], atomicOp(s.Sel.Name), c.site(x))
					return x
				}
			}
		}
	}
	return nil
}

func (c *ctx) raceBuiltin(x *ast.CallExpr, name string) ast.Expr {
	switch name {
	case "len":
		if c.isMap(x.Args[0]) {
			s := c.site(x)
			x.Args[0] = call(c.sim("RaceRM"), c.expr(x.Args[0]), s)
			return x
		}
	case "delete":
		s := c.site(x)
		c.exprs(x.Args)
		x.Args[0] = call(c.sim("RaceWM"), x.Args[0], s)
		return x
	case "copy":
		if b, ok := c.info.Types[x.Args[1]].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return nil
		}
		if c.isNilExpr(x.Args[0]) || c.isNilExpr(x.Args[1]) {
			return nil
		}
		s := c.site(x)
		c.exprs(x.Args)
		return call(c.sim("RaceCopy"), x.Args[0], x.Args[1], s)
	case "append":
		if len(x.Args) < 2 || c.isNilExpr(x.Args[0]) {
			return nil
		}
		if _, ok := c.info.Types[x.Args[0]].Type.Underlying().(*types.Slice); !ok {
			return nil
		}
		for _, a := range x.Args[1:] {
			if hasCall(a) {
				// the arguments may synchronise
				if ce, ok := unparen(a).(*ast.CallExpr); !ok || !c.pure(ce) {
					return nil
				}
			}
		}
		s := c.site(x)
		if x.Ellipsis.IsValid() {
			if b, ok := c.info.Types[x.Args[1]].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 || c.isNilExpr(x.Args[1]) {
				return nil
			}
			c.exprs(x.Args)
			return call(c.sim("RaceAppend"), x.Args[0], x.Args[1], s)
		}
		n := len(x.Args) - 1
		c.exprs(x.Args)
		x.Args[0] = call(c.sim("RaceApp"), x.Args[0], intLit(n), s)
		return x
	}
	return nil
}

// pure: a conversion of something without calls.
func (c *ctx) pure(ce *ast.CallExpr) bool {
	tv, ok := c.info.Types[ce.Fun]
	return ok && tv.IsType() && len(ce.Args) == 1 && !hasCall(ce.Args[0])
}

func (c *ctx) isNilExpr(e ast.Expr) bool {
	tv := c.info.Types[e]
	return tv.IsNil()
}

// syncs tells whether evaluating e may run code which synchronises.
func (c *ctx) syncs(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if tv, ok := c.info.Types[x.Fun]; ok && tv.IsType() {
				return true
			}
			if f, ok := unparen(x.Fun).(*ast.Ident); ok {
				if _, ok := c.info.Uses[f].(*types.Builtin); ok {
					return true
				}
			}
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return r
}

// raceAssign rewrites an assignment so that stores are reported just before they happen.
// simple: only a simple statement may result.
func (c *ctx) raceAssign(x *ast.AssignStmt) ast.Stmt {
	simple := c.simpleOnly
	if x.Tok == token.DEFINE {
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if r := c.recv2(x.Rhs[0]); r != nil {
				x.Rhs[0] = r
				return x
			}
		}
		c.exprs(x.Rhs)
		if simple {
			return x
		}
		l := []ast.Stmt{x}
		for _, e := range x.Lhs {
			if i, ok := e.(*ast.Ident); ok {
				if v, ok := c.info.Uses[i].(*types.Var); ok && c.shared[v] {
					l = append(l, &ast.ExprStmt{X: call(c.sim("RaceW"), &ast.UnaryExpr{Op: token.AND, X: id(i.Name)}, c.site(i))})
				}
			}
		}
		if len(l) > 1 {
			c.after = append(c.after, l[1:]...)
		}
		return x
	}
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if r := c.recv2(x.Rhs[0]); r != nil {
			if simple {
				for i := range x.Lhs {
					x.Lhs[i] = c.lhs(x.Lhs[i], false)
				}
				x.Rhs[0] = r
				return x
			}
			return c.viaTemps(x, []ast.Expr{r})
		}
	}
	sync := false
	for _, r := range x.Rhs {
		sync = sync || c.syncs(r)
	}
	lsync := false
	for _, l := range x.Lhs {
		lsync = lsync || c.syncs(l)
	}
	if !sync {
		for i := range x.Lhs {
			x.Lhs[i] = c.lhs(x.Lhs[i], true)
		}
		c.exprs(x.Rhs)
		return x
	}
	any := false
	for _, l := range x.Lhs {
		if i, ok := unparen(l).(*ast.Ident); ok && i.Name == "_" {
			continue
		}
		if xi, ok := unparen(l).(*ast.IndexExpr); ok && c.isMap(xi.X) || c.tracked(l) {
			any = true
		}
	}
	if simple || lsync || !any {
		for i := range x.Lhs {
			x.Lhs[i] = c.lhs(x.Lhs[i], false)
		}
		c.exprs(x.Rhs)
		return x
	}
	rhs := make([]ast.Expr, len(x.Rhs))
	for i, r := range x.Rhs {
		tv := c.info.Types[r]
		rhs[i] = c.expr(r)
		if len(x.Lhs) == len(x.Rhs) {
			if tv.IsNil() || tv.Value != nil {
				continue
			}
			if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped == 0 && b.Kind() != types.UnsafePointer {
				rhs[i] = call(id(b.Name()), rhs[i])
			}
			if n, ok := tv.Type.(*types.Named); ok {
				if b, ok := n.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					// a comparison takes the type of its target
					for k := range x.Lhs {
						x.Lhs[k] = c.lhs(x.Lhs[k], false)
					}
					for k := i + 1; k < len(x.Rhs); k++ {
						rhs[k] = c.expr(x.Rhs[k])
					}
					x.Rhs = rhs
					return x
				}
			}
		}
	}
	return c.viaTemps(x, rhs)
}

func (c *ctx) viaTemps(x *ast.AssignStmt, rhs []ast.Expr) ast.Stmt {
	var names, vals []ast.Expr
	var srcs []ast.Expr
	n := len(x.Lhs)
	for i := 0; i < n; i++ {
		if len(rhs) == n {
			tv, ok := c.info.Types[x.Rhs[i]]
			if ok && (tv.IsNil() || tv.Value != nil) {
				vals = append(vals, rhs[i])
				continue
			}
		}
		if li, ok := unparen(x.Lhs[i]).(*ast.Ident); ok && li.Name == "_" {
			names = append(names, id("_"))
			vals = append(vals, nil)
		} else {
			t := c.tmp("t")
			names = append(names, id(t))
			vals = append(vals, id(t))
		}
		if len(rhs) == n {
			srcs = append(srcs, rhs[i])
		}
	}
	if len(rhs) != n {
		srcs = rhs
	}
	as := &ast.AssignStmt{Tok: x.Tok}
	for i := 0; i < n; i++ {
		if vals[i] == nil {
			continue
		}
		as.Lhs = append(as.Lhs, c.lhs(x.Lhs[i], true))
		as.Rhs = append(as.Rhs, vals[i])
	}
	tok := token.DEFINE
	all := true
	for _, nm := range names {
		if nm.(*ast.Ident).Name != "_" {
			all = false
		}
	}
	if all {
		tok = token.ASSIGN
	}
	pre := &ast.AssignStmt{Lhs: names, Tok: tok, Rhs: srcs}
	if len(as.Lhs) == 0 {
		return pre
	}
	return block(pre, as)
}

// atomicOp is the kind of operation which a function of sync/atomic is.
func atomicOp(name string) ast.Expr {
	k := "2"
	if strings.HasPrefix(name, "Load") {
		k = "0"
	} else if strings.HasPrefix(name, "Store") {
		k = "1"
	}
	return &ast.BasicLit{Kind: token.INT, Value: k}
}
