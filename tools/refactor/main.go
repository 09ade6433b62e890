// Command refactor applies a mechanical, behaviour-preserving rewriting to the non-test sources of a
// scratch copy of the repository. Development only: the checks have to stay quiet on the result.
//
//	refactor DIR NAME [SITE]   apply NAME at every site, or at site number SITE only
//	refactor -list             the names
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var anyRe = regexp.MustCompile(`\bany\b`)

type ctx struct {
	pkg   *packages.Package
	info  *types.Info
	fset  *token.FileSet
	file  *ast.File
	fn    *ast.FuncDecl
	stack []ast.Node
	want  int
	n     int
	seq   int
	hits  int
	add   []string // declarations to append to the file
	names map[string]bool
}

// wanted: -1 means every site, other negative numbers are seeds that choose about every third.
func wanted(want, n int) bool {
	if want < -1 {
		h := uint32(n+1) * 2654435761 * uint32(-want)
		h ^= h >> 13
		h *= 2246822519
		return (h>>7)%3 == 0
	}
	return want < 0 || want == n
}

// hit: apply here?
func (c *ctx) hit() bool {
	c.n++
	if wanted(c.want, c.n-1) {
		c.hits++
		return true
	}
	return false
}

func (c *ctx) name(p string) string {
	for {
		c.seq++
		s := fmt.Sprintf("%s%d", p, c.seq)
		if !c.names[s] {
			return s
		}
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func paren(e ast.Expr) ast.Expr {
	switch e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.CallExpr, *ast.ParenExpr, *ast.BasicLit, *ast.IndexExpr:
		return e
	}
	return &ast.ParenExpr{X: e}
}

func not(e ast.Expr) ast.Expr {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	return &ast.UnaryExpr{Op: token.NOT, X: paren(e)}
}

func text(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	return b.String()
}

func expr(s string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(s + ": " + err.Error())
	}
	return e
}

// block parses statements.
func block(s string) []ast.Stmt {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", "package x\nfunc _() {\n"+s+"\n}", 0)
	if err != nil {
		panic(s + ": " + err.Error())
	}
	l := f.Decls[0].(*ast.FuncDecl).Body.List
	clearPos(f)
	return l
}

func clearPos(ast.Node) {}

func terminating(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt, *ast.BranchStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if f, ok := c.Fun.(*ast.Ident); ok && f.Name == "panic" {
				return true
			}
		}
	case *ast.BlockStmt:
		return len(s.List) > 0 && terminating(s.List[len(s.List)-1])
	}
	return false
}

// has: some node under n (function literals excluded unless lits) satisfies f.
func has(n ast.Node, lits bool, f func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil || found {
			return false
		}
		if _, ok := x.(*ast.FuncLit); ok && !lits && x != n {
			return false
		}
		if f(x) {
			found = true
		}
		return !found
	})
	return found
}

func calls(n ast.Node) bool {
	return has(n, true, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			return true
		case *ast.UnaryExpr:
			return x.Op == token.ARROW
		}
		return false
	})
}

func callsRecover(n ast.Node) bool {
	return has(n, false, func(x ast.Node) bool {
		c, ok := x.(*ast.CallExpr)
		if !ok {
			return false
		}
		f, ok := c.Fun.(*ast.Ident)
		return ok && f.Name == "recover"
	})
}

// escapes: control leaves the statement other than by falling out of its end.
func escapes(s ast.Node) bool {
	esc := false
	var walk func(n ast.Node, brk, cont bool)
	walk = func(n ast.Node, brk, cont bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == n {
				return true
			}
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt, *ast.LabeledStmt, *ast.DeferStmt:
				esc = true
			case *ast.BranchStmt:
				if x.Label != nil || x.Tok == token.GOTO || x.Tok == token.BREAK && !brk || x.Tok == token.CONTINUE && !cont {
					esc = true
				}
			case *ast.ForStmt:
				walk(x.Body, true, true)
				return false
			case *ast.RangeStmt:
				walk(x.Body, true, true)
				return false
			case *ast.SwitchStmt:
				walk(x.Body, true, cont)
				return false
			case *ast.TypeSwitchStmt:
				walk(x.Body, true, cont)
				return false
			case *ast.SelectStmt:
				walk(x.Body, true, cont)
				return false
			}
			return true
		})
	}
	walk(&ast.BlockStmt{List: []ast.Stmt{s.(ast.Stmt)}}, false, false)
	return esc || callsRecover(s)
}

// local variables of the enclosing function used in n but declared outside it.
func (c *ctx) free(n ast.Node, within ast.Node) (out []*types.Var) {
	seen := map[*types.Var]bool{}
	ast.Inspect(n, func(x ast.Node) bool {
		i, ok := x.(*ast.Ident)
		if !ok {
			return true
		}
		v, ok := c.info.Uses[i].(*types.Var)
		if !ok || v.IsField() || seen[v] || v.Parent() == nil || v.Pkg() != c.pkg.Types || v.Parent() == c.pkg.Types.Scope() || v.Pos() >= n.Pos() && v.Pos() < n.End() {
			return true
		}
		seen[v] = true
		out = append(out, v)
		return true
	})
	// variables of type switches have implicit objects
	return
}

func (c *ctx) localTypes(n ast.Node) bool {
	bad := false
	ast.Inspect(n, func(x ast.Node) bool {
		if i, ok := x.(*ast.Ident); ok {
			switch o := c.info.Uses[i].(type) {
			case *types.TypeName, *types.Const:
				if o.Parent() != nil && o.Pkg() == c.pkg.Types && o.Parent() != c.pkg.Types.Scope() {
					bad = true
				}
			case *types.Label:
				bad = true
			}
		}
		return true
	})
	return bad
}

// implicit variables (type switches)
func (c *ctx) implicitVar(v *types.Var) bool { return false }

func (c *ctx) typeText(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == c.pkg.Types {
			return ""
		}
		for _, im := range c.file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() {
				if im.Name != nil {
					if im.Name.Name == "_" || im.Name.Name == "." {
						ok = false
					}
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	s = anyRe.ReplaceAllString(s, "interface{}")
	if strings.Contains(s, "untyped") || strings.Contains(s, "invalid") {
		ok = false
	}
	return s, ok
}

func structy(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// varUse: how v is used in n.
type varUse struct{ assigned, addr, captured bool }

func (c *ctx) use(v *types.Var, n ast.Node) (u varUse) {
	is := func(e ast.Expr) bool {
		for {
			p, ok := e.(*ast.ParenExpr)
			if !ok {
				break
			}
			e = p.X
		}
		i, ok := e.(*ast.Ident)
		return ok && (c.info.Uses[i] == v || c.info.Defs[i] == v)
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if is(l) {
					if i, ok := l.(*ast.Ident); !ok || c.info.Defs[i] == nil {
						u.assigned = true
					}
				}
			}
		case *ast.IncDecStmt:
			u.assigned = u.assigned || is(x.X)
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				u.assigned = u.assigned || x.Key != nil && is(x.Key) || x.Value != nil && is(x.Value)
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND && is(x.X) {
				u.addr = true
			}
		case *ast.FuncLit:
			if has(x, true, func(y ast.Node) bool { e, ok := y.(ast.Expr); return ok && is(e) }) {
				u.captured = true
			}
		}
		return true
	})
	return
}

type transform struct {
	name string
	pre  func(c *ctx, k *astutil.Cursor) bool // false: do not descend
	post func(c *ctx, k *astutil.Cursor)
	fn   func(c *ctx, f *ast.FuncDecl)
}

var transforms []*transform

func reg(t *transform) { transforms = append(transforms, t) }

// inList: the cursor's node is a statement of a statement list.
func inList(k *astutil.Cursor) bool {
	return k.Index() >= 0 && (k.Name() == "List" || k.Name() == "Body")
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		for _, t := range transforms {
			fmt.Println(t.name)
		}
		return
	}
	dir, name := os.Args[1], os.Args[2]
	want := -1
	if len(os.Args) > 3 {
		if s := os.Args[3]; s[0] == '%' {
			want, _ = strconv.Atoi(s[1:])
			want = -want - 1
		} else {
			want, _ = strconv.Atoi(s)
		}
	}
	tmp, err := os.MkdirTemp("", "refmod")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, _ := os.ReadFile(filepath.Join(dir, f))
		os.WriteFile(filepath.Join(tmp, strings.Replace(f, "go.", "gears.", 1)), b, 0o644)
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "gears.mod"), "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile,
		Dir: dir, Env: env, Fset: token.NewFileSet(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, 0)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	total, hits := 0, 0
	var t *transform
	for _, x := range transforms {
		if x.name == name {
			t = x
		}
	}
	if t == nil {
		fmt.Println("unknown transform")
		os.Exit(2)
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			fmt.Println("does not compile:", p.Errors)
			os.Exit(2)
		}
		if t.name == "renameAll" {
			n, h := renameAll(p, want, total)
			total += n
			hits += h
			for _, f := range p.Syntax {
				write(p.Fset, f, nil)
			}
			continue
		}
		takeMethods(p)
		for _, f := range p.Syntax {
			c := &ctx{pkg: p, info: p.TypesInfo, fset: p.Fset, file: f, want: want, n: total, names: map[string]bool{}}
			before := c.n
			ast.Inspect(f, func(x ast.Node) bool {
				if i, ok := x.(*ast.Ident); ok {
					c.names[i.Name] = true
				}
				return true
			})
			c.seq = total * 7
			if t.fn != nil {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
						c.fn = fd
						t.fn(c, fd)
					}
				}
			}
			if t.pre != nil || t.post != nil {
				astutil.Apply(f, func(k *astutil.Cursor) bool {
					if k.Node() != nil {
						c.stack = append(c.stack, k.Node())
					}
					if fd, ok := k.Node().(*ast.FuncDecl); ok {
						c.fn = fd
					}
					if t.pre != nil && k.Node() != nil {
						if !t.pre(c, k) {
							c.stack = c.stack[:len(c.stack)-1]
							return false
						}
					}
					return true
				}, func(k *astutil.Cursor) bool {
					if t.post != nil && k.Node() != nil {
						t.post(c, k)
					}
					if k.Node() != nil && len(c.stack) > 0 {
						c.stack = c.stack[:len(c.stack)-1]
					}
					return true
				})
			}
			total += c.n - before
			if c.hits > 0 {
				hits += c.hits
				write(p.Fset, f, c.add)
			}
		}
	}
	fmt.Println(total, hits)
}

func write(fset *token.FileSet, f *ast.File, add []string) {
	name := fset.Position(f.Package).Filename
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	for _, s := range add {
		b.WriteString("\n" + s + "\n")
	}
	out, err := format.Source(b.Bytes())
	if err != nil {
		os.WriteFile("/tmp/bad.go", b.Bytes(), 0o644)
		panic(err)
	}
	if err := os.WriteFile(name, out, 0o644); err != nil {
		panic(err)
	}
}
