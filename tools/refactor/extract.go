package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

// recvOf: receiver name and type text, "" for functions.
func recvOf(f *ast.FuncDecl) (name, typ string, ok bool) {
	if f.Recv == nil {
		return "", "", true
	}
	if len(f.Recv.List[0].Names) == 0 || f.Recv.List[0].Names[0].Name == "_" {
		return "", "", false
	}
	return f.Recv.List[0].Names[0].Name, text(f.Recv.List[0].Type), true
}

func results(f *ast.FuncType) (ts []string, named bool) {
	if f.Results == nil {
		return
	}
	for _, r := range f.Results.List {
		if len(r.Names) > 0 {
			named = true
		}
		n := len(r.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			ts = append(ts, text(r.Type))
		}
	}
	return
}

func resText(ts []string) string {
	if len(ts) == 0 {
		return ""
	}
	return "(" + strings.Join(ts, ", ") + ")"
}

// helper: declare a function (a method when the receiver is used) and give the call.
func (c *ctx) helper(prefix string, vars []*types.Var, res []string, body string, method bool) (string, bool) {
	rn, rt, ok := "", "", true
	if method {
		rn, rt, ok = recvOf(c.fn)
		if !ok {
			return "", false
		}
	}
	var params, args []string
	useRecv := false
	for _, v := range vars {
		if v.Name() == "_" || v.Name() == "" {
			continue
		}
		if rn != "" && v.Name() == rn {
			useRecv = true
			continue
		}
		ts, ok := c.typeText(v.Type())
		if !ok {
			return "", false
		}
		params = append(params, v.Name()+" "+ts)
		args = append(args, v.Name())
	}
	name := c.name(strings.ToLower(prefix[:1])+prefix[1:]+"_") + c.suffix()
	for c.pkg.Types.Scope().Lookup(name) != nil || taken[name] {
		name += "x"
	}
	taken[name] = true
	head := "func "
	call := name
	if useRecv {
		head = "func (" + rn + " " + rt + ") "
		call = rn + "." + name
	}
	c.add = append(c.add, fmt.Sprintf("%s%s(%s) %s {\n%s\n}", head, name, strings.Join(params, ", "), resText(res), body))
	return call + "(" + strings.Join(args, ", ") + ")", true
}

func stmts(l []ast.Stmt) string {
	s := ""
	for _, x := range l {
		s += text(x) + "\n"
	}
	return s
}

func (c *ctx) tail(f *ast.FuncDecl, at func(n int) int, method bool) {
	n := len(f.Body.List)
	i := at(n)
	if n < 2 || i < 1 || i >= n {
		return
	}
	res, named := results(f.Type)
	if named || callsRecover(f.Body) {
		return
	}
	if f.Recv == nil {
		method = false
	}
	head, tl := &ast.BlockStmt{List: f.Body.List[:i]}, &ast.BlockStmt{Lbrace: f.Body.List[i].Pos(), Rbrace: f.Body.List[n-1].End() - 1, List: f.Body.List[i:]}
	if has(f.Body, false, func(x ast.Node) bool { _, ok := x.(*ast.LabeledStmt); return ok }) || c.localTypes(tl) || terminating(head) {
		return
	}
	vars := c.free(tl, f)
	for _, v := range vars {
		isRecv := f.Recv != nil && len(f.Recv.List[0].Names) > 0 && c.info.Defs[f.Recv.List[0].Names[0]] == v
		u, all := c.use(v, head), c.use(v, f.Body)
		if isRecv && !all.assigned {
			continue
		}
		if structy(v.Type()) && !all.assigned && !u.captured && !u.addr && !all.addr && !isSync(v.Type()) && f.Type.Params != nil && v.Pos() < f.Body.Pos() {
			continue // a struct parameter passed on
		}
		if structy(v.Type()) || u.addr || u.captured && all.assigned {
			return
		}
	}
	ts := make([]string, len(res))
	copy(ts, res)
	if !c.hit() {
		return
	}
	body := stmts(tl.List)
	call, ok := c.helper(f.Name.Name+"Rest", vars, ts, body, method)
	if !ok {
		return
	}
	if len(res) > 0 {
		call = "return " + call
	}
	f.Body.List = append(append([]ast.Stmt{}, f.Body.List[:i]...), block(call)...)
}

func isSync(t types.Type) bool { return strings.Contains(t.String(), "sync.") }

// extractable: the statement can become a function of its own; out are the variables it has to give back.
func (c *ctx) extractable(s ast.Stmt) (vars, out []*types.Var, ok bool) {
	if escapes(s) || c.localTypes(s) {
		return
	}
	vars = c.free(s, c.fn)
	for _, v := range vars {
		u, all := c.use(v, s), c.use(v, c.fn.Body)
		isRecv := c.fn.Recv != nil && len(c.fn.Recv.List[0].Names) > 0 && c.info.Defs[c.fn.Recv.List[0].Names[0]] == v
		if structy(v.Type()) && !isRecv || all.addr || all.captured && all.assigned {
			return nil, nil, false
		}
		if isRecv && all.assigned {
			return nil, nil, false
		}
		if u.assigned {
			out = append(out, v)
		}
	}
	for _, im := range c.info.Implicits {
		for _, v := range vars {
			if im == v {
				return nil, nil, false
			}
		}
	}
	return vars, out, true
}

func (c *ctx) insideLit() bool {
	for _, n := range c.stack {
		if _, ok := n.(*ast.FuncLit); ok {
			return true
		}
	}
	return false
}

func helperStmt(kind func(s ast.Stmt) bool, method bool) func(c *ctx, k *astutil.Cursor) bool {
	return func(c *ctx, k *astutil.Cursor) bool {
		s, ok := k.Node().(ast.Stmt)
		if !ok || !inList(k) || c.fn == nil || c.insideLit() || !kind(s) {
			return true
		}
		vars, out, ok := c.extractable(s)
		if !ok || c.fn.Recv != nil && len(c.fn.Recv.List[0].Names) == 0 {
			return true
		}
		var res, names []string
		for _, v := range out {
			ts, ok := c.typeText(v.Type())
			if !ok {
				return true
			}
			res = append(res, ts)
			names = append(names, v.Name())
		}
		for _, v := range vars {
			if _, ok := c.typeText(v.Type()); !ok {
				return true
			}
		}
		if !c.hit() {
			return true
		}
		body := text(s)
		if len(out) > 0 {
			body += "\nreturn " + strings.Join(names, ", ")
		}
		call, ok := c.helper(c.fn.Name.Name+"Part", vars, res, body, method && c.fn.Recv != nil)
		if !ok {
			return true
		}
		if len(out) > 0 {
			call = strings.Join(names, ", ") + " = " + call
		}
		k.Replace(block(call)[0])
		return false
	}
}

func isControl(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
		return true
	}
	return false
}

func isPlain(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt:
		return true
	}
	return false
}

func init() {
	for _, m := range []bool{true, false} {
		sfx := ""
		if !m {
			sfx = "Func"
		}
		m := m
		reg(&transform{name: "tailFirst" + sfx, fn: func(c *ctx, f *ast.FuncDecl) { c.tail(f, func(n int) int { return 1 }, m) }})
		reg(&transform{name: "tailSecond" + sfx, fn: func(c *ctx, f *ast.FuncDecl) { c.tail(f, func(n int) int { return 2 }, m) }})
		reg(&transform{name: "tailMid" + sfx, fn: func(c *ctx, f *ast.FuncDecl) { c.tail(f, func(n int) int { return n / 2 }, m) }})
		reg(&transform{name: "tailLast" + sfx, fn: func(c *ctx, f *ast.FuncDecl) { c.tail(f, func(n int) int { return n - 1 }, m) }})
		reg(&transform{name: "tailLast2" + sfx, fn: func(c *ctx, f *ast.FuncDecl) { c.tail(f, func(n int) int { return n - 2 }, m) }})
		reg(&transform{name: "helperControl" + sfx, pre: helperStmt(isControl, m)})
		reg(&transform{name: "helperPlain" + sfx, pre: helperStmt(isPlain, m)})
		reg(&transform{name: "predicate" + sfx, post: func(c *ctx, k *astutil.Cursor) {
			s, ok := k.Node().(*ast.IfStmt)
			if !ok || c.fn == nil || c.insideLit() {
				return
			}
			switch s.Cond.(type) {
			case *ast.Ident:
				return
			}
			if has(s.Cond, true, func(n ast.Node) bool { _, ok := n.(*ast.FuncLit); return ok }) || c.localTypes(s.Cond) || callsRecover(s.Cond) {
				return
			}
			vars := c.free(s.Cond, c.fn)
			for _, v := range vars {
				isRecv := c.fn.Recv != nil && len(c.fn.Recv.List[0].Names) > 0 && c.info.Defs[c.fn.Recv.List[0].Names[0]] == v
				if structy(v.Type()) && !isRecv {
					return
				}
				if _, ok := c.typeText(v.Type()); !ok {
					return
				}
			}
			if c.use0(s.Cond) || c.fn.Recv != nil && len(c.fn.Recv.List[0].Names) == 0 || !c.hit() {
				return
			}
			call, ok := c.helper(c.fn.Name.Name+"Test", vars, []string{"bool"}, "return "+text(s.Cond), m && c.fn.Recv != nil)
			if ok {
				s.Cond = expr(call)
			}
		}})
	}
	reg(&transform{name: "closureStmt", pre: func(c *ctx, k *astutil.Cursor) bool {
		s, ok := k.Node().(ast.Stmt)
		if !ok || !inList(k) || c.fn == nil || !isControl(s) || escapes(s) || !c.hit() {
			return true
		}
		k.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}}})
		return false
	}})
	reg(&transform{name: "closureVar", pre: func(c *ctx, k *astutil.Cursor) bool {
		s, ok := k.Node().(ast.Stmt)
		if !ok || !inList(k) || c.fn == nil || !isControl(s) && !isPlain(s) || escapes(s) || !c.hit() {
			return true
		}
		v := c.name("step")
		k.InsertBefore(assign(token.DEFINE, id(v), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}))
		k.Replace(&ast.ExprStmt{X: &ast.CallExpr{Fun: id(v)}})
		return false
	}})
	wrap := func(c *ctx, f *ast.FuncDecl, method bool) {
		if f.Name.Name == "init" || f.Name.Name == "main" || callsRecover(f.Body) {
			return
		}
		rn, rt := "", ""
		if f.Recv != nil {
			rt = text(f.Recv.List[0].Type)
			if len(f.Recv.List[0].Names) > 0 {
				rn = f.Recv.List[0].Names[0].Name
			}
			if rn == "" || rn == "_" {
				return
			}
		} else {
			method = false
		}
		var params, args []string
		if f.Recv != nil && !method {
			params = append(params, rn+" "+rt)
			args = append(args, rn)
		}
		if f.Type.Params != nil {
			for _, p := range f.Type.Params.List {
				if len(p.Names) == 0 {
					return
				}
				for _, n := range p.Names {
					if n.Name == "_" {
						return
					}
					params = append(params, n.Name+" "+text(p.Type))
					a := n.Name
					if _, ok := p.Type.(*ast.Ellipsis); ok {
						a += "..."
					}
					args = append(args, a)
				}
			}
		}
		if !c.hit() {
			return
		}
		res := ""
		if f.Type.Results != nil {
			res = "(" + text2f(f.Type.Results) + ")"
		}
		name := c.name("do"+strings.ToUpper(f.Name.Name[:1])+f.Name.Name[1:]) + c.suffix()
		head, call := "func ", name
		if f.Recv != nil && method {
			head, call = "func ("+rn+" "+rt+") ", rn+"."+name
		}
		c.add = append(c.add, fmt.Sprintf("%s%s(%s) %s {\n%s}", head, name, strings.Join(params, ", "), res, stmts(f.Body.List)))
		call += "(" + strings.Join(args, ", ") + ")"
		if f.Type.Results != nil {
			call = "return " + call
		}
		f.Body.List = block(call)
	}
	reg(&transform{name: "wrapMethod", fn: func(c *ctx, f *ast.FuncDecl) { wrap(c, f, true) }})
	reg(&transform{name: "wrapFunc", fn: func(c *ctx, f *ast.FuncDecl) { wrap(c, f, false) }})
	reg(&transform{name: "wrapClosure", fn: func(c *ctx, f *ast.FuncDecl) {
		res, named := results(f.Type)
		if named || callsRecover(f.Body) || f.Name.Name == "main" || !c.hit() {
			return
		}
		_ = res
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: f.Type.Results}, Body: &ast.BlockStmt{List: f.Body.List}}
		call := &ast.CallExpr{Fun: lit}
		if f.Type.Results != nil {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		} else {
			f.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		}
	}})
	reg(&transform{name: "namedResults", fn: func(c *ctx, f *ast.FuncDecl) {
		res, named := results(f.Type)
		if named || len(res) == 0 || !c.hit() {
			return
		}
		var names []string
		var fl []*ast.Field
		for _, r := range f.Type.Results.List {
			n := c.name("res")
			names = append(names, n)
			fl = append(fl, &ast.Field{Names: []*ast.Ident{id(n)}, Type: r.Type})
		}
		f.Type.Results = &ast.FieldList{Opening: 1, Closing: 1, List: fl}
		astutil.Apply(f.Body, func(k *astutil.Cursor) bool {
			if _, ok := k.Node().(*ast.FuncLit); ok {
				return false
			}
			r, ok := k.Node().(*ast.ReturnStmt)
			if !ok || !inList(k) {
				return true
			}
			var lhs []ast.Expr
			for _, n := range names {
				lhs = append(lhs, id(n))
			}
			k.InsertBefore(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: r.Results})
			k.Replace(&ast.ReturnStmt{})
			return false
		}, nil)
	}})
	reg(&transform{name: "singleExit", fn: func(c *ctx, f *ast.FuncDecl) {
		// the unlock of a leading Lock/defer Unlock pair moved into a closure of its own: done by wrapClosure
		// here: func f() { lock; defer unlock; rest } -> func f() { lock; r := rest(); unlock; return r }
		// only for bodies that cannot panic in a way that matters is not decidable here, so not done
	}})
	reg(&transform{name: "renameAll"})
}

func (c *ctx) use0(e ast.Expr) bool {
	return has(e, true, func(n ast.Node) bool {
		u, ok := n.(*ast.UnaryExpr)
		return ok && (u.Op == token.AND || u.Op == token.ARROW)
	})
}

func text2f(fl *ast.FieldList) string {
	var out []string
	for _, f := range fl.List {
		var ns []string
		for _, n := range f.Names {
			ns = append(ns, n.Name)
		}
		out = append(out, strings.TrimSpace(strings.Join(ns, ", ")+" "+text(f.Type)))
	}
	return strings.Join(out, ", ")
}

// renameAll: unexported fields, methods, functions, types, variables and constants that no test names.
func renameAll(p *packages.Package, want, base int) (n, hits int) {
	used := testNames(p)
	ren := map[string]string{}
	decide := func(name string) string {
		if r, ok := ren[name]; ok {
			return r
		}
		r := ""
		if name != "_" && name != "init" && name != "main" && !ast.IsExported(name) && !used[name] {
			if want < 0 || want == base+n {
				r = "zz" + strings.ToUpper(name[:1]) + name[1:] + "X"
				hits++
			}
			n++
		}
		ren[name] = r
		return r
	}
	for _, f := range p.Syntax {
		ast.Inspect(f, func(x ast.Node) bool {
			i, ok := x.(*ast.Ident)
			if !ok {
				return true
			}
			o := p.TypesInfo.Defs[i]
			if o == nil {
				o = p.TypesInfo.Uses[i]
			}
			if o == nil || o.Pkg() != p.Types {
				return true
			}
			local := false
			switch o := o.(type) {
			case *types.Var:
				local = !o.IsField() && o.Parent() != p.Types.Scope()
			case *types.Func:
			case *types.PkgName, *types.Label, *types.Nil, *types.Builtin:
				local = true
			default:
				local = o.Parent() != p.Types.Scope()
			}
			if !local {
				if r := decide(i.Name); r != "" {
					i.Name = r
				}
			}
			return true
		})
	}
	return
}

var taken = map[string]bool{}

// takeMethods notes the names of all functions and methods of a package.
func takeMethods(p *packages.Package) {
	for _, o := range p.TypesInfo.Defs {
		if f, ok := o.(*types.Func); ok {
			taken[f.Name()] = true
		}
	}
}
