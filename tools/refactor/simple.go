package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
)

func breaksIn(n ast.Node) bool {
	bad := false
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.BranchStmt:
				if x.Tok == token.BREAK && x.Label == nil || x.Tok == token.FALLTHROUGH {
					bad = true
				}
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				if x != n {
					return false
				}
			}
			return true
		})
	}
	walk(n)
	return bad
}

func isElseIf(k *astutil.Cursor) bool { return k.Name() == "Else" }

func blockOf(s ast.Stmt) *ast.BlockStmt {
	if b, ok := s.(*ast.BlockStmt); ok {
		return b
	}
	return &ast.BlockStmt{List: []ast.Stmt{s}}
}

func assign(tok token.Token, l, r ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: tok, Rhs: []ast.Expr{r}}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func init() {
	reg(&transform{name: "ifInvert", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.IfStmt)
		if !ok || s.Else == nil || !c.hit() {
			return
		}
		s.Cond = not(s.Cond)
		body := s.Body
		s.Body = blockOf(s.Else)
		s.Else = body
	}})
	reg(&transform{name: "elseAfterReturn", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BlockStmt)
		if !ok {
			return
		}
		for i := len(b.List) - 2; i >= 0; i-- {
			s, ok := b.List[i].(*ast.IfStmt)
			if !ok || s.Else != nil || !terminating(s.Body) {
				continue
			}
			rest := b.List[i+1:]
			lab := false
			for _, x := range rest {
				if _, ok := x.(*ast.LabeledStmt); ok {
					lab = true
				}
			}
			if last, ok := rest[len(rest)-1].(*ast.ForStmt); ok && last.Cond == nil {
				// still terminating
			}
			if lab || !c.hit() {
				continue
			}
			s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, rest...)}
			b.List = b.List[:i+1]
		}
	}})
	reg(&transform{name: "forCond", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.ForStmt)
		if !ok || s.Cond == nil || !c.hit() {
			return
		}
		s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
		s.Cond = nil
	}})
	reg(&transform{name: "rangeIndex", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.RangeStmt)
		if !ok || s.Tok != token.DEFINE {
			return
		}
		tv, ok := c.info.Types[s.X]
		if !ok {
			return
		}
		if _, ok := tv.Type.Underlying().(*types.Slice); !ok {
			return
		}
		if !inList(k) || !c.hit() {
			return
		}
		xs, i := c.name("xs"), c.name("idx")
		var head []ast.Stmt
		if s.Value != nil && text(s.Value) != "_" {
			head = append(head, assign(token.DEFINE, s.Value, &ast.IndexExpr{X: id(xs), Index: id(i)}))
		}
		if s.Key != nil && text(s.Key) != "_" {
			head = append([]ast.Stmt{assign(token.DEFINE, s.Key, id(i))}, head...)
		}
		s.Body.List = append(head, s.Body.List...)
		k.InsertBefore(assign(token.DEFINE, id(xs), s.X))
		k.Replace(&ast.ForStmt{Init: assign(token.DEFINE, id(i), expr("0")), Cond: expr(i + " < len(" + xs + ")"), Post: &ast.IncDecStmt{X: id(i), Tok: token.INC}, Body: s.Body})
	}})
	reg(&transform{name: "indexRange", post: func(c *ctx, k *astutil.Cursor) {
		// for i := 0; i < N; i++ with a body that only reads i -> counting down a separate variable
		s, ok := k.Node().(*ast.ForStmt)
		if !ok || s.Init == nil || s.Cond == nil || s.Post == nil {
			return
		}
		p, ok := s.Post.(*ast.IncDecStmt)
		if !ok || !inList(k) {
			return
		}
		if has(s.Body, false, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && b.Tok == token.CONTINUE }) || !c.hit() {
			return
		}
		// while style
		s.Body.List = append(append([]ast.Stmt{}, s.Body.List...), p)
		k.Replace(&ast.BlockStmt{List: []ast.Stmt{s.Init, &ast.ForStmt{Cond: s.Cond, Body: s.Body}}})
	}})
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	reg(&transform{name: "flip", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BinaryExpr)
		if !ok {
			return
		}
		op, ok := flip[b.Op]
		if !ok || calls(b.X) && calls(b.Y) || !c.hit() {
			return
		}
		b.X, b.Y, b.Op = b.Y, b.X, op
	}})
	reg(&transform{name: "negCompare", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BinaryExpr)
		if !ok {
			return
		}
		neg := map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}
		op, ok := neg[b.Op]
		if !ok || !c.hit() {
			return
		}
		k.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: b.X, Op: op, Y: b.Y}}})
	}})
	reg(&transform{name: "deMorgan", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND && b.Op != token.LOR || !c.hit() {
			return
		}
		op := token.LAND
		if b.Op == token.LAND {
			op = token.LOR
		}
		k.Replace(&ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: &ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)}}})
	}})
	reg(&transform{name: "nestAnd", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.IfStmt)
		if !ok || s.Else != nil {
			return
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LAND || !c.hit() {
			return
		}
		s.Cond = b.X
		s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
	}})
	reg(&transform{name: "splitOr", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.IfStmt)
		if !ok || s.Else != nil || s.Init != nil || !inList(k) || !terminating(s.Body) {
			return
		}
		b, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || b.Op != token.LOR || !c.hit() {
			return
		}
		k.InsertBefore(&ast.IfStmt{Cond: b.X, Body: block2(s.Body)})
		s.Cond = b.Y
	}})
	reg(&transform{name: "switchIf", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.SwitchStmt)
		if !ok || !inList(k) || breaksIn(s) || len(s.Body.List) == 0 {
			return
		}
		var tag ast.Expr
		var init []ast.Stmt
		if s.Init != nil {
			init = append(init, s.Init)
		}
		if s.Tag != nil {
			if tv, ok := c.info.Types[s.Tag]; !ok || tv.Value != nil {
				return
			}
		}
		if !c.hit() {
			return
		}
		if s.Tag != nil {
			t := c.name("tag")
			init = append(init, assign(token.DEFINE, id(t), s.Tag))
			tag = id(t)
		}
		var def *ast.BlockStmt
		var first, last *ast.IfStmt
		for _, cc := range s.Body.List {
			cl := cc.(*ast.CaseClause)
			body := &ast.BlockStmt{List: cl.Body}
			if cl.List == nil {
				def = body
				continue
			}
			var cond ast.Expr
			for _, e := range cl.List {
				var x ast.Expr = e
				if tag != nil {
					x = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: paren(e)}
				}
				if cond == nil {
					cond = x
				} else {
					cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
				}
			}
			n := &ast.IfStmt{Cond: cond, Body: body}
			if first == nil {
				first = n
			} else {
				last.Else = n
			}
			last = n
		}
		if first == nil {
			k.Replace(&ast.BlockStmt{List: append(init, def)})
			return
		}
		if def != nil {
			last.Else = def
		}
		if len(init) == 0 {
			k.Replace(first)
			return
		}
		if def != nil {
			// keep the terminating form at the end of a function
			for _, x := range init {
				k.InsertBefore(x)
			}
			k.Replace(first)
			return
		}
		k.Replace(&ast.BlockStmt{List: append(init, first)})
	}})
	reg(&transform{name: "ifSwitch", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.IfStmt)
		if !ok || !inList(k) || breaksIn(s) || !c.hit() {
			return
		}
		var cases []ast.Stmt
		var chain func(s *ast.IfStmt)
		chain = func(s *ast.IfStmt) {
			cases = append(cases, &ast.CaseClause{List: []ast.Expr{s.Cond}, Body: s.Body.List})
			switch e := s.Else.(type) {
			case *ast.IfStmt:
				if e.Init == nil {
					chain(e)
				} else {
					cases = append(cases, &ast.CaseClause{Body: []ast.Stmt{e}})
				}
			case *ast.BlockStmt:
				cases = append(cases, &ast.CaseClause{Body: e.List})
			}
		}
		chain(s)
		k.Replace(&ast.SwitchStmt{Init: s.Init, Body: &ast.BlockStmt{List: cases}})
	}})
	reg(&transform{name: "expandAssign", post: func(c *ctx, k *astutil.Cursor) {
		switch s := k.Node().(type) {
		case *ast.IncDecStmt:
			if calls(s.X) || !c.hit() {
				return
			}
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			k.Replace(assign(token.ASSIGN, s.X, &ast.BinaryExpr{X: s.X, Op: op, Y: expr("1")}))
		case *ast.AssignStmt:
			ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO}
			op, ok := ops[s.Tok]
			if !ok || calls(s.Lhs[0]) || !c.hit() {
				return
			}
			k.Replace(assign(token.ASSIGN, s.Lhs[0], &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: paren(s.Rhs[0])}))
		}
	}})
	reg(&transform{name: "hoistInit", post: func(c *ctx, k *astutil.Cursor) {
		switch s := k.Node().(type) {
		case *ast.IfStmt:
			if s.Init == nil || !c.hit() {
				return
			}
			in := s.Init
			s.Init = nil
			k.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
		case *ast.SwitchStmt:
			if s.Init == nil || !c.hit() {
				return
			}
			in := s.Init
			s.Init = nil
			k.Replace(&ast.BlockStmt{List: []ast.Stmt{in, s}})
		}
	}})
	reg(&transform{name: "condTemp", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.IfStmt)
		if !ok || s.Init != nil || !c.hit() {
			return
		}
		v := c.name("cond")
		a := assign(token.DEFINE, id(v), s.Cond)
		s.Cond = id(v)
		if inList(k) {
			k.InsertBefore(a)
			return
		}
		k.Replace(&ast.BlockStmt{List: []ast.Stmt{a, s}})
	}})
	reg(&transform{name: "argTemp", post: func(c *ctx, k *astutil.Cursor) {
		// every argument of a call statement in a variable
		var call *ast.CallExpr
		switch s := k.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
		}
		if call == nil || !inList(k) || call.Ellipsis.IsValid() {
			return
		}
		if tv, ok := c.info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
			return
		}
		sig, ok := c.info.Types[call.Fun].Type.Underlying().(*types.Signature)
		if !ok {
			return
		}
		for i, a := range call.Args {
			tv := c.info.Types[a]
			if i >= sig.Params().Len() || sig.Variadic() && i >= sig.Params().Len()-1 {
				break
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				break
			}
			ts, ok := c.typeText(sig.Params().At(i).Type())
			if !ok || strings.TrimLeft(ts, "*[]") == "options" || strings.HasPrefix(ts, "...") {
				break
			}
			if calls(call.Fun) || !c.hit() {
				break
			}
			v := c.name("arg")
			k.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v)}, Type: expr(ts), Values: []ast.Expr{a}}}}})
			call.Args[i] = id(v)
		}
	}})
	reg(&transform{name: "deferClosure", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.DeferStmt)
		if !ok || len(s.Call.Args) > 0 {
			return
		}
		sel, ok := s.Call.Fun.(*ast.SelectorExpr)
		if !ok || calls(sel.X) || !c.hit() {
			return
		}
		s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: s.Call}}}}}
	}})
	reg(&transform{name: "goClosure", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.GoStmt)
		if !ok || len(s.Call.Args) > 0 {
			return
		}
		sel, ok := s.Call.Fun.(*ast.SelectorExpr)
		if !ok || calls(sel.X) || !c.hit() {
			return
		}
		s.Call = &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: s.Call}}}}}
	}})
	reg(&transform{name: "varDecl", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.AssignStmt)
		if !ok || s.Tok != token.DEFINE || !inList(k) {
			return
		}
		var names []*ast.Ident
		for _, l := range s.Lhs {
			i := l.(*ast.Ident)
			if i.Name != "_" && c.info.Defs[i] == nil {
				return
			}
			names = append(names, i)
		}
		if len(s.Rhs) == 1 {
			switch s.Rhs[0].(type) {
			case *ast.UnaryExpr:
				if s.Rhs[0].(*ast.UnaryExpr).Op == token.ARROW {
					return
				}
			}
		}
		switch c.stack[len(c.stack)-2].(type) {
		case *ast.CommClause:
			if k.Name() == "Comm" {
				return
			}
		}
		if !c.hit() {
			return
		}
		k.Replace(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: names, Values: s.Rhs}}}})
	}})
	reg(&transform{name: "litFields", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.AssignStmt)
		if !ok || len(s.Lhs) != 1 || s.Tok != token.DEFINE || !inList(k) {
			return
		}
		v := s.Lhs[0]
		lit, ok := s.Rhs[0].(*ast.CompositeLit)
		if u, isU := s.Rhs[0].(*ast.UnaryExpr); isU && u.Op == token.AND {
			lit, ok = u.X.(*ast.CompositeLit)
		}
		if !ok || lit == nil || len(lit.Elts) == 0 || lit.Type == nil {
			return
		}
		if tv, ok := c.info.Types[lit]; !ok || !structy(tv.Type) {
			return
		}
		for _, e := range lit.Elts {
			if _, ok := e.(*ast.KeyValueExpr); !ok {
				return
			}
		}
		if has(lit, true, func(n ast.Node) bool { i, ok := n.(*ast.Ident); return ok && i.Name == text(v) }) {
			return
		}
		if !c.hit() {
			return
		}
		for i := len(lit.Elts) - 1; i >= 0; i-- {
			kv := lit.Elts[i].(*ast.KeyValueExpr)
			k.InsertAfter(assign(token.ASSIGN, &ast.SelectorExpr{X: id(text(v)), Sel: kv.Key.(*ast.Ident)}, kv.Value))
		}
		lit.Elts = nil
	}})
	reg(&transform{name: "litReverse", post: func(c *ctx, k *astutil.Cursor) {
		lit, ok := k.Node().(*ast.CompositeLit)
		if !ok || len(lit.Elts) < 2 {
			return
		}
		n := 0
		for _, e := range lit.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return
			}
			if calls(kv.Value) {
				n++
			}
		}
		if tv, ok := c.info.Types[lit]; !ok || !structy(tv.Type) {
			return
		}
		if n > 1 || !c.hit() {
			return
		}
		for i, j := 0, len(lit.Elts)-1; i < j; i, j = i+1, j-1 {
			lit.Elts[i], lit.Elts[j] = lit.Elts[j], lit.Elts[i]
		}
		lit.Elts = append([]ast.Expr{}, lit.Elts...)
		k.Replace(expr2(text(lit)))
	}})
	reg(&transform{name: "emptyTests", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BinaryExpr)
		if !ok {
			return
		}
		if tx := text(b.Y); tx == `""` && (b.Op == token.EQL || b.Op == token.NEQ) {
			if tv, ok := c.info.Types[b.X]; !ok || !isString(tv.Type) || !c.hit() {
				return
			}
			b.X = &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{b.X}}
			b.Y = expr("0")
			return
		}
		if strings.HasPrefix(text(b.X), "len(") && text(b.Y) == "0" {
			to := map[token.Token]string{token.EQL: "< 1", token.NEQ: ">= 1", token.GTR: "!= 0"}[b.Op]
			if to == "" || !c.hit() {
				return
			}
			k.Replace(expr(text(b.X) + to))
		}
	}})
	reg(&transform{name: "returnErr", post: func(c *ctx, k *astutil.Cursor) {
		// return bool expression <-> if
		s, ok := k.Node().(*ast.ReturnStmt)
		if !ok || len(s.Results) != 1 || !inList(k) {
			return
		}
		tv, ok := c.info.Types[s.Results[0]]
		if !ok || tv.Value != nil {
			return
		}
		if b, ok := tv.Type.Underlying().(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 || !c.hit() {
			return
		}
		k.InsertBefore(&ast.IfStmt{Cond: s.Results[0], Body: &ast.BlockStmt{List: block("return true")}})
		s.Results[0] = id("false")
	}})
	reg(&transform{name: "resultVar", post: func(c *ctx, k *astutil.Cursor) {
		s, ok := k.Node().(*ast.ReturnStmt)
		if !ok || len(s.Results) == 0 || !inList(k) {
			return
		}
		ft := c.enclosing()
		if ft == nil || ft.Results == nil {
			return
		}
		var ts []ast.Expr
		for _, f := range ft.Results.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				ts = append(ts, f.Type)
			}
		}
		for _, t := range ts {
			if i, ok := t.(*ast.Ident); ok && i.Name == "error" && has(c.fn, true, func(n ast.Node) bool {
				x, ok := n.(*ast.Ident)
				return ok && x.Name == "error" && c.info.Defs[x] != nil
			}) {
				return
			}
		}
		if !c.hit() {
			return
		}
		var vs []ast.Expr
		for _, t := range ts {
			v := c.name("ret")
			vs = append(vs, id(v))
			k.InsertBefore(&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(v)}, Type: t}}}})
		}
		k.InsertBefore(&ast.AssignStmt{Lhs: vs, Tok: token.ASSIGN, Rhs: s.Results})
		s.Results = nil
		for _, v := range vs {
			s.Results = append(s.Results, id(v.(*ast.Ident).Name))
		}
	}})
	reg(&transform{name: "lockAlias", post: func(c *ctx, k *astutil.Cursor) {
		var call *ast.CallExpr
		switch s := k.Node().(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.DeferStmt:
			call = s.Call
		}
		if call == nil || !inList(k) {
			return
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok {
			return
		}
		in, ok := sel.X.(*ast.SelectorExpr)
		if !ok || calls(in) {
			return
		}
		so := c.info.Selections[in]
		if so == nil || so.Kind() != types.FieldVal {
			return
		}
		if !strings.Contains(so.Type().String(), "sync.") || !c.hit() {
			return
		}
		v := c.name("lk")
		var e ast.Expr = in
		if _, ptr := so.Type().(*types.Pointer); !ptr && !types.IsInterface(so.Type()) {
			e = &ast.UnaryExpr{Op: token.AND, X: in}
		}
		k.InsertBefore(assign(token.DEFINE, id(v), e))
		sel.X = id(v)
	}})
	reg(&transform{name: "selfAlias", fn: func(c *ctx, f *ast.FuncDecl) {
		if f.Recv == nil || len(f.Recv.List[0].Names) == 0 || f.Recv.List[0].Names[0].Name == "_" {
			return
		}
		if _, ptr := f.Recv.List[0].Type.(*ast.StarExpr); !ptr {
			return
		}
		r := f.Recv.List[0].Names[0]
		obj := c.info.Defs[r]
		used := false
		ast.Inspect(f.Body, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok && c.info.Uses[i] == obj {
				used = true
			}
			return true
		})
		if !used || !c.hit() {
			return
		}
		v := c.name("self")
		ast.Inspect(f.Body, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok && c.info.Uses[i] == obj {
				i.Name = v
			}
			return true
		})
		f.Body.List = append([]ast.Stmt{assign(token.DEFINE, id(v), id(r.Name))}, f.Body.List...)
	}})
	reg(&transform{name: "renameLocals", fn: func(c *ctx, f *ast.FuncDecl) {
		if !c.hit() {
			return
		}
		m := map[types.Object]string{}
		nm := func(o types.Object) string {
			if m[o] == "" {
				m[o] = c.name("v")
			}
			return m[o]
		}
		ast.Inspect(f, func(x ast.Node) bool {
			i, ok := x.(*ast.Ident)
			if !ok || i.Name == "_" || i == f.Name {
				return true
			}
			o := c.info.Defs[i]
			if o == nil {
				o = c.info.Uses[i]
			}
			if v, ok := o.(*types.Var); ok && !v.IsField() && v.Parent() != c.pkg.Types.Scope() && v.Pkg() == c.pkg.Types && v.Pos() >= f.Pos() && v.Pos() < f.End() {
				for _, im := range c.info.Implicits {
					if im == o {
						return true
					}
				}
				i.Name = nm(o)
			}
			return true
		})
	}})
	reg(&transform{name: "errorf", post: func(c *ctx, k *astutil.Cursor) {
		call, ok := k.Node().(*ast.CallExpr)
		if !ok || text(call.Fun) != "errors.New" || len(call.Args) != 1 {
			return
		}
		in, ok := call.Args[0].(*ast.CallExpr)
		if !ok || text(in.Fun) != "fmt.Sprintf" || !c.hit() {
			return
		}
		k.Replace(&ast.CallExpr{Fun: expr("fmt.Errorf"), Args: in.Args, Ellipsis: in.Ellipsis})
		c.add = append(c.add, "var _ = errors.New")
	}})
	reg(&transform{name: "consts", post: func(c *ctx, k *astutil.Cursor) {
		l, ok := k.Node().(*ast.BasicLit)
		if !ok || c.fn == nil || l.Pos() < c.fn.Pos() || l.Pos() > c.fn.End() {
			return
		}
		if k.Name() == "Tag" || !c.hit() {
			return
		}
		v := c.name("k_")
		c.add = append(c.add, "const "+v+c.suffix()+" = "+l.Value)
		k.Replace(id(v + c.suffix()))
	}})
	reg(&transform{name: "caseReverse", post: func(c *ctx, k *astutil.Cursor) {
		switch s := k.Node().(type) {
		case *ast.SelectStmt:
			if len(s.Body.List) > 1 && c.hit() {
				s.Body.List = reverse(s.Body.List)
				if inList(k) {
					k.Replace(block(text(s))[0])
				}
			}
		case *ast.SwitchStmt:
			if s.Tag == nil || len(s.Body.List) < 2 || breaksIn(s) {
				return
			}
			for _, cc := range s.Body.List {
				for _, e := range cc.(*ast.CaseClause).List {
					if tv, ok := c.info.Types[e]; !ok || tv.Value == nil {
						return
					}
				}
			}
			if c.hit() {
				s.Body.List = reverse(s.Body.List)
				if inList(k) {
					k.Replace(block(text(s))[0])
				}
			}
		}
	}})
	reg(&transform{name: "swapAdjacent", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BlockStmt)
		if !ok {
			return
		}
		for i := 0; i+1 < len(b.List); i++ {
			x, ok1 := b.List[i].(*ast.AssignStmt)
			y, ok2 := b.List[i+1].(*ast.AssignStmt)
			if !ok1 || !ok2 || calls(x) || calls(y) {
				continue
			}
			bad := false
			for _, z := range []*ast.AssignStmt{x, y} {
				o := x
				if z == x {
					o = y
				}
				for _, l := range z.Lhs {
					switch l.(type) {
					case *ast.Ident, *ast.SelectorExpr:
						lt := text(l)
						if has(o, true, func(n ast.Node) bool {
							e, ok := n.(ast.Expr)
							return ok && (text(e) == lt)
						}) {
							bad = true
						}
						if i, ok := l.(*ast.Ident); ok && i.Name == "_" {
							bad = true
						}
					default:
						bad = true
					}
				}
			}
			if bad || !c.hit() {
				continue
			}
			b.List[i], b.List[i+1] = y, x
			i++
		}
	}})
	reg(&transform{name: "concatSprintf", post: func(c *ctx, k *astutil.Cursor) {
		b, ok := k.Node().(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD {
			return
		}
		tv, ok := c.info.Types[b]
		if !ok || tv.Value != nil || !isString(tv.Type) {
			return
		}
		if _, named := tv.Type.(*types.Named); named {
			return
		}
		if p, ok := k.Parent().(*ast.BinaryExpr); ok && p.Op == token.ADD {
			return
		}
		fm := false
		for _, im := range c.file.Imports {
			if im.Path.Value == `"fmt"` && im.Name == nil {
				fm = true
			}
		}
		if !fm || !c.hit() {
			return
		}
		var parts []ast.Expr
		var flat func(e ast.Expr)
		flat = func(e ast.Expr) {
			if x, ok := e.(*ast.BinaryExpr); ok && x.Op == token.ADD {
				flat(x.X)
				flat(x.Y)
				return
			}
			parts = append(parts, e)
		}
		flat(b)
		k.Replace(&ast.CallExpr{Fun: expr("fmt.Sprintf"), Args: append([]ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"` + strings.Repeat("%s", len(parts)) + `"`}}, parts...)})
	}})
	reg(&transform{name: "funcVar", post: func(c *ctx, k *astutil.Cursor) {
		// call through a function value
		s, ok := k.Node().(*ast.ExprStmt)
		if !ok || !inList(k) {
			return
		}
		call, ok := s.X.(*ast.CallExpr)
		if !ok {
			return
		}
		sel, ok := call.Fun.(*ast.SelectorExpr)
		if !ok || calls(sel.X) {
			return
		}
		if tv, ok := c.info.Types[call.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
			return
		}
		for _, a := range call.Args {
			if calls(a) {
				return
			}
		}
		if !c.hit() {
			return
		}
		v := c.name("do")
		k.InsertBefore(assign(token.DEFINE, id(v), sel))
		call.Fun = id(v)
	}})
}

func (c *ctx) suffix() string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, c.fset.File(c.file.Package).Name()[strings.LastIndex(c.fset.File(c.file.Package).Name(), "/")+1:])
}

func reverse(l []ast.Stmt) (out []ast.Stmt) {
	for i := len(l) - 1; i >= 0; i-- {
		out = append(out, l[i])
	}
	return
}

func block2(b *ast.BlockStmt) *ast.BlockStmt { return &ast.BlockStmt{List: block(text2(b))} }

func text2(b *ast.BlockStmt) string {
	s := ""
	for _, x := range b.List {
		s += text(x) + "\n"
	}
	return s
}

func expr2(s string) ast.Expr { return expr(s) }

// enclosing function type
func (c *ctx) enclosing() *ast.FuncType {
	for i := len(c.stack) - 1; i >= 0; i-- {
		switch f := c.stack[i].(type) {
		case *ast.FuncLit:
			return f.Type
		case *ast.FuncDecl:
			return f.Type
		}
	}
	return nil
}
