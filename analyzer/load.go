package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chanjarster/gears"

var repoDir = "/repo"

// Prog is the loaded repository.
type Prog struct {
	pkgs        []*packages.Package
	prog        *ssa.Program
	byPath      map[string]*ssa.Package
	fset        *token.FileSet
	funcs       []*ssa.Function // all functions with bodies of the repository (incl. closures)
	mutable     map[string]bool // "pkg.Type.field" stored outside construction
	gmut        map[*ssa.Global]bool
	gfields     map[*ssa.Global]map[string]*Term
	gval        map[*ssa.Global]*Term
	cellImm     map[*ssa.Alloc]bool
	untilShared map[string]bool   // only written while the object is private to its creator
	mutOther    map[string]bool   // mutable for another reason than a plain store
	guards      map[string]string // field -> lock field that guards it (inferred, see locks.go)
	condLock    map[string]string // condition variable field -> its lock field
	locks       *LockInfo
	fieldFns    map[string][]*ssa.Function // what a field of function type is ever given (nil entry: unknown)
}

// quietField: every function the field is ever given is known, and none of them can panic.
func (P *Prog) quietField(key string) bool {
	if P.fieldFns == nil {
		P.fieldFns = map[string][]*ssa.Function{}
		for _, f := range P.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					if _, ok := st.Val.Type().Underlying().(*types.Signature); !ok {
						continue
					}
					v := st.Val
					for {
						c, ok := v.(*ssa.ChangeType)
						if !ok {
							break
						}
						v = c.X
					}
					g, _ := v.(*ssa.Function)
					t := derefType(fa.X.Type())
					if s, ok := t.Underlying().(*types.Struct); ok {
						k := typeName(t) + "." + s.Field(fa.Field).Name()
						P.fieldFns[k] = append(P.fieldFns[k], g)
					}
				}
			}
		}
	}
	fns := P.fieldFns[key]
	if len(fns) == 0 || P.mutOther[key] || token.IsExported(key[strings.LastIndex(key, ".")+1:]) {
		return false
	}
	for _, g := range fns {
		if !quietFunc(g, 0) {
			return false
		}
	}
	return true
}

// quietFunc: nothing the function does can panic.
func quietFunc(g *ssa.Function, depth int) bool {
	if g == nil || depth > 3 {
		return false
	}
	switch g.String() {
	case "time.Now", "time.Since", "time.Until":
		return true
	}
	if g.Blocks == nil || !inRepo(g) {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return, *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.ChangeType:
			case *ssa.Call:
				if !quietFunc(x.Call.StaticCallee(), depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func loadRepo() (*Prog, error) {
	if d := os.Getenv("GEARS_DIR"); d != "" { // development only: analyse a scratch copy
		repoDir = d
	}
	tmp, err := os.MkdirTemp("", "gearsmod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, strings.Replace(f, "go.", "gears.", 1)), b, 0o644); err != nil {
			return nil, err
		}
	}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "gears.mod"),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedExportFile | packages.NeedModule,
		Dir: repoDir, Env: env, Fset: token.NewFileSet(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) < 12 {
		return nil, fmt.Errorf("only %d packages loaded", len(pkgs))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	P := &Prog{pkgs: pkgs, prog: prog, byPath: map[string]*ssa.Package{}, fset: cfg.Fset, cellImm: map[*ssa.Alloc]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		P.byPath[sp.Pkg.Path()] = sp
	}
	P.collectFuncs()
	P.computeMutability()
	return P, nil
}

func (P *Prog) pkg(rel string) *ssa.Package { return P.byPath[modPath+"/"+rel] }

func inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	return false
}

func (P *Prog) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !inRepo(f) {
			return
		}
		seen[f] = true
		P.funcs = append(P.funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var paths []string
	for p := range P.byPath {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, path := range paths {
		sp := P.byPath[path]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := P.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := P.prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// fieldKey names field i of the struct (behind pointer) type t.
func fieldKey(t types.Type, i int) string {
	d := derefType(t)
	st := d.Underlying().(*types.Struct)
	return typeName(d) + "." + st.Field(i).Name()
}

func rootAllocOf(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return false
		}
	}
}

// computeMutability finds the struct fields and globals that are written after construction.
func (P *Prog) computeMutability() {
	P.mutable = map[string]bool{}
	P.mutOther = map[string]bool{}
	P.gmut = map[*ssa.Global]bool{}
	var markStruct func(t types.Type)
	markStruct = func(t types.Type) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			P.mutable[typeName(t)+"."+st.Field(i).Name()] = true
			P.mutOther[typeName(t)+"."+st.Field(i).Name()] = true
			markStruct(st.Field(i).Type())
		}
	}
	for _, f := range P.funcs {
		isInit := f.Name() == "init" && f.Parent() == nil
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if g, ok := x.Addr.(*ssa.Global); ok && !isInit {
						P.gmut[g] = true
					}
					if _, ok := derefType(x.Addr.Type()).Underlying().(*types.Struct); ok && !rootAllocOf(x.Addr) {
						markStruct(derefType(x.Addr.Type()))
					}
				case *ssa.FieldAddr:
					key := fieldKey(x.X.Type(), x.Field)
					for _, r := range *x.Referrers() {
						switch u := r.(type) {
						case *ssa.Store:
							if u.Addr == x {
								if !rootAllocOf(x.X) {
									P.mutable[key] = true
								}
							} else {
								P.mutable[key] = true // address stored somewhere
								P.mutOther[key] = true
							}
						case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr:
						case *ssa.IndexAddr:
							if !rootAllocOf(x.X) {
								P.mutable[key] = true
								P.mutOther[key] = true
							}
						case ssa.CallInstruction:
							if !readsOnly(u) {
								P.mutable[key] = true
								P.mutOther[key] = true
							}
						default:
							P.mutable[key] = true
							P.mutOther[key] = true
						}
					}
				}
			}
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if s, ok := in.(*ssa.Store); ok && s.Val == g {
						P.gmut[g] = true // its address is kept somewhere
					}
					switch in.(type) {
					case *ssa.UnOp, *ssa.Store, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
					default:
						P.gmut[g] = true
					}
				}
			}
		}
	}
}

func readsOnly(c ssa.CallInstruction) bool {
	if fn := c.Common().StaticCallee(); fn != nil {
		n := fn.String()
		if strings.HasPrefix(n, "sync/atomic.Load") {
			return true
		}
	}
	return false
}

// method finds an exported (or any) method of a named type (pointer receiver preferred).
func (P *Prog) method(rel, typ, name string) *ssa.Function {
	sp := P.pkg(rel)
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(m.Type()), m.Type()} {
		ms := P.prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return P.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (P *Prog) function(rel, name string) *ssa.Function {
	sp := P.pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (P *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	f := strings.TrimPrefix(q.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}
