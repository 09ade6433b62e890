package main

// Whole-library lock analysis: explores every entry point and every goroutine body of the packages
// that use synchronisation, and infers which lock guards which field.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type RootRun struct {
	Name  string
	Fn    *ssa.Function
	Ex    *Exec
	Paths []*State
	Spawn bool
}

type Access struct {
	Key    string // field
	Base   *Term
	Write  bool
	Atomic bool
	Ev     *Event
	Root   *RootRun
	Guards map[string]byte // lock field -> strongest mode held
	Local  bool
}

type LockInfo struct {
	Runs     []*RootRun
	Accesses []*Access
	Pkgs     []string
}

// syncPkgs: packages of the repository that use locks, atomics, channels or goroutines.
func (P *Prog) syncPkgs() map[*ssa.Package]bool {
	out := map[*ssa.Package]bool{}
	for _, f := range P.funcs {
		if f.Pkg == nil || strings.HasSuffix(f.Pkg.Pkg.Path(), "/testutil") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
					out[f.Pkg] = true
				case ssa.CallInstruction:
					if c := x.Common().StaticCallee(); c != nil && c.Pkg != nil && strings.HasPrefix(c.Pkg.Pkg.Path(), "sync") {
						out[f.Pkg] = true
					}
				}
			}
		}
	}
	return out
}

// entryPoints: exported functions and methods, which is what other code can call.
func (P *Prog) entryPoints(pk *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.funcs {
		if f.Pkg != pk || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if token.IsExported(f.Name()) {
			out = append(out, f)
		}
	}
	return out
}

func (P *Prog) lockRuns(cfg Config) []*RootRun {
	var runs []*RootRun
	var pks []*ssa.Package
	for pk := range P.syncPkgs() {
		pks = append(pks, pk)
	}
	sort.Slice(pks, func(i, j int) bool { return pks[i].Pkg.Path() < pks[j].Pkg.Path() })
	for _, pk := range pks {
		for _, f := range P.entryPoints(pk) {
			ex := newExec(P, cfg)
			r := &RootRun{Name: f.String(), Fn: f, Ex: ex, Paths: ex.Run(f)}
			runs = append(runs, r)
			runs = append(runs, P.spawnRuns(r, cfg, map[string]bool{}, 0)...)
		}
	}
	return runs
}

// spawnRuns explores the goroutines and timer callbacks started on the paths of r.
func (P *Prog) spawnRuns(r *RootRun, cfg Config, seen map[string]bool, depth int) []*RootRun {
	var out []*RootRun
	if depth > 4 {
		r.Ex.problem = "goroutines nested too deeply in " + r.Name
		return nil
	}
	for _, p := range r.Paths {
		for _, e := range p.events {
			if e.Kind != "Go" && e.Kind != "AfterFunc" {
				continue
			}
			fn, free := calleeOf(e.Callee)
			if fn == nil || !inRepoOrSynthetic(fn) || fn.Blocks == nil {
				continue
			}
			k := fn.String() + "|" + e.Kind + "|" + P.pos(e.Pos)
			if seen[k] {
				continue
			}
			seen[k] = true
			ex := newExec(P, cfg)
			var args []*Term
			if e.Kind == "Go" {
				args = e.Args
			}
			s := &RootRun{Name: r.Fn.String() + "$" + e.Kind + ":" + fn.Name(), Fn: fn, Ex: ex, Spawn: true}
			s.Paths = ex.RunFrom(ex.spawn(p, e), fn, free, args...)
			out = append(out, s)
			out = append(out, P.spawnRuns(s, cfg, seen, depth+1)...)
		}
	}
	return out
}

// leafCells: a plain load or store of a whole struct of this module touches each of its fields.
func leafCells(a *Term, kind string) []*Term {
	if kind != "Load" && kind != "Store" || a.typ == nil {
		return []*Term{a}
	}
	t := a.typ
	if a.op != "fa" { // the address of a field has the type of the field
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return []*Term{a}
		}
		t = pt.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return []*Term{a}
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return []*Term{a}
	}
	var out []*Term
	for i := 0; i < st.NumFields(); i++ {
		f, _ := field(a, n, st.Field(i).Name())
		if f != nil {
			out = append(out, leafCells(f, kind)...)
		}
	}
	return out
}

func calleeOf(t *Term) (*ssa.Function, []*Term) {
	if t == nil {
		return nil, nil
	}
	switch t.op {
	case "func":
		return t.fn, nil
	case "closure":
		return t.fn, t.args
	}
	return nil, nil
}

func (P *Prog) accessesOf(runs []*RootRun) []*Access {
	var out []*Access
	for _, r := range runs {
		for _, p := range r.Paths {
			for _, e := range p.events {
				var a *Term
				w, at := false, false
				switch e.Kind {
				case "Load", "MapLookup", "RangeNext", "RangeEnd":
					a = e.Addr
				case "Store", "MapUpdate", "MapDelete", "MapClear":
					a, w = e.Addr, true
				case "AtomicLoad":
					a, at = e.Addr, true
				case "AtomicStore", "AtomicAdd", "AtomicCAS", "AtomicSwap":
					a, w, at = e.Addr, true, true
				}
				if a == nil {
					continue
				}
				for _, a := range leafCells(a, e.Kind) {
					key, base := cellOf(a)
					if key == "" {
						continue
					}
					acc := &Access{Key: key, Base: base, Write: w, Atomic: at, Ev: e, Root: r, Guards: map[string]byte{}}
					if base != nil {
						rb := rootOf(base)
						acc.Local = rb.op == "alloc" && (e.Local || rootOf(e.Addr) != rb && !p.esc[rb])
					}
					for _, h := range e.Held {
						lk, lb := P.lockCell(h.Key)
						if lk == "" {
							continue
						}
						if structOfKey(lk) == structOfKey(key) && lb != base {
							continue
						}
						if acc.Guards[lk] != 'W' {
							acc.Guards[lk] = h.Mode
						}
					}
					out = append(out, acc)
				}
			}
		}
	}
	return out
}

// lockInfo runs the analysis once per process.
func (P *Prog) lockInfo() *LockInfo {
	if P.locks != nil {
		return P.locks
	}
	P.condLock = map[string]string{}
	P.untilShared = map[string]bool{}
	runs := P.lockRuns(Config{Loads: true})
	// which lock does a condition variable stored in a field belong to?
	for _, r := range runs {
		for _, p := range r.Paths {
			for _, e := range p.events {
				if e.Kind != "Store" || e.Val == nil || e.Addr.op != "fa" {
					continue
				}
				at, l := e.Addr.aux, p.heap[mk("fa", "sync.Cond.L", nil, e.Val)]
				if b := e.Addr.args[0]; at == "sync.Cond.L" && b.op == "fa" { // part of the struct itself
					at, l = b.aux, e.Val
				} else if e.Val.op != "alloc" {
					continue
				}
				if l != nil {
					if lk, _ := P.lockCell(lockKey(l)); lk != "" {
						P.condLock[at] = lk
					}
				}
			}
		}
	}
	acc := P.accessesOf(runs)
	// fields only ever written while still private to their creator do not change afterwards
	shared, sharedPlain := map[string]bool{}, map[string]bool{}
	for _, a := range acc {
		if a.Write && !a.Local {
			shared[a.Key] = true
			sharedPlain[plainCell(a.Ev.Addr)] = true
		}
	}
	inSync := map[string]bool{}
	for pk := range P.syncPkgs() {
		inSync[pk.Pkg.Path()] = true
	}
	for key := range P.mutable {
		if P.mutable[key] && !P.mutOther[key] && !sharedPlain[key] && inSync[pkgOfKey(key)] {
			P.mutable[key] = false
			P.untilShared[key] = true
		}
	}
	guards := map[string]map[string]bool{}
	for _, a := range acc {
		if a.Local || !shared[a.Key] {
			continue
		}
		g, ok := guards[a.Key]
		if !ok {
			g = map[string]bool{}
			for lk := range a.Guards {
				g[lk] = true
			}
			guards[a.Key] = g
			continue
		}
		for lk := range g {
			if a.Guards[lk] == 0 {
				delete(g, lk)
			}
		}
	}
	P.guards = map[string]string{}
	for key, g := range guards {
		var ls []string
		for lk := range g {
			ls = append(ls, lk)
		}
		sort.Strings(ls)
		if len(ls) > 0 {
			// prefer a lock that is written under exclusively
			P.guards[key] = ls[0]
		}
	}
	// second pass, with the guards known
	runs = P.lockRuns(Config{Loads: true, PanicUser: true})
	P.locks = &LockInfo{Runs: runs, Accesses: P.accessesOf(runs)}
	for pk := range P.syncPkgs() {
		P.locks.Pkgs = append(P.locks.Pkgs, pk.Pkg.Path())
	}
	sort.Strings(P.locks.Pkgs)
	return P.locks
}

// plainCell is the field key without the containing struct.
func plainCell(a *Term) string {
	for i := 0; i < 40; i++ {
		if a.op == "fa" && strings.HasPrefix(a.aux, modPath) {
			return a.aux
		}
		if len(a.args) == 0 {
			return ""
		}
		a = a.args[0]
	}
	return ""
}

func pkgOfKey(key string) string {
	s := structOfKey(key)
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[:i]
	}
	return s
}

var _ types.Type
