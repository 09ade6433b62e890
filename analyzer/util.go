package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Segment is a stretch of a path during which a lock is held without interruption.
type Segment struct {
	Lock, From, To *Event
	Key            *Term
	Mode           byte
	Events         []*Event // strictly inside
}

// segments of path p for locks accepted by match. A wait on a condition and the head of a
// summarised loop split a critical section.
func (P *Prog) segments(p *State, match func(key string, base *Term) bool) []Segment {
	var out []Segment
	var cur *Segment
	for _, e := range p.events {
		switch e.Kind {
		case "Lock":
			k, b := P.lockCell(e.Addr)
			if cur == nil && match(k, b) {
				cur = &Segment{Lock: e, From: e, Key: e.Addr, Mode: e.Name[0]}
				continue
			}
		case "Unlock":
			if cur != nil && e.Addr == cur.Key && e.Name[0] == cur.Mode {
				cur.To = e
				out = append(out, *cur)
				cur = nil
				continue
			}
		case "Wait", "LoopEnter", "LoopBack":
			if cur != nil {
				cur.To = e
				out = append(out, *cur)
				l := cur.Lock
				cur = &Segment{Lock: l, From: nil, Key: l.Addr, Mode: l.Name[0]}
				continue
			}
		case "Woken", "LoopHavoc":
			if cur != nil && cur.From == nil {
				cur.From = e
				cur.Events = nil
				continue
			}
		}
		if cur != nil {
			cur.Events = append(cur.Events, e)
		}
	}
	return out
}

// factsAt: the branch facts known when e happened.
func (p *State) factsAt(e *Event) *Facts {
	f := newFacts()
	for _, l := range p.facts.log[:e.NFacts] {
		f.Assume(l.T, l.Val)
	}
	return f
}

// valAt reads a location as it was at event e.
func (ex *Exec) valAt(p *State, e *Event, addr *Term, typ types.Type) *Term {
	return ex.load(p.at(e), addr, typ)
}

func structType(t types.Type) (*types.Named, *types.Struct) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, nil
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	return n, s
}

// field returns the address and type of a (possibly promoted) field of the object at base.
func field(base *Term, t types.Type, name string) (*Term, types.Type) {
	_, s := structType(t)
	if s == nil {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == name {
			return fieldAddr(base, typeName(derefType2(t))+"."+name, f.Type()), f.Type()
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Anonymous() {
			continue
		}
		a := fieldAddr(base, typeName(derefType2(t))+"."+f.Name(), f.Type())
		if _, ok := f.Type().Underlying().(*types.Pointer); ok {
			a = mk("init", "imm", f.Type(), a)
		}
		if x, xt := field(a, f.Type(), name); x != nil {
			return x, xt
		}
	}
	return nil, nil
}

func derefType2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// fieldsWhere lists field names of a struct type satisfying pred.
func fieldsWhere(t types.Type, pred func(f *types.Var) bool) []string {
	_, s := structType(t)
	var out []string
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if pred(s.Field(i)) {
			out = append(out, s.Field(i).Name())
		}
	}
	return out
}

// namedType finds a type of a package.
func (P *Prog) namedType(rel, name string) types.Type {
	sp := P.pkg(rel)
	if sp == nil {
		return nil
	}
	if m, ok := sp.Members[name].(*ssa.Type); ok {
		return m.Type()
	}
	return nil
}

// ownerIs: match function for segments, any lock of the given object.
func ownerIs(obj *Term) func(string, *Term) bool {
	return func(k string, b *Term) bool { return b == obj }
}

func lockIs(key string, obj *Term) func(string, *Term) bool {
	return func(k string, b *Term) bool { return k == key && b == obj }
}

func calls(p *State, name string) []*Event {
	var out []*Event
	for _, e := range p.events {
		if e.Kind == "Call" && e.Name == name {
			out = append(out, e)
		}
	}
	return out
}

func userCallsOf(p *State, fn *Term) []*Event {
	var out []*Event
	for _, e := range p.events {
		if e.Kind == "Call" && e.User && e.Callee == fn {
			out = append(out, e)
		}
	}
	return out
}

func trimPkg(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

// decideBool: the value of a boolean term on the path.
func decideBool(p *State, t *Term) (val, known bool) {
	if t == nil {
		return false, false
	}
	return p.facts.Eval(t)
}

// factsWith replays the facts known at event e (nil: all) on top of assumptions; ok is false when
// the path is impossible under them.
func (p *State) factsWith(e *Event, assume ...*Term) (f *Facts, ok bool) {
	f = newFacts()
	n := len(p.facts.log)
	if e != nil {
		n = e.NFacts
	}
	for _, a := range assume {
		if !f.Assume(a, true) {
			return f, false
		}
	}
	for _, l := range p.facts.log[:n] {
		if !f.Assume(l.T, l.Val) {
			return f, false
		}
	}
	return f, true
}

// touching: the critical sections that read or write one of the given locations' fields.
func touching(segs []Segment, cells map[string]bool) []Segment {
	var out []Segment
	for _, g := range segs {
		if g.From == nil || g.To == nil {
			continue
		}
		hit := false
		for _, e := range g.Events {
			if e.Addr != nil && (e.Kind == "Load" || e.Kind == "Store") {
				k, _ := cellOf(e.Addr)
				hit = hit || cells[k]
			}
		}
		if hit {
			out = append(out, g)
		}
	}
	return out
}

// onlyWrittenBy: among all entry points and goroutines of the library, the state is changed only
// inside the given functions.
func (r *Report) onlyWrittenBy(keys []string, fns ...*ssa.Function) {
	ok := map[*ssa.Function]bool{}
	for _, f := range fns {
		ok[f] = true
	}
	ks := map[string]bool{}
	for _, k := range keys {
		ks[k] = true
	}
	n := 0
	for _, a := range r.P.lockInfo().Accesses {
		if !a.Write || a.Local || !ks[a.Key] {
			continue
		}
		n++
		if !ok[a.Root.Fn] {
			r.Ob(false, "only-writer/"+short(a.Key)+"/"+trimPkg(a.Root.Name), a.Ev.Pos, "%s changes %s", trimPkg(a.Root.Name), short(a.Key))
		}
	}
	r.Count("writes_of_state", n)
	for _, k := range keys {
		r.ObAt(true, "only-writer/"+short(k), short(k), "changed only by the functions analysed here")
	}
}

// constructors: exported functions of the package returning (a pointer to, or an interface around)
// a new object of type t, with the paths that do.
func (r *Report) constructors(rel string, t types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.P.entryPoints(r.P.pkg(rel)) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 {
			continue
		}
		ex := newExec(r.P, Config{})
		for _, p := range ex.Run(f) {
			if p.out == "Return" && newObject(p, t) != nil {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// newObject: the object of type *t the path returns, if it allocated it.
func newObject(p *State, t types.Type) *Term {
	if len(p.results) == 0 {
		return nil
	}
	o := p.results[0]
	if o.op == "mkiface" {
		o = o.args[0]
	}
	if o.op == "alloc" && o.typ != nil && types.Identical(derefType2(o.typ), derefType2(t)) {
		return o
	}
	return nil
}

// onlyCalled: an unexported function that is used in no other way than being called by other functions, with
// which it is analysed.
func (P *Prog) onlyCalled(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Object() == nil || fn.Object().Exported() || fn.Signature.Recv() != nil || strings.HasPrefix(fn.Name(), "init") {
		return false
	}
	calls := 0
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != fn {
						continue
					}
					c, ok := in.(ssa.CallInstruction)
					if _, spawned := in.(*ssa.Go); spawned || !ok || c.Common().StaticCallee() != fn || f == fn {
						return false
					}
					calls++
					for _, a := range c.Common().Args {
						if a == fn {
							return false
						}
					}
				}
			}
		}
	}
	return calls > 0
}
