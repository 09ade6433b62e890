package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Held is a lock held on the path.
type Held struct {
	Key   *Term
	Mode  byte // 'W' or 'R'
	At    token.Pos
	Epoch int // memory epoch at acquisition: what the lock guards has not changed since
}

// Event is something observable that happened on the path.
type Event struct {
	Kind   string // Call, Store, Load, Lock, Unlock, Wait, Wake, Send, Recv, Close, Select, Go, MapUpdate, MapDelete, MapLookup, AtomicLoad, AtomicCAS, AtomicAdd, AtomicStore, RangeNext, LoopEnter, LoopBack, LoopHavoc, PanicSite, MayPanic
	Name   string // callee, lock mode, ...
	Args   []*Term
	Res    *Term
	Addr   *Term // stored/loaded address, channel, map
	Val    *Term
	Fn     *ssa.Function
	Pos    token.Pos
	Held   []Held
	NFacts int // number of literals known when it happened
	Cases  []SelCase
	Chosen int
	Block  bool // select: blocking
	Common *ssa.CallCommon
	Snap   map[*Term]*Term // Unlock: memory at release; Go: memory at spawn
	Hv     map[*Term]int
	Epoch  int
	Depth  int
	Seq    int
	User   bool // call into user-supplied code
	Defer  bool
	Callee *Term
	Elems  map[*Term][]*Term // contents of known slices among the arguments
	Local  bool              // touches an object no other goroutine knows yet
	Esc    map[*Term]bool
}

type SelCase struct {
	Dir types.ChanDir
	Ch  *Term
	Val *Term
}

type deferred struct {
	call  *ssa.CallCommon
	fn    *Term
	args  []*Term
	instr *ssa.Defer
}

type loopInfo struct {
	havocSeq int
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	defers []deferred
	call   ssa.Value // value in the caller frame to bind
	// kind of frame: normal call, deferred call run by RunDefers, deferred call run by a panic
	isDefer  bool
	unwind   bool // this frame is being unwound; deferred calls run on its behalf
	visits   map[*ssa.BasicBlock]int
	active   map[*ssa.BasicBlock]bool
	concrete map[*ssa.BasicBlock]bool
	cells    map[*ssa.BasicBlock][]loopCell         // captured variables a summarised loop may change (copied on write)
	keep     map[*ssa.BasicBlock]map[*ssa.Phi]*Term // flags assumed constant by a loop summary (copied on write)
	onReturn func(st *State, res *Term)
}

type State struct {
	frames    []*Frame
	heap      map[*Term]*Term
	epoch     int
	hv        map[*Term]int
	esc       map[*Term]bool
	facts     *Facts
	held      []Held
	events    []*Event
	panicking *Term
	recovered bool
	out       string // set when finished
	results   []*Term
	steps     int
	depthCut  bool
	note      []string
}

func (st *State) clone() *State {
	n := &State{
		epoch: st.epoch, facts: st.facts.clone(),
		held: st.held[:len(st.held):len(st.held)], events: st.events[:len(st.events):len(st.events)],
		panicking: st.panicking, recovered: st.recovered, steps: st.steps, note: st.note[:len(st.note):len(st.note)],
	}
	n.heap = make(map[*Term]*Term, len(st.heap)+8)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.hv = make(map[*Term]int, len(st.hv))
	for k, v := range st.hv {
		n.hv[k] = v
	}
	n.esc = make(map[*Term]bool, len(st.esc))
	for k, v := range st.esc {
		n.esc[k] = v
	}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		g.active = make(map[*ssa.BasicBlock]bool, len(f.active))
		for k, v := range f.active {
			g.active[k] = v
		}
		g.concrete = make(map[*ssa.BasicBlock]bool, len(f.concrete))
		for k, v := range f.concrete {
			g.concrete[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		n.frames[i] = &g
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) event(e *Event) *Event {
	if len(st.frames) > 0 && e.Fn == nil {
		e.Fn = st.top().fn
	}
	e.Held = st.held[:len(st.held):len(st.held)]
	e.NFacts = len(st.facts.log)
	e.Depth = len(st.frames)
	e.Seq = len(st.events)
	e.Epoch = st.epoch
	if e.Addr != nil {
		r := rootOf(e.Addr)
		e.Local = r.op == "alloc" && !st.esc[r]
	}
	st.events = append(st.events, e)
	return e
}

// ---- memory ----

// rootOf walks address terms down to the object they lie in.
func rootOf(a *Term) *Term {
	for a.op == "fa" || a.op == "ia" || a.op == "mel" || a.op == "mhas" {
		a = a.args[0]
	}
	return a
}

func fieldAddr(base *Term, key string, typ types.Type) *Term {
	if base.op == "slice" {
		base = base.args[0]
	}
	return mk("fa", key, typ, base)
}

func indexAddr(base, idx *Term, typ types.Type) *Term {
	if base.op == "slice" {
		return mk("ia", "", typ, base.args[0], tAddOr(base.args[1], idx))
	}
	return mk("ia", "", typ, base, idx)
}

func tAddOr(a, b *Term) *Term {
	if r := tAdd(a, b); r != nil {
		return r
	}
	return opaque("sum", a.typ)
}

// openStruct: struct values that are tracked field by field.
func openStruct(t types.Type) (*types.Struct, bool) {
	if isTimeType(t) {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		if strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return s, true
		}
		for i := 0; i < s.NumFields(); i++ {
			if !s.Field(i).Exported() {
				return nil, false
			}
		}
	}
	return s, true
}

// openArray: small array values that are tracked element by element.
func openArray(t types.Type) (types.Type, int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() == 0 || a.Len() > 16 {
		return nil, 0, false
	}
	return a.Elem(), a.Len(), true
}

// elemOf is element i of the array value v.
func arrayElem(v *Term, i int64, elem types.Type) *Term {
	switch {
	case v.op == "arrayval" && i < int64(len(v.args)):
		return v.args[i]
	case v.op == "zero":
		return zeroOf(elem)
	}
	return mk("elem", "", elem, v, mkInt(i))
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkConst(mkInt(0).k, t)
		case u.Info()&types.IsNumeric != 0:
			return mk("zero", typeKey(t), t)
		}
		return mkNil(t)
	case *types.Struct:
		if isTimeType(t) {
			return mk("zerotime", "", t)
		}
		if s, ok := openStruct(t); ok {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, zeroOf(s.Field(i).Type()))
			}
			return mk("structval", typeKey(t), t, fs...)
		}
		return mk("zero", typeKey(t), t)
	case *types.Array:
		if elem, n, ok := openArray(t); ok {
			var es []*Term
			for ; n > 0; n-- {
				es = append(es, zeroOf(elem))
			}
			return mk("arrayval", typeKey(t), t, es...)
		}
		return mk("zero", typeKey(t), t)
	}
	return mkNil(t)
}

func (P *Prog) immutableAddr(a *Term) bool {
	switch a.op {
	case "fa":
		return !P.mutable[a.aux] && a.aux != "#buf"
	}
	return false
}

func (ex *Exec) load(st *State, a *Term, typ types.Type) *Term {
	if s, ok := openStruct(typ); ok {
		if v, ok := st.heap[a]; ok {
			return v
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, ex.load(st, fieldAddr(a, typeName(typ)+"."+s.Field(i).Name(), s.Field(i).Type()), s.Field(i).Type()))
		}
		return mk("structval", typeKey(typ), typ, fs...)
	}
	if v, ok := st.heap[a]; ok {
		return v
	}
	if elem, n, ok := openArray(typ); ok {
		var es []*Term
		for i := int64(0); i < n; i++ {
			es = append(es, ex.load(st, indexAddr(a, mkInt(i), elem), elem))
		}
		return mk("arrayval", typeKey(typ), typ, es...)
	}
	root := rootOf(a)
	if a.op == "fa" && root.op == "global" && a.args[0] == root {
		if v := ex.P.globalField(root, a.aux[strings.LastIndexByte(a.aux, '.')+1:]); v != nil {
			return v
		}
	}
	if root.op == "alloc" && a.op == "ia" {
		// one of several: which one is not known
		var may []*Term
		for k := range st.heap {
			if k != a && k.op == "ia" && k.args[0] == a.args[0] && mayAlias(st, k, a) {
				may = append(may, k)
			}
		}
		if len(may) > 0 {
			sort.Slice(may, func(i, j int) bool { return may[i].id < may[j].id })
			args := []*Term{a.args[1]}
			for _, k := range may {
				args = append(args, k.args[1], st.heap[k])
			}
			return mk("pick", "", typ, args...)
		}
	}
	if a.op == "ia" {
		switch a.args[0].op {
		case "bytes":
			return mk("byteat", "", typ, a.args[0].args[0], a.args[1])
		case "append":
			ap := a.args[0]
			base := mkLen(ap.args[0])
			for i := 1; i < len(ap.args); i++ {
				if tAddOr(base, mkInt(int64(i-1))) == a.args[1] {
					return ap.args[i]
				}
			}
		}
	}
	if root.op == "alloc" && st.hv[root] == 0 && ex.P.pristine(a) {
		return zeroOf(typ)
	}
	if ex.P.immutableAddr(a) {
		if root.op == "alloc" {
			if a.op == "fa" && (ex.P.untilShared[a.aux] || st.hv[root] > 0 && token.IsExported(a.aux[strings.LastIndexByte(a.aux, '.')+1:])) {
				// a loop may have written it before the object was shared, or a library that was given the object
				return mk("init", fmt.Sprintf("l%d", st.hv[root]), typ, a)
			}
			return zeroOf(typ)
		}
		return mk("init", "imm", typ, a)
	}
	if root.op == "global" && a == root && ex.P.globalImmutable(root) {
		if v := ex.P.globalValue(root); v != nil {
			return v
		}
		return mk("init", "imm", typ, a)
	}
	if root.op == "alloc" && !st.esc[root] {
		return mk("init", fmt.Sprintf("l%d", st.hv[root]), typ, a)
	}
	return mk("init", fmt.Sprintf("%d.%d", ex.epochFor(st, a), st.hv[root]), typ, a)
}

// pristine: every step of the address is inside the object itself.
func (P *Prog) pristine(a *Term) bool { return true }

func (P *Prog) globalImmutable(g *Term) bool {
	return g.site == nil && !P.gmutTerm(g)
}

var globalTerms = map[*Term]*ssa.Global{}

func (P *Prog) gmutTerm(g *Term) bool {
	sg := globalTerms[g]
	if sg == nil {
		return true
	}
	if sg.Pkg == nil || !strings.HasPrefix(sg.Pkg.Pkg.Path(), modPath) {
		return false // library variables (errors, functions) do not change
	}
	return P.gmut[sg]
}

// globalValue: the value a variable that is only set by its declaration has, for the declarations whose value
// does not depend on the run: constants, functions and types.
func (P *Prog) globalValue(g *Term) *Term {
	sg := globalTerms[g]
	if sg == nil || sg.Pkg == nil || !strings.HasPrefix(sg.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	if v, ok := P.gval[sg]; ok {
		return v
	}
	if P.gval == nil {
		P.gval = map[*ssa.Global]*Term{}
	}
	P.gval[sg] = nil
	in := sg.Pkg.Func("init")
	if in == nil || sg.Object() == nil || sg.Object().Exported() {
		return nil
	}
	var vals []ssa.Value
	for _, f := range P.funcs {
		if f.Pkg != sg.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok && s.Addr == sg {
					vals = append(vals, s.Val)
					if f != in {
						vals = append(vals, nil)
					}
				}
			}
		}
	}
	for _, b := range in.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == sg && !hasValue(vals, s.Val) {
				vals = append(vals, s.Val)
			}
		}
	}
	if len(vals) != 1 || vals[0] == nil {
		return nil
	}
	var v *Term
	switch x := vals[0].(type) {
	case *ssa.Const:
		if x.Value != nil {
			v = constTerm(x)
		}
	case *ssa.Function:
		v = mkFn("func", x)
	case *ssa.MakeMap:
		v = P.fixedTable(sg, x)
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.String() == "reflect.TypeOf" {
			if m, ok := x.Call.Args[0].(*ssa.MakeInterface); ok {
				v = rtypeOf(m.X.Type())
			}
		}
	}
	P.gval[sg] = v
	return v
}

// globalField: the constant or function a field of a struct variable is declared with, if nothing but the
// declaration sets the variable and nobody is given its address.
func (P *Prog) globalField(g *Term, name string) *Term {
	sg := globalTerms[g]
	if sg == nil || sg.Pkg == nil || !strings.HasPrefix(sg.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	vs, ok := P.gfields[sg]
	if !ok {
		if P.gfields == nil {
			P.gfields = map[*ssa.Global]map[string]*Term{}
		}
		vs = P.declaredFields(sg)
		P.gfields[sg] = vs
	}
	return vs[name]
}

func (P *Prog) declaredFields(g *ssa.Global) map[string]*Term {
	typ, ok := derefType(g.Type()).Underlying().(*types.Struct)
	in := g.Pkg.Func("init")
	if !ok || in == nil || g.Object() == nil || g.Object().Exported() || P.gmut[g] {
		return nil
	}
	vals := map[string]*Term{}
	twice := map[string]bool{}
	set := func(f int, v ssa.Value) {
		n := typ.Field(f).Name()
		if vals[n] != nil {
			twice[n] = true
		}
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				vals[n] = constTerm(x)
				return
			}
		case *ssa.Function:
			vals[n] = mkFn("func", x)
			return
		}
		twice[n] = true
	}
	whole := 0
	for _, f := range append(append([]*ssa.Function{}, P.funcs...), in) {
		if f == in && whole > 0 {
			continue // listed twice
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := i.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						l, ok := x.Val.(*ssa.UnOp)
						if f != in || x.Addr != ssa.Value(g) || !ok {
							return nil
						}
						lit, ok := l.X.(*ssa.Alloc)
						if !ok {
							return nil
						}
						whole++
						for _, u := range *lit.Referrers() {
							switch y := u.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.FieldAddr:
								for _, w := range *y.Referrers() {
									s, ok := w.(*ssa.Store)
									if !ok || s.Addr != ssa.Value(y) {
										return nil
									}
									set(y.Field, s.Val)
								}
							default:
								return nil
							}
						}
					case *ssa.FieldAddr:
						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if f != in || y.Addr != ssa.Value(x) {
									return nil
								}
								whole++
								set(x.Field, y.Val)
							default:
								return nil
							}
						}
					default:
						return nil
					}
				}
			}
		}
	}
	for n := range twice {
		delete(vals, n)
	}
	return vals
}

type tableEntry struct{ key, val *Term }

// fixedTables: the entries of the maps that only the declaration of their variable fills.
var fixedTables = map[*Term][]tableEntry{}

// fixedTable: the map with constant keys and constant or function values that a variable is declared with, if
// everything else only looks into it.
func (P *Prog) fixedTable(g *ssa.Global, m *ssa.MakeMap) *Term {
	var es []tableEntry
	for _, u := range *m.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != g {
				return nil
			}
		case *ssa.MapUpdate:
			k, ok := x.Key.(*ssa.Const)
			if x.Map != m || !ok || k.Value == nil {
				return nil
			}
			var v *Term
			switch y := x.Value.(type) {
			case *ssa.Const:
				v = constTerm(y)
			case *ssa.Function:
				v = mkFn("func", y)
			default:
				return nil
			}
			es = append(es, tableEntry{constTerm(k), v})
		default:
			return nil
		}
	}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				l, ok := in.(*ssa.UnOp)
				if !ok || l.X != g {
					continue
				}
				for _, u := range *l.Referrers() {
					switch x := u.(type) {
					case *ssa.DebugRef, *ssa.Range:
					case *ssa.Lookup:
						if x.X != l {
							return nil
						}
					case *ssa.Call:
						if bi, ok := x.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
							return nil
						}
					default:
						return nil
					}
				}
			}
		}
	}
	if len(es) > 32 {
		return nil
	}
	t := mk("table", g.String(), m.Type())
	fixedTables[t] = es
	return t
}

func hasValue(vs []ssa.Value, v ssa.Value) bool {
	for _, x := range vs {
		if x == v {
			return true
		}
	}
	return false
}

func (ex *Exec) store(st *State, a, v *Term, typ types.Type) {
	if s, ok := openStruct(typ); ok {
		delete(st.heap, a)
		for i := 0; i < s.NumFields(); i++ {
			fa := fieldAddr(a, typeName(typ)+"."+s.Field(i).Name(), s.Field(i).Type())
			ex.store(st, fa, ex.fieldOf(v, i, s, typ), s.Field(i).Type())
		}
		return
	}
	if elem, n, ok := openArray(typ); ok {
		delete(st.heap, a)
		for i := int64(0); i < n; i++ {
			ex.store(st, indexAddr(a, mkInt(i), elem), arrayElem(v, i, elem), elem)
		}
		return
	}
	ex.invalidateAliases(st, a)
	st.heap[a] = v
	if r := rootOf(a); r.op != "alloc" || st.esc[r] {
		st.escape(v)
	}
}

func mayAlias(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op != b.op {
		return false
	}
	switch a.op {
	case "fa":
		if a.aux != b.aux {
			return false
		}
		return mayAliasBase(st, a.args[0], b.args[0])
	case "ia", "mel", "mhas":
		x, y := a.args[1], b.args[1]
		if x != y {
			if v, known := st.facts.Eval(mkEq(x, y, nil)); known && !v {
				return false
			}
		}
		return mayAliasBase(st, a.args[0], b.args[0])
	case "alloc":
		return false
	}
	return mayAliasBase(st, a, b)
}

func mayAliasBase(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == "fa" && b.op == "fa" || a.op == "ia" && b.op == "ia" {
		return mayAlias(st, a, b)
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra.op == "alloc" && rb.op == "alloc" && ra != rb {
		return false
	}
	// a fresh, unescaped object is not reachable through another name
	if ra.op == "alloc" && !st.esc[ra] && rb != ra || rb.op == "alloc" && !st.esc[rb] && ra != rb {
		return false
	}
	if ra.op == "global" && rb.op == "global" && ra != rb {
		return false
	}
	if ra.typ != nil && rb.typ != nil && !types.Identical(ra.typ, rb.typ) && ra.op != "init" && rb.op != "init" {
		return false
	}
	if v, known := st.facts.Eval(mkEq(a, b, nil)); known && !v {
		return false
	}
	return true
}

func (ex *Exec) invalidateAliases(st *State, a *Term) {
	for k := range st.heap {
		if k != a && k.op == a.op && mayAlias(st, k, a) {
			delete(st.heap, k)
			// later loads must not see the pre-state value under the same name
			st.hv[rootOf(k)]++
		}
	}
}

func (st *State) escape(v *Term) {
	if v == nil {
		return
	}
	v.walk(func(x *Term) bool {
		if x.op == "init" {
			return false // what is read from an object does not give the object away
		}
		if x.typ != nil {
			if _, basic := x.typ.Underlying().(*types.Basic); basic {
				return false
			}
		}
		if x.op == "alloc" && !st.esc[x] {
			st.esc[x] = true
			for k, w := range st.heap {
				if rootOf(k) == x {
					st.escape(w)
				}
			}
		}
		return true
	})
}

// havocShared forgets everything other goroutines or user code may change.
func (ex *Exec) havocShared(st *State) {
	st.epoch++
	touched := map[*Term]bool{}
	for k := range st.heap {
		r := rootOf(k)
		if r.op == "alloc" && !st.esc[r] {
			continue
		}
		if ex.P.immutableAddr(k) {
			continue
		}
		if r.op == "global" && k == r && ex.P.globalImmutable(r) {
			continue
		}
		if r.op == "alloc" && k == r && ex.P.cellImmutable(r) {
			continue
		}
		if ex.guardHeld(st, k) != nil {
			continue
		}
		delete(st.heap, k)
		if r.op == "alloc" {
			touched[r] = true
		}
	}
	for r := range st.esc {
		if r.op == "alloc" && (len(st.held) == 0 || !ex.ownedByHeld(st, r)) {
			touched[r] = true
		}
	}
	for r := range touched {
		st.hv[r]++
	}
}

// havocReach forgets the memory directly reachable from v (argument of a library call).
func (ex *Exec) havocReach(st *State, v *Term) {
	roots := map[*Term]bool{}
	v.walk(func(x *Term) bool {
		switch x.op {
		case "alloc":
			roots[x] = true
			return true
		case "init", "param":
			roots[x] = true
			return false
		case "fa", "ia":
			roots[x] = true
			// a pointer to a number or a text leads nowhere else
			t := x.typ
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if t != nil {
				if _, basic := t.Underlying().(*types.Basic); basic {
					return false
				}
			}
		}
		return true
	})
	for r := range roots {
		st.hv[rootOf(r)]++
	}
	for k := range st.heap {
		if roots[rootOf(k)] || roots[k] {
			if k.op == "alloc" && ex.P.cellImmutable(k) {
				continue
			}
			if ex.P.immutableAddr(k) && strings.HasPrefix(k.aux, modPath) {
				name := k.aux[strings.LastIndexByte(k.aux, '.')+1:]
				if rootOf(k).op != "alloc" || name != "" && !token.IsExported(name) {
					continue
				}
				// a library may have set it, but it is not unset again
				if v := st.heap[k]; v != nil && v.typ != nil {
					st.heap[k] = mk("init", fmt.Sprintf("l%d", st.hv[rootOf(k)]), v.typ, k)
					continue
				}
			}
			delete(st.heap, k)
		}
	}
}

func (ex *Exec) fieldOf(v *Term, i int, s *types.Struct, typ types.Type) *Term {
	if v.op == "structval" && i < len(v.args) {
		return v.args[i]
	}
	ft := s.Field(i).Type()
	if v.op == "zero" {
		return zeroOf(ft)
	}
	if st2, ok := openStruct(ft); ok {
		var fs []*Term
		inner := mk("fv", typeName(typ)+"."+s.Field(i).Name(), ft, v)
		for j := 0; j < st2.NumFields(); j++ {
			fs = append(fs, ex.fieldOf(inner, j, st2, ft))
		}
		return mk("structval", typeKey(ft), ft, fs...)
	}
	return mk("fv", typeName(typ)+"."+s.Field(i).Name(), ft, v)
}

// elems returns the elements of a slice of known length.
func (ex *Exec) elems(st *State, s *Term, elem types.Type) ([]*Term, bool) {
	if s == nil {
		return nil, false
	}
	if s.isNil() {
		return nil, true
	}
	if s.op != "slice" {
		return nil, false
	}
	n, ok := s.args[2].isInt()
	if !ok || n > 200 {
		// a length that the facts pin down
		if v := st.facts.get(bodyOnly(s.args[2])).norm(); v.lo == v.hi {
			_, sign, k := bodyOf(s.args[2])
			n, ok = v.lo*sign+k, true
		}
		if !ok || n > 200 || n < 0 {
			return nil, false
		}
	}
	var out []*Term
	for i := int64(0); i < n; i++ {
		out = append(out, ex.load(st, indexAddr(s, mkInt(i), elem), elem))
	}
	return out, true
}

func bodyOnly(t *Term) *Term { b, _, _ := bodyOf(t); return b }

func sliceElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return sliceElem(u.Elem())
	case *types.Basic:
		return types.Typ[types.Byte]
	}
	return types.Typ[types.Invalid]
}

func (ex *Exec) newAlloc(kind string, typ types.Type, site ssa.Instruction) *Term {
	t := mk("alloc", fmt.Sprintf("%s#%d", kind, nextSeq()), typ)
	t.site = site
	return t
}

// newSlice builds a known slice.
func (ex *Exec) newSlice(st *State, elems []*Term, typ types.Type) *Term {
	a := ex.newAlloc("arr", types.NewSlice(sliceElem(typ)), nil)
	n := mkInt(int64(len(elems)))
	s := mk("slice", "", typ, a, mkInt(0), n, n)
	for i, e := range elems {
		st.heap[indexAddr(s, mkInt(int64(i)), sliceElem(typ))] = e
		if st.esc[a] {
			st.escape(e)
		}
	}
	return s
}

// ---- what a held lock protects ----

func lockableContainer(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Chan:
		return true
	case *types.Pointer:
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil {
			return !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
		}
		return true
	}
	return false
}

// cellOf names the field of the repository's struct a piece of state belongs to: the contents of
// a map, list or slice belong to the field that holds it.
func cellOf(a *Term) (key string, base *Term) {
	for i := 0; i < 40; i++ {
		switch a.op {
		case "fa":
			if strings.HasPrefix(a.aux, modPath) {
				return outerCell(a.aux, a.args[0])
			}
			a = a.args[0]
		case "ia", "mel", "mhas", "slice", "lenof":
			a = a.args[0]
		case "init":
			if len(a.args) == 1 && (a.args[0].op == "fa") && (a.typ == nil || lockableContainer(a.typ)) {
				a = a.args[0]
				continue
			}
			return "", a
		case "global":
			return a.aux, nil
		default:
			return "", a
		}
	}
	return "", a
}

// outerCell names a field of an embedded or nested struct value after the struct that contains it.
func outerCell(key string, base *Term) (string, *Term) {
	for base.op == "fa" && strings.HasPrefix(base.aux, modPath) {
		key = base.aux + "/" + fieldShort(key)
		base = base.args[0]
	}
	return key, base
}

// lockCell names the lock: field and object.
func (P *Prog) lockCell(k *Term) (string, *Term) {
	key, base := "", k
	x := k
	for i := 0; i < 20; i++ {
		if x.op == "init" && len(x.args) == 1 {
			x = x.args[0]
			continue
		}
		if x.op == "fa" && !strings.HasPrefix(x.aux, modPath) {
			x = x.args[0]
			continue
		}
		break
	}
	if x.op == "fa" {
		key, base = outerCell(x.aux, x.args[0])
	} else if x.op == "global" {
		return x.aux, nil
	} else {
		return "", k
	}
	if a, ok := P.condLock[key]; ok {
		key = a
	}
	return key, base
}

func structOfKey(key string) string {
	if i := strings.LastIndexByte(key, '.'); i >= 0 {
		return key[:i]
	}
	return key
}

// guardHeld finds the held lock that guards the state at a.
func (ex *Exec) guardHeld(st *State, a *Term) *Held {
	if len(st.held) == 0 || ex.P.guards == nil {
		return nil
	}
	key, base := cellOf(a)
	if key == "" {
		return nil
	}
	g := ex.P.guards[key]
	if g == "" {
		return nil
	}
	for i := range st.held {
		lk, lb := ex.P.lockCell(st.held[i].Key)
		if lk != g {
			continue
		}
		if structOfKey(lk) == structOfKey(key) && lb != base {
			continue
		}
		return &st.held[i]
	}
	return nil
}

func (ex *Exec) ownedByHeld(st *State, r *Term) bool {
	for i := range st.held {
		if _, b := ex.P.lockCell(st.held[i].Key); b == r {
			return true
		}
	}
	return false
}

func (ex *Exec) epochFor(st *State, a *Term) int {
	if h := ex.guardHeld(st, a); h != nil {
		return h.Epoch
	}
	return st.epoch
}
