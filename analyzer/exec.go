package main

// Path-sensitive abstract interpreter over SSA. It enumerates the control-flow paths of a root
// function (in-repository callees are expanded, loops are summarised by forgetting what they may
// change), and records on each path what observable things happen, under which locks and which
// branch facts. Nothing of the repository is run.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config selects how roots are explored.
type Config struct {
	NoInline    func(fn *ssa.Function) bool
	Opaque      map[*ssa.Function]bool
	PanicUser   bool // fork a panic at every call of user-supplied code
	TrackPanics bool // record possible implicit panics
	Strict      bool // and those of interface calls and of slicing strings
	Unroll      int  // >0: unroll loops this often instead of summarising them
	MaxPaths    int
	MaxSteps    int
	MaxDepth    int
	Model       func(ex *Exec, st *State, c *callCtx) bool
	Loads       bool // record Load events
	Summarise   bool // summarise every loop whose next iteration is not certain from constants alone
}

type Exec struct {
	P       *Prog
	ticks   map[*Term]tick // counters of the rounds of a walk over a map
	cfg     Config
	paths   []*State
	work    []*State
	problem string
	total   int
	folded  bool // foldsAt decided by constants alone
	inlined map[*ssa.Function]bool
	loops   map[*ssa.Function]*loopForest
}

// maxTotalSteps bounds the exploration of one function; reaching it is reported as undecided.
const maxTotalSteps = 5000000

func newExec(P *Prog, cfg Config) *Exec {
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 20000
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	return &Exec{P: P, cfg: cfg, inlined: map[*ssa.Function]bool{}, loops: map[*ssa.Function]*loopForest{}}
}

func newState() *State {
	return &State{heap: map[*Term]*Term{}, hv: map[*Term]int{}, esc: map[*Term]bool{}, facts: newFacts()}
}

func newFrame(fn *ssa.Function) *Frame {
	return &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], visits: map[*ssa.BasicBlock]int{}, active: map[*ssa.BasicBlock]bool{}, concrete: map[*ssa.BasicBlock]bool{}}
}

// paramTerm is the symbolic value of a root's parameter.
func paramTerm(fn *ssa.Function, i int) *Term {
	p := fn.Params[i]
	return mk("param", fmt.Sprintf("%s/%d:%s", fn.String(), i, p.Name()), p.Type())
}

// Run explores fn from symbolic arguments.
func (ex *Exec) Run(fn *ssa.Function, args ...*Term) []*State {
	st := newState()
	return ex.RunFrom(st, fn, nil, args...)
}

// RunFrom explores fn from a given memory; free are the values of captured variables.
func (ex *Exec) RunFrom(st *State, fn *ssa.Function, free []*Term, args ...*Term) []*State {
	if fn == nil || fn.Blocks == nil {
		ex.problem = "function has no body"
		return nil
	}
	ex.paths = nil
	fr := newFrame(fn)
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = paramTerm(fn, i)
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			fr.env[fv] = free[i]
		} else {
			fr.env[fv] = mk("param", fmt.Sprintf("%s/free%d:%s", fn.String(), i, fv.Name()), fv.Type())
		}
	}
	st.frames = []*Frame{fr}
	ex.inlined[fn] = true
	ex.work = []*State{st}
	for len(ex.work) > 0 {
		s := ex.work[len(ex.work)-1]
		ex.work = ex.work[:len(ex.work)-1]
		ex.runState(s)
		if s.out != "" && s.out != "Infeasible" {
			ex.paths = append(ex.paths, s)
		}
		if len(ex.paths) > ex.cfg.MaxPaths {
			ex.problem = fmt.Sprintf("%s: more than %d paths", fn, ex.cfg.MaxPaths)
			break
		}
	}
	return ex.paths
}

func (ex *Exec) fork(st *State) *State { return st.clone() }

func (ex *Exec) push(st *State) { ex.work = append(ex.work, st) }

func (ex *Exec) runState(st *State) {
	for st.out == "" {
		st.steps++
		ex.total++
		if ex.total > maxTotalSteps {
			ex.problem = fmt.Sprintf("%s: more than %d steps", st.frames[0].fn, maxTotalSteps)
			st.out = "Cut"
			ex.work = nil
			return
		}
		if st.steps > ex.cfg.MaxSteps {
			ex.problem = fmt.Sprintf("path too long in %s", st.frames[0].fn)
			st.out = "Cut"
			return
		}
		fr := st.top()
		if fr.idx >= len(fr.block.Instrs) {
			ex.problem = "fell off a block in " + fr.fn.String()
			st.out = "Cut"
			return
		}
		in := fr.block.Instrs[fr.idx]
		fr.idx++
		ex.step(st, fr, in)
	}
}

func (ex *Exec) val(st *State, fr *Frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return globalTerm(x)
	case *ssa.Function:
		return mkFn("func", x)
	case *ssa.Builtin:
		return mk("builtin", x.Name(), x.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	t := opaque("undef:"+v.Name(), v.Type())
	fr.env[v] = t
	return t
}

func globalTerm(g *ssa.Global) *Term {
	name := g.String()
	t := mk("global", name, g.Type())
	globalTerms[t] = g
	return t
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return zeroOf(c.Type())
		}
		if _, ok := c.Type().Underlying().(*types.Array); ok {
			return zeroOf(c.Type())
		}
		return mkNil(c.Type())
	}
	if isIntType(c.Type()) && c.Value.Kind() != constant.Int {
		return mkConst(constant.ToInt(c.Value), c.Type())
	}
	return mkConst(c.Value, c.Type())
}

func (ex *Exec) jump(st *State, fr *Frame, to *ssa.BasicBlock) {
	from := fr.block
	lf := ex.forest(fr.fn)
	if ex.cfg.Unroll > 0 {
		if lf.isHeader[to] && lf.body[to][from] {
			fr.visits[to]++
			if fr.visits[to] > ex.cfg.Unroll {
				st.out = "Cut"
				return
			}
		} else if lf.isHeader[to] {
			fr.visits[to] = 0
		}
		ex.enter(st, fr, from, to)
		return
	}
	if !lf.isHeader[to] {
		ex.enter(st, fr, from, to)
		return
	}
	back := lf.body[to][from]
	if back && fr.active[to] && !fr.concrete[to] {
		if keep := fr.keep[to]; len(keep) > 0 {
			i := predIndex(to, from)
			same := true
			for phi, v := range keep {
				nv := ex.val(st, fr, phi.Edges[i])
				if nv == v {
					continue
				}
				b, known := st.facts.Eval(nv)
				if !known {
					// decide the flag, then come here again
					other := ex.fork(st)
					other.top().idx--
					if other.facts.Assume(nv, false) {
						ex.push(other)
					}
					fr.idx--
					if !st.facts.Assume(nv, true) {
						st.out = "Infeasible"
					}
					return
				}
				want, _ := v.isBool()
				same = same && b == want
			}
			if !same {
				// a flag of the loop changed: either the loop ends here, or the next iteration
				// starts from a state the summary did not cover and is summarised again.
				fr.keep = cloneKeep(fr.keep)
				delete(fr.keep, to)
				if known, stay := ex.foldsAt(st, fr, from, to, lf); known && !stay {
					ex.enter(st, fr, from, to)
					return
				}
				ex.summarise(st, fr, from, to, lf, false)
				return
			}
		}
		// end of a summarised iteration
		e := &Event{Kind: "LoopBack", Pos: blockPos(to), Name: loopName(fr.fn, to)}
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			e.Args = append(e.Args, ex.val(st, fr, phi), ex.val(st, fr, phi.Edges[predIndex(to, from)]))
		}
		for _, c := range fr.cells[to] {
			e.Args = append(e.Args, c.cur, ex.load(st, c.addr, derefType(c.addr.typ)))
		}
		e.Snap, e.Hv = st.snapshot()
		st.event(e)
		st.out = "LoopBack"
		return
	}
	if !back {
		fr.visits[to] = 0
		fr.active[to] = false
		fr.concrete[to] = false
		if fr.keep[to] != nil {
			fr.keep = cloneKeep(fr.keep)
			delete(fr.keep, to)
		}
		// leaving inner loops for good resets them on re-entry
	}
	fr.visits[to]++
	// can the loop be followed exactly?
	known, stay := ex.foldsAt(st, fr, from, to, lf)
	if ex.cfg.Summarise && known && stay && !ex.folded {
		known = false // do not peel iterations that only the facts of this path are known to enter
	}
	limit := 4 // linked structures
	if lf.counted(to) {
		limit = 260
	} else if len(ex.flags(st, fr, from, to, lf)) > 0 {
		limit = 0
	}
	if known && (!stay || fr.visits[to] <= limit) {
		fr.active[to] = true
		fr.concrete[to] = true
		ex.enter(st, fr, from, to)
		return
	}
	// summarise
	fr.active[to] = true
	fr.concrete[to] = false
	ex.summarise(st, fr, from, to, lf, known && stay)
}

func cloneKeep(m map[*ssa.BasicBlock]map[*ssa.Phi]*Term) map[*ssa.BasicBlock]map[*ssa.Phi]*Term {
	n := make(map[*ssa.BasicBlock]map[*ssa.Phi]*Term, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// counted: the header's condition depends on a variable that every iteration moves by a
// constant in one direction, so following the loop iteration by iteration ends.
func (lf *loopForest) counted(h *ssa.BasicBlock) bool {
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var dep func(v ssa.Value, d int) bool
	dep = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if x.Block() != h {
				return false
			}
			up, down, n := true, true, 0
			for j, e := range x.Edges {
				if !lf.body[h][h.Preds[j]] {
					continue
				}
				k, ok := stepOf(e, x, lf.body[h], map[ssa.Value]bool{})
				if !ok {
					return false
				}
				n++
				up, down = up && k.lo > 0, down && k.hi < 0
			}
			return n > 0 && (up || down)
		case *ssa.BinOp:
			return dep(x.X, d+1) || dep(x.Y, d+1)
		case *ssa.Convert:
			return dep(x.X, d+1)
		}
		return false
	}
	return dep(ifi.Cond, 0)
}

// flags are the boolean loop variables that enter the loop with a constant.
func (ex *Exec) flags(st *State, fr *Frame, from, to *ssa.BasicBlock, lf *loopForest) map[*ssa.Phi]*Term {
	out := map[*ssa.Phi]*Term{}
	i := predIndex(to, from)
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := ex.val(st, fr, phi.Edges[i])
		if _, isb := v.isBool(); isb {
			out[phi] = v
		}
	}
	return out
}

func loopName(fn *ssa.Function, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#%d", fn.String(), h.Index)
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if p := in.Pos(); p.IsValid() {
			return p
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if p := in.Pos(); p.IsValid() {
				return p
			}
		}
	}
	return token.NoPos
}

func predIndex(to, from *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return 0
}

func (ex *Exec) enter(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	i := predIndex(to, from)
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, ex.val(st, fr, phi.Edges[i]))
	}
	for j, p := range phis {
		fr.env[p] = vals[j]
	}
	fr.prev, fr.block, fr.idx = from, to, len(phis)
}

// foldsAt: with the current values the header's own branch has a known outcome; stay tells
// whether that keeps the path inside the loop.
func (ex *Exec) foldsAt(st *State, fr *Frame, from, to *ssa.BasicBlock, lf *loopForest) (known, stay bool) {
	ifi, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
	if !ok {
		return false, false
	}
	env := map[ssa.Value]*Term{}
	i := predIndex(to, from)
	get := func(v ssa.Value) *Term {
		if t, ok := env[v]; ok {
			return t
		}
		return ex.val(st, fr, v)
	}
	for _, in := range to.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			env[x] = ex.val(st, fr, x.Edges[i])
		case *ssa.BinOp:
			a, b := get(x.X), get(x.Y)
			if _, _, wrap := ex.wraps(st, x, a, b); wrap {
				return false, false
			}
			env[x] = ex.binop(st, x, a, b)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				env[x] = ex.lenOf(st, get(x.Call.Args[0]), x.Call.Args[0].Type())
				continue
			}
			return false, false
		case *ssa.Convert:
			env[x] = ex.convert(st, get(x.X), x.X.Type(), x.Type())
		case *ssa.DebugRef:
		case *ssa.If:
			c := get(ifi.Cond)
			v, known := c.isBool()
			ex.folded = known
			if !known {
				v, known = st.facts.Eval(c)
			}
			if !known {
				return false, false
			}
			next := to.Succs[1]
			if v {
				next = to.Succs[0]
			}
			return true, lf.body[to][next]
		default:
			return false, false
		}
	}
	return false, false
}

func (ex *Exec) summarise(st *State, fr *Frame, from, to *ssa.BasicBlock, lf *loopForest, keepFlags bool) {
	var keep map[*ssa.Phi]*Term
	if keepFlags {
		keep = ex.flags(st, fr, from, to, lf)
		fr.keep = cloneKeep(fr.keep)
		fr.keep[to] = keep
	}
	ms := ex.modsOf(fr, lf.body[to])
	e := &Event{Kind: "LoopEnter", Pos: blockPos(to), Name: loopName(fr.fn, to)}
	i := predIndex(to, from)
	type pv struct {
		p    *ssa.Phi
		init *Term
		cur  *Term
	}
	var pvs []pv
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init := ex.val(st, fr, phi.Edges[i])
		cur := init
		for j, ed := range phi.Edges {
			if lf.body[to][to.Preds[j]] && ed != ssa.Value(phi) {
				cur = nil
			}
		}
		if v, ok := keep[phi]; ok {
			cur = v
		}
		if cur == nil {
			cur = opaque("loop:"+phi.Comment, phi.Type())
		}
		pvs = append(pvs, pv{phi, init, cur})
		e.Args = append(e.Args, init, cur)
	}
	e.Snap, e.Hv = st.snapshot()
	st.event(e)
	var entries *Term
	walked := walkedMap(to, lf.body[to])
	if walked != nil {
		entries = ex.lenOf(st, ex.val(st, fr, walked), walked.Type())
	}
	ex.applyMods(st, fr, ms)
	ex.loopCells(st, fr, to, e, lf)
	var ints []counter
	for _, p := range pvs {
		fr.env[p.p] = p.cur
		if p.cur != p.init && isIntType(p.p.Type()) {
			if step, ok := loopStep(p.p, to, lf.body[to]); ok {
				if step.lo >= 0 {
					st.facts.Assume(mkLeq(p.init, p.cur), true)
				}
				if step.hi <= 0 {
					st.facts.Assume(mkLeq(p.cur, p.init), true)
				}
				ints = append(ints, counter{p.init, p.cur, step, p.p})
			}
		}
	}
	ex.counted(st, fr, to, ints, lf.body[to])
	if entries != nil {
		st.facts.Assume(mkEqInt(ex.lenOf(st, ex.val(st, fr, walked), walked.Type()), entries), true)
		ex.mapTicks(st, entries, ints)
	}
	e2 := &Event{Kind: "LoopHavoc", Pos: blockPos(to), Name: e.Name}
	e2.Snap, e2.Hv = st.snapshot()
	st.event(e2)
	fr.prev, fr.block, fr.idx = from, to, len(pvs)
}

// loopCell is a local variable kept in memory (captured by a closure) that the loop may change.
type loopCell struct{ addr, cur *Term }

// loopCells makes them loop-carried variables like any other.
func (ex *Exec) loopCells(st *State, fr *Frame, to *ssa.BasicBlock, e *Event, lf *loopForest) {
	var cs []loopCell
	for k, before := range e.Snap {
		if k.op != "alloc" || st.heap[k] == before {
			continue
		}
		t := derefType(k.typ)
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			continue
		}
		if _, isP := k.typ.Underlying().(*types.Pointer); !isP || t == k.typ {
			continue
		}
		cs = append(cs, loopCell{k, nil})
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].addr.id < cs[j].addr.id })
	for i := range cs {
		c := &cs[i]
		t := derefType(c.addr.typ)
		c.cur = ex.load(st, c.addr, t)
		init := e.Snap[c.addr]
		e.Args = append(e.Args, init, c.cur)
		if a, ok := c.addr.site.(*ssa.Alloc); ok && c.cur != init && isIntType(t) && a.Parent() == fr.fn {
			up, down := cellSteps(a, lf.body[to])
			if up {
				st.facts.Assume(mkLeq(init, c.cur), true)
			}
			if down {
				st.facts.Assume(mkLeq(c.cur, init), true)
			}
		}
	}
	cells := make(map[*ssa.BasicBlock][]loopCell, len(fr.cells)+1)
	for b, l := range fr.cells {
		cells[b] = l
	}
	cells[to] = cs
	fr.cells = cells
}

// cellSteps: every write to the variable, but for those of its own function outside the loop, adds
// a constant to the value read from it in the same block.
func cellSteps(a *ssa.Alloc, body map[*ssa.BasicBlock]bool) (up, down bool) {
	up, down = true, true
	var visit func(addr ssa.Value, d int)
	visit = func(addr ssa.Value, d int) {
		refs := addr.Referrers()
		if refs == nil || d > 5 {
			up, down = false, false
			return
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
			case *ssa.Store:
				if x.Addr != addr {
					up, down = false, false
				} else if d > 0 || body[x.Block()] {
					k, ok := cellStep(x)
					up, down = up && ok && k >= 0, down && ok && k <= 0
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == addr {
						visit(g.FreeVars[i], d+1)
					}
				}
			default:
				up, down = false, false
			}
		}
	}
	visit(a, 0)
	return
}

func cellStep(x *ssa.Store) (int64, bool) {
	b, ok := x.Val.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	u, ok := b.X.(*ssa.UnOp)
	c, ok2 := b.Y.(*ssa.Const)
	if !ok && b.Op == token.ADD {
		u, ok = b.Y.(*ssa.UnOp)
		c, ok2 = b.X.(*ssa.Const)
	}
	if !ok || !ok2 || u.Op != token.MUL || u.X != x.Addr || u.Block() != x.Block() || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, exact := constant.Int64Val(c.Value)
	if b.Op == token.SUB {
		n = -n
	}
	return n, exact
}

// steps: what one round adds to an integer, at least and at most.
type steps struct{ lo, hi int64 }

// counter is an integer a loop adds constants to.
type counter struct {
	init, cur *Term
	step      steps
	phi       *ssa.Phi
}

// loopStep: what going round the loop adds to the variable.
func loopStep(phi *ssa.Phi, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (r steps, ok bool) {
	first := true
	for j, ed := range phi.Edges {
		if !body[header.Preds[j]] {
			continue
		}
		s, ok := stepOf(ed, phi, body, map[ssa.Value]bool{})
		if !ok {
			return r, false
		}
		if first {
			r, first = s, false
			continue
		}
		r = steps{min(r.lo, s.lo), max(r.hi, s.hi)}
	}
	return r, !first
}

// stepOf: v is the variable plus a constant, one of several where paths meet.
func stepOf(v ssa.Value, phi *ssa.Phi, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) (r steps, ok bool) {
	if v == ssa.Value(phi) {
		return steps{}, true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if seen[x] || !body[x.Block()] {
			return r, false
		}
		seen[x] = true
		defer delete(seen, x)
		for i, ed := range x.Edges {
			s, ok := stepOf(ed, phi, body, seen)
			if !ok {
				return r, false
			}
			if i == 0 {
				r = s
			}
			r = steps{min(r.lo, s.lo), max(r.hi, s.hi)}
		}
		return r, len(x.Edges) > 0
	case *ssa.BinOp:
		c, ok := x.Y.(*ssa.Const)
		y := x.X
		if !ok && x.Op == token.ADD {
			c, ok = x.X.(*ssa.Const)
			y = x.Y
		}
		if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
			return r, false
		}
		n, _ := constant.Int64Val(c.Value)
		s, ok := stepOf(y, phi, body, seen)
		if !ok {
			return r, false
		}
		switch x.Op {
		case token.ADD:
			return steps{s.lo + n, s.hi + n}, true
		case token.SUB:
			return steps{s.lo - n, s.hi - n}, true
		}
	}
	return r, false
}

// counted relates the counters of a loop to each other, and to the bound the loop runs to.
func (ex *Exec) counted(st *State, fr *Frame, to *ssa.BasicBlock, ints []counter, body map[*ssa.BasicBlock]bool) {
	for _, c := range ints {
		if c.step.lo != 1 || c.step.hi != 1 {
			continue
		}
		for _, n := range ints {
			if n.cur != c.cur && n.step.lo == 0 && n.step.hi == 1 {
				st.facts.Assume(mkLeq(tSub(n.cur, n.init), tSub(c.cur, c.init)), true)
			}
		}
		if len(ints) < 2 {
			continue // its own test says as much
		}
		// for c+d < bound { … }: one past the last at most
		iff, ok := to.Instrs[len(to.Instrs)-1].(*ssa.If)
		if !ok || !body[to.Succs[0]] || body[to.Succs[1]] {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.LSS {
			continue
		}
		d, ok := stepOf(cmp.X, c.phi, body, map[ssa.Value]bool{})
		if !ok || d.lo != d.hi {
			continue
		}
		var bound *Term
		y := cmp.Y
		call, isCall := y.(*ssa.Call)
		switch {
		case isCall && body[call.Block()]:
			b, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" || !outside(call.Call.Args[0], body) {
				continue
			}
			switch call.Call.Args[0].Type().Underlying().(type) {
			case *types.Slice, *types.Basic:
				bound = mkLen(ex.val(st, fr, call.Call.Args[0]))
			}
		case outside(y, body):
			bound = ex.val(st, fr, y)
		}
		if bound == nil || !isIntType(bound.typ) {
			continue
		}
		if st.facts.Leq(tAdd(c.init, mkInt(d.lo)), bound) {
			st.facts.Assume(mkLeq(tAdd(c.cur, mkInt(d.lo)), bound), true)
		}
	}
}

// tick: a counter that is at most one further after each round of a walk over a map of n entries.
type tick struct{ init, n *Term }

// walkedMap: the map the loop walks over, if nothing in the loop can change a map.
func walkedMap(to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) ssa.Value {
	var m ssa.Value
	for _, in := range to.Instrs {
		if x, ok := in.(*ssa.Next); ok && !x.IsString && outside(x.Iter, body) {
			if r, ok := x.Iter.(*ssa.Range); ok {
				m = r.X
			}
		}
	}
	if m == nil {
		return nil
	}
	if _, ok := m.Type().Underlying().(*types.Map); !ok {
		return nil
	}
	for b := range body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return nil
			case *ssa.Call:
				switch f := x.Call.Value.(type) {
				case *ssa.Builtin:
					if f.Name() == "delete" || f.Name() == "clear" {
						return nil
					}
				case *ssa.Function:
					if f.Pkg == nil || f.Pkg.Pkg.Path() != "strings" && f.Pkg.Pkg.Path() != "strconv" {
						return nil
					}
				default:
					return nil
				}
			}
		}
	}
	return m
}

// mapTicks: a walk over a map of n entries that the loop leaves alone has no more than n rounds.
func (ex *Exec) mapTicks(st *State, n *Term, ints []counter) {
	for _, c := range ints {
		if c.step.hi != 1 || c.step.lo < 0 {
			continue
		}
		if ex.ticks == nil {
			ex.ticks = map[*Term]tick{}
		}
		ex.ticks[c.cur] = tick{c.init, n}
		st.facts.Assume(mkLeq(tSub(c.cur, c.init), n), true)
	}
}

// outside: the value is settled before the loop.
func outside(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	in, ok := v.(ssa.Instruction)
	return !ok || !body[in.Block()]
}

func (st *State) snapshot() (map[*Term]*Term, map[*Term]int) {
	h := make(map[*Term]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	hv := make(map[*Term]int, len(st.hv))
	for k, v := range st.hv {
		hv[k] = v
	}
	return h, hv
}

// at rebuilds the memory recorded with an event.
func (st *State) at(e *Event) *State {
	n := st.clone()
	n.heap = map[*Term]*Term{}
	for k, v := range e.Snap {
		n.heap[k] = v
	}
	n.hv = map[*Term]int{}
	for k, v := range e.Hv {
		n.hv[k] = v
	}
	n.epoch = e.Epoch
	n.held = e.Held
	return n
}

// spawn is the memory a goroutine started by e begins with.
func (ex *Exec) spawn(st *State, e *Event) *State {
	n := st.at(e)
	n.events = nil
	n.held = nil
	n.out = ""
	n.panicking = nil
	n.frames = nil
	n.steps = 0
	ex.havocShared(n)
	return n
}

// ---- one instruction ----

func (ex *Exec) step(st *State, fr *Frame, in ssa.Instruction) {
	get := func(v ssa.Value) *Term { return ex.val(st, fr, v) }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// handled on entry
	case *ssa.Alloc:
		a := ex.newAlloc(x.Comment, x.Type(), x)
		fr.env[x] = a
		if x.Heap {
			// captured or address taken: escapes once stored somewhere shared
		}
	case *ssa.BinOp:
		a, b := get(x.X), get(x.Y)
		v := ex.binop(st, x, a, b)
		if in, off, wrap := ex.wraps(st, x, a, b); wrap {
			over := mk("bin", "wrap"+x.Op.String(), x.Type(), a, b)
			if off != 0 {
				if s := tAdd(v, mkInt(off)); s != nil {
					over = s
				}
			}
			far := mkLeq(mkInt(1<<62), over) // a 64-bit value that wrapped is a huge one
			if off != 0 {
				far = mkBool(true)
			}
			if st.facts.Refutes(in) {
				st.facts.Assume(far, true)
				v = over
			} else {
				other := ex.fork(st)
				if other.facts.Assume(in, false) && other.facts.Assume(far, true) {
					other.top().env[x] = over
					ex.push(other)
				}
				if !st.facts.Assume(in, true) {
					st.out = "Infeasible"
					return
				}
			}
		}
		fr.env[x] = v
	case *ssa.UnOp:
		ex.unop(st, fr, x)
	case *ssa.ChangeType:
		fr.env[x] = get(x.X)
	case *ssa.ChangeInterface:
		fr.env[x] = get(x.X)
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, get(x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = mk("conv", typeKey(x.Type()), x.Type(), get(x.X))
	case *ssa.SliceToArrayPointer:
		fr.env[x] = opaque("arrptr", x.Type(), get(x.X))
	case *ssa.MakeInterface:
		t := get(x.X)
		fr.env[x] = mk("mkiface", typeKey(x.X.Type()), x.X.Type(), t)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			t := get(b)
			bs = append(bs, t)
		}
		fr.env[x] = mkFn("closure", x.Fn.(*ssa.Function), bs...)
	case *ssa.MakeChan:
		a := ex.newAlloc("chan", x.Type(), x)
		st.heap[mk("fa", "#chancap", types.Typ[types.Int], a)] = get(x.Size)
		fr.env[x] = a
	case *ssa.MakeMap:
		fr.env[x] = ex.newAlloc("map", x.Type(), x)
	case *ssa.MakeSlice:
		a := ex.newAlloc("makeslice", x.Type(), x)
		fr.env[x] = mk("slice", "", x.Type(), a, mkInt(0), get(x.Len), get(x.Cap))
	case *ssa.FieldAddr:
		base := get(x.X)
		ex.checkNil(st, base, x.Pos())
		ft := derefType(x.Type())
		fr.env[x] = fieldAddr(base, fieldKey(x.X.Type(), x.Field), ft)
	case *ssa.Field:
		s, _ := openStruct(x.X.Type())
		v := get(x.X)
		if s != nil {
			fr.env[x] = ex.fieldOf(v, x.Field, s, x.X.Type())
		} else {
			stt := x.X.Type().Underlying().(*types.Struct)
			fr.env[x] = mk("fv", fieldKey(x.X.Type(), x.Field), stt.Field(x.Field).Type(), v)
		}
	case *ssa.IndexAddr:
		base, idx := get(x.X), get(x.Index)
		ex.checkIndex(st, base, x.X.Type(), idx, x.Pos())
		at := func(i *Term) *Term { return indexAddr(base, i, sliceElem(x.X.Type())) }
		if a := at(idx); rootOf(a).op == "alloc" {
			ex.eachIndex(st, x, idx, ex.lenOf(st, base, x.X.Type()), at)
		} else {
			fr.env[x] = a
		}
	case *ssa.Index:
		base, idx := get(x.X), get(x.Index)
		ex.checkIndex(st, base, x.X.Type(), idx, x.Pos())
		if isStringType(x.X.Type()) {
			fr.env[x] = byteAt(base, idx, x.Type())
		} else {
			at := func(i *Term) *Term {
				if n, ok := i.isInt(); ok {
					return arrayElem(base, n, x.Type())
				}
				return mk("elem", "", x.Type(), base, i)
			}
			ex.eachIndex(st, x, idx, ex.lenOf(st, base, x.X.Type()), at)
		}
	case *ssa.Lookup:
		ex.lookup(st, fr, x)
	case *ssa.MapUpdate:
		ex.mapUpdate(st, get(x.Map), get(x.Key), get(x.Value), x.Map.Type(), x.Pos())
	case *ssa.Range:
		fr.env[x] = opaque("range", x.Type(), get(x.X))
	case *ssa.Next:
		ex.next(st, fr, x)
	case *ssa.Slice:
		fr.env[x] = ex.slice(st, fr, x)
	case *ssa.Extract:
		fr.env[x] = extract(get(x.Tuple), x.Index, x.Type())
	case *ssa.TypeAssert:
		ex.typeAssert(st, fr, x)
	case *ssa.Store:
		a, v := get(x.Addr), get(x.Val)
		ex.checkNil(st, a, x.Pos())
		ex.store(st, a, v, x.Val.Type())
		if a.op == "fa" && a.aux == "container/list.Element.Value" {
			ex.listSet(st, a.args[0], v, x.Pos())
		}
		if r := rootOf(a); r.op != "alloc" || st.esc[r] || a.op != "alloc" {
			st.event(&Event{Kind: "Store", Addr: a, Val: v, Pos: x.Pos()})
		}
	case *ssa.Send:
		st.event(&Event{Kind: "Send", Addr: get(x.Chan), Val: get(x.X), Pos: x.Pos(), Block: true})
		st.escape(get(x.X))
		ex.havocShared(st)
	case *ssa.Select:
		ex.selectInstr(st, fr, x)
	case *ssa.Go:
		ex.goInstr(st, fr, &x.Call, x.Pos())
	case *ssa.Defer:
		d := deferred{call: &x.Call, instr: x}
		if !x.Call.IsInvoke() {
			d.fn = get(x.Call.Value)
		} else {
			d.fn = get(x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, get(a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.idx-- // come back until none is left
			ex.call(st, &callCtx{common: d.call, fn: d.fn, args: d.args, pos: d.instr.Pos(), deferred: true})
		}
	case *ssa.Call:
		c := &callCtx{common: &x.Call, value: x, pos: x.Pos()}
		c.fn = get(x.Call.Value)
		for _, a := range x.Call.Args {
			c.args = append(c.args, get(a))
		}
		ex.call(st, c)
	case *ssa.If:
		c := get(x.Cond)
		if v, known := st.facts.Eval(c); known {
			st.facts.Assume(c, v)
			if v {
				ex.jump(st, fr, fr.block.Succs[0])
			} else {
				ex.jump(st, fr, fr.block.Succs[1])
			}
			return
		}
		other := ex.fork(st)
		if other.facts.Assume(c, false) {
			ofr := other.top()
			ex.jump(other, ofr, ofr.block.Succs[1])
			ex.push(other)
		}
		if st.facts.Assume(c, true) {
			ex.jump(st, fr, fr.block.Succs[0])
		} else {
			st.out = "Infeasible"
		}
	case *ssa.Jump:
		ex.jump(st, fr, fr.block.Succs[0])
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, get(r))
		}
		ex.doReturn(st, rs)
	case *ssa.Panic:
		st.event(&Event{Kind: "Panic", Val: get(x.X), Pos: x.Pos()})
		ex.startPanic(st, get(x.X))
	default:
		ex.problem = fmt.Sprintf("instruction %T in %s not modelled", in, fr.fn)
		if v, ok := in.(ssa.Value); ok {
			fr.env[v] = opaque("instr", v.Type())
		}
	}
}

// eachIndex: an element of a short list with an index that is not known is any of them in turn.
func (ex *Exec) eachIndex(st *State, x ssa.Value, idx, length *Term, at func(i *Term) *Term) {
	n, ok := length.isInt()
	_, known := idx.isInt()
	loop := idx.contains(func(t *Term) bool { return t.op == "opaque" && strings.HasPrefix(t.aux, "loop:") })
	if known || !ok || n == 0 || n > 8 || loop {
		st.top().env[x] = at(idx)
		return
	}
	for i := int64(0); i < n; i++ {
		c := mkEqInt(idx, mkInt(i))
		if v, known := st.facts.Eval(c); known && !v {
			continue
		}
		other := ex.fork(st)
		if !other.facts.Assume(c, true) {
			continue
		}
		other.top().env[x] = at(mkInt(i))
		ex.push(other)
	}
	st.out = "Infeasible" // out of range otherwise
}

func extract(t *Term, i int, typ types.Type) *Term {
	if t.op == "tuple" && i < len(t.args) {
		return t.args[i]
	}
	return mk("ext", fmt.Sprint(i), typ, t)
}

func mkTuple(ts ...*Term) *Term { return mk("tuple", "", nil, ts...) }

func byteAt(s, idx *Term, typ types.Type) *Term {
	if str, ok := s.isStr(); ok {
		if i, ok := idx.isInt(); ok && i >= 0 && i < int64(len(str)) {
			return mkInt(int64(str[i]))
		}
	}
	return mk("byteat", "", typ, s, idx)
}

func (ex *Exec) checkNil(st *State, p *Term, pos token.Pos) {
	if !ex.cfg.TrackPanics || nonNil(p) || p.op == "global" {
		return
	}
	c := mkEq(p, mkNil(nil), nil)
	if st.facts.Refutes(c) {
		return
	}
	st.event(&Event{Kind: "PanicSite", Name: "nil", Args: []*Term{p}, Pos: pos})
	st.facts.Assume(c, false)
}

// inString: 0 <= low <= high <= n = len(v), also by what the searches of strings say.
func inString(f *Facts, v, low, high, n *Term) bool {
	f = f.clone()
	var known []*Term
	for _, b := range []*Term{low, high} {
		b.walk(func(x *Term) bool {
			if x.op == "pure" && len(x.args) > 1 && raw(x.args[0]) == raw(v) && strings.Contains(x.aux, "Index") && f.Leq(mkInt(0), x) {
				w := int64(1)
				if s, ok := x.args[1].isStr(); ok {
					w = int64(len(s))
				} else if isStringType2(x.args[1]) {
					w = 0
				}
				known = append(known, mkLeq(tAddOr(x, mkInt(w)), n))
			}
			return true
		})
	}
	for _, l := range f.log {
		if t := l.T; l.Val && t.op == "pure" && (t.aux == "strings.HasPrefix" || t.aux == "strings.HasSuffix") && t.args[0] == v {
			known = append(known, mkLeq(mkLen(t.args[1]), n))
		}
	}
	for _, k := range known {
		f.Assume(k, true)
	}
	return f.Leq(mkInt(0), low) && f.Leq(low, high) && f.Leq(high, n)
}

func isStringType2(t *Term) bool {
	typ, ok := t.typ.(types.Type)
	return !ok || typ == nil || isStringType(typ)
}

func (ex *Exec) checkZero(st *State, b *Term, pos token.Pos) {
	if !ex.cfg.TrackPanics {
		return
	}
	if zero, known := st.facts.Eval(mkEqInt(b, mkInt(0))); !known || zero {
		st.event(&Event{Kind: "PanicSite", Name: "zero", Args: []*Term{b}, Pos: pos})
		st.facts.Assume(mkEqInt(b, mkInt(0)), false)
	}
}

func (ex *Exec) checkIndex(st *State, base *Term, bt types.Type, idx *Term, pos token.Pos) {
	if !ex.cfg.TrackPanics {
		return
	}
	n := ex.lenOf(st, base, bt)
	if st.facts.Leq(mkInt(0), idx) && st.facts.Less(idx, n) {
		return
	}
	st.event(&Event{Kind: "PanicSite", Name: "index", Args: []*Term{base, idx}, Pos: pos})
}

func (ex *Exec) lenOf(st *State, t *Term, typ types.Type) *Term {
	if p, ok := typ.Underlying().(*types.Pointer); ok {
		typ = p.Elem()
	}
	switch u := typ.Underlying().(type) {
	case *types.Array:
		return mkInt(u.Len())
	case *types.Map:
		if t.isNil() {
			return mkInt(0)
		}
		return mk("len", fmt.Sprintf("map%d.%d.%d", st.epoch, st.hv[rootOf(t)], st.hv[mk("lenof", "", nil, t)]), types.Typ[types.Int], t)
	case *types.Chan:
		return mk("len", fmt.Sprintf("chan%d", nextSeq()), types.Typ[types.Int], t)
	}
	return mkLen(t)
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (ex *Exec) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	ot := x.X.Type()
	switch {
	case isIntType(ot) && !isTimeType(ot):
		switch x.Op {
		case token.ADD:
			if r := tAdd(a, b); r != nil {
				return r
			}
		case token.SUB:
			if r := tSub(a, b); r != nil {
				return r
			}
		case token.MUL:
			return mkMul(a, b, x.Type())
		case token.QUO:
			ex.checkZero(st, b, x.Pos())
			return mkDiv(a, b, x.Type())
		case token.REM:
			ex.checkZero(st, b, x.Pos())
			return mkRem(a, b, x.Type())
		case token.LSS:
			return mkLess(a, b)
		case token.LEQ:
			return mkLeq(a, b)
		case token.GTR:
			return mkLess(b, a)
		case token.GEQ:
			return mkLeq(b, a)
		case token.EQL:
			return mkEqInt(a, b)
		case token.NEQ:
			return mkNot(mkEqInt(a, b))
		}
		if a.op == "const" && b.op == "const" {
			switch x.Op {
			case token.AND, token.OR, token.XOR, token.AND_NOT:
				return mkConst(constant.BinaryOp(a.k, x.Op, b.k), x.Type())
			case token.SHL, token.SHR:
				if n, ok := b.isInt(); ok && n < 63 {
					return mkConst(constant.Shift(a.k, x.Op, uint(n)), x.Type())
				}
			}
		}
		return mk("bin", x.Op.String(), x.Type(), a, b)
	case isStringType(ot):
		switch x.Op {
		case token.ADD:
			return mkCat(a, b)
		case token.EQL:
			return mkEq(a, b, ot)
		case token.NEQ:
			return mkNot(mkEq(a, b, ot))
		}
		if a.op == "const" && b.op == "const" {
			return mkBool(constant.Compare(a.k, x.Op, b.k))
		}
		return mk("strcmp", x.Op.String(), x.Type(), a, b)
	}
	switch x.Op {
	case token.EQL:
		return mkEq(a, b, ot)
	case token.NEQ:
		return mkNot(mkEq(a, b, ot))
	}
	if a.op == "const" && b.op == "const" {
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkBool(constant.Compare(a.k, x.Op, b.k))
		case token.ADD, token.SUB, token.MUL:
			return mkConst(constant.BinaryOp(a.k, x.Op, b.k), x.Type())
		}
	}
	return mk("bin", x.Op.String(), x.Type(), a, b)
}

func (ex *Exec) unop(st *State, fr *Frame, x *ssa.UnOp) {
	v := ex.val(st, fr, x.X)
	switch x.Op {
	case token.MUL:
		ex.checkNil(st, v, x.Pos())
		t := ex.load(st, v, x.Type())
		if ex.cfg.Loads {
			if r := rootOf(v); r.op != "alloc" || st.esc[r] {
				st.event(&Event{Kind: "Load", Addr: v, Val: t, Pos: x.Pos()})
			}
		}
		fr.env[x] = t
	case token.NOT:
		fr.env[x] = mkNot(v)
	case token.SUB:
		if isIntType(x.Type()) {
			if n := linScale(v, -1); n != nil {
				fr.env[x] = n
				return
			}
		}
		if v.op == "const" {
			fr.env[x] = mkConst(constant.UnaryOp(token.SUB, v.k, 0), x.Type())
			return
		}
		fr.env[x] = mk("neg", "", x.Type(), v)
	case token.XOR:
		fr.env[x] = mk("xor", "", x.Type(), v)
	case token.ARROW:
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		val := opaque("recv", et, v)
		ok := opaque("recvok", types.Typ[types.Bool], v)
		st.event(&Event{Kind: "Recv", Addr: v, Val: val, Res: ok, Pos: x.Pos(), Block: true})
		ex.havocShared(st)
		if x.CommaOk {
			fr.env[x] = mkTuple(val, ok)
		} else {
			fr.env[x] = val
		}
	default:
		fr.env[x] = opaque("unop", x.Type(), v)
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (ex *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	switch {
	case isIntType(from) && isIntType(to):
		return ex.convertInt(st, v, from, to)
	case isStringType(to):
		if sl, ok := from.Underlying().(*types.Slice); ok {
			if !isByte(sl.Elem()) {
				return mk("runestr", "", to, v)
			}
			if v.op == "bytes" {
				return v.args[0]
			}
			if es, ok := ex.elems(st, v, sliceElem(from)); ok {
				return mk("strof", "", to, es...)
			}
			if v.op == "slice" && v.args[0].op != "alloc" {
				// part of the text of the whole
				if hi := tAdd(v.args[1], v.args[2]); hi != nil {
					return mk("substr", "", to, ex.convert(st, v.args[0], from, to), v.args[1], hi)
				}
			}
			return mk("string", "", to, v)
		}
		if isStringType(from) {
			return v
		}
		return mk("runestr", "", to, v)
	case isStringType(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if !isByte(sl.Elem()) {
				return mk("runes", typeKey(to), to, v)
			}
			return mk("bytes", typeKey(to), to, v)
		}
	}
	if v.op == "const" && isFloatType(to) && isIntType(from) {
		return mkConst(constant.ToFloat(v.k), to)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk("conv", typeKey(to), to, v)
}

// convertInt: a conversion keeps the value if the target type has it, which is known from the types or from the
// facts of the path; otherwise the result is unknown (but the same for the same value).
func (ex *Exec) convertInt(st *State, v *Term, from, to types.Type) *Term {
	fb, fu, _ := intWidth(from)
	tb, tu, _ := intWidth(to)
	if fb == tb && fu == tu || fb < tb && (fu || !tu) {
		return v
	}
	if lo, hi, ok := intRange(to); ok {
		if v.op == "const" {
			if n, ok := v.isInt(); ok && (n < lo || n > hi) {
				if tb < 64 {
					m := int64(1) << tb
					n = ((n % m) + m) % m
					if !tu && n > hi {
						n -= m
					}
					return mkConst(constant.MakeInt64(n), to)
				}
			} else if ok {
				return v
			}
		} else if st.facts.Leq(mkInt(lo), v) && (tb == 64 || st.facts.Leq(v, mkInt(hi))) {
			return v
		}
	} else if v.op == "const" {
		return v
	}
	if tb == 64 && v.op == "conv" && len(v.args) == 1 {
		// to unsigned and back
		if b, u, ok := intWidth(v.args[0].typ); ok && b == tb && u == tu {
			if vb, _, ok := intWidth(v.typ); ok && vb == 64 {
				return v.args[0]
			}
		}
	}
	return mk("conv", typeKey(to), to, v)
}

// wraps: adding or subtracting values of a small or unsigned type whose result may leave its range; ok: the sum is known
// to stay in range (or is not one this concerns).
func (ex *Exec) wraps(st *State, x *ssa.BinOp, a, b *Term) (in *Term, off int64, wrap bool) {
	bits, unsigned, ok := intWidth(x.X.Type())
	if !ok || !unsigned || x.Op != token.ADD && x.Op != token.SUB || isTimeType(x.X.Type()) {
		return nil, 0, false
	}
	if a.op == "const" && b.op == "const" {
		return nil, 0, false
	}
	if x.Op == token.SUB {
		in = mkLeq(b, a)
		if bits < 64 {
			off = int64(1) << bits
		}
	} else {
		if bits == 64 {
			return nil, 0, false
		}
		s := tAdd(a, b)
		if s == nil {
			return nil, 0, false
		}
		in = mkLeq(s, mkInt(int64(1)<<bits-1))
		off = -(int64(1) << bits)
	}
	return in, off, !st.facts.Holds(in)
}

func mapElem(m, k *Term, typ types.Type) *Term { return mk("mel", "", typ, m, k) }
func mapHas(m, k *Term) *Term                  { return mk("mhas", "", types.Typ[types.Bool], m, k) }

func (ex *Exec) lookup(st *State, fr *Frame, x *ssa.Lookup) {
	m, k := ex.val(st, fr, x.X), ex.val(st, fr, x.Index)
	if isStringType(x.X.Type()) {
		ex.checkIndex(st, m, x.X.Type(), k, x.Pos())
		fr.env[x] = byteAt(m, k, x.Type())
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	if es, ok := fixedTables[m]; ok {
		put := func(st *State, v *Term, has bool) {
			if x.CommaOk {
				v = mkTuple(v, mkBool(has))
			}
			st.top().env[x] = v
		}
		for _, e := range es {
			is := mkEq(k, e.key, mt.Key())
			if isIntType(mt.Key()) {
				is = mkEqInt(k, e.key)
			}
			if val, known := st.facts.Eval(is); known && !val {
				continue
			} else if known {
				put(st, e.val, true)
				return
			}
			o := ex.fork(st)
			if o.facts.Assume(is, true) {
				put(o, e.val, true)
				ex.push(o)
			}
			if !st.facts.Assume(is, false) {
				st.out = "Infeasible"
				return
			}
		}
		put(st, zeroOf(mt.Elem()), false)
		return
	}
	v := ex.load(st, mapElem(m, k, mt.Elem()), mt.Elem())
	has := ex.load(st, mapHas(m, k), types.Typ[types.Bool])
	st.event(&Event{Kind: "MapLookup", Addr: m, Args: []*Term{k}, Val: v, Res: has, Pos: x.Pos()})
	if h, known := st.facts.Eval(has); known && !h {
		v = zeroOf(mt.Elem())
	}
	if x.CommaOk {
		fr.env[x] = mkTuple(v, has)
	} else {
		fr.env[x] = v
	}
}

func (ex *Exec) mapUpdate(st *State, m, k, v *Term, typ types.Type, pos token.Pos) {
	mt := typ.Underlying().(*types.Map)
	ex.checkNil(st, m, pos)
	ex.store(st, mapElem(m, k, mt.Elem()), v, mt.Elem())
	ex.store(st, mapHas(m, k), mkBool(true), types.Typ[types.Bool])
	st.hv[mk("lenof", "", nil, m)]++
	e := st.event(&Event{Kind: "MapUpdate", Addr: m, Args: []*Term{k}, Val: v, Pos: pos})
	e.Snap, e.Hv = st.snapshot()
}

func (ex *Exec) next(st *State, fr *Frame, x *ssa.Next) {
	it := ex.val(st, fr, x.Iter)
	var coll *Term
	if len(it.args) > 0 {
		coll = it.args[0]
	}
	tup := x.Type().(*types.Tuple)
	kt, vt := tup.At(1).Type(), tup.At(2).Type()
	// go/ssa gives unused components the invalid type
	var k, v *Term
	other := ex.fork(st)
	ofr := other.top()
	ofr.env[x] = mkTuple(mkBool(false), mkNil(kt), mkNil(vt))
	other.event(&Event{Kind: "RangeEnd", Addr: coll, Pos: x.Pos()})
	ex.push(other)
	k = opaque("key", kt, it)
	if x.IsString {
		v = opaque("rune", vt, it, k)
	} else {
		var elemT types.Type = vt
		if r, ok := x.Iter.(*ssa.Range); ok {
			if mt, ok := r.X.Type().Underlying().(*types.Map); ok {
				elemT = mt.Elem()
				if k.typ == nil || k.typ == types.Typ[types.Invalid] {
					k.typ = mt.Key()
				}
			}
		}
		v = ex.load(st, mapElem(coll, k, elemT), elemT)
		st.facts.Assume(ex.load(st, mapHas(coll, k), types.Typ[types.Bool]), true)
	}
	for _, in := range x.Block().Instrs {
		if phi, ok := in.(*ssa.Phi); ok && len(ex.ticks) > 0 {
			if c := fr.env[phi]; c != nil && ex.ticks[c].n != nil {
				st.facts.Assume(mkLess(tSub(c, ex.ticks[c].init), ex.ticks[c].n), true)
			}
		}
	}
	e := st.event(&Event{Kind: "RangeNext", Addr: coll, Args: []*Term{k}, Val: v, Pos: x.Pos()})
	e.Snap, e.Hv = st.snapshot()
	fr.env[x] = mkTuple(mkBool(true), k, v)
}

func (ex *Exec) slice(st *State, fr *Frame, x *ssa.Slice) *Term {
	v := ex.val(st, fr, x.X)
	low := mkInt(0)
	if x.Low != nil {
		low = ex.val(st, fr, x.Low)
	}
	n := ex.lenOf(st, v, x.X.Type())
	high := n
	if x.High != nil {
		high = ex.val(st, fr, x.High)
	}
	if isStringType(x.X.Type()) {
		if x.Low == nil && x.High == nil {
			return v
		}
		if s, ok := v.isStr(); ok {
			l, ok1 := low.isInt()
			h, ok2 := high.isInt()
			if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
				return mkStr(s[l:h])
			}
		}
		if ex.cfg.Strict && !inString(st.facts, v, low, high, n) {
			st.event(&Event{Kind: "PanicSite", Name: "slice", Args: []*Term{v, low, high}, Pos: x.Pos()})
		}
		return mk("substr", "", x.Type(), v, low, high)
	}
	ln := tSub(high, low)
	if ln == nil {
		ln = opaque("len", types.Typ[types.Int])
	}
	if ex.cfg.TrackPanics && (x.Low != nil || x.High != nil) {
		if !(st.facts.Leq(mkInt(0), low) && st.facts.Leq(low, high) && st.facts.Leq(high, n)) && !(ex.cfg.Strict && inString(st.facts, v, low, high, n)) {
			st.event(&Event{Kind: "PanicSite", Name: "slice", Args: []*Term{v, low, high}, Pos: x.Pos()})
		}
	}
	// the last part of a slice is where its room ends, counted from the start of the list it is of
	end := func(whole *Term) *Term { return whole }
	if x.Max != nil {
		end = func(*Term) *Term { return ex.val(st, fr, x.Max) }
	}
	if _, ok := x.X.Type().Underlying().(*types.Pointer); ok { // array
		return mk("slice", "", x.Type(), v, low, ln, end(n))
	}
	if x.Low == nil && x.High == nil {
		return v
	}
	if v.op == "slice" {
		room := v.args[3]
		if x.Max != nil {
			room = tAddOr(v.args[1], end(nil))
		}
		return mk("slice", "", x.Type(), v.args[0], tAddOr(v.args[1], low), ln, room)
	}
	return mk("slice", "", x.Type(), v, low, ln, end(mk("cap", "", types.Typ[types.Int], v)))
}

func (ex *Exec) typeAssert(st *State, fr *Frame, x *ssa.TypeAssert) {
	v := ex.val(st, fr, x.X)
	tk := typeKey(x.AssertedType)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var val, ok *Term
	if v.op == "mkiface" {
		if toIface {
			val, ok = v, mkBool(types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface)))
		} else if v.aux == tk {
			val, ok = v.args[0], mkBool(true)
		} else {
			val, ok = zeroOf(x.AssertedType), mkBool(false)
		}
	} else if v.isNil() {
		val, ok = zeroOf(x.AssertedType), mkBool(false)
	} else {
		ok = mk("isa", tk, types.Typ[types.Bool], v)
		if toIface {
			val = v
			if iv, isI := v.typ.(types.Type); isI && iv != nil {
				if types.AssignableTo(iv, x.AssertedType) {
					ok = mkNot(mkEq(v, mkNil(nil), nil))
				}
			}
		} else {
			val = mk("unbox", tk, x.AssertedType, v)
		}
	}
	if !x.CommaOk {
		if h, known := st.facts.Eval(ok); !known || !h {
			name := "assert"
			if toIface && types.AssignableTo(x.X.Type(), x.AssertedType) {
				name = "nilassert" // a method value of an interface: fails for nil only
			}
			st.event(&Event{Kind: "PanicSite", Name: name, Args: []*Term{v}, Val: mkStr(tk), Pos: x.Pos()})
			if known {
				st.event(&Event{Kind: "Panic", Val: mkStr("type assertion"), Pos: x.Pos()})
				ex.startPanic(st, mkStr("type assertion"))
				return
			}
			st.facts.Assume(ok, true)
		}
		fr.env[x] = val
		return
	}
	if h, known := st.facts.Eval(ok); known {
		if !h {
			val = zeroOf(x.AssertedType)
		}
		fr.env[x] = mkTuple(val, mkBool(h))
		return
	}
	// the two outcomes are followed separately: a failed assertion yields the zero value
	other := ex.fork(st)
	if other.facts.Assume(ok, false) {
		other.top().env[x] = mkTuple(zeroOf(x.AssertedType), mkBool(false))
		ex.push(other)
	}
	if !st.facts.Assume(ok, true) {
		st.out = "Infeasible"
		return
	}
	if toIface {
		st.facts.Assume(mkEq(val, mkNil(nil), nil), false)
	}
	fr.env[x] = mkTuple(val, mkBool(true))
}

func (ex *Exec) selectInstr(st *State, fr *Frame, x *ssa.Select) {
	var cases []SelCase
	for _, s := range x.States {
		c := SelCase{Dir: s.Dir, Ch: ex.val(st, fr, s.Chan)}
		if s.Send != nil {
			c.Val = ex.val(st, fr, s.Send)
		}
		cases = append(cases, c)
	}
	n := len(cases)
	total := n
	if !x.Blocking {
		total++
	}
	build := func(s *State, chosen int) {
		f := s.top()
		res := []*Term{mkInt(int64(chosen)), mkBool(false)}
		if chosen == n {
			res[0] = mkInt(-1)
		}
		e := &Event{Kind: "Select", Cases: cases, Chosen: chosen, Block: x.Blocking, Pos: x.Pos()}
		if chosen < len(x.States) && x.States[chosen].Pos.IsValid() {
			e.Pos = x.States[chosen].Pos
		}
		for i, c := range x.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			et := c.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == chosen {
				v := opaque("recv", et, cases[i].Ch)
				ok := opaque("recvok", types.Typ[types.Bool], cases[i].Ch)
				res[1] = ok
				res = append(res, v)
				e.Val, e.Res = v, ok
			} else {
				res = append(res, zeroOf(et))
			}
		}
		if chosen < n {
			e.Addr = cases[chosen].Ch
			if cases[chosen].Dir == types.SendOnly {
				e.Val = cases[chosen].Val
				s.escape(e.Val)
			}
		} else {
			e.Chosen = -1
		}
		s.event(e)
		ex.havocShared(s)
		f.env[x] = mkTuple(res...)
	}
	if total == 0 {
		st.event(&Event{Kind: "Select", Block: true, Chosen: -2, Pos: x.Pos()})
		st.out = "Blocked"
		return
	}
	for i := 1; i < total; i++ {
		o := ex.fork(st)
		build(o, i)
		ex.push(o)
	}
	build(st, 0)
}

func (ex *Exec) goInstr(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos) {
	e := &Event{Kind: "Go", Pos: pos, Common: c}
	fn := ex.val(st, fr, c.Value)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, ex.val(st, fr, a))
	}
	if c.IsInvoke() {
		args = append([]*Term{fn}, args...)
		e.Name = c.Method.Name()
	}
	e.Callee, e.Args = fn, args
	st.escape(fn)
	for _, a := range args {
		st.escape(a)
	}
	e.Snap, e.Hv = st.snapshot()
	st.event(e)
}

// ---- return, panic ----

func (ex *Exec) doReturn(st *State, rs []*Term) {
	fr := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	var res *Term
	switch len(rs) {
	case 0:
	case 1:
		res = rs[0]
	default:
		res = mkTuple(rs...)
	}
	if fr.onReturn != nil {
		fr.onReturn(st, res)
	}
	if len(st.frames) == 0 {
		st.results = rs
		st.out = "Return"
		if st.panicking != nil {
			st.out = "Panic"
		}
		return
	}
	caller := st.top()
	if fr.call != nil && res != nil {
		caller.env[fr.call] = res
	}
	if caller.unwind {
		ex.unwind(st)
	}
}

func (ex *Exec) startPanic(st *State, v *Term) {
	st.panicking = v
	ex.unwind(st)
}

// unwind runs deferred calls of the frames on the stack, innermost first.
func (ex *Exec) unwind(st *State) {
	for st.out == "" {
		if len(st.frames) == 0 {
			st.out = "Panic"
			return
		}
		fr := st.top()
		fr.unwind = true
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			depth := len(st.frames)
			ex.call(st, &callCtx{common: d.call, fn: d.fn, args: d.args, pos: d.instr.Pos(), deferred: true})
			if len(st.frames) > depth || st.out != "" {
				return // continues when that call returns
			}
			continue
		}
		if st.panicking == nil { // recovered
			fr.unwind = false
			if fr.fn.Recover != nil {
				fr.prev, fr.block, fr.idx = fr.block, fr.fn.Recover, 0
				return
			}
			var zs []*Term
			rt := fr.fn.Signature.Results()
			for i := 0; i < rt.Len(); i++ {
				zs = append(zs, zeroOf(rt.At(i).Type()))
			}
			ex.doReturn(st, zs)
			return
		}
		st.frames = st.frames[:len(st.frames)-1]
	}
}

// ---- calls ----

type callCtx struct {
	common   *ssa.CallCommon
	value    ssa.Value // result, nil when discarded
	fn       *Term
	args     []*Term
	pos      token.Pos
	deferred bool
	callee   *ssa.Function
	free     []*Term
	name     string
	user     bool
	resTypes []types.Type
}

func (ex *Exec) bind(st *State, c *callCtx, t *Term) {
	if c.value != nil && t != nil {
		st.top().env[c.value] = t
	}
}

func sigResults(sig *types.Signature) []types.Type {
	var ts []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		ts = append(ts, sig.Results().At(i).Type())
	}
	return ts
}

// resolve finds what is called.
func (ex *Exec) resolve(c *callCtx) {
	cm := c.common
	c.resTypes = sigResults(cm.Signature())
	if cm.IsInvoke() {
		recv := c.fn
		if recv.op == "mkiface" {
			if m := ex.P.lookupMethod(recv.typ, cm.Method); m != nil {
				c.callee = m
				c.args = append([]*Term{recv.args[0]}, c.args...)
				c.name = m.String()
				return
			}
		}
		it := cm.Value.Type()
		c.name = fmt.Sprintf("(%s).%s", typeName(it), cm.Method.Name())
		c.user = strings.HasPrefix(typeName(it), modPath)
		c.args = append([]*Term{recv}, c.args...)
		return
	}
	switch c.fn.op {
	case "func":
		c.callee = c.fn.fn
	case "closure":
		c.callee = c.fn.fn
		c.free = c.fn.args
	}
	if c.callee != nil {
		o := c.callee
		if o.Origin() != nil {
			o = o.Origin()
		}
		c.name = o.String()
		return
	}
	c.name = "dynamic"
	c.user = true
}

func (P *Prog) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return P.prog.MethodValue(sel)
}

func (ex *Exec) call(st *State, c *callCtx) {
	if b, ok := c.common.Value.(*ssa.Builtin); ok && !c.common.IsInvoke() {
		ex.builtin(st, c, b.Name())
		return
	}
	ex.resolve(c)
	if ex.cfg.Strict && c.common.IsInvoke() {
		ex.checkNil(st, c.fn, c.pos)
	} else if f := c.common.StaticCallee(); ex.cfg.Strict && f != nil && f.Signature.Recv() != nil && !inRepoOrSynthetic(f) && len(c.args) > 0 && (c.args[0].op == "call" || c.args[0].isNil()) {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			ex.checkNil(st, c.args[0], c.pos)
		}
	}
	ex.dispatch(st, c)
}

func (ex *Exec) dispatch(st *State, c *callCtx) {
	if ex.cfg.Model != nil && ex.cfg.Model(ex, st, c) {
		return
	}
	if m, ok := models[c.name]; ok {
		m(ex, st, c)
		return
	}
	if c.callee != nil && c.callee.Blocks != nil && inRepoOrSynthetic(c.callee) {
		fn := c.callee
		depth, rec := len(st.frames), 0
		for _, f := range st.frames {
			if f.fn == fn {
				rec++
			}
		}
		if depth < ex.cfg.MaxDepth && rec == 0 && !(ex.cfg.NoInline != nil && ex.cfg.NoInline(fn)) && !ex.cfg.Opaque[fn] {
			ex.inlined[fn] = true
			fr := newFrame(fn)
			for i, p := range fn.Params {
				if i < len(c.args) {
					fr.env[p] = c.args[i]
				}
			}
			for i, fv := range fn.FreeVars {
				if i < len(c.free) {
					fr.env[fv] = c.free[i]
				}
			}
			fr.call = c.value
			fr.isDefer = c.deferred
			st.frames = append(st.frames, fr)
			return
		}
		ex.opaqueCall(st, c)
		return
	}
	ex.opaqueCall(st, c)
}

// inRepoOrSynthetic: wrappers and bound methods of library types forward to library code and
// are treated through their target.
func inRepoOrSynthetic(fn *ssa.Function) bool {
	if inRepo(fn) {
		return true
	}
	if fn.Synthetic != "" && fn.Pkg == nil && fn.Blocks != nil {
		return true
	}
	return false
}

// opaqueCall: user-supplied or library code, known by signature only.
func (ex *Exec) opaqueCall(st *State, c *callCtx) {
	if !c.user && ex.pureCall(st, c) {
		return
	}
	e := &Event{Kind: "Call", Name: c.name, Args: c.args, Pos: c.pos, Common: c.common, User: c.user, Callee: c.fn, Defer: c.deferred}
	e.Elems = map[*Term][]*Term{}
	for i, a := range c.args {
		var at types.Type = a.typ
		if sig := c.common.Signature(); sig != nil {
			j := i
			if len(c.args) > sig.Params().Len() {
				j = i - (len(c.args) - sig.Params().Len())
			}
			if j >= 0 && j < sig.Params().Len() {
				at = sig.Params().At(j).Type()
			}
		}
		if at != nil {
			if _, ok := at.Underlying().(*types.Slice); ok {
				if es, ok := ex.elems(st, a, sliceElem(at)); ok {
					e.Elems[a] = es
				}
			}
		}
	}
	e.Snap, e.Hv = st.snapshot()
	st.event(e)
	if c.user {
		for _, a := range c.args {
			st.escape(a)
		}
		ex.havocShared(st)
	} else if !readOnlyLib(c.name) {
		for _, a := range c.args {
			ex.havocReach(st, a)
			if a.op == "mkiface" {
				ex.havocReach(st, a.args[0])
			}
		}
		for _, a := range c.args {
			st.escape(a)
		}
	}
	if old := st.sameReading(e); old != nil {
		e.Res = old.Res
		ex.bind(st, c, e.Res)
		return
	}
	n := nextSeq()
	var rs []*Term
	for i, t := range c.resTypes {
		aux := fmt.Sprintf("%s#%d", c.name, n)
		if len(c.resTypes) > 1 {
			aux += fmt.Sprintf(".%d", i)
		}
		args := c.args
		if c.name == "dynamic" {
			args = append([]*Term{c.fn}, args...)
		}
		rs = append(rs, mk("call", aux, t, args...))
	}
	var res *Term
	switch len(rs) {
	case 0:
	case 1:
		res = rs[0]
	default:
		res = mkTuple(rs...)
	}
	e.Res = res
	if exits[c.name] {
		st.out = "Exit"
		return
	}
	quiet := c.name == "dynamic" && c.fn != nil && c.fn.op == "init" && c.fn.args[0].op == "fa" && ex.P.quietField(c.fn.args[0].aux)
	if c.user && ex.cfg.PanicUser && !quiet {
		o := ex.fork(st)
		o.event(&Event{Kind: "UserPanic", Name: c.name, Pos: c.pos})
		ex.startPanic(o, mk("userpanic", "", nil))
		ex.push(o)
	}
	ex.bind(st, c, res)
	if len(rs) > 0 {
		ex.assumeResult(st, c, rs)
	}
}

// readings are the library methods that only tell what their receiver holds.
var readings = map[string]bool{
	"(github.com/go-redis/redis/v7.Cmder).Err": true, "(github.com/go-redis/redis/v7.Cmder).Name": true,
	"(github.com/go-redis/redis/v7.Cmder).String": true, "(github.com/go-redis/redis/v7.Cmder).Args": true,
	"(*github.com/valyala/fasthttp.Response).StatusCode": true, "(*github.com/valyala/fasthttp.Response).Body": true,
	"(*github.com/valyala/fasthttp.RequestHeader).Method": true, "(*github.com/valyala/fasthttp.Request).Host": true,
	"(*github.com/valyala/fasthttp.Request).URI": true, "(*github.com/valyala/fasthttp.URI).Path": true,
	"(*github.com/valyala/fasthttp.URI).String": true, "(*github.com/valyala/fasthttp.RequestCtx).Method": true,
	"(*github.com/valyala/fasthttp.RequestCtx).Path": true, "(*github.com/valyala/fasthttp.RequestCtx).URI": true,
}

// sameReading finds the call that read the same before, if nothing that may change it came between.
func (st *State) sameReading(e *Event) *Event {
	if !readings[e.Name] || len(e.Args) == 0 {
		return nil
	}
	root := rootOf(e.Args[0])
	for i := len(st.events) - 1; i >= 0; i-- {
		x := st.events[i]
		switch {
		case x == e:
		case x.Kind == "Call" && x.Name == e.Name && sameArgs(x.Args, e.Args) && x.Res != nil:
			return x
		case x.Kind == "LoopEnter" || x.Kind == "LoopHavoc" || x.Kind == "LoopBack" || x.User || x.Name == "dynamic":
			return nil
		case x.Kind == "Call" && !readings[x.Name]:
			for _, a := range x.Args {
				if a != nil && a.contains(func(t *Term) bool { return t == root }) {
					return nil
				}
			}
		}
	}
	return nil
}

// ---- builtins ----

func (ex *Exec) builtin(st *State, c *callCtx, name string) {
	a := c.args
	argT := func(i int) types.Type { return c.common.Args[i].Type() }
	switch name {
	case "len":
		ex.bind(st, c, ex.lenOf(st, a[0], argT(0)))
	case "cap":
		if a[0].op == "slice" {
			ex.bind(st, c, a[0].args[3])
		} else {
			ex.bind(st, c, mk("cap", "", types.Typ[types.Int], a[0]))
		}
	case "append":
		ex.bind(st, c, ex.appendTo(st, a[0], a[1], argT(0), argT(1)))
	case "copy":
		ex.havocReach(st, a[0])
		st.event(&Event{Kind: "Copy", Addr: a[0], Args: a[1:], Pos: c.pos})
		ex.bind(st, c, opaque("copied", types.Typ[types.Int]))
	case "delete":
		mt := argT(0).Underlying().(*types.Map)
		ex.store(st, mapElem(a[0], a[1], mt.Elem()), zeroOf(mt.Elem()), mt.Elem())
		ex.store(st, mapHas(a[0], a[1]), mkBool(false), types.Typ[types.Bool])
		st.hv[mk("lenof", "", nil, a[0])]++
		st.event(&Event{Kind: "MapDelete", Addr: a[0], Args: []*Term{a[1]}, Pos: c.pos})
	case "clear":
		ex.havocReach(st, a[0])
		st.event(&Event{Kind: "MapClear", Addr: a[0], Pos: c.pos})
	case "close":
		st.event(&Event{Kind: "Close", Addr: a[0], Pos: c.pos})
	case "print", "println":
		st.event(&Event{Kind: "Call", Name: "builtin." + name, Args: a, Pos: c.pos})
	case "panic":
		st.event(&Event{Kind: "Panic", Val: a[0], Pos: c.pos})
		ex.startPanic(st, a[0])
	case "recover":
		v := mkNil(nil)
		if st.panicking != nil {
			v = opaque("recovered", nil, st.panicking)
			st.panicking = nil
			st.recovered = true
			st.event(&Event{Kind: "Recover", Pos: c.pos})
		}
		ex.bind(st, c, v)
	case "min", "max":
		// decided by facts, else split
		r := a[0]
		for _, b := range a[1:] {
			lt := mkLess(b, r)
			if name == "max" {
				lt = mkLess(r, b)
			}
			v, known := st.facts.Eval(lt)
			if !known {
				o := ex.fork(st)
				o.facts.Assume(lt, false)
				o.top().idx-- // re-evaluate with the fact
				ex.push(o)
				st.facts.Assume(lt, true)
				v = true
			}
			if v {
				r = b
			}
		}
		ex.bind(st, c, r)
	case "ssa:wrapnilchk":
		ex.bind(st, c, a[0])
	default:
		ex.bind(st, c, opaque("builtin:"+name, c.common.Signature().Results()))
	}
}

func (ex *Exec) appendTo(st *State, s, more *Term, typ, moreT types.Type) *Term {
	et := sliceElem(typ)
	var es []*Term
	known := false
	if isStringType(moreT) {
		if str, ok := more.isStr(); ok {
			known = true
			for i := 0; i < len(str); i++ {
				es = append(es, mkInt(int64(str[i])))
			}
		}
	} else if more.op == "bytes" {
		if str, ok := more.args[0].isStr(); ok {
			known = true
			for i := 0; i < len(str); i++ {
				es = append(es, mkInt(int64(str[i])))
			}
		}
	} else {
		es, known = ex.elems(st, more, et)
	}
	if !known {
		return mk("appendall", "", typ, s, more)
	}
	if len(es) == 0 {
		return s
	}
	if base, ok := ex.elems(st, s, et); ok {
		return ex.newSlice(st, append(append([]*Term{}, base...), es...), typ)
	}
	if s.op == "append" {
		return mk("append", "", typ, append(append([]*Term{}, s.args...), es...)...)
	}
	return mk("append", "", typ, append([]*Term{s}, es...)...)
}

// ---- loops ----

type loopForest struct {
	isHeader map[*ssa.BasicBlock]bool
	body     map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (ex *Exec) forest(fn *ssa.Function) *loopForest {
	if f, ok := ex.loops[fn]; ok {
		return f
	}
	f := &loopForest{map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				f.isHeader[s] = true
				if f.body[s] == nil {
					f.body[s] = map[*ssa.BasicBlock]bool{s: true}
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if f.body[s][x] {
						continue
					}
					f.body[s][x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	ex.loops[fn] = f
	return f
}

type modSet struct {
	fields  map[string]bool
	elems   map[string]bool // element types
	maps    map[string]bool // map types
	cells   map[ssa.Value]bool
	own     bool // while collecting: in the loop itself or a closure that shares its variables
	globs   map[*ssa.Global]bool
	lists   bool
	shared  bool
	release bool // gives locks up
	esc     []ssa.Value
}

// addEsc: the value may become known to others.
func (ms *modSet) addEsc(vs ...ssa.Value) {
	seen := map[ssa.Value]bool{}
	var add func(v ssa.Value)
	add = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		// an address inside an object reaches the object
		switch x := v.(type) {
		case *ssa.MakeInterface:
			add(x.X)
			return
		case *ssa.ChangeType:
			add(x.X)
			return
		case *ssa.ChangeInterface:
			add(x.X)
			return
		case *ssa.FieldAddr:
			add(x.X)
			return
		case *ssa.IndexAddr:
			add(x.X)
			return
		case *ssa.Slice:
			add(x.X)
			return
		case *ssa.Phi:
			for _, e := range x.Edges {
				add(e)
			}
		}
		if pointerish(v.Type()) {
			ms.esc = append(ms.esc, v)
		}
	}
	for _, v := range vs {
		add(v)
	}
}

func (ex *Exec) modsOf(fr *Frame, blocks map[*ssa.BasicBlock]bool) *modSet {
	fn := fr.fn
	ms := &modSet{fields: map[string]bool{}, elems: map[string]bool{}, maps: map[string]bool{}, cells: map[ssa.Value]bool{}, globs: map[*ssa.Global]bool{}}
	type fnOwn struct {
		fn  *ssa.Function
		own bool
	}
	seen := map[fnOwn]bool{}
	var visit func(fn *ssa.Function, only map[*ssa.BasicBlock]bool)
	var callee func(c *ssa.CallCommon)
	callee = func(c *ssa.CallCommon) {
		if ms.own {
			for _, a := range c.Args {
				if _, isF := a.Type().Underlying().(*types.Signature); isF {
					ms.addEsc(a)
				}
			}
		}
		if c.IsInvoke() {
			ms.shared = true
			ms.addEsc(c.Args...)
			if strings.HasSuffix(c.Method.Name(), "Unlock") {
				ms.release = true
			}
			return
		}
		switch f := c.Value.(type) {
		case *ssa.Builtin:
			switch f.Name() {
			case "delete", "clear":
				ms.maps[typeKey(c.Args[0].Type().Underlying())] = true
			case "copy":
				ms.elems[typeKey(sliceElem(c.Args[0].Type()))] = true
			}
			return
		case *ssa.Function:
			own := ms.own
			ms.own = false // variables of the function called are new ones
			visitCallee(ex, f, ms, visit, c)
			ms.own = own
			return
		case *ssa.MakeClosure:
			visitCallee(ex, f.Fn.(*ssa.Function), ms, visit, c)
			return
		case *ssa.Parameter, *ssa.FreeVar:
			// a function given by the caller
			if t := fr.env[c.Value]; ms.own && t != nil && t.fn != nil && t.fn.Blocks != nil && inRepoOrSynthetic(t.fn) {
				visit(t.fn, nil)
				return
			}
		}
		ms.shared = true
		if ms.own {
			ms.addEsc(c.Value)
		}
		ms.addEsc(c.Args...)
	}
	visit = func(fn *ssa.Function, only map[*ssa.BasicBlock]bool) {
		if only == nil {
			if seen[fnOwn{fn, ms.own}] || seen[fnOwn{fn, true}] {
				return
			}
			seen[fnOwn{fn, ms.own}] = true
		}
		for _, b := range fn.Blocks {
			if only != nil && !only[b] {
				continue
			}
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if !ms.own && ex.P.cellSites(x.Addr, map[ssa.Instruction]bool{}, 0) {
						continue
					}
					ms.addStore(x.Addr, x.Val.Type())
				case *ssa.MapUpdate:
					ms.maps[typeKey(x.Map.Type().Underlying())] = true
				case *ssa.Send, *ssa.Select:
					ms.shared = true
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						ms.shared = true
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function), nil)
				case *ssa.Call:
					callee(&x.Call)
				case *ssa.Defer:
					callee(&x.Call)
				case *ssa.Go:
					ms.shared = true
					ms.addEsc(append([]ssa.Value{x.Call.Value}, x.Call.Args...)...)
				}
			}
		}
	}
	ms.own = true
	visit(fn, blocks)
	return ms
}

func visitCallee(ex *Exec, f *ssa.Function, ms *modSet, visit func(*ssa.Function, map[*ssa.BasicBlock]bool), c *ssa.CallCommon) {
	if f.Blocks != nil && inRepoOrSynthetic(f) {
		visit(f, nil)
		return
	}
	n := f.String()
	if strings.HasPrefix(n, "(*container/list.") || strings.HasPrefix(n, "(*strings.Builder)") || strings.HasPrefix(n, "(*bytes.Buffer)") || n == "fmt.Fprintf" {
		ms.lists = true
		return
	}
	if readOnlyLib(n) || isPure(n) {
		return
	}
	if strings.HasPrefix(n, "(*sync.Cond).Wait") || strings.HasSuffix(n, "Unlock") {
		ms.release = true
	}
	if strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") {
		ms.shared = true
		return
	}
	for _, a := range c.Args {
		if pointerish(a.Type()) {
			ms.shared = true
			ms.addEsc(a)
		}
	}
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (ms *modSet) addStore(a ssa.Value, vt types.Type) {
	var addStruct func(t types.Type)
	addStruct = func(t types.Type) {
		if s, ok := openStruct(t); ok {
			for i := 0; i < s.NumFields(); i++ {
				ms.fields[typeName(t)+"."+s.Field(i).Name()] = true
				addStruct(s.Field(i).Type())
			}
		}
	}
	addStruct(vt)
	switch x := a.(type) {
	case *ssa.FieldAddr:
		ms.fields[fieldKey(x.X.Type(), x.Field)] = true
	case *ssa.IndexAddr:
		ms.elems[typeKey(sliceElem(x.X.Type()))] = true
	case *ssa.Global:
		ms.globs[x] = true
	default:
		ms.cells[a] = true
	}
}

func (ex *Exec) applyMods(st *State, fr *Frame, ms *modSet) {
	if ms.shared {
		for _, v := range ms.esc {
			if t, ok := fr.env[v]; ok {
				st.escape(t)
				continue
			}
			k := typeKey(v.Type())
			find := func(x *Term) bool {
				switch x.op {
				case "alloc":
					if x.typ != nil && typeKey(x.typ) == k {
						st.escape(x)
					}
				case "fa", "ia":
					if r := rootOf(x); r.op == "alloc" && x.typ != nil && typeKey(types.NewPointer(x.typ)) == k {
						st.escape(r)
					}
				}
				return true
			}
			for _, f := range st.frames {
				for _, t := range f.env {
					t.walk(find)
				}
			}
			for _, t := range st.heap {
				t.walk(find)
			}
		}
		held := st.held
		if ms.release {
			st.held = nil
		}
		ex.havocShared(st)
		st.held = held
	}
	kill := map[*Term]bool{}
	// cells: allocations written directly or through captured variables
	cells := map[*Term]bool{}
	anyCell := false
	sites := map[ssa.Instruction]bool{}
	for v := range ms.cells {
		if t, ok := fr.env[v]; ok {
			cells[t] = true
		} else if !ex.P.cellSites(v, sites, 0) {
			anyCell = true
		}
	}
	for k := range st.heap {
		r := rootOf(k)
		hit := false
		switch k.op {
		case "fa":
			hit = ms.fields[k.aux] || ms.lists && strings.HasPrefix(k.aux, "#")
		case "ia":
			hit = len(ms.elems) > 0 && (k.typ == nil || ms.elems[typeKey(k.typ)])
		case "mel", "mhas":
			hit = len(ms.maps) > 0
		case "global":
			hit = ms.globs[globalTerms[k]]
		}
		if cells[k] || cells[r] && k == r {
			hit = true
		}
		if (anyCell || r.site != nil && sites[r.site]) && k == r && r.op == "alloc" && !ex.P.cellImmutable(r) {
			hit = true
		}
		if hit {
			delete(st.heap, k)
			kill[r] = true
		}
	}
	for c := range cells {
		kill[rootOf(c)] = true
	}
	if len(ms.fields)+len(ms.elems)+len(ms.maps)+len(ms.globs) > 0 || ms.lists {
		st.epoch++
		// values of fresh objects change too
		for k := range ms.fieldsOfAllocs(st) {
			kill[k] = true
		}
	}
	for r := range kill {
		st.hv[r]++
	}
	if ms.release || len(ms.fields)+len(ms.elems)+len(ms.maps)+len(ms.globs) > 0 || ms.lists {
		st.held = append([]Held{}, st.held...)
		for i := range st.held {
			st.held[i].Epoch = st.epoch
		}
	}
}

// fieldsOfAllocs: allocations that may be written (conservatively all live ones with entries of
// a written kind were handled above; objects without entries read as zero and must be forgotten).
func (ms *modSet) fieldsOfAllocs(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	for _, f := range st.frames {
		for _, t := range f.env {
			t.walk(func(x *Term) bool {
				if x.op == "alloc" && x.typ != nil {
					switch u := x.typ.Underlying().(type) {
					case *types.Map:
						if ms.maps[typeKey(u)] {
							out[x] = true
						}
					case *types.Pointer:
						if s, ok := u.Elem().Underlying().(*types.Struct); ok {
							for i := 0; i < s.NumFields(); i++ {
								if ms.fields[typeName(u.Elem())+"."+s.Field(i).Name()] {
									out[x] = true
								}
							}
							if ms.lists && (typeName(u.Elem()) == "strings.Builder" || typeName(u.Elem()) == "bytes.Buffer" || typeName(u.Elem()) == "container/list.List") {
								out[x] = true
							}
						} else if arr, ok := u.Elem().Underlying().(*types.Array); ok && ms.elems[typeKey(arr.Elem())] {
							out[x] = true
						}
					case *types.Slice:
						if ms.elems[typeKey(u.Elem())] {
							out[x] = true
						}
					}
				}
				return true
			})
		}
	}
	return out
}

// cellImmutable: a local variable that is assigned once (also counting closures that capture it).
// cellSites: the allocations a variable of some function can stand for.
func (P *Prog) cellSites(v ssa.Value, sites map[ssa.Instruction]bool, d int) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		sites[x] = true
		return true
	case *ssa.FreeVar:
		up := x.Parent().Parent()
		if up == nil || d > 5 {
			return false
		}
		idx, n := -1, 0
		for i, fv := range x.Parent().FreeVars {
			if fv == x {
				idx = i
			}
		}
		for _, b := range up.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(x.Parent()) {
					n++
					if idx < 0 || !P.cellSites(m.Bindings[idx], sites, d+1) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func (P *Prog) cellImmutable(a *Term) bool {
	al, ok := a.site.(*ssa.Alloc)
	if !ok {
		return false
	}
	if v, ok := P.cellImm[al]; ok {
		return v
	}
	stores := 0
	okAll := true
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.Store:
				if u.Addr == v {
					stores++
				} else {
					okAll = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := u.Fn.(*ssa.Function)
				for i, b := range u.Bindings {
					if b == v {
						scan(fn.FreeVars[i])
					}
				}
			default:
				okAll = false
			}
		}
	}
	if _, isStruct := openStruct(derefType(al.Type())); isStruct {
		okAll = false
	}
	scan(al)
	res := okAll && stores <= 1
	P.cellImm[al] = res
	return res
}

func sortedFuncs(m map[*ssa.Function]bool) []*ssa.Function {
	var out []*ssa.Function
	for f := range m {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
