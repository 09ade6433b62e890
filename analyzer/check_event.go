package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["E01"] = checkE01
	checks["E02"] = checkE02
	checks["E03"] = checkE03
	checks["E04"] = checkE04
}

const evpkg = "event"

type eventBus struct {
	bus, recv                  types.Type
	newBus, dispatch, busClose *ssa.Function
	newRecv, newRecvS          *ssa.Function
	recvClose, drain, collect  *ssa.Function
	recvCh, busCh              map[string]bool // channel fields
	mapK, lockK                string
	flags                      map[string]bool // bool fields of a receiver set when its channel is closed
	done                       map[string]bool // further channels closed by the two closes
	drop, block                int64
	root                       *Proc
}

func (r *Report) pkgConst(rel, name string) (int64, bool) {
	if sp := r.P.pkg(rel); sp != nil {
		if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
			return constant.Int64Val(c.Value.Value)
		}
	}
	return 0, false
}

func (r *Report) eventBus() *eventBus {
	b := &eventBus{recvCh: map[string]bool{}, busCh: map[string]bool{}, flags: map[string]bool{}, done: map[string]bool{}}
	b.bus, b.recv = r.P.namedType(evpkg, "FanOutBus"), r.P.namedType(evpkg, "Receiver")
	b.newBus = r.P.function(evpkg, "NewFanOutBus")
	b.dispatch, b.busClose = r.P.method(evpkg, "FanOutBus", "GoDispatch"), r.P.method(evpkg, "FanOutBus", "Close")
	b.newRecv, b.newRecvS = r.P.method(evpkg, "FanOutBus", "NewRecv"), r.P.method(evpkg, "FanOutBus", "NewRecvStrategy")
	b.recvClose = r.P.method(evpkg, "Receiver", "Close")
	b.drain, b.collect = r.P.method(evpkg, "Receiver", "Drain"), r.P.method(evpkg, "Receiver", "CollectTimeout")
	if b.bus == nil || b.recv == nil || b.newBus == nil || b.dispatch == nil || b.busClose == nil || b.newRecv == nil || b.newRecvS == nil || b.recvClose == nil || b.drain == nil || b.collect == nil {
		r.Missing("event bus types and methods")
		return nil
	}
	for _, f := range []string{"C", "ch"} {
		if k := fkey(b.bus, f); k != "" {
			b.busCh[k] = true
		}
		if k := fkey(b.recv, f); k != "" {
			b.recvCh[k] = true
		}
	}
	b.mapK, b.lockK = fkey(b.bus, "recvMap"), fkey(b.bus, "recvMapLock")
	ok1, ok2 := false, false
	b.drop, ok1 = r.pkgConst(evpkg, "Drop")
	b.block, ok2 = r.pkgConst(evpkg, "Block")
	if b.mapK == "" || b.lockK == "" || !ok1 || !ok2 {
		r.Missing("event bus fields and constants")
		return nil
	}
	for k := range b.busCh {
		r.ObAt(!r.P.mutable[k], "fixed/"+short(k), short(k), "the channel of a bus is never replaced")
	}
	for k := range b.recvCh {
		r.ObAt(!r.P.mutable[k], "fixed/"+short(k), short(k), "the channel of a receiver is never replaced")
	}
	isFlag := map[string]bool{}
	for _, f := range fieldsWhere(b.recv, func(v *types.Var) bool { return isBoolType(v.Type()) }) {
		isFlag[fkey(b.recv, f)] = true
	}
	for _, run := range r.busRuns() {
		for _, p := range run.Paths {
			closes := false
			for _, e := range p.events {
				if e.Kind == "Close" {
					k := chOf(e.Addr)
					if b.recvCh[k] {
						closes = true
					} else if k != "" && !b.busCh[k] {
						b.done[k] = true
					}
				}
			}
			if !closes {
				continue
			}
			for _, e := range p.events {
				if e.Kind == "Store" && e.Addr.op == "fa" && isFlag[e.Addr.aux] {
					if v, ok := e.Val.isBool(); ok && v {
						b.flags[e.Addr.aux] = true
					}
				}
			}
		}
	}
	ex, ps := r.run("GoDispatch", Config{Loads: true}, b.dispatch)
	b.root = &Proc{Name: "GoDispatch", Fn: b.dispatch, Ex: ex, Paths: ps}
	r.grow(b.root, Config{Loads: true})
	r.Count("processes", len(b.root.all()))
	return b
}

// busRuns: every entry point and goroutine of the package.
func (r *Report) busRuns() []*RootRun {
	var out []*RootRun
	for _, x := range r.P.lockInfo().Runs {
		f := x.Fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == r.P.pkg(evpkg) {
			out = append(out, x)
		}
	}
	return out
}

// chanBase: the object whose field the channel is.
func chanBase(t *Term) *Term {
	if t == nil {
		return nil
	}
	_, b := fieldOfChan(t)
	return b
}

// isMapOf: t is the registry of bus b.
func (b *eventBus) mapOf(t *Term) (bus *Term, ok bool) {
	k, base := fieldOfChan(t)
	return base, k == b.mapK
}

// clears: e takes every entry out of the registry of bus.
func (b *eventBus) clears(e *Event, bus *Term) bool {
	if bs, ok := b.mapOf(e.Addr2()); e.Kind == "MapClear" && ok && bs == bus {
		return true
	}
	return b.replaces(e) && e.Addr.args[0] == bus
}

// collected: the list of all receivers in the registry of bus, and the walk over it.
func (b *eventBus) collected(ex *Exec, ps []*State, bus *Term) *collected {
	col := ex.collectedFromMap(ps, func(t *Term) bool { bs, ok := b.mapOf(t); return ok && bs == bus })
	if col == nil || col.keys {
		return nil
	}
	return col
}

// replaces: e gives a bus a new, empty registry.
func (b *eventBus) replaces(e *Event) bool {
	return e.Kind == "Store" && e.Addr.op == "fa" && e.Addr.aux == b.mapK && e.Val.op == "alloc" && strings.HasPrefix(e.Val.aux, "map")
}

// busOf: the lock of which bus is held at e (write lock only if w).
func (b *eventBus) lockHeld(P *Prog, e *Event, bus func(*Term) bool, w bool) *Held {
	for i := range e.Held {
		h := &e.Held[i]
		k, base := P.lockCell(h.Key)
		if k == b.lockK && bus(base) && (!w || h.Mode == 'W') {
			return h
		}
	}
	return nil
}

// offers: sends to receivers attempted by an event.
type offer struct {
	recv, val *Term
	taken     bool
}

func (b *eventBus) offers(e *Event) []offer {
	var out []offer
	switch e.Kind {
	case "Send":
		if b.recvCh[chOf(e.Addr)] {
			out = append(out, offer{chanBase(e.Addr), e.Val, true})
		}
	case "Select":
		for i, c := range e.Cases {
			if c.Dir == types.SendOnly && b.recvCh[chOf(c.Ch)] {
				out = append(out, offer{chanBase(c.Ch), c.Val, e.Chosen == i})
			}
		}
	}
	return out
}

func (p *State) after(e *Event) []*Event {
	for i, x := range p.events {
		if x == e {
			return p.events[i+1:]
		}
	}
	return nil
}

func (p *State) before(e *Event) []*Event {
	for i, x := range p.events {
		if x == e {
			return p.events[:i]
		}
	}
	return nil
}

// section: the events of p around e during which the held lock was not released.
func section(p *State, e *Event, lock *Term) (before, after []*Event) {
	at := -1
	for i, x := range p.events {
		if x == e {
			at = i
		}
	}
	i := at
	for i > 0 && !((p.events[i-1].Kind == "Lock" || p.events[i-1].Kind == "Unlock" || p.events[i-1].Kind == "Wait") && p.events[i-1].Addr == lock) {
		i--
	}
	j := at + 1
	for j < len(p.events) && !((p.events[j].Kind == "Unlock" || p.events[j].Kind == "Wait") && p.events[j].Addr == lock) {
		j++
	}
	if i > 0 {
		i-- // the acquisition itself
	}
	return p.events[i:at], p.events[at+1 : j]
}

// registered: recv was found in the registry of the bus since the lock was taken.
func (b *eventBus) registered(p *State, e *Event, sec []*Event, recv *Term) (key *Term, bus *Term) {
	f := p.factsAt(e)
	for i, x := range sec {
		if x.Kind != "RangeNext" && x.Kind != "MapLookup" {
			continue
		}
		bs, ok := b.mapOf(x.Addr)
		if !ok || !(x.Val == recv || f.Same(x.Val, recv)) {
			continue
		}
		gone := false
		for _, y := range sec[i+1:] {
			if y.Kind == "MapClear" || b.replaces(y) {
				gone = true
			}
			if y.Kind == "MapDelete" && (y.Args[0] == x.Args[0] || f.Same(y.Args[0], x.Args[0])) && y.Seq < e.Seq {
				gone = true
			}
			if y.Kind == "Close" && b.recvCh[chOf(y.Addr)] && chanBase(y.Addr) == recv {
				gone = true
			}
		}
		if !gone || e.Kind == "Close" {
			return x.Args[0], bs
		}
	}
	return nil, nil
}

// flagOpen: a closed flag of recv was seen unset since the lock was taken.
func (b *eventBus) flagOpen(ex *Exec, p *State, e *Event, sec []*Event, recv *Term) bool {
	if len(sec) == 0 {
		return false
	}
	for fk := range b.flags {
		v := ex.valAt(p, sec[0], fieldAddr(recv, fk, types.Typ[types.Bool]), types.Typ[types.Bool])
		if p.factsAt(e).Refutes(v) {
			return true
		}
	}
	return false
}

// ---- E01 ----

func checkE01(r *Report) {
	r.Rule("the dispatcher goroutine walks, for each event received from the bus and under the registry's lock, the whole registry once; each iteration offers that event to that iteration's receiver: with the drop strategy by a non-blocking send and nothing that waits, with the block strategy by waiting for a send that only the closing signals of the receiver or the bus can end; constructors expose the very channel, strategy, name and registry entry")
	r.Assume("the registry is accessed under its lock (X02)")
	b := r.eventBus()
	if b == nil {
		return
	}
	r.busCtors(b)
	nd, nit := 0, 0
	for _, p := range b.root.Paths {
		started := 0
		for _, e := range p.events {
			if e.Kind == "Go" && b.root.Kids[e] != nil {
				started++
			}
			if b.busCh[chOf(e.chosenRecv())] || len(b.offers(e)) > 0 {
				r.Ob(false, "dispatch/own-goroutine", e.Pos, "starting to dispatch handles events on the caller's goroutine: %s", r.P.pathOf(p))
			}
		}
		r.Ob(p.out == "Return" && started == 1, "dispatch/starts", b.dispatch.Pos(), "starting to dispatch ends with %s after starting %d goroutines", p.out, started)
	}
	busTerm := paramTerm(b.dispatch, 0)
	for _, pr := range b.root.all() {
		if pr == b.root {
			continue
		}
		takes := false
		for _, p := range pr.Paths {
			for _, e := range p.events {
				takes = takes || b.busCh[chOf(e.chosenRecv())]
			}
		}
		if !takes {
			r.Ob(false, "dispatch/only-dispatchers", pr.Fn.Pos(), "goroutine %s does not take events from the bus", trimPkg(pr.Fn.String()))
			continue
		}
		nd++
		for _, p := range pr.Paths {
			nit += r.dispatchPath(b, pr, p, busTerm)
		}
	}
	r.Ob(nd == 1, "dispatch/one-dispatcher", b.dispatch.Pos(), "%d dispatchers", nd)
	r.Count("dispatch_iterations", nit)
	r.Floor("dispatch_iterations", 3)
	// nobody else takes events off the bus
	for _, run := range r.busRuns() {
		if run.Spawn {
			continue
		}
		for _, p := range run.Paths {
			for _, e := range p.events {
				if b.busCh[chOf(e.chosenRecv())] {
					r.Ob(false, "bus-channel/"+trimPkg(run.Name), e.Pos, "%s takes events from the bus", trimPkg(run.Name))
				}
			}
		}
	}
	r.ObAt(true, "bus-channel", evpkg, "only the dispatcher takes events from the bus")
}

// dispatchPath checks one path of the dispatcher and returns how many receivers it served.
func (r *Report) dispatchPath(b *eventBus, pr *Proc, p *State, bus *Term) int {
	const key = "dispatch"
	var cur *Term // the event in hand
	ranges, served := 0, 0
	var it *Event // iteration in progress
	var loop string
	itLoop := ""
	busDone := false
	for i, e := range p.events {
		switch e.Kind {
		case "LoopHavoc":
			loop = e.Name
		case "Recv", "Select":
			if ch := e.chosenRecv(); ch != nil && b.busCh[chOf(ch)] {
				if !r.Ob(chanBase(ch) == bus, key+"/own-bus", e.Pos, "takes events from another bus") {
					return served
				}
				ok, known := p.facts.Eval(e.Res)
				r.Ob(known, key+"/notices-close", e.Pos, "uses what it received without checking that the bus is still open: %s", r.P.pathOf(p))
				if known && !ok {
					r.Ob(p.out == "Return", key+"/ends", e.Pos, "goes on dispatching after the bus was closed (%s): %s", p.out, r.P.pathOf(p))
					for _, x := range p.events[i+1:] {
						r.ObIf(len(b.offers(x)) > 0, key+"/ends", x.Pos, "dispatches after the bus was closed: %s", r.P.pathOf(p))
					}
					return served
				}
				r.ObIf(cur != nil && ranges == 0, key+"/every-event", e.Pos, "an event is replaced by the next one before it was dispatched: %s", r.P.pathOf(p))
				cur, ranges = e.Val, 0
			} else if ch != nil && b.done[chOf(ch)] && chanBase(ch) == bus && it == nil && cur == nil {
				return served // closing
			}
		case "RangeNext", "RangeEnd":
			if bs, ok := b.mapOf(e.Addr); !ok || bs != bus {
				continue
			}
			if r.ObIf2(cur == nil, key+"/every-event", e.Pos, "the registry is walked without an event: %s", r.P.pathOf(p)) {
				return served
			}
			r.ObIf(b.lockHeld(r.P, e, func(t *Term) bool { return t == bus }, false) == nil, key+"/locked", e.Pos, "walks the registry without its lock: %s", r.P.pathOf(p))
			if e.Kind == "RangeEnd" {
				ranges++
				r.ObIf(ranges > 1, key+"/once", e.Pos, "an event is dispatched twice: %s", r.P.pathOf(p))
			} else {
				it, itLoop = e, loop
				r.ObIf(ranges > 0, key+"/once", e.Pos, "an event is dispatched twice: %s", r.P.pathOf(p))
			}
		case "LoopBack":
			if it != nil && e.Name == itLoop {
				r.serves(b, pr, p, it, e, cur)
				served++
				it = nil
				return served
			}
		}
		if it == nil {
			for _, o := range b.offers(e) {
				r.Ob(false, key+"/once", e.Pos, "offers to %v outside the walk over the registry: %s", o.recv, r.P.pathOf(p))
			}
		}
		if it != nil && b.done[chOf(e.chosenRecv())] {
			if base := chanBase(e.chosenRecv()); base != it.Val {
				busDone = true
			}
		}
	}
	if it != nil {
		r.Ob(busDone && p.out == "Return", key+"/whole-registry", it.Pos, "stops walking the registry early (%s), later receivers do not get the event: %s", p.out, r.P.pathOf(p))
		return served
	}
	if cur != nil {
		r.Ob(ranges == 1 && p.out == "LoopBack", key+"/every-event", pr.Fn.Pos(), "an event is dispatched %d times before the next one is taken or the dispatcher ends (%s): %s", ranges, p.out, r.P.pathOf(p))
	}
	return served
}

// ObIf2 is ObIf telling whether it fired.
func (r *Report) ObIf2(bad bool, key string, pos token.Pos, format string, a ...any) bool {
	if bad {
		r.Ob(false, key, pos, format, a...)
	}
	return bad
}

// serves: what one iteration of the walk does for its receiver.
func (r *Report) serves(b *eventBus, pr *Proc, p *State, it, end *Event, cur *Term) {
	const key = "offer"
	recv := it.Val
	if h := b.lockHeld(r.P, it, func(*Term) bool { return true }, false); h != nil {
		// the same entry, looked up again before the lock was released
		_, sec := section(p, it, h.Key)
		for _, x := range sec {
			if x == end {
				break
			}
			bx, ok := b.mapOf(x.Addr2())
			bi, _ := b.mapOf(it.Addr2())
			if ok && bx == bi && x.Kind == "MapLookup" && x.Args[0] == it.Args[0] {
				recv = x.Val
			}
		}
	}
	sa, sT := field(recv, b.recv, "strategy")
	if sa == nil {
		r.Missing("Receiver.strategy")
		return
	}
	strat := pr.Ex.load(p, sa, sT)
	var taken, doneSeen, anyOffer bool
	waits := ""
	var waitPos = it.Pos
	var weak *Event // a select that lets the event go for another reason than closing
	for _, e := range p.after(it) {
		if e == end {
			break
		}
		os := b.offers(e)
		for _, o := range os {
			r.Ob(o.recv == recv, key+"/right-receiver", e.Pos, "offers to %v while serving %v", o.recv, recv)
			r.Ob(o.val == cur || p.facts.Same(o.val, cur), key+"/right-event", e.Pos, "offers %v instead of the event taken from the bus", o.val)
			r.ObIf(taken, key+"/once", e.Pos, "offers the event again after the receiver took it: %s", r.P.pathOf(p))
			anyOffer = true
		}
		for _, o := range os {
			taken = taken || o.taken
		}
		if e.Kind == "Select" {
			if _, can := p.factsWith(nil, mkEqInt(strat, mkInt(b.block))); can && e.Block {
				r.Ob(len(os) > 0, key+"/block-offered", e.Pos, "waits without offering the event to the receiver: %s", r.P.pathOf(p))
			}
			for _, c := range e.Cases {
				if c.Dir == types.RecvOnly && !r.closingOf(b, pr, p, c.Ch, recv, paramTerm(b.dispatch, 0)) {
					weak = e
				}
			}
			if ch := e.chosenRecv(); ch != nil && r.closingOf(b, pr, p, ch, recv, paramTerm(b.dispatch, 0)) {
				doneSeen = true
			}
		}
		switch {
		case e.Kind == "Select" && e.Block, e.Kind == "Send", e.Kind == "Recv", e.Kind == "Sleep", e.Kind == "Wait", e.Kind == "Lock", e.Kind == "WaitGroup", e.Kind == "Call" && e.User, e.Kind == "LoopHavoc":
			if waits == "" {
				waits, waitPos = e.Kind, e.Pos
			}
		}
	}
	closedKnown := false
	for fk := range b.flags {
		v := pr.Ex.valAt(p, it, fieldAddr(recv, fk, types.Typ[types.Bool]), types.Typ[types.Bool])
		closedKnown = closedKnown || p.facts.Holds(v)
	}
	if weak != nil {
		r.Ob(false, key+"/only-closing-ends-it", weak.Pos, "the offer can be given up for another reason than closing: %s", r.P.pathOf(p))
	}
	if _, can := p.factsWith(nil, mkEqInt(strat, mkInt(b.drop))); can {
		r.Ob(anyOffer || closedKnown, key+"/drop-offered", it.Pos, "a receiver with the drop strategy is not offered the event: %s", r.P.pathOf(p))
		r.Ob(waits == "", key+"/drop-never-waits", waitPos, "a receiver with the drop strategy can delay dispatching by a %s: %s", waits, r.P.pathOf(p))
	}
	if _, can := p.factsWith(nil, mkEqInt(strat, mkInt(b.block))); can {
		r.Ob(taken || doneSeen || closedKnown, key+"/block-delivered", it.Pos, "a receiver with the block strategy does not get the event although nothing is closing: %s", r.P.pathOf(p))
	}
}

// closingOf: ch is closed only when recv, or the bus, closes.
func (r *Report) closingOf(b *eventBus, pr *Proc, p *State, ch, recv, bus *Term) bool {
	k := chOf(ch)
	if !b.done[k] {
		return false
	}
	base := chanBase(ch)
	if strings.HasPrefix(k, typeName(derefType2(b.recv))+".") {
		return base == recv
	}
	if base == bus {
		return true
	}
	// the receiver's own bus
	a, t := field(recv, b.recv, "bus")
	return a != nil && pr.Ex.load(p, a, t) == base
}

func (r *Report) busCtors(b *eventBus) {
	chanOf := func(ex *Exec, p *State, o *Term, t types.Type, key string, size *Term, pos token.Pos) *Term {
		var chs []*Term
		for _, n := range []string{"C", "ch"} {
			a, ft := field(o, t, n)
			if a == nil {
				r.Missing(key + "." + n)
				return nil
			}
			chs = append(chs, ex.load(p, a, ft))
		}
		ok := chs[0] == chs[1] && chs[0] != nil && chs[0].op == "alloc"
		r.Ob(ok, key+"/one-channel", pos, "exposes %v but works on %v", chs[0], chs[1])
		if !ok {
			return nil
		}
		c := p.heap[mk("fa", "#chancap", types.Typ[types.Int], chs[0])]
		r.Ob(c == size || p.facts.Same(c, size), key+"/buffer", pos, "channel is made with size %v instead of %v", c, size)
		return chs[0]
	}
	ex, ps := r.run("NewFanOutBus", Config{}, b.newBus)
	for _, p := range ps {
		o := newObject(p, b.bus)
		if !r.Ob(p.out == "Return" && o != nil, "NewFanOutBus", b.newBus.Pos(), "ends with %s %v", p.out, p.results) {
			continue
		}
		chanOf(ex, p, o, b.bus, "NewFanOutBus", paramTerm(b.newBus, 0), b.newBus.Pos())
		a, t := field(o, b.bus, "recvMap")
		m := ex.load(p, a, t)
		r.Ob(m != nil && m.op == "alloc", "NewFanOutBus/registry", b.newBus.Pos(), "registry is %v", m)
	}
	for _, c := range []struct {
		fn    *ssa.Function
		strat *Term
	}{{b.newRecv, mkInt(b.drop)}, {b.newRecvS, paramTermOr(b.newRecvS, 3)}} {
		key := c.fn.Name()
		bus := paramTerm(c.fn, 0)
		ex, ps := r.run(key, Config{}, c.fn)
		for _, p := range ps {
			o := newObject(p, b.recv)
			if !r.Ob(p.out == "Return" && o != nil, key, c.fn.Pos(), "ends with %s %v", p.out, p.results) {
				continue
			}
			chanOf(ex, p, o, b.recv, key, paramTerm(c.fn, 2), c.fn.Pos())
			get := func(n string) *Term {
				a, t := field(o, b.recv, n)
				if a == nil {
					r.Missing("Receiver." + n)
					return nil
				}
				return ex.load(p, a, t)
			}
			r.Ob(p.facts.Same(get("strategy"), c.strat), key+"/strategy", c.fn.Pos(), "the receiver's strategy is %v, must be %v", get("strategy"), c.strat)
			r.Ob(get("bus") == bus, key+"/bus", c.fn.Pos(), "the receiver belongs to %v", get("bus"))
			r.Ob(get("name") == paramTerm(c.fn, 1), key+"/name", c.fn.Pos(), "the receiver is called %v", get("name"))
			n := 0
			for _, e := range p.events {
				if bs, ok := b.mapOf(e.Addr2()); ok && (e.Kind == "MapUpdate" || e.Kind == "MapDelete" || e.Kind == "MapClear") {
					n++
					r.Ob(e.Kind == "MapUpdate" && bs == bus && e.Val == o && e.Args[0] == paramTerm(c.fn, 1), key+"/registers", e.Pos, "%s of %v under %v", e.Kind, e.Val, e.Args)
				}
			}
			r.Ob(n == 1, key+"/registers", c.fn.Pos(), "changes the registry %d times: %s", n, r.P.pathOf(p))
		}
	}
}

// Addr2 is the event's address, or a neutral term.
func (e *Event) Addr2() *Term {
	if e.Addr == nil {
		return mkNil(nil)
	}
	return e.Addr
}

func paramTermOr(fn *ssa.Function, i int) *Term {
	if i < len(fn.Params) {
		return paramTerm(fn, i)
	}
	return mkNil(nil)
}

// ---- E02 ----

func checkE02(r *Report) {
	r.Rule("a receiver's channel is sent to only with the registry's lock held and the receiver found in the registry (or its closed flag seen unset) since the lock was taken; it is closed only under the write lock, after the same evidence, and by the end of that critical section the flag is set and the receiver is out of the registry; what enters the registry is a new receiver with its own channel; closing signals are closed at most once; a receiver's close touches only its own channels and removes only its own entry")
	b := r.eventBus()
	if b == nil {
		return
	}
	ns, nc := 0, 0
	for _, run := range r.busRuns() {
		key := trimPkg(run.Name)
		for _, p := range run.Paths {
			for _, e := range p.events {
				for _, o := range b.offers(e) {
					ns++
					h := b.lockHeld(r.P, e, func(*Term) bool { return true }, false)
					if !r.Ob(h != nil, "send/"+key, e.Pos, "sends to a receiver without the registry's lock, it may be closed meanwhile: %s", r.P.pathOf(p)) {
						continue
					}
					_, hb := r.P.lockCell(h.Key)
					sec, _ := section(p, e, h.Key)
					_, bs := b.registered(p, e, sec, o.recv)
					closedHere := false
					for _, x := range sec {
						closedHere = closedHere || x.Kind == "Close" && b.recvCh[chOf(x.Addr)]
					}
					r.Ob((bs == hb && bs != nil || b.flagOpen(run.Ex, p, e, sec, o.recv) && r.busIs(b, run.Ex, p, o.recv, hb)) && !closedHere, "send/"+key, e.Pos, "sends to a receiver that is not known to be open: %s", r.P.pathOf(p))
				}
				switch e.Kind {
				case "Close":
					k := chOf(e.Addr)
					switch {
					case b.recvCh[k]:
						nc++
						r.closeOK(b, run, p, e, "close/"+key)
					case b.done[k] && strings.HasPrefix(k, typeName(derefType2(b.recv))+"."):
						r.Ob(onceOf(p, e) != nil && rootOf(onceOf(p, e)) == chanBase(e.Addr) || r.guardedClose(b, run, p, e), "signal/"+key, e.Pos, "the closing signal of a receiver can be closed twice: %s", r.P.pathOf(p))
					case k == "" && !e.Local:
						r.Ob(false, "close/"+key, e.Pos, "closes %v, which is not known to be anyone's own channel", e.Addr)
					}
				case "MapUpdate":
					if _, ok := b.mapOf(e.Addr); ok {
						r.Ob(run.Fn == b.newRecv || run.Fn == b.newRecvS, "registry/"+key, e.Pos, "%s adds to the registry", key)
					}
				case "MapDelete", "MapClear":
					if _, ok := b.mapOf(e.Addr); ok {
						r.Ob(run.Fn == b.recvClose || run.Fn == b.busClose, "registry/"+key, e.Pos, "%s removes from the registry", key)
					}
				case "Store":
					if e.Addr.op == "fa" && b.flags[e.Addr.aux] && !e.Local {
						v, ok := e.Val.isBool()
						r.Ob(ok && v, "flag/"+key, e.Pos, "the closed flag is set to %v", e.Val)
					}
					if e.Addr.op == "fa" && e.Addr.aux == b.mapK && !e.Local {
						r.Ob(b.replaces(e) && (run.Fn == b.recvClose || run.Fn == b.busClose), "registry/"+key, e.Pos, "%s replaces the registry by %v", key, e.Val)
					}
				}
			}
		}
	}
	// own things only
	recv := paramTerm(b.recvClose, 0)
	ex, ps := r.run("Receiver.Close", Config{Loads: true}, b.recvClose)
	for _, p := range ps {
		for _, e := range p.events {
			switch e.Kind {
			case "Close":
				r.Ob(chanBase(e.Addr) == recv, "own/close", e.Pos, "closing a receiver closes %v: %s", e.Addr, r.P.pathOf(p))
			case "Store":
				r.ObIf(b.replaces(e), "own/entry", e.Pos, "closing a receiver empties the registry")
				r.ObIf(!e.Local && e.Addr.op == "fa" && strings.HasPrefix(e.Addr.aux, typeName(derefType2(b.recv))+".") && e.Addr.args[0] != recv, "own/close", e.Pos, "closing a receiver changes %v", e.Addr)
			case "MapClear":
				r.Ob(false, "own/entry", e.Pos, "closing a receiver empties the registry")
			case "MapDelete":
				if _, ok := b.mapOf(e.Addr); !ok {
					continue
				}
				h := b.lockHeld(r.P, e, func(*Term) bool { return true }, true)
				if !r.Ob(h != nil, "own/entry", e.Pos, "removes an entry without the write lock: %s", r.P.pathOf(p)) {
					continue
				}
				sec, _ := section(p, e, h.Key)
				mine := false
				f := p.factsAt(e)
				for _, x := range sec {
					if (x.Kind == "MapLookup" || x.Kind == "RangeNext") && x.Addr == e.Addr && (x.Args[0] == e.Args[0] || f.Same(x.Args[0], e.Args[0])) && (x.Val == recv || f.Same(x.Val, recv)) {
						mine = true
					}
				}
				r.Ob(mine, "own/entry", e.Pos, "removes an entry that may belong to another receiver with the same name: %s", r.P.pathOf(p))
			}
		}
	}
	_ = ex
	// constructors: new channel, flags unset
	for _, c := range []*ssa.Function{b.newRecv, b.newRecvS} {
		ex, ps := r.run(c.Name(), Config{}, c)
		for _, p := range ps {
			o := newObject(p, b.recv)
			if o == nil {
				r.Ob(false, c.Name(), c.Pos(), "returns %v", p.results)
				continue
			}
			var reg *Event
			for _, e := range p.events {
				if _, ok := b.mapOf(e.Addr2()); ok && e.Kind == "MapUpdate" && e.Val == o {
					reg = e
				}
			}
			if !r.Ob(reg != nil, c.Name()+"/registers", c.Pos(), "does not register the receiver it returns: %s", r.P.pathOf(p)) {
				continue
			}
			for fk := range b.flags {
				v := ex.valAt(p, reg, fieldAddr(o, fk, types.Typ[types.Bool]), types.Typ[types.Bool])
				r.Ob(p.facts.Refutes(v), c.Name()+"/open", c.Pos(), "a new receiver's closed flag is %v", v)
			}
			seen := map[*Term]string{}
			for k := range b.recvCh {
				a, t := field(o, b.recv, k[lastDot(k)+1:])
				v := ex.load(p, a, t)
				r.Ob(v != nil && v.op == "alloc", c.Name()+"/own-channel", c.Pos(), "a new receiver's channel is %v", v)
			}
			for k := range b.done {
				if !strings.HasPrefix(k, typeName(derefType2(b.recv))+".") {
					continue
				}
				a, t := field(o, b.recv, k[lastDot(k)+1:])
				v := ex.load(p, a, t)
				r.Ob(v != nil && v.op == "alloc" && seen[v] == "", c.Name()+"/own-signal", c.Pos(), "a new receiver's closing signal is %v", v)
				if v != nil {
					seen[v] = k
				}
			}
		}
	}
	r.Count("sends_to_receivers", ns)
	r.Floor("sends_to_receivers", 2)
	r.Count("closes_of_receivers", nc)
	r.Floor("closes_of_receivers", 2)
}

func (r *Report) busIs(b *eventBus, ex *Exec, p *State, recv, bus *Term) bool {
	a, t := field(recv, b.recv, "bus")
	return a != nil && ex.load(p, a, t) == bus
}

// onceOf: the sync.Once under which e runs.
func onceOf(p *State, e *Event) *Term {
	var st []*Event
	for _, x := range p.events {
		for len(st) > 0 && x.Depth <= st[len(st)-1].Depth {
			st = st[:len(st)-1]
		}
		if x == e {
			break
		}
		if x.Kind == "OnceRun" {
			st = append(st, x)
		}
	}
	if len(st) == 0 {
		return nil
	}
	return st[len(st)-1].Addr
}

// guardedClose: e closes something of a receiver under the write lock after its closed flag was seen unset.
func (r *Report) guardedClose(b *eventBus, run *RootRun, p *State, e *Event) bool {
	h := b.lockHeld(r.P, e, func(*Term) bool { return true }, true)
	if h == nil {
		return false
	}
	sec, after := section(p, e, h.Key)
	recv := chanBase(e.Addr)
	if !b.flagOpen(run.Ex, p, e, sec, recv) {
		if _, bs := b.registered(p, e, sec, recv); bs == nil {
			return false
		}
	}
	n := 0
	for _, x := range append(append([]*Event{}, sec...), after...) {
		if x.Kind == "Close" && x.Addr == e.Addr {
			n++
		}
	}
	return n == 0
}

func (r *Report) closeOK(b *eventBus, run *RootRun, p *State, e *Event, key string) {
	recv := chanBase(e.Addr)
	h := b.lockHeld(r.P, e, func(*Term) bool { return true }, true)
	if !r.Ob(h != nil, key+"/locked", e.Pos, "closes a receiver's channel without the registry's write lock, a send may be under way: %s", r.P.pathOf(p)) {
		return
	}
	_, hb := r.P.lockCell(h.Key)
	sec, after := section(p, e, h.Key)
	mk, bs := b.registered(p, e, sec, recv)
	open := bs == hb && bs != nil || b.flagOpen(run.Ex, p, e, sec, recv) && r.busIs(b, run.Ex, p, recv, hb)
	// one of the receivers met on a walk over the registry since the lock was taken
	col := b.collected(run.Ex, run.Paths, hb)
	met := false
	if col != nil && col.w.isElem(recv) && p.entered(col.w.name, col.w.cur) {
		for _, x := range sec {
			if bs, ok := b.mapOf(x.Addr2()); x.Kind == "RangeEnd" && ok && bs == hb {
				met = true
			}
		}
	}
	open = open || met
	r.Ob(open, key+"/once", e.Pos, "closes a receiver's channel that may be closed already: %s", r.P.pathOf(p))
	for _, x := range append(append([]*Event{}, sec...), after...) {
		r.ObIf(x.Kind == "Close" && x != e && b.recvCh[chOf(x.Addr)] && chanBase(x.Addr) == recv, key+"/once", x.Pos, "closes the channel twice: %s", r.P.pathOf(p))
	}
	end := p.events[len(p.events)-1]
	if len(after) > 0 {
		end = after[len(after)-1]
	}
	if i := end.Seq + 1; i < len(p.events) {
		end = p.events[i]
	}
	if end.Snap == nil {
		r.Ob(false, key+"/flag", e.Pos, "the critical section has no end on the path: %s", r.P.pathOf(p))
		return
	}
	for fk := range b.flags {
		v := run.Ex.valAt(p, end, fieldAddr(recv, fk, types.Typ[types.Bool]), types.Typ[types.Bool])
		r.Ob(p.facts.Holds(v), key+"/flag", e.Pos, "the channel is closed but its flag ends as %v, so it could be closed again: %s", v, r.P.pathOf(p))
	}
	// out of the registry
	out := false
	f := p.facts
	all := append(append([]*Event{}, sec...), after...)
	for _, x := range all {
		if b.clears(x, hb) {
			out = true
		}
		bx, ok := b.mapOf(x.Addr2())
		if !ok || bx != hb {
			continue
		}
		switch x.Kind {
		case "MapDelete":
			if mk != nil && (x.Args[0] == mk || f.Same(x.Args[0], mk)) {
				out = true
			}
			for _, y := range all {
				if y.Kind == "MapLookup" && y.Addr == x.Addr && (y.Args[0] == x.Args[0] || f.Same(y.Args[0], x.Args[0])) && (y.Val == recv || f.Same(y.Val, recv)) {
					out = true
				}
			}
		case "MapLookup":
			a, t := field(recv, b.recv, "name")
			if a != nil && f.Same(run.Ex.load(p, a, t), x.Args[0]) && (f.Refutes(mkEq(recv, x.Val, nil)) || f.Refutes(x.Res)) {
				out = true
			}
		}
	}
	if !out && (mk != nil || met) {
		out = r.clearedAfter(b, run, e, hb)
	}
	r.Ob(out, key+"/deregistered", e.Pos, "the channel is closed while the receiver stays registered, so it can be sent to or closed again: %s", r.P.pathOf(p))
}

// walkLoops: the loops over the registry of bus, with the iterations that end each.
func (b *eventBus) walkLoops(ps []*State, bus *Term) map[string][]*iteration {
	out := map[string][]*iteration{}
	for _, p := range ps {
		loop := ""
		var it *Event
		itLoop := ""
		for _, e := range p.events {
			switch e.Kind {
			case "LoopHavoc":
				loop = e.Name
			case "RangeNext":
				if bs, ok := b.mapOf(e.Addr); ok && bs == bus {
					it, itLoop = e, loop
				}
			case "LoopBack":
				if it != nil && e.Name == itLoop {
					out[itLoop] = append(out[itLoop], &iteration{p, it, e})
					it = nil
				}
			}
		}
	}
	return out
}

type iteration struct {
	p        *State
	from, to *Event
}

func (it *iteration) events() []*Event { return it.p.events[it.from.Seq+1 : it.to.Seq] }

// ended: the loops over the registry that the path walked to their end, among events.
func (b *eventBus) ended(p *State, bus *Term, after *Event) []string {
	var out []string
	loop := ""
	for _, e := range p.events {
		if e.Kind == "LoopHavoc" {
			loop = e.Name
		}
		if bs, ok := b.mapOf(e.Addr2()); ok && bs == bus && e.Kind == "RangeEnd" && (after == nil || e.Seq > after.Seq) {
			out = append(out, loop)
		}
	}
	return out
}

func deletesOwn(it *iteration) bool {
	for _, e := range it.events() {
		if e.Kind == "MapDelete" && e.Addr == it.from.Addr && e.Args[0] == it.from.Args[0] {
			return true
		}
	}
	return false
}

// clearedAfter: every path that finishes the walk over the registry removes all its entries before
// it gives up the lock.
func (r *Report) clearedAfter(b *eventBus, run *RootRun, e *Event, bus *Term) bool {
	loops := b.walkLoops(run.Paths, bus)
	n := 0
	for _, p := range run.Paths {
		if p.out == "LoopBack" {
			continue
		}
		for i, x := range p.events {
			if bs, ok := b.mapOf(x.Addr2()); x.Kind != "RangeEnd" || !ok || bs != bus {
				continue
			}
			h := b.lockHeld(r.P, x, func(t *Term) bool { return t == bus }, true)
			if h == nil {
				return false
			}
			cleared := false
			for _, y := range p.events[i+1:] {
				if y.Kind == "Unlock" && y.Addr == h.Key {
					break
				}
				if b.clears(y, bus) {
					cleared = true
				}
			}
			for _, l := range b.ended(p, bus, x) {
				all := len(loops[l]) > 0
				for _, it := range loops[l] {
					all = all && deletesOwn(it)
				}
				cleared = cleared || all
			}
			if !cleared {
				return false
			}
			n++
			break
		}
	}
	return n > 0
}

// ---- E03 ----

func checkE03(r *Report) {
	r.Rule("every path of a receiver's close ends with its channel closed (here or, the flag set, before) and every path of the bus's close closes the bus channel and walks the whole registry, closing each receiver; before either asks for the registry's lock it has given a signal on which the dispatcher, blocked on that receiver with the lock held, goes on; the dispatcher ends when the bus channel is closed")
	r.Assume("E02: what is closed leaves the registry; the dispatcher may still be waiting for another receiver with the block strategy, as documented")
	b := r.eventBus()
	if b == nil {
		return
	}
	// signals that free the dispatcher
	bus0 := paramTerm(b.dispatch, 0)
	nblock := 0
	var forRecv, forBus map[string]bool
	for _, pr := range b.root.all() {
		ends := false
		for _, p := range pr.Paths {
			for _, e := range p.events {
				if ch := e.chosenRecv(); ch != nil && b.busCh[chOf(ch)] && p.facts.Refutes(e.Res) {
					r.Ob(p.out == "Return", "dispatcher/ends", e.Pos, "goes on after the bus was closed (%s): %s", p.out, r.P.pathOf(p))
					ends = true
				}
				if len(b.offers(e)) == 0 || e.Kind == "Select" && !e.Block {
					continue
				}
				if b.lockHeld(r.P, e, func(*Term) bool { return true }, false) == nil {
					continue
				}
				nblock++
				rk, bk := map[string]bool{}, map[string]bool{}
				for _, c := range e.Cases {
					if c.Dir != types.RecvOnly || !b.done[chOf(c.Ch)] {
						continue
					}
					if chanBase(c.Ch) == b.offers(e)[0].recv {
						rk[chOf(c.Ch)] = true
					} else if r.closingOf(b, pr, p, c.Ch, b.offers(e)[0].recv, bus0) {
						bk[chOf(c.Ch)] = true
					}
				}
				forRecv, forBus = meet(forRecv, rk), meet(forBus, bk)
			}
		}
		if pr != b.root {
			r.Ob(ends, "dispatcher/ends", pr.Fn.Pos(), "the dispatcher never notices that the bus was closed")
		}
	}
	r.Count("blocking_offers_under_lock", nblock)
	for _, m := range []struct {
		key  string
		fn   *ssa.Function
		sigs map[string]bool
		of   types.Type
	}{{"Receiver.Close", b.recvClose, forRecv, b.recv}, {"FanOutBus.Close", b.busClose, forBus, b.bus}} {
		obj := paramTerm(m.fn, 0)
		ex, ps := r.run(m.key, Config{Loads: true}, m.fn)
		if nblock > 0 {
			r.Ob(len(m.sigs) > 0, m.key+"/signal", m.fn.Pos(), "nothing this close does frees a dispatcher that waits for the receiver while it holds the registry's lock")
		}
		rets := 0
		for _, p := range ps {
			// signal before the lock
			signalled := nblock == 0
			for _, e := range p.events {
				if e.Kind == "Close" && m.sigs[chOf(e.Addr)] && chanBase(e.Addr) == obj {
					signalled = true
				}
				if e.Kind == "OnceSkip" && rootOf(e.Addr) == obj && onceCloses(ps, e.Addr, m.sigs, obj) {
					signalled = true
				}
				if e.Kind == "Lock" {
					if k, _ := r.P.lockCell(e.Addr); k == b.lockK {
						r.Ob(signalled, m.key+"/signal-first", e.Pos, "asks for the registry's lock before freeing a dispatcher that may be blocked on the receiver with that lock held: %s", r.P.pathOf(p))
						break
					}
				}
			}
			for _, e := range p.events {
				bad := ""
				switch {
				case e.Kind == "Send", e.Kind == "Recv", e.Kind == "Select" && e.Block, e.Kind == "Sleep", e.Kind == "Wait", e.Kind == "WaitGroup":
					bad = e.Kind
				}
				r.ObIf(bad != "", m.key+"/never-waits", e.Pos, "waits in a %s: %s", bad, r.P.pathOf(p))
			}
			if p.out == "LoopBack" {
				continue
			}
			if !r.Ob(p.out == "Return", m.key+"/returns", m.fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
				continue
			}
			rets++
			if m.fn == b.recvClose {
				closed := false
				for _, e := range p.events {
					if e.Kind == "Close" && b.recvCh[chOf(e.Addr)] && chanBase(e.Addr) == obj {
						closed = true
					}
					if e.Kind == "OnceSkip" && rootOf(e.Addr) == obj && onceCloses(ps, e.Addr, b.recvCh, obj) {
						closed = true
					}
				}
				for _, g := range r.P.segments(p, func(k string, _ *Term) bool { return k == b.lockK }) {
					for fk := range b.flags {
						if g.From != nil && p.facts.Holds(ex.valAt(p, g.From, fieldAddr(obj, fk, types.Typ[types.Bool]), types.Typ[types.Bool])) {
							closed = true
						}
					}
				}
				r.Ob(closed, m.key+"/closes", m.fn.Pos(), "returns without the receiver's channel being closed: %s", r.P.pathOf(p))
				continue
			}
			nb, ends := 0, 0
			for _, e := range p.events {
				if e.Kind == "Close" && b.busCh[chOf(e.Addr)] && chanBase(e.Addr) == obj {
					nb++
				}
				if bs, ok := b.mapOf(e.Addr2()); ok && bs == obj && e.Kind == "RangeEnd" {
					ends++
				}
			}
			r.Ob(nb == 1, m.key+"/closes-bus", m.fn.Pos(), "closes the bus channel %d times: %s", nb, r.P.pathOf(p))
			r.Ob(ends >= 1, m.key+"/all-receivers", m.fn.Pos(), "does not walk the whole registry: %s", r.P.pathOf(p))
		}
		r.Ob(rets > 0, m.key+"/returns", m.fn.Pos(), "has no returning path")
		if m.fn == b.busClose {
			loops := b.walkLoops(ps, obj)
			closesAll := map[string]bool{}
			for l, its := range loops {
				closesAll[l] = true
				for _, it := range its {
					closed := false
					for _, e := range it.events() {
						closed = closed || e.Kind == "Close" && b.recvCh[chOf(e.Addr)] && chanBase(e.Addr) == it.from.Val
					}
					for fk := range b.flags {
						if it.p.facts.Holds(ex.valAt(it.p, it.from, fieldAddr(it.from.Val, fk, types.Typ[types.Bool]), types.Typ[types.Bool])) {
							closed = true
						}
					}
					if !closed {
						closesAll[l] = false
					}
				}
			}
			// or all that was met on the walk
			col, colCloses := b.collected(ex, ps, obj), false
			if col != nil {
				for i, q := range col.w.iterations(ps) {
					closed := false
					for _, e := range col.w.body(q) {
						closed = closed || e.Kind == "Close" && b.recvCh[chOf(e.Addr)] && col.w.isElem(chanBase(e.Addr))
					}
					colCloses = closed && (i == 0 || colCloses)
				}
			}
			for _, p := range ps {
				if p.out != "Return" {
					continue
				}
				all := false
				for _, l := range b.ended(p, obj, nil) {
					all = all || closesAll[l]
				}
				all = all || col != nil && colCloses && p.entered(col.w.name, col.w.cur) && col.w.finished(p)
				r.Ob(all, m.key+"/all-receivers", m.fn.Pos(), "some registered receiver is left open: %s", r.P.pathOf(p))
			}
		}
	}
}

func meet(a, b map[string]bool) map[string]bool {
	if a == nil {
		return b
	}
	out := map[string]bool{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

// onceCloses: on the paths where this once runs, it closes one of the channels of obj.
func onceCloses(ps []*State, once *Term, keys map[string]bool, obj *Term) bool {
	n := 0
	for _, p := range ps {
		for _, o := range p.events {
			if o.Kind != "OnceRun" || o.Addr != once {
				continue
			}
			n++
			ok := false
			for _, e := range p.after(o) {
				if e.Depth <= o.Depth {
					break
				}
				ok = ok || e.Kind == "Close" && keys[chOf(e.Addr)] && chanBase(e.Addr) == obj
			}
			if !ok {
				return false
			}
		}
	}
	return n > 0
}

// ---- E04 ----

func checkE04(r *Report) {
	r.Rule("both loops take only from the receiver's channel, append exactly each received value and nothing else to a list that starts empty, go on only after a value was received, and return that list; draining never waits; collecting waits only for the receiver or for one timer of the given duration, started before the loop")
	b := r.eventBus()
	if b == nil {
		return
	}
	for _, m := range []struct {
		fn    *ssa.Function
		timed bool
	}{{b.drain, false}, {b.collect, true}} {
		key := m.fn.Name()
		recv := paramTerm(m.fn, 0)
		ex, ps := r.run(key, Config{Loads: true}, m.fn)
		rets, backs, timeouts := 0, 0, 0
		for _, p := range ps {
			var got []*Term
			ended, timedOut := false, false
			var havoc *Event
			for _, e := range p.events {
				switch e.Kind {
				case "LoopHavoc":
					havoc = e
				case "Select", "Recv":
					r.ObIf(ended, key+"/stops", e.Pos, "goes on receiving after the end was reached: %s", r.P.pathOf(p))
					blocking := e.Kind == "Recv" || e.Block
					timerCase := false
					chs := []*Term{e.Addr}
					if e.Kind == "Select" {
						chs = nil
						for _, c := range e.Cases {
							chs = append(chs, c.Ch)
							r.ObIf(c.Dir != types.RecvOnly, key+"/only-receives", e.Pos, "sends to %v", c.Ch)
						}
					}
					for _, ch := range chs {
						d, per, tm := timeLimit(ch)
						own := b.recvCh[chOf(ch)] && chanBase(ch) == recv
						r.Ob(own || m.timed && tm && !per && (d == paramTerm(m.fn, 1) || p.facts.Same(d, paramTerm(m.fn, 1))), key+"/only-own-channel", e.Pos, "receives from %v: %s", ch, r.P.pathOf(p))
						timerCase = timerCase || tm
					}
					if m.timed {
						r.Ob(!blocking || timerCase, key+"/timeout", e.Pos, "waits without the timeout: %s", r.P.pathOf(p))
					} else {
						r.Ob(!blocking, key+"/never-waits", e.Pos, "waits for an event: %s", r.P.pathOf(p))
					}
					if e.Kind == "Select" && e.Chosen < 0 {
						if m.timed {
							ended = ended || false
							r.Ob(p.out != "Return", key+"/timeout", e.Pos, "returns before the timeout: %s", r.P.pathOf(p))
						} else {
							ended = true
						}
						continue
					}
					ch := e.chosenRecv()
					if _, _, tm := timeLimit(ch); tm {
						ended, timedOut = true, true
						timeouts++
						continue
					}
					ok, known := p.facts.Eval(e.Res)
					r.Ob(known, key+"/notices-close", e.Pos, "uses what it received without checking that the receiver is open: %s", r.P.pathOf(p))
					if known && !ok {
						ended = true
					} else {
						got = append(got, e.Val)
					}
				case "Timer":
					r.ObIf(!m.timed, key+"/never-waits", e.Pos, "uses a timer")
					r.Ob(havoc == nil, key+"/one-timeout", e.Pos, "the timeout starts again in the loop: %s", r.P.pathOf(p))
				case "Call":
					r.ObIf(havoc != nil && strings.HasPrefix(e.Name, "context.With"), key+"/one-timeout", e.Pos, "the timeout starts again in the loop: %s", r.P.pathOf(p))
					r.ObIf(!ended && e.Callee != nil && isCtxCall(e.Callee, "context.WithTimeout") && len(e.Callee.args) == 1, key+"/one-timeout", e.Pos, "the timeout is brought forward: %s", r.P.pathOf(p))
					r.ObIf(e.Name == "(*time.Timer).Reset" || e.Name == "(*time.Timer).Stop" && !ended, key+"/one-timeout", e.Pos, "the timeout is changed: %s", r.P.pathOf(p))
				case "Sleep", "Wait", "Lock", "WaitGroup", "Send":
					r.Ob(false, key+"/never-waits", e.Pos, "waits in a %s: %s", e.Kind, r.P.pathOf(p))
				}
			}
			_ = timedOut
			switch p.out {
			case "Return":
				rets++
				r.Ob(ended, key+"/until-end", m.fn.Pos(), "returns although neither the end was reached nor the receiver is closed: %s", r.P.pathOf(p))
				if len(p.results) != 1 {
					r.Ob(false, key+"/result", m.fn.Pos(), "returns %v", p.results)
					continue
				}
				base, tail := accSplit(p.results[0])
				okTail := len(tail) == len(got)
				for i := range got {
					okTail = okTail && tail[i] == got[i]
				}
				r.Ob(okTail && disturbed(p, base) == nil && r.accOK(ex, ps, p, base, key, m.fn), key+"/result", m.fn.Pos(), "returns %v after receiving %v: %s", p.results[0], got, r.P.pathOf(p))
			case "LoopBack":
				backs++
				r.Ob(!ended && len(got) > 0, key+"/goes-on-only-after-a-value", m.fn.Pos(), "goes round again without having received a value: %s", r.P.pathOf(p))
			default:
				r.Ob(false, key+"/ends", m.fn.Pos(), "ends with %s", p.out)
			}
		}
		r.Ob(rets >= 2 && backs >= 1, key+"/shape", m.fn.Pos(), "%d returning and %d repeating paths", rets, backs)
		if m.timed {
			r.Ob(timeouts > 0, key+"/timeout", m.fn.Pos(), "never ends by its timeout")
		}
	}
}

// timeLimit: a timer's channel, or Done() of a context that ends by its timeout alone.
func timeLimit(ch *Term) (d *Term, periodic, ok bool) {
	if isCtxCall(ch, "(context.Context).Done") && len(ch.args) == 1 {
		c := ch.args[0]
		if isCtxCall(c, "context.WithTimeout") && len(c.args) == 2 && (isCtxCall(c.args[0], "context.Background") || isCtxCall(c.args[0], "context.TODO")) {
			return c.args[1], false, true
		}
		return nil, false, false
	}
	return isTimerChan(ch)
}

// accSplit: a list value as a base and the values appended to it.
func accSplit(t *Term) (base *Term, tail []*Term) {
	for t.op == "append" && len(t.args) >= 1 {
		tail = append(append([]*Term{}, t.args[1:]...), tail...)
		t = t.args[0]
	}
	return t, tail
}

// accOK: base is a list that is empty, or a loop's accumulator that starts empty and to which every
// iteration appends exactly what it received.
func (r *Report) accOK(ex *Exec, ps []*State, p *State, base *Term, key string, fn *ssa.Function) bool {
	if isEmptyList(base) {
		// nothing may have been collected on the way
		for _, e := range p.events {
			if e.Kind == "LoopHavoc" {
				for _, q := range ps {
					if l := q.events[len(q.events)-1]; l.Kind == "LoopBack" && l.Name == e.Name {
						return false
					}
				}
			}
		}
		return true
	}
	init, ok := ex.accInit(p, base)
	if !ok || !isEmptyList(init) {
		r.Ob(false, key+"/starts-empty", fn.Pos(), "the list starts as %v", init)
		return false
	}
	n := 0
	for _, q := range ps {
		if q.out != "LoopBack" {
			continue
		}
		next, ok := ex.accNext(q, base)
		if !ok {
			continue
		}
		n++
		var got []*Term
		for _, e := range q.events {
			if (e.Kind == "Select" || e.Kind == "Recv") && e.chosenRecv() != nil && e.Res != nil && q.facts.Holds(e.Res) {
				got = append(got, e.Val)
			}
		}
		b2, tail := accSplit(next)
		same := b2 == base && len(tail) == len(got)
		for i := range got {
			same = same && tail[i] == got[i]
		}
		if d := disturbed(q, base); d != nil {
			same = false
		}
		if !same {
			r.Ob(false, key+"/collects", fn.Pos(), "an iteration that received %v turns the list %v into %v: %s", got, base, next, r.P.pathOf(q))
			return false
		}
	}
	return n > 0
}

func isEmptyList(t *Term) bool {
	if t == nil {
		return false
	}
	if t.isNil() {
		return true
	}
	n, ok := mkLen(t).isInt()
	return ok && n == 0
}

// disturbed: the event, if any, that writes to a place of a list other than by adding to its end, or
// hands it to a sort.
func disturbed(p *State, lists ...*Term) *Event {
	for _, v := range lists {
		in := v
		if list, _ := filled(v); list != nil {
			if p.out == "LoopBack" {
				continue // accNext looks at these
			}
			in = list
		}
		over := false // the loop that fills the list
		for _, e := range p.events {
			over = over || e.Kind == "LoopEnter" && has2(e.Args, v) || in != v && e.Kind == "LoopEnter" && has2(e.Args, v.args[2])
			a := e.Addr2()
			is := func(y *Term) bool { return y == in }
			if e.Kind == "Store" && a != nil && (in == v || over) && a.contains(is) {
				return e
			}
			if e.Kind == "Call" && (strings.HasPrefix(e.Name, "sort.") || strings.HasPrefix(e.Name, "slices.Sort") || e.Name == "slices.Reverse") && len(e.Args) > 0 && e.Args[0].contains(is) {
				return e
			}
		}
	}
	return nil
}

// filled: v is the first n elements of a list made before the loop, with n counting what the loop has
// put in so far.
func filled(v *Term) (list, n *Term) {
	if v != nil && v.op == "slice" && len(v.args) >= 3 && v.args[0].op == "alloc" && v.args[2].op == "opaque" && strings.HasPrefix(v.args[2].aux, "loop:") {
		if low, ok := v.args[1].isInt(); ok && low == 0 {
			return v.args[0], v.args[2]
		}
	}
	return nil, nil
}

// accInit: the value a loop-carried variable has when its loop is entered.
func (ex *Exec) accInit(p *State, v *Term) (*Term, bool) {
	if list, n := filled(v); list != nil {
		if i, ok := ex.accInit(p, n); ok && isZero(i) {
			return mkNil(v.typ), true
		}
		return nil, false
	}
	for i, e := range p.events {
		if e.Kind != "LoopEnter" {
			continue
		}
		for j := 1; j < len(e.Args); j += 2 {
			if e.Args[j] == v {
				return e.Args[j-1], true
			}
		}
		if v.op == "init" && len(v.args) == 1 && i+1 < len(p.events) {
			if before := ex.valAt(p, e, v.args[0], v.typ); before != v && ex.valAt(p, p.events[i+1], v.args[0], v.typ) == v {
				return before, true
			}
		}
	}
	return nil, false
}

// accNext: the value it has at the end of the iteration p ends with.
func (ex *Exec) accNext(p *State, v *Term) (*Term, bool) {
	e := p.events[len(p.events)-1]
	if e.Kind != "LoopBack" {
		return nil, false
	}
	if list, n := filled(v); list != nil {
		next, ok := ex.accNext(p, n)
		if !ok {
			return nil, false
		}
		var puts []*Term
		for i := len(p.events) - 1; i >= 0 && !(p.events[i].Kind == "LoopHavoc" && p.events[i].Name == e.Name); i-- {
			x := p.events[i]
			a := x.Addr2()
			if x.Kind != "Store" || a == nil || rootOf(a) != list {
				continue
			}
			if at := tAdd(n, mkInt(int64(len(puts)))); len(puts) > 0 || a.op != "ia" || a.args[len(a.args)-1] != at {
				return nil, false
			}
			puts = append(puts, x.Val)
		}
		if next != tAdd(n, mkInt(int64(len(puts)))) {
			return nil, false
		}
		if len(puts) == 0 {
			return v, true
		}
		return mk("append", "", v.typ, v, puts[0]), true
	}
	for j := 1; j < len(e.Args); j += 2 {
		if e.Args[j-1] == v {
			return e.Args[j], true
		}
	}
	if v.op == "init" && len(v.args) == 1 {
		for i := len(p.events) - 1; i >= 0; i-- {
			if x := p.events[i]; x.Kind == "LoopHavoc" && x.Name == e.Name {
				if ex.valAt(p, x, v.args[0], v.typ) == v {
					return ex.valAt(p, e, v.args[0], v.typ), true
				}
				break
			}
		}
	}
	return nil, false
}
