package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S01"] = checkS01
	checks["S02"] = checkS02
	checks["S03"] = checkS03
	checks["S04"] = checkS04
	checks["S05"] = checkS05
	checks["S06"] = checkS06
	checks["S07"] = checkS07
}

const sched = "schedule"

// Proc is a function running on its own: an entry point, a goroutine or a timer callback.
type Proc struct {
	Name   string
	Fn     *ssa.Function
	Ex     *Exec
	Paths  []*State
	Parent *Proc
	PPath  *State // path of the parent that started it
	Ev     *Event // the Go / AfterFunc event
	Kids   map[*Event]*Proc
	depth  int
}

// grow explores everything started on the paths of pr.
func (r *Report) grow(pr *Proc, cfg Config) {
	pr.Kids = map[*Event]*Proc{}
	if pr.depth > 5 {
		r.Ob(false, "goroutines/"+pr.Name, pr.Fn.Pos(), "goroutines nested too deeply to follow")
		return
	}
	for _, p := range pr.Paths {
		for _, e := range p.events {
			if (e.Kind != "Go" && e.Kind != "AfterFunc") || pr.Kids[e] != nil {
				continue
			}
			fn, free := calleeOf(e.Callee)
			if fn == nil || fn.Blocks == nil {
				continue
			}
			ex := newExec(r.P, cfg)
			var args []*Term
			if e.Kind == "Go" {
				args = e.Args
			}
			k := &Proc{Name: fn.Name(), Fn: fn, Ex: ex, Parent: pr, PPath: p, Ev: e, depth: pr.depth + 1}
			k.Paths = ex.RunFrom(ex.spawn(p, e), fn, free, args...)
			r.account(pr.Name+"$"+fn.Name(), ex, k.Paths)
			pr.Kids[e] = k
			r.grow(k, cfg)
		}
	}
}

func (pr *Proc) all() []*Proc {
	out := []*Proc{pr}
	var ks []*Event
	for e := range pr.Kids {
		ks = append(ks, e)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Seq < ks[j].Seq || ks[i].Seq == ks[j].Seq && ks[i].Pos < ks[j].Pos })
	for _, e := range ks {
		out = append(out, pr.Kids[e].all()...)
	}
	return out
}

type taskType struct {
	name                           string
	typ                            types.Type
	start, stop, mstart, mstop     *ssa.Function
	ctors                          []*ssa.Function
	statusK, stopK, jobK, qK, tmoK string
	intK, tickK                    string
	sysP                           *Proc
}

// statusConst: the values of the package's status constants.
func (r *Report) statusConst(name string) int64 {
	if sp := r.P.pkg(sched); sp != nil {
		if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
			if n, ok := constant.Int64Val(c.Value.Value); ok {
				return n
			}
		}
	}
	r.Missing("status/" + name)
	return -1
}

func fkey(t types.Type, name string) string {
	a, _ := field(mkNil(nil), t, name)
	if a == nil {
		return ""
	}
	return a.aux
}

func (r *Report) taskTypes() []*taskType {
	var out []*taskType
	sp := r.P.pkg(sched)
	it := r.P.namedType(sched, "Task")
	if sp == nil || it == nil {
		r.Missing("schedule.Task")
		return nil
	}
	iface, _ := it.Underlying().(*types.Interface)
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		m, ok := sp.Members[n].(*ssa.Type)
		if !ok || iface == nil {
			continue
		}
		if _, s := structType(m.Type()); s == nil {
			continue
		}
		if !types.Implements(types.NewPointer(m.Type()), iface) {
			continue
		}
		t := &taskType{name: n, typ: m.Type()}
		t.start, t.stop = r.P.method(sched, n, "Start"), r.P.method(sched, n, "Stop")
		t.mstart, t.mstop = r.P.method(sched, n, "MustStart"), r.P.method(sched, n, "MustStop")
		t.statusK, t.stopK, t.jobK = fkey(t.typ, "status"), fkey(t.typ, "stopSig"), fkey(t.typ, "job")
		t.tmoK, t.intK = fkey(t.typ, "timeout"), fkey(t.typ, "interval")
		var walk func(tt types.Type)
		walk = func(tt types.Type) {
			_, s := structType(tt)
			if s == nil {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				k := typeName(derefType2(tt)) + "." + f.Name()
				if _, ok := f.Type().Underlying().(*types.Chan); ok && k != t.stopK {
					t.qK = k
				}
				if f.Type().String() == "*time.Ticker" {
					t.tickK = k
				}
				if f.Anonymous() {
					walk(f.Type())
				}
			}
		}
		walk(t.typ)
		if t.start == nil || t.stop == nil || t.mstart == nil || t.mstop == nil || t.statusK == "" || t.stopK == "" || t.jobK == "" || t.qK == "" || t.tmoK == "" || t.intK == "" {
			r.ObAt(false, "shape/"+n, sched+"/"+n, "cannot identify the methods, status, stop signal, queue, job, timeout and interval of %s", n)
			continue
		}
		t.ctors = r.constructors(sched, t.typ)
		out = append(out, t)
	}
	r.Count("task_types", len(out))
	r.Floor("task_types", 2)
	return out
}

// task: the fixed-delay (rate=false) or fixed-rate type, told apart by the exported constructor.
func (r *Report) task(ctor string) *taskType {
	for _, t := range r.taskTypes() {
		for _, c := range t.ctors {
			if c.Name() == ctor {
				return t
			}
		}
	}
	r.Missing(ctor)
	return nil
}

func (r *Report) sys(t *taskType) *Proc {
	if t.sysP != nil {
		return t.sysP
	}
	ex, ps := r.run(t.name+".Start", Config{Loads: true}, t.start)
	t.sysP = &Proc{Name: t.name + ".Start", Fn: t.start, Ex: ex, Paths: ps}
	r.grow(t.sysP, Config{Loads: true})
	all := t.sysP.all()
	r.Count("processes_of_"+t.name, len(all))
	return t.sysP
}

func isErrNil(p *State, i int) (isNil, known bool) {
	if i >= len(p.results) {
		return false, false
	}
	return p.facts.Eval(mkEq(p.results[i], mkNil(nil), nil))
}

// ---- S01 ----

func checkS01(r *Report) {
	r.Rule("the status is read and switched in one critical section of Start and of Stop; a path succeeds only if the status was the required one, failing paths have it refuted, leave the status and send nothing; a successful stop closes the stop signal exactly once; nobody else writes the status or closes the signal")
	r.Assume("fields are accessed under their lock (X02)")
	nw, st, sp := r.statusConst("new"), r.statusConst("started"), r.statusConst("stopped")
	for _, t := range r.taskTypes() {
		for _, m := range []struct {
			fn       *ssa.Function
			from, to int64
			close    int
		}{{t.start, nw, st, 0}, {t.stop, st, sp, 1}} {
			recv := paramTerm(m.fn, 0)
			sa, sT := field(recv, t.typ, "status")
			ex, ps := r.run(t.name+"."+m.fn.Name(), Config{Loads: true}, m.fn)
			okN, failN := 0, 0
			for _, p := range ps {
				key := t.name + "/" + m.fn.Name()
				isNil, known := isErrNil(p, 0)
				segs := touching(r.P.segments(p, ownerIs(recv)), map[string]bool{t.statusCell(): true})
				if p.out != "Return" || !known || len(segs) != 1 {
					r.Ob(false, key+"/one-section", m.fn.Pos(), "ends with %s (result known: %v) after %d critical sections on the status; check and switch must be one: %s", p.out, known, len(segs), r.P.pathOf(p))
					continue
				}
				g := segs[0]
				s0, s1 := ex.valAt(p, g.From, sa, sT), ex.valAt(p, g.To, sa, sT)
				_, _, _, closed := chanOps(p, t.stopK)
				possible := func(v int64) bool {
					_, ok := p.factsWith(nil, mkEqInt(s0, mkInt(v)))
					return ok
				}
				if isNil {
					okN++
					for _, v := range []int64{nw, st, sp} {
						if v != m.from {
							r.Ob(!possible(v), fmt.Sprintf("%s/allowed-only-from-%d", key, m.from), g.To.Pos, "succeeds although the status may be %d: %s", v, r.P.pathOf(p))
						}
					}
					r.Ob(p.facts.Same(s1, mkInt(m.to)), key+"/switches", g.To.Pos, "status afterwards is %v, must be %d", s1, m.to)
					r.Ob(len(closed) == m.close, key+"/signal", m.fn.Pos(), "closes the stop signal %d times, must be %d", len(closed), m.close)
				} else {
					failN++
					r.Ob(!possible(m.from), key+"/refuses-only-otherwise", g.To.Pos, "fails although the status may be %d: %s", m.from, r.P.pathOf(p))
					r.Ob(p.facts.Same(s1, s0), key+"/refusal-keeps-status", g.To.Pos, "a failing call changes the status from %v to %v", s0, s1)
					r.Ob(len(closed) == 0, key+"/refusal-silent", m.fn.Pos(), "a failing call closes the stop signal")
					for _, e := range p.events {
						switch {
						case e.Kind == "Go" || e.Kind == "AfterFunc" || e.Kind == "Send" || e.Kind == "Timer" || e.Kind == "Call" && e.Name == "(*time.Ticker).Stop":
							r.Ob(false, key+"/refusal-silent", e.Pos, "a failing call has an effect: %s", e.Kind)
						case e.Kind == "Store" && !e.Local && rootOf(e.Addr) == recv:
							r.Ob(false, key+"/refusal-silent", e.Pos, "a failing call writes %v", e.Addr)
						}
					}
				}
			}
			r.Ob(okN > 0 && failN > 0, t.name+"/"+m.fn.Name()+"/outcomes", m.fn.Pos(), "has %d succeeding and %d failing paths", okN, failN)
		}
		for _, m := range []struct{ fn, of *ssa.Function }{{t.mstart, t.start}, {t.mstop, t.stop}} {
			key := t.name + "/" + m.fn.Name()
			name := "" // the plain form stays a call
			ex, ps := r.run(t.name+"."+m.fn.Name(), Config{NoInline: func(fn *ssa.Function) bool { return fn == m.of }}, m.fn)
			_ = ex
			uses := false
			for _, p := range ps {
				for _, e := range p.events {
					uses = uses || e.Kind == "Call" && (e.Fn == m.of || e.Name == m.of.String())
				}
			}
			if !uses {
				// the two may share their code otherwise
				_, mps := r.run(t.name+"."+m.fn.Name()+"/whole", Config{}, m.fn)
				_, pps := r.run(t.name+"."+m.of.Name()+"/whole", Config{}, m.of)
				same, why := mustForm(pps, mps, paramTerms(m.of), paramTerms(m.fn))
				r.Ob(same, key+"/panics-iff-error", m.fn.Pos(), "neither calls %s nor does the same: %s", m.of.Name(), why)
				continue
			}
			rets, pans := 0, 0
			for _, p := range ps {
				var cs []*Event
				for _, e := range p.events {
					if e.Kind == "Call" && e.Fn == m.of || e.Kind == "Call" && e.Name == m.of.String() {
						cs = append(cs, e)
						name = e.Name
					} else if e.Kind != "Call" && e.Kind != "Panic" && !e.Local {
						r.Ob(false, key+"/only-forwards", e.Pos, "%s besides calling %s", e.Kind, m.of.Name())
					}
				}
				if len(cs) != 1 || len(cs[0].Args) == 0 || cs[0].Args[0] != paramTerm(m.fn, 0) {
					r.Ob(false, key+"/calls-once", m.fn.Pos(), "calls %s %d times on its task", m.of.Name(), len(cs))
					continue
				}
				failed, known := p.facts.Eval(mkNot(mkEq(cs[0].Res, mkNil(nil), nil)))
				switch {
				case p.out == "Panic" && known && failed:
					pans++
				case p.out == "Return" && known && !failed:
					rets++
				default:
					r.Ob(false, key+"/panics-iff-error", m.fn.Pos(), "ends with %s, error known %v, failed %v", p.out, known, failed)
				}
			}
			r.Ob(rets > 0 && pans > 0, key+"/panics-iff-error", m.fn.Pos(), "panics exactly when %s fails (%s)", m.of.Name(), name)
		}
		r.onlyWrittenBy([]string{t.statusCell()}, t.start, t.stop, t.mstart, t.mstop)
		for _, run := range r.P.lockInfo().Runs {
			for _, p := range run.Paths {
				_, _, _, closed := chanOps(p, t.stopK)
				if len(closed) > 0 && run.Fn != t.stop && run.Fn != t.mstop {
					if r.recvIs(run.Fn, t.typ) || run.Fn.Signature.Recv() == nil || run.Spawn {
						r.Ob(false, t.name+"/signal-only-by-stop/"+trimPkg(run.Name), closed[0].Pos, "%s closes the stop signal", trimPkg(run.Name))
					}
				}
			}
		}
		r.ObAt(true, t.name+"/signal-only-by-stop", t.name, "only Stop closes the stop signal")
	}
}

func (r *Report) recvIs(f *ssa.Function, t types.Type) bool {
	return f.Signature.Recv() != nil && types.Identical(derefType2(f.Signature.Recv().Type()), derefType2(t))
}

// statusCell: the status of this task type, as accesses name it.
func (t *taskType) statusCell() string {
	a, _ := field(mkNil(nil), t.typ, "status")
	k, _ := cellOf(a)
	return k
}

// ---- triggers and job runs ----

type trigger struct {
	delays []*Term // what is waited for first
	loop   bool    // inside a loop
	ev     *Event
	drop   bool // gives up when nobody takes it
	pr     *Proc
}

func chOf(t *Term) string {
	if t == nil {
		return ""
	}
	k, _ := fieldOfChan(t)
	return k
}

func isTimerChan(t *Term) (delay *Term, periodic, ok bool) {
	if t != nil && t.op == "timerC" && len(t.args) == 2 {
		return t.args[1], t.aux == "NewTicker", true
	}
	return nil, false, false
}

// tickOf: receives from the ticker field's channel.
func (t *taskType) isTick(ch *Term) bool {
	if ch == nil {
		return false
	}
	if _, per, ok := isTimerChan(ch); ok && per {
		return true
	}
	if ch.op != "init" || len(ch.args) != 1 || ch.args[0].op != "fa" || ch.args[0].aux != "time.Ticker.C" {
		return false
	}
	b := ch.args[0].args[0]
	return b.op == "init" && len(b.args) == 1 && b.args[0].op == "fa" && b.args[0].aux == t.tickK
}

var tickTerm = mk("tick", "", nil)

func (e *Event) chosenRecv() *Term {
	if e.Kind == "Recv" {
		return e.Addr
	}
	if e.Kind == "Select" && e.Chosen >= 0 && e.Cases[e.Chosen].Dir == types.RecvOnly {
		return e.Cases[e.Chosen].Ch
	}
	return nil
}

// stopKnown: after what happened on the path it is known that the task is stopped.
func (r *Report) stopKnown(t *taskType, pr *Proc, p *State, from int, st int64) bool {
	for _, e := range p.events {
		if e.Seq < from {
			continue
		}
		if chOf(e.chosenRecv()) == t.stopK {
			return true
		}
		if e.Kind == "Load" && e.Addr != nil {
			if e.Addr.op == "fa" && e.Addr.aux == t.statusK && e.Val != nil && p.facts.Holds(mkEqInt(e.Val, mkInt(st))) {
				return true
			}
		}
	}
	return false
}

// notStopped: between two events the path read the status, or probed the signal, and found the
// task not stopped.
func (r *Report) notStopped(t *taskType, p *State, from, to *Event, st int64) bool {
	f := p.factsAt(to)
	for _, e := range p.events {
		if e.Seq <= from.Seq || e.Seq >= to.Seq {
			continue
		}
		if e.Kind == "Load" && e.Addr != nil && e.Val != nil {
			if e.Addr.op == "fa" && e.Addr.aux == t.statusK && f.Refutes(mkEqInt(e.Val, mkInt(st))) {
				return true
			}
		}
		if e.Kind == "Select" && e.Chosen < 0 {
			for _, c := range e.Cases {
				if c.Dir == types.RecvOnly && chOf(c.Ch) == t.stopK {
					return true
				}
			}
		}
	}
	return false
}

// triggers of one path, with what it started.
func (r *Report) triggers(t *taskType, pr *Proc, p *State, delays []*Term, loop bool, skip func(*Proc) bool) []trigger {
	var out []trigger
	d := delays
	add := func(x *Term) { d = append(d[:len(d):len(d)], x) }
	enter, first := d, -1 // delay pending when the loop was entered; first trigger inside it
	for _, e := range p.events {
		switch e.Kind {
		case "LoopHavoc":
			loop = true
			enter, first = d, len(out)
			d = nil
		case "LoopBack":
			// the first trigger of an iteration follows the end of the previous one
			if first >= 0 && first < len(out) && (len(d) > 0 || len(enter) > 0) {
				x := out[first]
				once := x
				once.loop = false
				once.delays = append(enter[:len(enter):len(enter)], x.delays...)
				x.delays = append(d[:len(d):len(d)], x.delays...)
				out[first] = x
				if fmt.Sprint(once.delays) != fmt.Sprint(x.delays) {
					out = append(out, once)
				}
			}
		case "Sleep":
			add(e.Args[0])
		case "Send":
			if chOf(e.Addr) == t.qK {
				out = append(out, trigger{d, loop, e, false, pr})
				d = nil
			}
		case "Recv", "Select":
			if ch := e.chosenRecv(); ch != nil {
				if t.isTick(ch) {
					add(tickTerm)
				} else if x, _, ok := isTimerChan(ch); ok {
					add(x)
				}
			}
			for i, c := range e.Cases {
				if c.Dir == types.SendOnly && chOf(c.Ch) == t.qK && (e.Chosen == i || e.Chosen < 0 || chOf(e.chosenRecv()) == t.stopK) {
					out = append(out, trigger{d, loop, e, !e.Block, pr})
					d = nil
					break
				}
			}
		case "Go", "AfterFunc":
			k := pr.Kids[e]
			if k == nil || skip(k) {
				continue
			}
			dd := d
			if e.Kind == "AfterFunc" {
				dd = append(d[:len(d):len(d)], e.Args[0])
			}
			out = append(out, r.procTriggers(t, k, dd, loop, skip)...)
		}
	}
	return out
}

// procTriggers: the triggers every run of the process makes, unless it is stopped first.
func (r *Report) procTriggers(t *taskType, pr *Proc, delays []*Term, loop bool, skip func(*Proc) bool) []trigger {
	var best []trigger
	var alls [][]trigger
	for _, p := range pr.Paths {
		ts := r.triggers(t, pr, p, delays, loop, skip)
		if len(ts) > len(best) || best == nil {
			best = ts
		}
		if p.out == "LoopBack" || !r.sawStop(t, p) {
			alls = append(alls, ts)
		}
	}
	for _, ts := range alls {
		if len(ts) != len(best) {
			r.Ob(false, t.name+"/triggers-on-every-path/"+pr.Name, pr.Fn.Pos(), "a path of %s that is not ended by stop triggers %d runs, another one %d", pr.Name, len(ts), len(best))
		}
	}
	return best
}

func (r *Report) sawStop(t *taskType, p *State) bool {
	for _, e := range p.events {
		if chOf(e.chosenRecv()) == t.stopK {
			return true
		}
	}
	return false
}

// jobCalls on a path of the process itself.
func jobCalls(t *taskType, p *State) []*Event {
	var out []*Event
	for _, e := range p.events {
		if e.Kind == "Call" && e.Callee != nil && e.Callee.op == "init" && len(e.Callee.args) == 1 && e.Callee.args[0].op == "fa" && e.Callee.args[0].aux == t.jobK {
			out = append(out, e)
		}
	}
	return out
}

func hasJob(t *taskType, pr *Proc) bool {
	for _, p := range pr.Paths {
		if len(jobCalls(t, p)) > 0 {
			return true
		}
	}
	return false
}

// jobStarts: events of the path that run the job: a direct call, or the start of a goroutine whose
// own body calls it.
func jobStarts(t *taskType, pr *Proc, p *State) []*Event {
	out := jobCalls(t, p)
	for _, e := range p.events {
		if k := pr.Kids[e]; k != nil && hasJob(t, k) {
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Seq < out[j].Seq })
	return out
}

// jobDone: the event of the path by which the job started at e has returned; nil if none.
func (r *Report) jobDone(t *taskType, pr *Proc, p *State, e *Event) (done *Event, fin map[*Term]bool) {
	k := pr.Kids[e]
	if k == nil {
		return e, nil // direct call
	}
	// channels the job goroutine closes or sends on after the job, on every path
	for i, kp := range k.Paths {
		cs := jobCalls(t, kp)
		mine := map[*Term]bool{}
		if len(cs) == 1 {
			for _, x := range kp.events {
				if x.Seq > cs[0].Seq && (x.Kind == "Close" || x.Kind == "Send" || x.Kind == "Select" && x.Chosen >= 0 && x.Cases[x.Chosen].Dir == types.SendOnly) {
					mine[x.Addr] = true
				}
			}
			for _, x := range kp.events { // signalled before the job: says nothing
				if x.Seq < cs[0].Seq && (x.Kind == "Close" || x.Kind == "Send") {
					delete(mine, x.Addr)
				}
			}
		}
		if i == 0 {
			fin = mine
		} else {
			for c := range fin {
				if !mine[c] {
					delete(fin, c)
				}
			}
		}
	}
	for _, x := range p.events {
		if x.Seq > e.Seq && fin[x.chosenRecv()] {
			return x, fin
		}
		if x.Seq > e.Seq && x.Kind == "WaitGroup" && x.Name == "Wait" {
			for _, kp := range k.Paths {
				n := 0
				cs := jobCalls(t, kp)
				for _, y := range kp.events {
					if y.Kind == "WaitGroup" && y.Name == "Done" && y.Addr == x.Addr && len(cs) == 1 && y.Seq > cs[0].Seq {
						n++
					}
				}
				if n != 1 {
					return nil, fin
				}
			}
			return x, fin
		}
	}
	return nil, fin
}

func recvsQueue(t *taskType, p *State) []*Event {
	_, rs, _, _ := chanOps(p, t.qK)
	return rs
}

// consumers: the processes that take triggers from the queue.
func consumers(t *taskType, root *Proc) []*Proc {
	var out []*Proc
	for _, pr := range root.all() {
		for _, p := range pr.Paths {
			if len(recvsQueue(t, p)) > 0 {
				out = append(out, pr)
				break
			}
		}
	}
	return out
}

func (r *Report) startOnes(t *taskType, root *Proc) []*State {
	var out []*State
	for _, p := range root.Paths {
		if n, k := isErrNil(p, 0); p.out == "Return" && (n || !k) {
			out = append(out, p)
		}
	}
	return out
}

// oneConsumer: every successful start starts exactly one consumer, and nothing else ever does.
func (r *Report) oneConsumer(t *taskType, root *Proc) *Proc {
	cons := consumers(t, root)
	isCons := map[*Proc]bool{}
	for _, c := range cons {
		isCons[c] = true
		if c.Parent != root {
			r.Ob(false, t.name+"/one-consumer", c.Fn.Pos(), "a queue consumer is started by %s, not by Start", c.Parent.Name)
		}
	}
	var one *Proc
	for _, p := range r.startOnes(t, root) {
		n := 0
		for _, e := range p.events {
			if k := root.Kids[e]; isCons[k] {
				n++
				one = k
			}
		}
		r.Ob(n == 1, t.name+"/one-consumer", t.start.Pos(), "a successful start starts %d queue consumers, must be 1: %s", n, r.P.pathOf(p))
	}
	return one
}

func (r *Report) intervalOf(t *taskType, ch *Term) bool {
	return ch != nil && ch.op == "init" && len(ch.args) == 1 && ch.args[0].op == "fa" && ch.args[0].aux == t.intK
}

// initialTriggers: what a successful start triggers apart from the consumer.
func (r *Report) startTriggers(t *taskType, root, cons *Proc) [][]trigger {
	var out [][]trigger
	for _, p := range r.startOnes(t, root) {
		out = append(out, r.triggers(t, root, p, nil, false, func(k *Proc) bool { return k == cons }))
	}
	return out
}

func checkS02(r *Report) {
	r.Rule("over the processes a start creates: one consumer; one immediate blocking trigger per start; on every consumer path a taken trigger leads to one job, completed (awaited signal sent after the job function) before exactly one further trigger delayed by the interval is armed, and nothing else triggers")
	r.Assume("the queue is used by this task only (its field never leaves the object)")
	t := r.task("NewFixedDelayTask")
	if t == nil {
		return
	}
	st := r.statusConst("stopped")
	root := r.sys(t)
	cons := r.oneConsumer(t, root)
	if cons == nil {
		r.Missing(t.name + "/consumer")
		return
	}
	for _, ts := range r.startTriggers(t, root, cons) {
		ok := len(ts) == 1 && len(ts[0].delays) == 0 && !ts[0].loop && !ts[0].drop
		r.Ob(ok, t.name+"/first-run", t.start.Pos(), "a start triggers %d runs%s; must be exactly one, at once and without giving up", len(ts), showTriggers(ts))
	}
	jobs := 0
	for _, p := range cons.Paths {
		key := t.name + "/consumer"
		q := recvsQueue(t, p)
		js := jobStarts(t, cons, p)
		ts := r.triggers(t, cons, p, nil, false, func(*Proc) bool { return false })
		if len(q) > 1 {
			r.Ob(false, key+"/one-at-a-time", q[1].Pos, "two triggers are taken in one turn: %s", r.P.pathOf(p))
			continue
		}
		if len(js) == 0 {
			ok := len(ts) == 0 && (len(q) == 0 || p.out == "Return" && r.stopKnown(t, cons, p, 0, st))
			r.Ob(ok, key+"/trigger-runs", cons.Fn.Pos(), "a trigger is taken without running a job although the task is not stopped, or one is added without a run: %s", r.P.pathOf(p))
			continue
		}
		jobs++
		if len(js) != 1 || len(q) != 1 || js[0].Seq < q[0].Seq {
			r.Ob(false, key+"/one-job-per-trigger", js[0].Pos, "%d jobs for %d triggers: %s", len(js), len(q), r.P.pathOf(p))
			continue
		}
		done, _ := r.jobDone(t, cons, p, js[0])
		if done == nil {
			r.Ob(false, key+"/waits-for-job", js[0].Pos, "the consumer goes on before the job function has returned: %s", r.P.pathOf(p))
			continue
		}
		if p.out == "Return" && len(ts) == 0 && r.stopKnown(t, cons, p, q[0].Seq+1, st) {
			r.Ob(true, key+"/re-arm", done.Pos, "stopped")
			continue
		}
		ok := len(ts) == 1 && len(ts[0].delays) == 1 && r.intervalOf(t, ts[0].delays[0]) && !ts[0].drop && p.out == "LoopBack"
		r.Ob(ok, key+"/re-arm", done.Pos, "after a run %d further runs are triggered%s; must be exactly one, after the interval: %s", len(ts), showTriggers(ts), r.P.pathOf(p))
		for _, e := range p.events {
			if k := cons.Kids[e]; k != nil && e.Seq < done.Seq && len(r.procTriggers(t, k, nil, false, func(*Proc) bool { return false })) > 0 {
				r.Ob(false, key+"/re-arm-after-job", e.Pos, "the next run is armed before the job has finished: %s", r.P.pathOf(p))
			}
		}
	}
	r.Count("consumer_paths_with_job", jobs)
	r.Floor("consumer_paths_with_job", 1)
}

func showTriggers(ts []trigger) string {
	s := ""
	for _, x := range ts {
		s += fmt.Sprintf(" [delay %v loop=%v may-give-up=%v]", x.delays, x.loop, x.drop)
	}
	return s
}

// runPaths: (process, path, job start) triples of the task's system.
type runPath struct {
	pr *Proc
	p  *State
	js *Event
}

func runPaths(t *taskType, root *Proc) []runPath {
	var out []runPath
	for _, pr := range root.all() {
		if hasJob(t, pr) && pr.Parent != nil {
			// the goroutine around the job call: handled at its parent if that one waits for it
			if parentWaits(t, pr) {
				continue
			}
		}
		for _, p := range pr.Paths {
			for _, js := range jobStarts(t, pr, p) {
				if k := pr.Kids[js]; k != nil && !parentWaits(t, k) {
					continue
				}
				out = append(out, runPath{pr, p, js})
			}
		}
	}
	return out
}

// parentWaits: the job goroutine is one its parent communicates with (a channel made by the parent
// for it), as opposed to a run started and left alone.
func parentWaits(t *taskType, k *Proc) bool {
	for _, p := range k.Paths {
		for _, e := range p.events {
			if (e.Kind == "Close" || e.Kind == "Send") && e.Addr != nil && chOf(e.Addr) == "" {
				for _, pp := range k.Parent.Paths {
					for _, x := range pp.events {
						if x.Kind == "Recv" && x.Addr == e.Addr {
							return true
						}
						for _, c := range x.Cases {
							if c.Ch == e.Addr && c.Dir == types.RecvOnly {
								return true
							}
						}
					}
				}
			}
			if e.Kind == "WaitGroup" && e.Name == "Done" {
				return true
			}
		}
	}
	return false
}

func checkS03(r *Report) {
	r.Rule("on every path that runs the job: the channel handed to it is Done() of a context limited by exactly the task's timeout; while the job runs the path waits for its end, the context and the stop signal at once, a stop cancels the context, nothing else does before the job has returned, and the path ends only after the job returned and the context was cancelled")
	r.Assume("context.WithTimeout closes Done() when its timeout elapses or its cancel function is called")
	for _, t := range r.taskTypes() {
		root := r.sys(t)
		rps := runPaths(t, root)
		n := 0
		sawStop, sawEnd := false, false
		for _, rp := range rps {
			p, pr, js := rp.p, rp.pr, rp.js
			key := t.name + "/run"
			n++
			// the cancel channel
			var calls []*Event
			k := pr.Kids[js]
			if k == nil {
				calls = []*Event{js}
			} else {
				for _, kp := range k.Paths {
					cs := jobCalls(t, kp)
					if len(cs) != 1 || kp.out != "Return" {
						r.Ob(false, key+"/job-once", js.Pos, "the run calls the job %d times on a path ending with %s", len(cs), kp.out)
					}
					calls = append(calls, cs...)
				}
			}
			var ctx *Term
			ok := len(calls) > 0
			why := ""
			for _, c := range calls {
				if len(c.Args) != 1 {
					ok = false
					continue
				}
				d := c.Args[0]
				if d.op == "chdir" || d.op == "conv" {
					d = d.args[0]
				}
				if d.op != "call" || len(d.args) != 1 {
					ok, why = false, "the channel handed to the job is not a context's Done()"
					continue
				}
				ctx = d.args[0]
				if !isCtxCall(ctx, "context.WithTimeout") || len(ctx.args) != 2 {
					ok, why = false, "the job's context has no timeout of its own"
					continue
				}
				tm := ctx.args[1]
				if !(tm.op == "init" && tm.args[0].op == "fa" && tm.args[0].aux == t.tmoK) {
					ok, why = false, fmt.Sprintf("the job's context is limited by %v, not by the task's timeout", tm)
				}
				for b := ctx.args[0]; ; b = b.args[0] {
					if b.op == "call" && len(b.args) == 0 {
						break
					}
					if !isCtxCall(b, "context.With") || len(b.args) == 0 {
						ok, why = false, "the job's context has an unknown parent"
						break
					}
				}
			}
			r.Ob(ok, key+"/cancel-channel", js.Pos, "job is called with %v %s", argsOf(calls), why)
			if ctx == nil {
				continue
			}
			done, fin := r.jobDone(t, pr, p, js)
			if done == nil {
				r.Ob(false, key+"/waits-for-job", js.Pos, "the run is considered finished before the job function has returned: %s", r.P.pathOf(p))
				continue
			}
			r.Ob(true, key+"/waits-for-job", done.Pos, "ends after the job function returned")
			isCancel := func(e *Event) bool {
				return e.Kind == "Call" && e.Callee != nil && isCtxCall(e.Callee, "context.WithTimeout") && len(e.Callee.args) == 1 && e.Callee.args[0] == ctx
			}
			// waiting phase
			stopped, expired := false, false
			cancelled := false
			first := true
			for _, e := range p.events {
				if e.Seq < js.Seq && isCancel(e) {
					r.Ob(false, key+"/no-early-cancel", e.Pos, "the context is cancelled before the job starts")
				}
				if e.Seq <= js.Seq || e.Seq > done.Seq {
					continue
				}
				if isCancel(e) {
					cancelled = true
					r.Ob(stopped || expired, key+"/no-early-cancel", e.Pos, "the job is cancelled although the task was neither stopped nor timed out: %s", r.P.pathOf(p))
					continue
				}
				if e.Kind != "Select" && e.Kind != "Recv" && e.Kind != "Send" && e.Kind != "Sleep" && e.Kind != "WaitGroup" {
					continue
				}
				if first && k != nil {
					first = false
					hasStop, hasFin, odd := false, false, ""
					for _, c := range e.Cases {
						switch {
						case c.Dir == types.RecvOnly && chOf(c.Ch) == t.stopK:
							hasStop = true
						case c.Dir == types.RecvOnly && fin[c.Ch]:
							hasFin = true
						case c.Dir == types.RecvOnly && isDone(c.Ch, ctx):
						default:
							odd = c.Ch.String()
						}
					}
					w := r.watcher(t, pr, p, js, ctx)
					r.Ob(e.Kind == "Select" && e.Block && hasStop && hasFin && odd == "" || w, key+"/watches-stop", e.Pos, "while the job runs the task does not wait for both the end of the job and the stop signal (also waits for %q): %s", odd, r.P.pathOf(p))
				} else if e.Kind != "Recv" && e != done {
					r.Ob(false, key+"/waits-for-job", e.Pos, "after a timeout or stop the end of the job is not simply awaited: %s", r.P.pathOf(p))
				}
				ch := e.chosenRecv()
				if chOf(ch) == t.stopK && ch != nil {
					stopped = true
				}
				if ch != nil && isDone(ch, ctx) {
					expired = true
				}
				if e == done && stopped {
					sawStop = true
					r.Ob(cancelled, key+"/stop-cancels", e.Pos, "after a stop the job is awaited without being cancelled: %s", r.P.pathOf(p))
				}
			}
			if r.watcher(t, pr, p, js, ctx) {
				sawStop = true
			}
			if k == nil && !r.watcher(t, pr, p, js, ctx) {
				r.Ob(false, key+"/watches-stop", js.Pos, "the job is called directly, with nobody cancelling it on stop: %s", r.P.pathOf(p))
			}
			rel := false
			for _, e := range p.events {
				rel = rel || isCancel(e) && e.Seq > js.Seq
			}
			sawEnd = true
			r.Ob(rel, key+"/releases", done.Pos, "the run ends without releasing its context: %s", r.P.pathOf(p))
		}
		r.Count("run_paths_of_"+t.name, n)
		r.Ob(n > 0 && sawStop && sawEnd, t.name+"/run", t.start.Pos(), "%d run paths, one of them interrupted by stop: %v", n, sawStop)
	}
}

// watcher: before the job a goroutine was started that cancels the context when the task is
// stopped and otherwise ends with the context.
func (r *Report) watcher(t *taskType, pr *Proc, p *State, js *Event, ctx *Term) bool {
	for _, e := range p.events {
		k := pr.Kids[e]
		if k == nil || e == js || e.Seq > js.Seq && pr.Kids[js] == nil {
			continue
		}
		good, stop := len(k.Paths) > 0, false
		for _, kp := range k.Paths {
			var sel *Event
			cancels := false
			for _, x := range kp.events {
				if x.Kind == "Select" && sel == nil {
					sel = x
				}
				if x.Kind == "Call" && x.Callee != nil && isCtxCall(x.Callee, "context.WithTimeout") && len(x.Callee.args) == 1 && x.Callee.args[0] == ctx && sel != nil {
					cancels = true
				}
			}
			if sel == nil || !sel.Block {
				good = false
				continue
			}
			hasStop, odd := false, false
			for _, c := range sel.Cases {
				switch {
				case chOf(c.Ch) == t.stopK && c.Dir == types.RecvOnly:
					hasStop = true
				case c.Dir == types.RecvOnly && (isDone(c.Ch, ctx) || c.Ch.op == "alloc"):
				default:
					odd = true
				}
			}
			if !hasStop || odd {
				good = false
			}
			if chOf(sel.chosenRecv()) == t.stopK {
				stop = stop || cancels
				good = good && cancels
			}
		}
		if good && stop {
			return true
		}
	}
	return false
}

func isCtxCall(t *Term, prefix string) bool {
	return t != nil && t.op == "call" && len(t.aux) >= len(prefix) && t.aux[:len(prefix)] == prefix
}

func isDone(ch, ctx *Term) bool {
	return ch != nil && isCtxCall(ch, "(context.Context).Done") && len(ch.args) == 1 && ch.args[0] == ctx
}

func argsOf(es []*Event) (out []*Term) {
	for _, e := range es {
		out = append(out, e.Args...)
	}
	return
}

func checkS04(r *Report) {
	r.Rule("in every process a start creates: each blocking channel operation on the queue or a ticker is a select that also has the stop signal, after receiving it the process queues, starts and waits for nothing more and ends; every loop iteration passes such a select; a job starts only after its trigger was taken and the task then found not stopped; a fixed-rate stop stops the ticker")
	r.Assume("a job's own duration is the user's; the wait for a running job is covered by S03")
	st := r.statusConst("stopped")
	for _, t := range r.taskTypes() {
		root := r.sys(t)
		nsel := 0
		for _, pr := range root.all() {
			key := t.name + "/" + trimPkg(pr.Fn.Name())
			for _, p := range pr.Paths {
				// channels that signal the end of a job goroutine started on this path
				fin := map[*Term]bool{}
				dones := map[*Event]bool{}
				jobs := jobStarts(t, pr, p)
				for _, js := range jobs {
					d, f := r.jobDone(t, pr, p, js)
					for c := range f {
						fin[c] = true
					}
					if d != nil {
						dones[d] = true
					}
				}
				var stopAt *Event
				inLoop, guarded := false, false
				for _, e := range p.events {
					if stopAt != nil {
						bad := ""
						switch e.Kind {
						case "Send", "Recv", "Select", "Go", "AfterFunc", "Timer", "Sleep", "Wait":
							bad = e.Kind
						}
						for _, js := range jobs {
							if js == e {
								bad = "job start"
							}
						}
						r.Ob(bad == "", key+"/ends-after-stop", e.Pos, "after the stop signal the process goes on with a %s: %s", bad, r.P.pathOf(p))
						continue
					}
					switch e.Kind {
					case "LoopHavoc":
						inLoop, guarded = true, false
					case "Send", "Recv":
						k := chOf(e.Addr)
						_, _, tm := isTimerChan(e.Addr)
						if k == t.stopK {
							stopAt = e
							guarded = true
							nsel++
							continue
						}
						if fin[e.Addr] || e.Kind == "Recv" && isCtxCall(e.Addr, "(context.Context).Done") {
							continue
						}
						if k == t.qK || t.isTick(e.Addr) || tm {
							r.Ob(false, key+"/interruptible", e.Pos, "a plain %s on %v cannot be ended by stop: %s", e.Kind, e.Addr, r.P.pathOf(p))
						}
						if e.Kind == "Send" && k == "" && e.Addr != nil && !r.buffered(pr, e.Addr) {
							r.Ob(false, key+"/interruptible", e.Pos, "the process can stay blocked sending its result: %s", r.P.pathOf(p))
						}
					case "Select":
						hasStop, hasFin := false, false
						for _, c := range e.Cases {
							hasStop = hasStop || c.Dir == types.RecvOnly && chOf(c.Ch) == t.stopK
							hasFin = hasFin || fin[c.Ch]
						}
						if hasFin {
							continue // the wait for a job: S03
						}
						nsel++
						if e.Block {
							r.Ob(hasStop, key+"/interruptible", e.Pos, "a blocking select without the stop signal: %s", r.P.pathOf(p))
							guarded = guarded || hasStop
						} else if hasStop {
							guarded = true
						}
						if chOf(e.chosenRecv()) == t.stopK && e.chosenRecv() != nil {
							stopAt = e
						}
					case "Wait":
						r.Ob(false, key+"/interruptible", e.Pos, "waits on a condition: %s", r.P.pathOf(p))
					}
				}
				if stopAt != nil {
					r.Ob(p.out == "Return", key+"/ends-after-stop", stopAt.Pos, "after the stop signal the process does not end (%s): %s", p.out, r.P.pathOf(p))
				}
				if inLoop && p.out == "LoopBack" {
					r.Ob(guarded, key+"/loop-listens", pr.Fn.Pos(), "an iteration does not listen to the stop signal: %s", r.P.pathOf(p))
				}
				// job only after a live check
				q := recvsQueue(t, p)
				for _, js := range jobs {
					if len(q) == 0 {
						if pr.Parent == nil || !r.startedByConsumer(t, pr) {
							r.Ob(false, key+"/job-needs-trigger", js.Pos, "a job starts without a trigger: %s", r.P.pathOf(p))
						}
						continue
					}
					r.Ob(r.notStopped(t, p, q[len(q)-1], js, st), key+"/no-run-after-stop", js.Pos, "a job starts without checking after taking its trigger that the task is not stopped: %s", r.P.pathOf(p))
				}
				// runs started from the consumer
				for _, e := range p.events {
					if k := pr.Kids[e]; k != nil && len(q) > 0 && e.Kind == "Go" && subtreeHasJob(t, k) {
						r.Ob(r.notStopped(t, p, q[len(q)-1], e, st), key+"/no-run-after-stop", e.Pos, "a run starts without checking after taking its trigger that the task is not stopped: %s", r.P.pathOf(p))
					}
				}
			}
		}
		r.Count("selects_of_"+t.name, nsel)
		r.Ob(nsel >= 2, t.name+"/selects", t.start.Pos(), "%d waits with the stop signal", nsel)
		if t.tickK != "" {
			recv := paramTerm(t.stop, 0)
			ta, tT := field(recv, t.typ, "ticker")
			if ta == nil {
				for _, f := range fieldsWhere(t.typ, func(f *types.Var) bool { return f.Type().String() == "*time.Ticker" }) {
					ta, tT = field(recv, t.typ, f)
				}
			}
			ex, ps := r.run(t.name+".Stop", Config{}, t.stop)
			n := 0
			for _, p := range ps {
				if isNil, _ := isErrNil(p, 0); !isNil {
					continue
				}
				n++
				got := false
				for _, e := range calls(p, "(*time.Ticker).Stop") {
					got = got || len(e.Args) == 1 && p.facts.Same(e.Args[0], ex.valAt(p, e, ta, tT))
				}
				r.Ob(got, t.name+"/ticker-stopped", t.stop.Pos(), "a successful stop leaves the ticker running: %s", r.P.pathOf(p))
			}
			r.Ob(n > 0, t.name+"/ticker-stopped", t.stop.Pos(), "%d succeeding stop paths", n)
		}
	}
}

// buffered: the channel was made with room for the one result sent on it.
func (r *Report) buffered(pr *Proc, ch *Term) bool {
	for q := pr; q != nil; q = q.Parent {
		if q.PPath == nil {
			break
		}
		if c := q.PPath.heap[mk("fa", "#chancap", types.Typ[types.Int], ch)]; c != nil {
			n, ok := c.isInt()
			return ok && n >= 1
		}
	}
	// the parent waits for it unconditionally (S02/S03 require that)
	return pr.Parent != nil && func() bool {
		for _, pp := range pr.Parent.Paths {
			for _, x := range pp.events {
				if x.chosenRecv() == ch {
					return true
				}
			}
		}
		return false
	}()
}

func (r *Report) startedByConsumer(t *taskType, pr *Proc) bool {
	for q := pr; q.Parent != nil; q = q.Parent {
		if len(recvsQueue(t, q.PPath)) > 0 && q.PPath != nil {
			return true
		}
	}
	return false
}

func subtreeHasJob(t *taskType, pr *Proc) bool {
	for _, k := range pr.all() {
		if hasJob(t, k) {
			return true
		}
	}
	return false
}

func checkS05(r *Report) {
	r.Rule("a successful start of a fixed-rate task creates a ticker of exactly its interval before anything uses it, one immediate trigger and one trigger per tick in one loop, none of which gives up; the consumer starts exactly one run on its own goroutine per trigger and waits for nothing but the next trigger or stop; each run calls the job once")
	r.Assume("time.Ticker delivers one tick per interval to a receiver that is waiting")
	t := r.task("NewFixedRateTask")
	if t == nil {
		return
	}
	st := r.statusConst("stopped")
	root := r.sys(t)
	cons := r.oneConsumer(t, root)
	if cons == nil {
		r.Missing(t.name + "/consumer")
		return
	}
	for _, p := range r.startOnes(t, root) {
		n := 0
		for _, e := range p.events {
			if e.Kind == "Timer" && e.Name == "NewTicker" {
				n++
				r.Ob(len(e.Args) == 1 && r.intervalOf(t, e.Args[0]), t.name+"/ticker", e.Pos, "the ticker's period is %v, must be the interval", e.Args)
				stored := false
				var firstGo *Event
				for _, x := range p.events {
					if x.Kind == "Store" && x.Addr.op == "fa" && x.Addr.aux == t.tickK {
						stored = x.Val == e.Addr && firstGo == nil
					}
					if x.Kind == "Go" && firstGo == nil && root.Kids[x] != cons {
						firstGo = x
					}
				}
				r.Ob(stored || t.tickK == "", t.name+"/ticker-before-use", e.Pos, "the ticker is not stored before the goroutine that waits for it starts: %s", r.P.pathOf(p))
			}
		}
		// a ticker may also be made by the providing goroutine itself
		for _, k := range root.all() {
			if k == root {
				continue
			}
			for _, kp := range k.Paths {
				m := 0
				for _, e := range kp.events {
					if e.Kind == "Timer" && e.Name == "NewTicker" {
						m++
						r.Ob(len(e.Args) == 1 && r.intervalOf(t, e.Args[0]), t.name+"/ticker", e.Pos, "the ticker's period is %v, must be the interval", e.Args)
					}
				}
				if m > n {
					n = m
				}
			}
		}
		r.Ob(n == 1, t.name+"/ticker", t.start.Pos(), "a start creates %d tickers, must be 1", n)
	}
	for _, ts := range r.startTriggers(t, root, cons) {
		imm, tick, other := 0, 0, 0
		for _, x := range ts {
			switch {
			case x.drop:
				other++
			case len(x.delays) == 0 && !x.loop:
				imm++
			case x.loop && len(x.delays) == 1 && x.delays[0] == tickTerm:
				tick++
			default:
				other++
			}
		}
		r.Ob(imm == 1, t.name+"/first-run", t.start.Pos(), "a start triggers %d immediate runs%s, must be 1", imm, showTriggers(ts))
		r.Ob(tick == 1, t.name+"/run-per-tick", t.start.Pos(), "%d runs are triggered per tick%s, must be 1", tick, showTriggers(ts))
		r.Ob(other == 0, t.name+"/no-other-trigger", t.start.Pos(), "%d other triggers, or ones that give up when nobody is waiting:%s", other, showTriggers(ts))
	}
	loops := 0
	for _, p := range cons.Paths {
		key := t.name + "/consumer"
		q := recvsQueue(t, p)
		runs := 0
		for _, e := range p.events {
			k := cons.Kids[e]
			switch {
			case k != nil && subtreeHasJob(t, k):
				runs++
				if len(q) > 0 && e.Seq < q[0].Seq {
					runs += 100
				}
				for _, rp := range k.Paths {
					m := 0
					for _, js := range jobStarts(t, k, rp) {
						m++
						_ = js
					}
					r.Ob(m == 1 && rp.out == "Return", t.name+"/job-per-run", k.Fn.Pos(), "a run calls the job %d times (%s)", m, rp.out)
				}
			case len(q) > 0 && e.Seq > q[0].Seq && (e.Kind == "Send" || e.Kind == "Recv" || e.Kind == "Sleep" || e.Kind == "Wait" || e.Kind == "Select" && e.Block || e.Kind == "WaitGroup" && e.Name == "Wait"):
				r.Ob(false, key+"/never-waits", e.Pos, "the consumer waits (%s) between triggers, which delays the following runs: %s", e.Kind, r.P.pathOf(p))
			}
		}
		if len(jobCalls(t, p)) > 0 {
			r.Ob(false, key+"/own-goroutine", cons.Fn.Pos(), "the job runs on the consumer's own goroutine: %s", r.P.pathOf(p))
		}
		switch {
		case len(q) == 0:
			r.Ob(runs == 0, key+"/run-per-trigger", cons.Fn.Pos(), "a run starts without a trigger")
		case runs == 0:
			r.Ob(p.out == "Return" && r.stopKnown(t, cons, p, 0, st), key+"/run-per-trigger", cons.Fn.Pos(), "a trigger is dropped although the task is not stopped: %s", r.P.pathOf(p))
		default:
			loops++
			r.Ob(len(q) == 1 && runs == 1 && p.out == "LoopBack", key+"/run-per-trigger", cons.Fn.Pos(), "%d runs for %d triggers, then %s: %s", runs, len(q), p.out, r.P.pathOf(p))
		}
	}
	r.Count("consumer_paths_with_run", loops)
	r.Floor("consumer_paths_with_run", 1)
}

// ---- S06 ----

func checkS06(r *Report) {
	r.Rule("Register: one critical section looks the task's name up and, only if it is free, starts the task once and then enters it under its name; Unregister: stops exactly the task found under the name and removes that name; UnregisterAll: stops each task of the map once and leaves no entry; in each the whole operation holds the lock")
	r.Assume("a task's Name() is constant; Start of a task that fails reports it (S01)")
	var typ types.Type
	ctor := r.P.function(sched, "NewTaskManager")
	if ctor == nil {
		r.Missing("NewTaskManager")
		return
	}
	_, cps := r.run("NewTaskManager", Config{}, ctor)
	for _, p := range cps {
		if len(p.results) == 1 && p.results[0].op == "mkiface" {
			typ = derefType2(p.results[0].args[0].typ)
		}
	}
	if typ == nil {
		r.Missing("task manager type")
		return
	}
	name := typ.(*types.Named).Obj().Name()
	maps := fieldsWhere(typ, func(f *types.Var) bool { _, ok := f.Type().Underlying().(*types.Map); return ok })
	if len(maps) != 1 {
		r.Missing("task map")
		return
	}
	mapKey := fkey(typ, maps[0])
	isMap := func(a *Term) bool {
		return a != nil && a.op == "init" && len(a.args) == 1 && a.args[0].op == "fa" && a.args[0].aux == mapKey
	}
	iface := modPath + "/" + sched + ".Task"
	isCall := func(e *Event, m string, on *Term) bool {
		return e.Kind == "Call" && e.Name == "("+iface+")."+m && (on == nil || len(e.Args) == 1 && e.Args[0] == on)
	}
	isName := func(x, task *Term) bool {
		return x != nil && x.op == "call" && len(x.args) == 1 && x.args[0] == task && isCtxCall(x, "("+iface+").Name#")
	}
	lockWhole := func(p *State, recv *Term, what string, pos *ssa.Function) {
		n := 0
		for _, e := range p.events {
			if e.Kind == "MapLookup" || e.Kind == "MapUpdate" || e.Kind == "MapDelete" || e.Kind == "MapClear" || e.Kind == "RangeNext" || e.Kind == "RangeEnd" || e.Kind == "Store" && e.Addr.op == "fa" && e.Addr.aux == mapKey {
				held := false
				for _, h := range e.Held {
					_, b := r.P.lockCell(h.Key)
					held = held || b == recv && h.Mode == 'W'
				}
				r.Ob(held, what+"/locked", e.Pos, "%s of the task map without the manager's lock", e.Kind)
			}
			if e.Kind == "Lock" {
				if _, b := r.P.lockCell(e.Addr); b == recv {
					n++
				}
			}
		}
		if p.out != "LoopBack" {
			r.Ob(n == 1, what+"/one-section", pos.Pos(), "takes the manager's lock %d times; check and change must be one critical section", n)
		}
	}
	// constructor
	for _, p := range cps {
		ok := p.out == "Return" && newObject(p, typ) != nil
		if ok {
			a, t := field(newObject(p, typ), typ, maps[0])
			ex := newExec(r.P, Config{})
			v := ex.load(p, a, t)
			ok = v != nil && v.op == "alloc"
		}
		r.Ob(ok, "NewTaskManager/map", ctor.Pos(), "creates a manager with a fresh map")
	}
	// Register
	if f := r.P.method(sched, name, "Register"); f == nil {
		r.Missing("Register")
	} else {
		_, ps := r.run("Register", Config{PanicUser: true}, f)
		recv, task := paramTerm(f, 0), paramTerm(f, 1)
		kept, refused := 0, 0
		for _, p := range ps {
			if p.out == "LoopBack" {
				r.Ob(false, "Register/loop", f.Pos(), "Register loops")
				continue
			}
			lockWhole(p, recv, "Register", f)
			var look []*Event
			var starts, ups []*Event
			for _, e := range p.events {
				switch {
				case e.Kind == "MapLookup" && isMap(e.Addr):
					look = append(look, e)
				case isCall(e, "Start", nil) || isCall(e, "MustStart", nil):
					starts = append(starts, e)
					r.Ob(e.Args[0] == task, "Register/starts-offered", e.Pos, "starts another task than the offered one")
				case isCall(e, "Stop", nil) || isCall(e, "MustStop", nil):
					r.Ob(false, "Register/stops-nothing", e.Pos, "Register stops a task: %s", r.P.pathOf(p))
				case e.Kind == "MapUpdate" && isMap(e.Addr):
					ups = append(ups, e)
				case e.Kind == "MapDelete" || e.Kind == "MapClear" || e.Kind == "Store" && e.Addr.op == "fa" && e.Addr.aux == mapKey:
					r.Ob(false, "Register/keeps-others", e.Pos, "Register removes entries: %s", r.P.pathOf(p))
				}
			}
			isFree, isTaken := false, false
			for _, e := range look {
				if !isName(e.Args[0], task) {
					r.Ob(false, "Register/by-name", e.Pos, "looks up %v, must be the task's name", e.Args[0])
					continue
				}
				fa := p.facts
				if v, k := fa.Eval(e.Res); e.Res != nil && k {
					isFree, isTaken = isFree || !v, isTaken || v
				} else if v, k := fa.Eval(mkEq(e.Val, mkNil(nil), nil)); k {
					isFree, isTaken = isFree || v, isTaken || !v
				}
			}
			switch {
			case p.out == "Panic":
				r.Ob(len(ups) == 0 || len(starts) == 1 && false, "Register/failed-not-kept", f.Pos(), "a task whose start panics is kept: %s", r.P.pathOf(p))
				r.Ob(!isTaken || len(starts) == 0, "Register/taken-not-started", f.Pos(), "a task with a taken name is started: %s", r.P.pathOf(p))
			case isTaken:
				refused++
				n, k := isErrNil(p, 0)
				r.Ob(len(starts) == 0 && len(ups) == 0, "Register/taken-not-started", f.Pos(), "a task with a taken name is started or kept: %s", r.P.pathOf(p))
				r.Ob(k && !n, "Register/taken-refused", f.Pos(), "a taken name is not refused with an error: %s", r.P.pathOf(p))
			case isFree:
				failed := false
				for _, e := range starts {
					if isCall(e, "Start", nil) {
						v, k := p.facts.Eval(mkEq(e.Res, mkNil(nil), nil))
						if !k {
							r.Ob(false, "Register/failed-not-kept", e.Pos, "whether the task started is not checked: %s", r.P.pathOf(p))
						}
						failed = failed || k && !v
					}
				}
				n, k := isErrNil(p, 0)
				if failed {
					r.Ob(len(ups) == 0 && k && !n, "Register/failed-not-kept", f.Pos(), "a task that failed to start is kept or not reported: %s", r.P.pathOf(p))
					continue
				}
				kept++
				ok := len(starts) == 1 && len(ups) == 1 && isName(ups[0].Args[0], task) && ups[0].Val == task && starts[0].Seq < ups[0].Seq && k && n
				r.Ob(ok, "Register/starts-and-keeps", f.Pos(), "a free name leads to %d starts and %d entries, must be one of each, in this order, under the task's name: %s", len(starts), len(ups), r.P.pathOf(p))
			default:
				r.Ob(false, "Register/looks-up", f.Pos(), "ends without having looked the name up: %s", r.P.pathOf(p))
			}
		}
		r.Ob(kept > 0 && refused > 0, "Register/outcomes", f.Pos(), "%d accepting and %d refusing paths", kept, refused)
	}
	// Unregister
	if f := r.P.method(sched, name, "Unregister"); f == nil {
		r.Missing("Unregister")
	} else {
		_, ps := r.run("Unregister", Config{}, f)
		recv, nm := paramTerm(f, 0), paramTerm(f, 1)
		hit, miss := 0, 0
		for _, p := range ps {
			if p.out == "LoopBack" {
				continue
			}
			lockWhole(p, recv, "Unregister", f)
			var found *Term
			known, present := false, false
			var stops, dels []*Event
			for _, e := range p.events {
				switch {
				case e.Kind == "MapLookup" && isMap(e.Addr):
					if e.Args[0] != nm {
						r.Ob(false, "Unregister/by-name", e.Pos, "looks up %v", e.Args[0])
						continue
					}
					found = e.Val
					if v, k := p.facts.Eval(mkEq(e.Val, mkNil(nil), nil)); k {
						known, present = true, !v
					}
					if e.Res != nil {
						if v, k := p.facts.Eval(e.Res); k && (!known || !v) {
							known, present = true, v
						}
					}
				case isCall(e, "Stop", nil) || isCall(e, "MustStop", nil):
					stops = append(stops, e)
					r.Ob(isCall(e, "Stop", nil), "Unregister/no-panic", e.Pos, "stopping can panic, which would leave the name taken")
				case e.Kind == "MapDelete" && isMap(e.Addr):
					dels = append(dels, e)
					r.Ob(e.Args[0] == nm, "Unregister/only-name", e.Pos, "removes %v", e.Args[0])
				case e.Kind == "MapUpdate" && isMap(e.Addr) || e.Kind == "MapClear" || e.Kind == "Store" && e.Addr.op == "fa" && e.Addr.aux == mapKey:
					r.Ob(false, "Unregister/only-name", e.Pos, "changes other entries: %s", r.P.pathOf(p))
				}
			}
			switch {
			case p.out != "Return" || !known:
				r.Ob(false, "Unregister/decides", f.Pos(), "ends with %s without knowing whether the name exists: %s", p.out, r.P.pathOf(p))
			case present:
				hit++
				ok := len(stops) == 1 && stops[0].Args[0] == found && len(dels) == 1
				r.Ob(ok, "Unregister/stops-and-removes", f.Pos(), "a known name leads to %d stops and %d removals, must be one of each: %s", len(stops), len(dels), r.P.pathOf(p))
			default:
				miss++
				r.Ob(len(stops) == 0, "Unregister/unknown", f.Pos(), "an unknown name stops a task: %s", r.P.pathOf(p))
			}
		}
		r.Ob(hit > 0 && miss > 0, "Unregister/outcomes", f.Pos(), "%d paths for known, %d for unknown names", hit, miss)
	}
	// UnregisterAll
	if f := r.P.method(sched, name, "UnregisterAll"); f == nil {
		r.Missing("UnregisterAll")
	} else {
		ex, ps := r.run("UnregisterAll", Config{Loads: true}, f)
		recv := paramTerm(f, 0)
		ends, iters := 0, 0
		col := ex.collectedFromMap(ps, isMap)
		for _, p := range ps {
			lockWhole(p, recv, "UnregisterAll", f)
			var cur, curKey *Term
			stops, dels := 0, 0
			ended, emptied, inCol := false, false, false
			closeTurn := func() {
				if cur == nil || col != nil && !inCol || stops == 0 && p.facts.Holds(mkEq(cur, mkNil(nil), nil)) {
					// nothing to stop: no nil task is ever kept, registering calls its methods
					cur = nil
					return
				}
				r.Ob(stops == 1, "UnregisterAll/stops-each", f.Pos(), "a kept task is stopped %d times, must be 1: %s", stops, r.P.pathOf(p))
				cur, stops, dels = nil, 0, 0
			}
			for _, e := range p.events {
				switch {
				case e.Kind == "RangeNext" && isMap(e.Addr):
					closeTurn()
					cur, curKey = e.Val, e.Args[0]
				case e.Kind == "RangeEnd" && isMap(e.Addr):
					closeTurn()
					ended = true
				case e.Kind == "LoopBack":
					closeTurn()
				case col != nil && e.Kind == "LoopEnter" && e.Name == col.w.name && has2(e.Args, col.w.cur):
					// the tasks met on the walk over the map are now taken one by one
					closeTurn()
					inCol = true
					if p.out == "LoopBack" && p.events[len(p.events)-1].Name == col.w.name {
						cur = col.w.cur
					}
				case inCol && e.Kind == "MapLookup" && isMap(e.Addr) && col.keys && col.w.isElem(e.Args[0]):
					cur, curKey = e.Val, e.Args[0]
				case inCol && !col.keys && cur == col.w.cur && isCall(e, "Stop", nil) && col.w.isElem(e.Args[0]):
					cur = e.Args[0]
					stops++
				case isCall(e, "Stop", nil) || isCall(e, "MustStop", nil):
					stops++
					r.Ob(isCall(e, "Stop", nil), "UnregisterAll/no-panic", e.Pos, "stopping one task can panic, which would leave the others running")
					r.Ob(cur != nil && e.Args[0] == cur, "UnregisterAll/stops-each", e.Pos, "stops %v, must be the task of this entry", e.Args[0])
				case e.Kind == "MapDelete" && isMap(e.Addr):
					if cur != nil && e.Args[0] == curKey || inCol && col.keys && col.w.isElem(e.Args[0]) {
						dels++
					} else {
						r.Ob(false, "UnregisterAll/frees", e.Pos, "removes %v", e.Args[0])
					}
				case e.Kind == "MapClear" && isMap(e.Addr):
					emptied = emptied || ended
				case e.Kind == "Store" && e.Addr.op == "fa" && e.Addr.aux == mapKey:
					emptied = e.Val.op == "alloc"
					r.Ob(emptied, "UnregisterAll/frees", e.Pos, "the map is replaced by %v, must be a new empty one", e.Val)
				case e.Kind == "MapUpdate":
					r.Ob(false, "UnregisterAll/frees", e.Pos, "enters a task")
				}
			}
			switch p.out {
			case "LoopBack":
				iters++
			case "Return":
				ends++
				r.Ob(ended && (col == nil || inCol && col.w.finished(p)), "UnregisterAll/all", f.Pos(), "returns before every entry was visited: %s", r.P.pathOf(p))
				r.Ob(emptied || r.deletesEach(ps, isMap, col), "UnregisterAll/frees", f.Pos(), "returns without freeing the names: %s", r.P.pathOf(p))
			default:
				r.Ob(false, "UnregisterAll/returns", f.Pos(), "ends with %s", p.out)
			}
		}
		r.Ob(ends > 0 && iters > 0, "UnregisterAll/outcomes", f.Pos(), "%d final and %d iterating paths", ends, iters)
	}
}

// deletesEach: every iteration over the map, or over all that was met on it, deletes the entry it visits.
func (r *Report) deletesEach(ps []*State, isMap func(*Term) bool, col *collected) bool {
	n := 0
	if col != nil {
		for _, p := range col.w.iterations(ps) {
			n++
			ok := false
			for _, e := range col.w.body(p) {
				ok = ok || e.Kind == "MapDelete" && isMap(e.Addr) && col.keys && col.w.isElem(e.Args[0])
			}
			if !ok {
				return false
			}
		}
		return n > 0
	}
	for _, p := range ps {
		if p.out != "LoopBack" {
			continue
		}
		var k *Term
		ok := false
		for _, e := range p.events {
			if e.Kind == "RangeNext" && isMap(e.Addr) {
				k, ok = e.Args[0], e.Val != nil && p.facts.Holds(mkEq(e.Val, mkNil(nil), nil))
			}
			if e.Kind == "MapDelete" && isMap(e.Addr) && k != nil && e.Args[0] == k {
				ok = true
			}
		}
		if k != nil {
			n++
			if !ok {
				return false
			}
		}
	}
	return n > 0
}

// collected: a list that a walk over a map fills with every key, or every value, and the later walk over it.
type collected struct {
	w    *sliceLoop
	keys bool
}

func (ex *Exec) collectedFromMap(ps []*State, isMap func(*Term) bool) *collected {
	for _, p := range ps {
		var walks []*Event
		ended := false
		for _, e := range p.events {
			switch {
			case e.Kind == "RangeEnd" && isMap(e.Addr):
				ended = true
			case e.Kind == "LoopEnter" && !ended:
				walks = append(walks, e)
			case e.Kind == "LoopEnter":
				for _, a := range walks {
					for j := 1; j < len(a.Args); j += 2 {
						list := a.Args[j]
						kind := ex.fillsFromMap(ps, a, list, isMap)
						if init, ok := ex.accInit(p, list); !ok || !isEmptyList(init) || kind == "" {
							continue
						}
						if w, _ := ex.loopAny(ps, e, list); w != nil {
							return &collected{w, kind == "key"}
						}
					}
				}
			}
		}
	}
	return nil
}

// fillsFromMap: each turn of the loop entered at e appends exactly the key, or exactly the value, it meets.
func (ex *Exec) fillsFromMap(ps []*State, e *Event, list *Term, isMap func(*Term) bool) string {
	kind := ""
	for _, q := range ps {
		if q.out != "LoopBack" || q.events[len(q.events)-1].Name != e.Name || !q.entered(e.Name, list) {
			continue
		}
		next, ok := ex.accNext(q, list)
		if !ok {
			return ""
		}
		base, add := accSplit(next)
		if base != list || len(add) != 1 {
			return ""
		}
		now := ""
		for _, x := range q.events {
			if x.Kind == "RangeNext" && isMap(x.Addr) {
				switch add[0] {
				case x.Args[0]:
					now = "key"
				case x.Val:
					now = "value"
				default:
					now = ""
				}
			}
		}
		if now == "" || kind != "" && kind != now {
			return ""
		}
		kind = now
	}
	return kind
}

// ---- S07 ----

func checkS07(r *Report) {
	r.Rule("every returning path of a task constructor has established a non-blank name, positive timeout and interval and a job, and returns a new task whose fields are exactly these, with status new and its own channels; every panicking path has established one of the opposites")
	nw := r.statusConst("new")
	for _, t := range r.taskTypes() {
		r.Ob(len(t.ctors) > 0, t.name+"/constructor", t.start.Pos(), "%d constructors", len(t.ctors))
		for _, f := range t.ctors {
			ex, ps := r.run(f.Name(), Config{}, f)
			var name, job, intv, tmo *Term
			for i, p := range f.Params {
				switch {
				case types.Identical(p.Type(), types.Typ[types.String]):
					name = paramTerm(f, i)
				case p.Type().String() == "time.Duration" && p.Name() == "timeout":
					tmo = paramTerm(f, i)
				case p.Type().String() == "time.Duration":
					intv = paramTerm(f, i)
				default:
					if _, ok := p.Type().Underlying().(*types.Signature); ok {
						job = paramTerm(f, i)
					}
				}
			}
			// the documented order is name, job, interval, timeout
			if len(f.Params) == 4 {
				intv, tmo = paramTerm(f, 2), paramTerm(f, 3)
			}
			if name == nil || job == nil || intv == nil || tmo == nil {
				r.Missing(f.Name() + "/parameters")
				continue
			}
			blank := mkEqInt(mkLen(mk("pure", "strings.TrimSpace", types.Typ[types.String], name)), mkInt(0))
			var blanks []*Term
			for _, p := range ps {
				for _, l := range p.facts.log {
					l.T.walk(func(x *Term) bool {
						if len(x.args) == 1 && x.args[0] == name && x.op == "pure:strings.TrimSpace" || x.op == "pure" && x.aux == "strings.TrimSpace" && x.args[0] == name {
							blanks = append(blanks, x)
						}
						return true
					})
				}
			}
			if len(blanks) > 0 {
				blank = mkEqInt(mkLen(blanks[0]), mkInt(0))
			}
			rets, pans := 0, 0
			for _, p := range ps {
				bad := []struct {
					what string
					t    *Term
				}{{"a blank name", blank}, {"a timeout that is not positive", mkLeq(tmo, mkInt(0))}, {"an interval that is not positive", mkLeq(intv, mkInt(0))}, {"a missing job", mkEq(job, mkNil(nil), nil)}}
				switch p.out {
				case "Panic":
					pans++
					ok := false
					for _, b := range bad {
						ok = ok || p.facts.Holds(b.t)
					}
					r.Ob(ok, f.Name()+"/panics-only-on-invalid", f.Pos(), "panics although no setting is known to be invalid: %s", r.P.pathOf(p))
				case "Return":
					rets++
					for _, b := range bad {
						r.Ob(p.facts.Refutes(b.t), f.Name()+"/rejects/"+b.what, f.Pos(), "returns a task with possibly %s: %s", b.what, r.P.pathOf(p))
					}
					o := newObject(p, t.typ)
					if o == nil {
						r.Ob(false, f.Name()+"/new-task", f.Pos(), "does not return a new task")
						continue
					}
					for _, s := range []struct {
						field string
						want  *Term
					}{{"name", name}, {"job", job}, {"interval", intv}, {"timeout", tmo}, {"status", mkInt(nw)}} {
						a, tt := field(o, t.typ, s.field)
						v := ex.load(p, a, tt)
						r.Ob(p.facts.Same(v, s.want), f.Name()+"/sets/"+s.field, f.Pos(), "%s is %v, must be %v", s.field, v, s.want)
					}
					var chans []*Term
					for _, k := range []string{"stopSig", t.qK[lastDot(t.qK)+1:]} {
						a, tt := field(o, t.typ, k)
						if a == nil {
							continue
						}
						chans = append(chans, ex.load(p, a, tt))
					}
					ok := len(chans) == 2 && chans[0].op == "alloc" && chans[1].op == "alloc" && chans[0] != chans[1]
					r.Ob(ok, f.Name()+"/own-channels", f.Pos(), "stop signal and queue are %v; must be two new channels", chans)
					n := 0
					for _, e := range p.events {
						if e.Kind == "Go" || e.Kind == "Send" || e.Kind == "Close" || e.Kind == "AfterFunc" {
							n++
						}
					}
					r.Ob(n == 0, f.Name()+"/not-started", f.Pos(), "creation already starts or signals something")
				default:
					r.Ob(false, f.Name()+"/ends", f.Pos(), "ends with %s", p.out)
				}
			}
			r.Ob(rets > 0 && pans > 0, f.Name()+"/outcomes", f.Pos(), "%d returning and %d panicking paths", rets, pans)
		}
	}
}

func lastDot(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '.' {
			return i
		}
	}
	return -1
}
