package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["X01"] = checkX01
	checks["X02"] = checkX02
	checks["X03"] = checkX03
}

func (r *Report) accountRuns(L *LockInfo) {
	for _, x := range L.Runs {
		r.account(x.Name, x.Ex, x.Paths)
	}
}

func (P *Prog) shortLock(k *Term) string {
	s, _ := P.lockCell(k)
	if s == "" {
		return k.String()
	}
	return strings.TrimPrefix(s, modPath+"/")
}

func short(key string) string { return strings.TrimPrefix(key, modPath+"/") }

func checkX01(r *Report) {
	r.Rule("on every path of every entry point and goroutine of the packages that synchronise, including paths on which a call of user-supplied code panics, each acquired lock is released before the function is left, and only held locks are released")
	r.Assume("library functions that are not models (see models.go) do not panic while a lock is held; integer arithmetic does not overflow")
	L := r.P.lockInfo()
	r.accountRuns(L)
	for _, x := range L.Runs {
		locks := 0
		bad := false
		for _, p := range x.Paths {
			for _, e := range p.events {
				if e.Kind == "Lock" {
					locks++
				}
				if e.Kind == "UnlockNotHeld" {
					bad = true
					r.Ob(false, "release-held/"+short(x.Fn.String())+"/"+r.P.shortLock(e.Addr), e.Pos, "%s releases %s (%s) which is not held in that mode", x.Name, e.Addr, e.Name)
				}
			}
			if p.out == "Cut" || p.out == "LoopBack" || p.out == "Blocked" {
				continue
			}
			for _, h := range p.held {
				bad = true
				r.Ob(false, "released-on-exit/"+short(x.Fn.String())+"/"+r.P.shortLock(h.Key), h.At, "%s can end (%s) with %s still held; path: %s", x.Name, p.out, h.Key, r.P.pathOf(p))
			}
		}
		// loops must not accumulate locks
		for _, p := range x.Paths {
			if p.out != "LoopBack" {
				continue
			}
			back := p.events[len(p.events)-1]
			var enter *Event
			for _, e := range p.events {
				if e.Kind == "LoopEnter" && e.Name == back.Name {
					enter = e
				}
			}
			if enter != nil && !sameHeld(enter.Held, back.Held) {
				bad = true
				r.Ob(false, "balanced-loop/"+short(x.Fn.String()), back.Pos, "%s: a loop iteration changes the set of held locks (%s before, %s after)", x.Name, heldStr(enter.Held), heldStr(back.Held))
			}
		}
		if locks > 0 {
			r.Count("locking_roots", 1)
			if !bad {
				r.Ob(true, "released-on-exit/"+short(x.Name), x.Fn.Pos(), "%d paths, %d acquisitions", len(x.Paths), locks)
			}
		}
	}
	r.Floor("locking_roots", 12)
}

func sameHeld(a, b []Held) bool {
	m := map[string]int{}
	for _, h := range a {
		m[fmt.Sprintf("%d%c", h.Key.id, h.Mode)]++
	}
	for _, h := range b {
		m[fmt.Sprintf("%d%c", h.Key.id, h.Mode)]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func heldStr(hs []Held) string {
	var s []string
	for _, h := range hs {
		s = append(s, fmt.Sprintf("%v/%c", h.Key, h.Mode))
	}
	return "{" + strings.Join(s, " ") + "}"
}

// pathOf prints the observable steps of a path.
func (P *Prog) pathOf(p *State) string {
	var s []string
	for _, e := range p.events {
		switch e.Kind {
		case "Load", "MapLookup":
			continue
		}
		n := e.Kind
		if e.Name != "" {
			n += " " + e.Name
		}
		s = append(s, n+"@"+P.pos(e.Pos))
	}
	if len(s) > 14 {
		s = append(s[:6], append([]string{"..."}, s[len(s)-7:]...)...)
	}
	return strings.Join(s, " -> ")
}

func checkX02(r *Report) {
	r.Rule("lockset: for every field (or container held in a field) that any operation changes after construction, one lock is held at every access, in write mode at every write, or every access is atomic")
	r.Assume("objects are published to other goroutines only by their constructor returning, a channel, or a lock; fields of library types are handled by those types")
	L := r.P.lockInfo()
	r.accountRuns(L)
	byKey := map[string][]*Access{}
	for _, a := range L.Accesses {
		if a.Local || onlyTest(a.Key) {
			continue
		}
		byKey[a.Key] = append(byKey[a.Key], a)
	}
	var keys []string
	for k := range byKey {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		as := byKey[k]
		if as[0].Base == nil && r.startupOnly(as) {
			r.ObAt(true, "start-up/"+short(k), short(k), "package variable, set while the Redis scripts are loaded")
			continue
		}
		written := false
		for _, a := range as {
			if a.Write {
				written = true
			}
		}
		if !written {
			continue
		}
		r.Count("shared_fields", 1)
		if os.Getenv("DEBUG") != "" {
			fmt.Println(short(k), len(as), "guard", short(r.P.guards[k]))
		}
		atomicAll := true
		var nonAtomic *Access
		for _, a := range as {
			if !a.Atomic {
				atomicAll = false
				nonAtomic = a
			}
		}
		if atomicAll {
			r.ObAt(true, "atomic/"+short(k), short(k), "%d atomic accesses", len(as))
			continue
		}
		anyAtomic := false
		for _, a := range as {
			anyAtomic = anyAtomic || a.Atomic
		}
		if anyAtomic {
			r.Ob(false, "atomic/"+short(k), nonAtomic.Ev.Pos, "field %s is accessed atomically elsewhere but plainly here (%s in %s)", short(k), nonAtomic.Ev.Kind, nonAtomic.Ev.Fn)
			continue
		}
		// candidate locks: those held at most accesses
		cnt := map[string]int{}
		for _, a := range as {
			for lk := range a.Guards {
				cnt[lk]++
			}
		}
		best := ""
		var cands []string
		for lk := range cnt {
			cands = append(cands, lk)
		}
		sort.Strings(cands)
		for _, lk := range cands {
			if best == "" || cnt[lk] > cnt[best] {
				best = lk
			}
		}
		if best == "" {
			a := as[0]
			for _, b := range as {
				if b.Write {
					a = b
				}
			}
			r.Ob(false, "guarded/"+short(k), a.Ev.Pos, "field %s is changed in %s (%s) without any lock held", short(k), a.Ev.Fn, a.Ev.Kind)
			continue
		}
		ok := true
		for _, a := range as {
			m := a.Guards[best]
			switch {
			case m == 0 && !a.Write && setBeforeSpawn(r.P, a, as):
			case m == 0:
				ok = false
				r.Ob(false, "guarded/"+short(k), a.Ev.Pos, "field %s is guarded by %s elsewhere but accessed here (%s in %s, reached from %s) without it; held: %s", short(k), short(best), a.Ev.Kind, a.Ev.Fn, a.Root.Name, heldStr(a.Ev.Held))
			case a.Write && m != 'W':
				ok = false
				r.Ob(false, "guarded-write/"+short(k), a.Ev.Pos, "field %s is written here (%s in %s) with %s held for reading only", short(k), a.Ev.Kind, a.Ev.Fn, short(best))
			}
		}
		if ok {
			r.ObAt(true, "guarded/"+short(k), short(k), "%d accesses under %s", len(as), short(best))
		}
	}
	r.Floor("shared_fields", 10)
}

// startupOnly: a package variable written only on behalf of LoadScript.
func (r *Report) startupOnly(as []*Access) bool {
	for _, a := range as {
		if a.Write && a.Root.Fn != r.P.function("ratelimiter", "LoadScript") {
			return false
		}
	}
	return true
}

// setBeforeSpawn: the read happens in a goroutine that is started, on the same path, after every
// write of the field, so the start orders them.
func setBeforeSpawn(P *Prog, rd *Access, as []*Access) bool {
	if !rd.Root.Spawn {
		return false
	}
	for _, w := range as {
		if !w.Write {
			continue
		}
		found := false
		for _, p := range w.Root.Paths {
			wi, spawned := -1, false
			for i, e := range p.events {
				if e == w.Ev {
					wi = i
				}
				if e.Kind == "Go" {
					if f, _ := calleeOf(e.Callee); f == rd.Root.Fn {
						if wi < 0 {
							return false
						}
						spawned = true
					}
				}
			}
			// an operation that changes it and never starts the goroutine may find it running
			found = found || wi >= 0 && spawned
		}
		if !found || w.Root.Spawn {
			return false
		}
	}
	return true
}

func onlyTest(key string) bool { return strings.Contains(key, "/testutil.") }

func checkX03(r *Report) {
	r.Rule("no lock is acquired while the same lock is held; the held-before relation between lock classes is acyclic; blocking channel operations, sleeps and waits happen with no lock held, except waiting on a condition of that lock and selects that can always leave through a channel that is closed without that lock")
	L := r.P.lockInfo()
	r.accountRuns(L)
	type edge struct{ a, b string }
	edges := map[edge]*Event{}
	ops := 0
	acq := L.acquires(r.P)
	for _, x := range L.Runs {
		for _, p := range x.Paths {
			for _, e := range p.events {
				switch e.Kind {
				case "Relock":
					r.Ob(false, "no-reacquisition/"+short(e.Fn.String())+"/"+r.P.shortLock(e.Addr), e.Pos, "%s acquires %s again while holding it: %s", x.Name, e.Addr, r.P.pathOf(p))
				case "Lock":
					ops++
					lk := r.P.shortLock(e.Addr)
					for _, h := range e.Held {
						if h.Key == e.Addr {
							continue
						}
						ek := edge{r.P.shortLock(h.Key), lk}
						if edges[ek] == nil {
							edges[ek] = e
						}
					}
				case "Send", "Recv", "Sleep", "WaitGroup":
					ops++
					if len(e.Held) > 0 {
						r.Ob(false, "no-wait-held/"+short(e.Fn.String()), e.Pos, "%s: %s on %v while holding %s", x.Name, e.Kind, e.Addr, heldStr(e.Held))
					}
				case "Wait":
					ops++
					if len(e.Held) != 1 || !condOf(r.P, e.Addr, e.Held[0].Key) {
						r.Ob(false, "wait-own-lock/"+short(e.Fn.String()), e.Pos, "%s waits on %v while holding %s: exactly the lock of that condition must be held", x.Name, e.Addr, heldStr(e.Held))
					}
				case "Select":
					if !e.Block || len(e.Held) == 0 {
						continue
					}
					ops++
					r.Count("selects_under_lock", 1)
					r.escapableSelect(L, x, p, e)
				case "Call":
					if len(e.Held) > 0 && e.User {
						r.Count("user_calls_under_lock", 1)
						for _, impl := range L.implementations(r.P, e) {
							for lk, at := range acq[impl] {
								for _, h := range e.Held {
									hk := r.P.shortLock(h.Key)
									if hk == lk {
										r.Ob(false, "no-reacquisition/"+short(e.Fn.String())+"/"+lk, e.Pos, "%s calls %s while holding %s; its implementation %s acquires the same lock at %s", x.Name, short(e.Name), h.Key, impl, r.P.pos(at.Pos))
										continue
									}
									ek := edge{hk, lk}
									if edges[ek] == nil {
										edges[ek] = e
									}
								}
							}
						}
					}
				}
			}
		}
	}
	r.Count("operations", ops)
	// cycles
	adj := map[string][]string{}
	for ek := range edges {
		adj[ek.a] = append(adj[ek.a], ek.b)
	}
	var names []string
	for n := range adj {
		sort.Strings(adj[n])
		names = append(names, n)
	}
	sort.Strings(names)
	state := map[string]int{}
	var stack []string
	var visit func(n string)
	visit = func(n string) {
		state[n] = 1
		stack = append(stack, n)
		for _, m := range adj[n] {
			if state[m] == 1 {
				i := 0
				for stack[i] != m {
					i++
				}
				cyc := append(append([]string{}, stack[i:]...), m)
				e := edges[edge{n, m}]
				r.Ob(false, "lock-order/"+strings.Join(cyc, ">"), e.Pos, "locks are acquired in a cycle %s; %s acquires the last while holding %s", strings.Join(cyc, " -> "), e.Fn, heldStr(e.Held))
			} else if state[m] == 0 {
				visit(m)
			}
		}
		stack = stack[:len(stack)-1]
		state[n] = 2
	}
	for _, n := range names {
		if state[n] == 0 {
			visit(n)
		}
	}
	for ek, e := range edges {
		r.Ob(true, "order/"+ek.a+"<"+ek.b, e.Pos, "held before")
	}
	r.ObAt(true, "operations", "-", "%d blocking or locking operations", ops)
	r.Floor("operations", 20)
	r.Floor("user_calls_under_lock", 3)
}

// implementations of the interface method called by e that this repository provides.
func (L *LockInfo) implementations(P *Prog, e *Event) []*ssa.Function {
	if e.Common == nil || !e.Common.IsInvoke() {
		return nil
	}
	it, ok := e.Common.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, x := range L.Runs {
		recv := x.Fn.Signature.Recv()
		if x.Spawn || recv == nil || x.Fn.Name() != e.Common.Method.Name() || seen[x.Fn] {
			continue
		}
		if types.Implements(recv.Type(), it) || types.Implements(types.NewPointer(recv.Type()), it) {
			seen[x.Fn] = true
			out = append(out, x.Fn)
		}
	}
	return out
}

// acquires: lock classes each entry point may take, also through interface calls answered by
// implementations in this repository.
func (L *LockInfo) acquires(P *Prog) map[*ssa.Function]map[string]*Event {
	out := map[*ssa.Function]map[string]*Event{}
	for changed := true; changed; {
		changed = false
		for _, x := range L.Runs {
			if x.Spawn {
				continue
			}
			m := out[x.Fn]
			if m == nil {
				m = map[string]*Event{}
				out[x.Fn] = m
			}
			add := func(k string, e *Event) {
				if m[k] == nil {
					m[k] = e
					changed = true
				}
			}
			for _, p := range x.Paths {
				for _, e := range p.events {
					if e.Kind == "Lock" {
						add(P.shortLock(e.Addr), e)
					}
					if e.Kind == "Call" && e.User {
						for _, f := range L.implementations(P, e) {
							for k := range out[f] {
								add(k, e)
							}
						}
					}
				}
			}
		}
	}
	return out
}

func condOf(P *Prog, cond, lock *Term) bool {
	ck, cb := P.lockCell(cond)
	lk, lb := P.lockCell(lock)
	return ck == lk && cb == lb && ck != ""
}

// escapableSelect: a blocking select under a lock can always leave because one of its receive
// channels is closed by some operation that does not need that lock first.
func (r *Report) escapableSelect(L *LockInfo, x *RootRun, px *State, e *Event) {
	if servedBySpawned(r.P, L, x, px, e) {
		r.Ob(true, "select-served/"+short(e.Fn.String()), e.Pos, "a goroutine started before on the path receives what is sent, without needing the lock")
		return
	}
	for _, h := range e.Held {
		lk, _ := r.P.lockCell(h.Key)
		// every operation that waits for this lock exclusively must first have closed one of the
		// receive channels, or be unable to starve: see rule
		var bad *Event
		var badRun *RootRun
		for _, y := range L.Runs {
			for _, p := range y.Paths {
				for i, f := range p.events {
					if f.Kind != "Lock" || f.Name != "W" || y == x && h.Mode == 'W' {
						continue
					}
					fl, _ := r.P.lockCell(f.Addr)
					if fl != lk {
						continue
					}
					if !closesBefore(r.P, y, p, i, e) && releasesWaiter(r.P, p, i) {
						bad, badRun = f, y
					}
				}
			}
		}
		key := "select-escapes/" + short(e.Fn.String())
		if bad != nil {
			r.Ob(false, key, bad.Pos, "%s waits for %s, which %s holds while blocked in a select at %s, without first closing a channel that select receives from", badRun.Name, short(lk), e.Fn, r.P.pos(e.Pos))
		} else {
			r.Ob(true, key, e.Pos, "every closing operation first closes a channel the select receives from")
		}
	}
}

// closesBefore: before event i the path closes (directly or through sync.Once) a channel that the
// select receives from, matched by field.
func closesBefore(P *Prog, y *RootRun, p *State, i int, sel *Event) bool {
	for _, f := range p.events[:i] {
		if f.Kind != "Close" && f.Kind != "OnceSkip" {
			continue
		}
		if f.Kind == "OnceSkip" {
			// closed by the earlier run of the same Once
			for _, q := range y.Paths {
				for j, g := range q.events {
					if g.Kind == "OnceRun" && g.Addr == f.Addr {
						for _, c := range q.events[j:] {
							if c.Kind == "Close" && selReceives(sel, c.Addr) {
								return true
							}
						}
					}
				}
			}
			continue
		}
		if selReceives(sel, f.Addr) {
			return true
		}
	}
	return false
}

// servedBySpawned: the select sends on a channel that a goroutine started earlier on the path
// receives from before it needs any lock.
func servedBySpawned(P *Prog, L *LockInfo, x *RootRun, p *State, e *Event) bool {
	for _, g := range p.events[:e.Seq] {
		if g.Kind != "Go" {
			continue
		}
		fn, _ := calleeOf(g.Callee)
		for _, y := range L.Runs {
			if !y.Spawn || y.Fn != fn || len(y.Paths) == 0 {
				continue
			}
			all := true
			for _, q := range y.Paths {
				first := (*Event)(nil)
				for _, f := range q.events {
					if f.Kind == "Lock" || f.Kind == "Select" || f.Kind == "Recv" || f.Kind == "Send" || f.Kind == "Sleep" || f.Kind == "Wait" {
						first = f
						break
					}
				}
				if first == nil {
					if q.out != "Return" {
						continue
					}
					all = false
					break
				}
				ok := false
				for _, c := range e.Cases {
					if c.Val == nil {
						continue
					}
					ck, _ := fieldOfChan(c.Ch)
					if first.Kind == "Select" && selReceives(first, c.Ch) {
						ok = true
					}
					if fk, _ := fieldOfChan(first.Addr); first.Kind == "Recv" && fk == ck && ck != "" {
						ok = true
					}
				}
				if !ok {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

func selReceives(sel *Event, ch *Term) bool {
	ck, cb := fieldOfChan(ch)
	for _, c := range sel.Cases {
		if c.Val != nil {
			continue
		}
		sk, sb := fieldOfChan(c.Ch)
		if sk == ck && (sk != "" || sb == cb) {
			return true
		}
	}
	return false
}

// releasesWaiter: the operation closes channels under the lock (it is one of the closing
// operations the library promises not to wait for a blocked receiver).
func releasesWaiter(P *Prog, p *State, i int) bool {
	for _, f := range p.events[i:] {
		if f.Kind == "Unlock" && f.Addr == p.events[i].Addr {
			return false
		}
		if f.Kind == "Close" || f.Kind == "MapDelete" {
			return true
		}
	}
	return false
}

// fieldOfChan names the struct field a channel value was read from.
func fieldOfChan(t *Term) (string, *Term) {
	for t.op == "init" && len(t.args) == 1 {
		t = t.args[0]
	}
	if t.op == "fa" {
		return t.aux, t.args[0]
	}
	return "", t
}
