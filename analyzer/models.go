package main

// What the analyzer knows about library functions. Everything not listed is an opaque call.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
)

type model func(ex *Exec, st *State, c *callCtx)

var models map[string]model

var exits = map[string]bool{
	"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true,
	"(*log.Logger).Fatal": true, "(*log.Logger).Fatalf": true, "(*log.Logger).Fatalln": true,
	"runtime.Goexit": true,
}

// readOnlyLib: the call does not change memory of the repository visible to it.
func readOnlyLib(name string) bool {
	for _, p := range []string{
		"fmt.Sprint", "fmt.Errorf", "fmt.Print", "fmt.Fprint", "log.", "(*log.Logger).", "errors.", "strings.", "strconv.", "net/url.", "(*net/url.", "(net/url.",
		"unicode", "math.", "time.", "(time.", "(*time.", "regexp.", "(*regexp.", "os.", "context.", "(context.",
		"reflect.Value", "(reflect.", "crypto/", "encoding/pem.Decode", "encoding/base64.", "(*encoding/base64.", "io/ioutil.Read", "io.ReadAll",
		"(*github.com/go-redis/redis", "(github.com/go-redis/redis", "(error).", "(fmt.Stringer)", "runtime.",
		"bytes.", "sort.SearchInts", "slices.Contains", "slices.Index", "maps.Keys", "unsafe.",
		"github.com/modern-go/reflect2.",
	} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// isPure: the result depends on the arguments only.
func isPure(name string) bool {
	for _, p := range []string{
		"strings.", "strconv.", "unicode", "net/url.", "math.", "errors.Is", "errors.Unwrap", "regexp.MatchString", "regexp.QuoteMeta",
		"github.com/modern-go/reflect2.IsNil", "time.ParseDuration", "path.", "path/filepath.", "bytes.Equal", "bytes.Contains",
		"crypto/subtle.", "unicode/utf8.", "(*regexp.Regexp).Match", "regexp.MustCompile", "html.Escape", "(time.Duration)", "slices.Contains",
	} {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "strings.New") {
			return true
		}
	}
	return false
}

// pureCall gives calls of pure functions a value number of their own.
func (ex *Exec) pureCall(st *State, c *callCtx) bool {
	if !isPure(c.name) {
		return false
	}
	var args []*Term
	for i, a := range c.args {
		if a.op == "slice" {
			et := sliceElem(c.common.Args[i].Type())
			if es, ok := ex.elems(st, a, et); ok {
				a = mk("seq", "", a.typ, es...)
			} else {
				return false
			}
		}
		args = append(args, a)
	}
	name := c.name
	if name == "strconv.ParseInt" {
		// base 10 and the width of int: the numbers of Atoi
		base, ok1 := args[1].isInt()
		bits, ok2 := args[2].isInt()
		if ok1 && ok2 && base == 10 && (bits == 0 || bits == 64) {
			name, args = "strconv.Atoi", args[:1]
		}
	}
	var rs []*Term
	for i, t := range c.resTypes {
		aux := name
		if len(c.resTypes) > 1 {
			aux += fmt.Sprintf("#.%d", i)
		}
		rs = append(rs, mk("pure", aux, t, args...))
	}
	var res *Term
	if len(rs) == 1 {
		res = rs[0]
	} else {
		res = mkTuple(rs...)
	}
	e := &Event{Kind: "Call", Name: c.name, Args: c.args, Res: res, Pos: c.pos, Common: c.common, Defer: c.deferred}
	st.event(e)
	ex.bind(st, c, res)
	ex.assumeResult(st, c, rs)
	return true
}

// sameSeparator: a non-empty string and the same string, or the byte it consists of.
func sameSeparator(a, b *Term) bool {
	x, ok := a.isStr()
	if n, isByte := b.isInt(); ok && isByte {
		return len(x) == 1 && int64(x[0]) == n
	}
	return ok && x != "" && a == b
}

// assumeResult: facts about results documented by the library.
func (ex *Exec) assumeResult(st *State, c *callCtx, rs []*Term) {
	nn := func(i int) { st.facts.Assume(mkEq(rs[i], mkNil(nil), nil), false) }
	switch c.name {
	case "strings.Split":
		// a non-empty separator yields at least one part
		if s, ok := c.args[1].isStr(); ok && s != "" {
			st.facts.Assume(mkLeq(mkInt(1), mkLen(rs[0])), true)
		}
	case "strings.SplitN":
		if n, ok := c.args[2].isInt(); ok && n > 0 {
			st.facts.Assume(mkLeq(mkInt(1), mkLen(rs[0])), true)
			st.facts.Assume(mkLeq(mkLen(rs[0]), mkInt(n)), true)
		}
	case "strings.Index", "strings.LastIndex", "strings.IndexByte":
		st.facts.Assume(mkLeq(mkInt(-1), rs[0]), true)
		for _, l := range st.facts.log {
			l.T.walk(func(x *Term) bool {
				if isPureOf(x, "strings.Count") && x.args[0] == c.args[0] && sameSeparator(x.args[1], c.args[1]) && st.facts.Leq(mkInt(1), x) {
					st.facts.Assume(mkLeq(mkInt(0), rs[0]), true)
				}
				return true
			})
		}
	case "context.Background", "context.TODO", "net/url.UserPassword", "net/http.DefaultTransport", "(*net/http.Transport).Clone",
		"crypto/x509.NewCertPool", "context.WithValue", "github.com/go-sql-driver/mysql.NewConfig", "regexp.MustCompile", "flag.NewFlagSet",
		"github.com/go-redis/redis/v7.NewClient":
		nn(0)
	}
}

func init() {
	models = map[string]model{
		"sync.NewCond": func(ex *Exec, st *State, c *callCtx) {
			a := ex.newAlloc("cond", c.resTypes[0], nil)
			st.heap[mk("fa", "sync.Cond.L", nil, a)] = c.args[0]
			ex.bind(st, c, a)
		},
		"(*sync.Cond).Wait": func(ex *Exec, st *State, c *callCtx) {
			e := &Event{Kind: "Wait", Addr: c.args[0], Pos: c.pos, Block: true}
			e.Snap, e.Hv = st.snapshot()
			st.event(e)
			// waiting gives the lock up
			held := st.held
			st.held = nil
			ex.havocShared(st)
			st.held = append([]Held{}, held...)
			for i := range st.held {
				st.held[i].Epoch = st.epoch
			}
			e2 := &Event{Kind: "Woken", Addr: c.args[0], Pos: c.pos}
			e2.Snap, e2.Hv = st.snapshot()
			st.event(e2)
		},
		"(*sync.Cond).Signal": func(ex *Exec, st *State, c *callCtx) {
			st.event(&Event{Kind: "Wake", Name: "Signal", Addr: c.args[0], Pos: c.pos})
		},
		"(*sync.Cond).Broadcast": func(ex *Exec, st *State, c *callCtx) {
			st.event(&Event{Kind: "Wake", Name: "Broadcast", Addr: c.args[0], Pos: c.pos})
		},
		"(*sync.Once).Do":       modelOnce,
		"(*sync.WaitGroup).Add": nop, "(*sync.WaitGroup).Done": nop,
		"(*sync.WaitGroup).Wait": func(ex *Exec, st *State, c *callCtx) {
			st.event(&Event{Kind: "WaitGroup", Addr: c.args[0], Pos: c.pos, Block: true})
			ex.havocShared(st)
		},
		"time.Now": modelNow,
		"time.Since": func(ex *Exec, st *State, c *callCtx) {
			bindTime(ex, st, c, func(now *Term) *Term { return tSub(now, c.args[0]) })
		},
		"time.Until": func(ex *Exec, st *State, c *callCtx) {
			bindTime(ex, st, c, func(now *Term) *Term { return tSub(c.args[0], now) })
		},
		"(time.Time).UnixNano":         idTime,
		"(time.Time).UTC":              idTime,
		"(time.Time).Local":            idTime,
		"(time.Time).Round":            nil,
		"(time.Time).Unix":             divTime(1e9),
		"(time.Time).UnixMilli":        divTime(1e6),
		"(time.Time).UnixMicro":        divTime(1e3),
		"(time.Duration).Nanoseconds":  idTime,
		"(time.Duration).Microseconds": divTime(1e3),
		"(time.Duration).Milliseconds": divTime(1e6),
		"(time.Time).Add":              func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, orOpaque(tAdd(tm(c.args[0]), c.args[1]))) },
		"(time.Time).Sub":              func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, orOpaque(tSub(tm(c.args[0]), tm(c.args[1])))) },
		"(time.Time).Before":           func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, mkLess(tm(c.args[0]), tm(c.args[1]))) },
		"(time.Time).After":            func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, mkLess(tm(c.args[1]), tm(c.args[0]))) },
		"(time.Time).Equal":            func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, mkEqInt(tm(c.args[0]), tm(c.args[1]))) },
		"(time.Time).IsZero":           func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, mkEqInt(tm(c.args[0]), zeroTime())) },
		"(time.Time).Compare":          nil,
		"time.Unix": func(ex *Exec, st *State, c *callCtx) {
			ex.bind(st, c, orOpaque(tAdd(mkMul(c.args[0], mkInt(1e9), types.Typ[types.Int64]), c.args[1])))
		},
		"time.AfterFunc": func(ex *Exec, st *State, c *callCtx) {
			a := ex.newAlloc("timer", c.resTypes[0], nil)
			e := &Event{Kind: "AfterFunc", Args: c.args, Callee: c.args[1], Addr: a, Pos: c.pos}
			st.escape(c.args[1])
			e.Snap, e.Hv = st.snapshot()
			st.event(e)
			ex.bind(st, c, a)
		},
		"time.Sleep": func(ex *Exec, st *State, c *callCtx) {
			st.event(&Event{Kind: "Sleep", Args: c.args, Pos: c.pos, Block: true})
			ex.havocShared(st)
		},
		"time.After":           timerModel("After"),
		"time.NewTimer":        timerModel("NewTimer"),
		"time.NewTicker":       timerModel("NewTicker"),
		"time.Tick":            timerModel("Tick"),
		"context.WithTimeout":  ctxModel,
		"context.WithDeadline": ctxModel,
		"context.WithCancel":   ctxModel,
		"container/list.New": func(ex *Exec, st *State, c *callCtx) {
			a := ex.newAlloc("list", c.resTypes[0], nil)
			st.heap[listLoc(a)] = mk("lempty", "", nil)
			ex.bind(st, c, a)
		},
		"(*container/list.List).Init": func(ex *Exec, st *State, c *callCtx) {
			ex.listStore(st, c, mk("lempty", "", nil))
			ex.bind(st, c, c.args[0])
		},
		"(*container/list.List).Len": func(ex *Exec, st *State, c *callCtx) {
			ex.listEvent(st, c, "Load")
			ex.bind(st, c, listLen(ex.listCur(st, c.args[0])))
		},
		"(*container/list.List).PushBack": func(ex *Exec, st *State, c *callCtx) {
			v := unboxed(c.args[1])
			cur := ex.listCur(st, c.args[0])
			ex.listStore(st, c, mk("lpush", "", nil, cur, v))
			ex.bind(st, c, mk("lnode", "", c.resTypes[0], cur, v))
		},
		"(*container/list.List).PushFront": func(ex *Exec, st *State, c *callCtx) {
			cur := ex.listCur(st, c.args[0])
			ex.listStore(st, c, mk("lpushfront", "", nil, cur, unboxed(c.args[1])))
			ex.bind(st, c, mk("lnode", "", c.resTypes[0], cur, c.args[1]))
		},
		"(*container/list.List).Front": func(ex *Exec, st *State, c *callCtx) {
			ex.listEvent(st, c, "Load")
			cur := ex.listCur(st, c.args[0])
			for cur.op == "lset" {
				cur = cur.args[0] // the same elements
			}
			t := mk("lfront", "", c.resTypes[0], cur)
			ex.listNil(st, t, cur)
			ex.bind(st, c, t)
		},
		"(*container/list.List).Back": func(ex *Exec, st *State, c *callCtx) {
			ex.listEvent(st, c, "Load")
			cur := ex.listCur(st, c.args[0])
			t := mk("lback", "", c.resTypes[0], cur)
			ex.listNil(st, t, cur)
			ex.bind(st, c, t)
		},
		"(*container/list.List).Remove": func(ex *Exec, st *State, c *callCtx) {
			cur := ex.listCur(st, c.args[0])
			n := c.args[1]
			var next *Term
			switch {
			case n.op == "lfront" && (n.args[0] == cur || listFrontOf(st, n.args[0]) == listFrontOf(st, cur)):
				next = ex.listPop(st, cur)
			default:
				next = mk("lremove", "", nil, cur, n)
			}
			ex.listStore(st, c, next)
			ex.bind(st, c, mk("mkiface", "?", nil, mk("lval", "", nil, n)))
		},
		"(*container/list.List).MoveToBack": func(ex *Exec, st *State, c *callCtx) {
			cur := ex.listCur(st, c.args[0])
			n := c.args[1]
			switch {
			case n.op == "lfront" && cur.op == "lset" && cur.args[0] == n.args[0] && cur.args[1] == n:
				cur = mk("lpush", "", nil, ex.listPop(st, cur.args[0]), cur.args[2])
			case n.op == "lfront" && n.args[0] == cur:
				cur = mk("lpush", "", nil, ex.listPop(st, cur), mk("lval", "", nil, n))
			default:
				cur = mk("lmoved", "", nil, cur, n)
			}
			ex.listStore(st, c, cur)
			ex.bind(st, c, nil)
		},
		"fmt.Sprintf": modelSprintf,
		"fmt.Sprint":  modelSprint,
		"fmt.Errorf":  modelErr,
		"errors.New":  modelErr,
		"errors.As":   modelErrorsAs,
		"bytes.Equal": func(ex *Exec, st *State, c *callCtx) {
			ex.bind(st, c, mkEq(ex.text(st, c.args[0]), ex.text(st, c.args[1]), nil))
		},
		"crypto/subtle.ConstantTimeCompare": func(ex *Exec, st *State, c *callCtx) {
			same := mkEq(ex.text(st, c.args[0]), ex.text(st, c.args[1]), nil)
			v, known := st.facts.Eval(same)
			if !known {
				o := ex.fork(st)
				o.top().idx-- // evaluated again, now with the fact
				if o.facts.Assume(same, false) {
					ex.push(o)
				}
				v = st.facts.Assume(same, true)
			}
			if v {
				ex.bind(st, c, mkInt(1))
			} else {
				ex.bind(st, c, mkInt(0))
			}
		},
		"fmt.Fprintf":  modelFprintf,
		"strconv.Itoa": func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, mkItoa(c.args[0])) },
		"strconv.FormatInt": func(ex *Exec, st *State, c *callCtx) {
			if b, ok := c.args[1].isInt(); ok && b == 10 {
				ex.bind(st, c, mkItoa(c.args[0]))
				return
			}
			ex.pureCall(st, c)
		},
		"strings.Join": func(ex *Exec, st *State, c *callCtx) {
			es, ok := ex.elems(st, c.args[0], types.Typ[types.String])
			if !ok {
				if !ex.pureCall(st, c) {
					ex.bind(st, c, mk("pure", "strings.Join", c.resTypes[0], c.args...))
				}
				return
			}
			var ps []*Term
			for i, e := range es {
				if i > 0 {
					ps = append(ps, c.args[1])
				}
				ps = append(ps, e)
			}
			ex.bind(st, c, mkCat(ps...))
		},
		"strings.Contains": func(ex *Exec, st *State, c *callCtx) {
			idx := mk("pure", "strings.Index", types.Typ[types.Int], c.args...)
			st.facts.Assume(mkLeq(mkInt(-1), idx), true)
			ex.bind(st, c, mkLeq(mkInt(0), idx))
		},
		"strings.TrimPrefix": func(ex *Exec, st *State, c *callCtx) { foldStr2(ex, st, c, strings.TrimPrefix) },
		"strings.TrimSuffix": func(ex *Exec, st *State, c *callCtx) { foldStr2(ex, st, c, strings.TrimSuffix) },
	}
	for _, n := range []string{"Builder", "Buffer"} {
		pkg := "strings."
		if n == "Buffer" {
			pkg = "bytes."
		}
		w := func(ex *Exec, st *State, c *callCtx) {
			cur := bufCur(ex, st, c.args[0])
			v := c.args[1]
			switch {
			case strings.HasSuffix(c.name, "WriteByte"), strings.HasSuffix(c.name, "WriteRune"):
				if k, ok := v.isInt(); ok {
					v = mkStr(string(rune(k)))
				} else if strings.HasSuffix(c.name, "WriteByte") {
					v = mk("strof", "", types.Typ[types.String], v)
				} else {
					v = mk("runestr", "", types.Typ[types.String], v)
				}
			case strings.HasSuffix(c.name, ").Write"):
				v = ex.convert(st, v, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
			}
			st.heap[bufLoc(c.args[0])] = mkCat(cur, v)
			switch len(c.resTypes) {
			case 1:
				ex.bind(st, c, mkNil(nil))
			case 2:
				ex.bind(st, c, mkTuple(mkLen(v), mkNil(nil)))
			}
		}
		for _, m := range []string{"WriteString", "WriteByte", "WriteRune", "Write"} {
			models["(*"+pkg+n+")."+m] = w
		}
		models["(*"+pkg+n+").String"] = func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, bufCur(ex, st, c.args[0])) }
		models["(*"+pkg+n+").Len"] = func(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, mkLen(bufCur(ex, st, c.args[0]))) }
		models["(*"+pkg+n+").Grow"] = nop
		models["(*"+pkg+n+").Reset"] = func(ex *Exec, st *State, c *callCtx) { st.heap[bufLoc(c.args[0])] = mkStr("") }
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		models["(*sync."+t+").Lock"] = lockModel('W')
		models["(*sync."+t+").Unlock"] = unlockModel('W')
		models["(*sync."+t+").TryLock"] = tryLockModel('W')
	}
	models["(*sync.RWMutex).RLock"] = lockModel('R')
	models["(*sync.RWMutex).RUnlock"] = unlockModel('R')
	models["(*sync.RWMutex).TryRLock"] = tryLockModel('R')
	models["(*sync.RWMutex).RLocker"] = func(ex *Exec, st *State, c *callCtx) {
		ex.bind(st, c, mk("rlocker", "", c.resTypes[0], c.args[0]))
	}
	models["(sync.Locker).Lock"] = func(ex *Exec, st *State, c *callCtx) {
		if c.args[0].op == "rlocker" {
			c.args = []*Term{c.args[0].args[0]}
			lockModel('R')(ex, st, c)
			return
		}
		lockModel('W')(ex, st, c)
	}
	models["(sync.Locker).Unlock"] = func(ex *Exec, st *State, c *callCtx) {
		if c.args[0].op == "rlocker" {
			c.args = []*Term{c.args[0].args[0]}
			unlockModel('R')(ex, st, c)
			return
		}
		unlockModel('W')(ex, st, c)
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		models["sync/atomic.Load"+t] = atomicLoad
		models["sync/atomic.Store"+t] = atomicStore
		models["sync/atomic.Add"+t] = atomicAdd
		models["sync/atomic.CompareAndSwap"+t] = atomicCAS
		models["sync/atomic.Swap"+t] = atomicSwap
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Value", "Pointer[T]"} {
		p := "(*sync/atomic." + t + ")."
		models[p+"Load"] = atomicLoad
		models[p+"Store"] = atomicStore
		models[p+"Add"] = atomicAdd
		models[p+"CompareAndSwap"] = atomicCAS
		models[p+"Swap"] = atomicSwap
	}
}

func nop(ex *Exec, st *State, c *callCtx) {}

// ---- locks ----

// lockKey: mutexes are identified by their address; a lock reached through an immutable pointer
// field is that field's value.
func lockKey(t *Term) *Term {
	for t.op == "mkiface" {
		t = t.args[0]
	}
	return t
}

func lockModel(mode byte) model {
	return func(ex *Exec, st *State, c *callCtx) {
		k := lockKey(c.args[0])
		re := false
		for _, h := range st.held {
			if h.Key == k {
				re = true
			}
		}
		if re {
			st.event(&Event{Kind: "Relock", Name: string(mode), Addr: k, Pos: c.pos})
		}
		ex.havocShared(st)
		e := &Event{Kind: "Lock", Name: string(mode), Addr: k, Pos: c.pos, Block: true, Defer: c.deferred}
		e.Snap, e.Hv = st.snapshot()
		st.event(e)
		st.held = append(st.held[:len(st.held):len(st.held)], Held{k, mode, c.pos, st.epoch})
	}
}

func tryLockModel(mode byte) model {
	return func(ex *Exec, st *State, c *callCtx) {
		ok := opaque("trylock", types.Typ[types.Bool], c.args[0])
		o := ex.fork(st)
		o.facts.Assume(ok, false)
		if c.value != nil {
			o.top().env[c.value] = mkBool(false)
		}
		ex.push(o)
		lockModel(mode)(ex, st, c)
		ex.bind(st, c, mkBool(true))
	}
}

func unlockModel(mode byte) model {
	return func(ex *Exec, st *State, c *callCtx) {
		k := lockKey(c.args[0])
		e := &Event{Kind: "Unlock", Name: string(mode), Addr: k, Pos: c.pos, Defer: c.deferred}
		e.Snap, e.Hv = st.snapshot()
		idx := -1
		for i := len(st.held) - 1; i >= 0; i-- {
			if st.held[i].Key == k && st.held[i].Mode == mode {
				idx = i
				break
			}
		}
		if idx < 0 {
			st.event(&Event{Kind: "UnlockNotHeld", Name: string(mode), Addr: k, Pos: c.pos})
			return
		}
		st.event(e)
		st.held = append(append([]Held{}, st.held[:idx]...), st.held[idx+1:]...)
		ex.havocShared(st)
	}
}

func modelOnce(ex *Exec, st *State, c *callCtx) {
	o := ex.fork(st)
	o.event(&Event{Kind: "OnceSkip", Addr: c.args[0], Pos: c.pos})
	ex.havocShared(o)
	ex.push(o)
	st.event(&Event{Kind: "OnceRun", Addr: c.args[0], Callee: c.args[1], Pos: c.pos})
	inner := &callCtx{common: c.common, fn: c.args[1], pos: c.pos}
	ex.callValue(st, inner)
}

// callValue calls a function value without arguments.
func (ex *Exec) callValue(st *State, c *callCtx) {
	switch c.fn.op {
	case "func":
		c.callee = c.fn.fn
		c.name = c.callee.String()
	case "closure":
		c.callee, c.free = c.fn.fn, c.fn.args
		c.name = c.callee.String()
	default:
		c.name, c.user = "dynamic", true
	}
	ex.dispatch(st, c)
}

// ---- atomics ----

func atomicLoad(ex *Exec, st *State, c *callCtx) {
	v := opaque("aload", c.resTypes[0], c.args[0])
	st.event(&Event{Kind: "AtomicLoad", Addr: c.args[0], Val: v, Res: v, Pos: c.pos})
	ex.bind(st, c, v)
}

func atomicStore(ex *Exec, st *State, c *callCtx) {
	st.escape(c.args[1])
	st.event(&Event{Kind: "AtomicStore", Addr: c.args[0], Val: c.args[1], Pos: c.pos})
}

func atomicAdd(ex *Exec, st *State, c *callCtx) {
	v := opaque("aadd", c.resTypes[0], c.args[0])
	st.event(&Event{Kind: "AtomicAdd", Addr: c.args[0], Val: c.args[1], Res: v, Pos: c.pos})
	ex.bind(st, c, v)
}

func atomicSwap(ex *Exec, st *State, c *callCtx) {
	v := opaque("aswap", c.resTypes[0], c.args[0])
	st.escape(c.args[1])
	st.event(&Event{Kind: "AtomicSwap", Addr: c.args[0], Val: c.args[1], Res: v, Pos: c.pos})
	ex.bind(st, c, v)
}

func atomicCAS(ex *Exec, st *State, c *callCtx) {
	v := opaque("cas", types.Typ[types.Bool], c.args[0])
	st.escape(c.args[2])
	st.event(&Event{Kind: "AtomicCAS", Addr: c.args[0], Args: []*Term{c.args[1], c.args[2]}, Res: v, Pos: c.pos})
	o := ex.fork(st)
	if o.facts.Assume(v, false) {
		if c.value != nil {
			o.top().env[c.value] = mkBool(false)
		}
		ex.push(o)
	}
	st.facts.Assume(v, true)
	ex.bind(st, c, mkBool(true))
}

// ---- time ----

func zeroTime() *Term { return mk("zerotime", "", nil) }

func tm(t *Term) *Term { return t }

func orOpaque(t *Term) *Term {
	if t == nil {
		return opaque("ovf", types.Typ[types.Int64])
	}
	return t
}

func modelNow(ex *Exec, st *State, c *callCtx) {
	t := mk("call", fmt.Sprintf("time.Now#%d", nextSeq()), c.resTypes[0])
	st.event(&Event{Kind: "Call", Name: "time.Now", Res: t, Pos: c.pos})
	ex.bind(st, c, t)
}

func bindTime(ex *Exec, st *State, c *callCtx, f func(now *Term) *Term) {
	t := mk("call", fmt.Sprintf("time.Now#%d", nextSeq()), nil)
	t.typ = types.Typ[types.Int64]
	st.event(&Event{Kind: "Call", Name: "time.Now", Res: t, Pos: c.pos})
	ex.bind(st, c, orOpaque(f(t)))
}

func idTime(ex *Exec, st *State, c *callCtx) { ex.bind(st, c, c.args[0]) }

func divTime(n int64) model {
	return func(ex *Exec, st *State, c *callCtx) {
		ex.bind(st, c, mkDiv(c.args[0], mkInt(n), types.Typ[types.Int64]))
	}
}

func timerModel(kind string) model {
	return func(ex *Exec, st *State, c *callCtx) {
		a := ex.newAlloc("timer:"+kind, c.resTypes[0], nil)
		e := &Event{Kind: "Timer", Name: kind, Args: c.args, Addr: a, Pos: c.pos}
		st.event(e)
		if kind == "NewTimer" || kind == "NewTicker" {
			tn := strings.TrimPrefix(kind, "New")
			st.heap[mk("fa", "time."+tn+".C", nil, a)] = mk("timerC", kind, nil, a, c.args[0])
			ex.bind(st, c, a)
			return
		}
		ex.bind(st, c, mk("timerC", kind, c.resTypes[0], a, c.args[0]))
	}
}

func ctxModel(ex *Exec, st *State, c *callCtx) {
	n := nextSeq()
	ctx := mk("call", fmt.Sprintf("%s#%d.0", c.name, n), c.resTypes[0], c.args...)
	cancel := mk("call", fmt.Sprintf("%s#%d.1", c.name, n), c.resTypes[1], ctx)
	st.event(&Event{Kind: "Call", Name: c.name, Args: c.args, Res: mkTuple(ctx, cancel), Pos: c.pos})
	st.facts.Assume(mkEq(ctx, mkNil(nil), nil), false)
	ex.bind(st, c, mkTuple(ctx, cancel))
}

// ---- lists ----

func listLoc(l *Term) *Term { return mk("fa", "#list", nil, l) }

func (ex *Exec) listCur(st *State, l *Term) *Term {
	loc := listLoc(l)
	if v, ok := st.heap[loc]; ok {
		return v
	}
	return mk("init", fmt.Sprintf("%d.%d", ex.epochFor(st, loc), st.hv[rootOf(l)]), nil, loc)
}

func (ex *Exec) listEvent(st *State, c *callCtx, kind string) {
	if ex.cfg.Loads || kind != "Load" {
		st.event(&Event{Kind: kind, Addr: listLoc(c.args[0]), Pos: c.pos})
	}
}

func (ex *Exec) listStore(st *State, c *callCtx, v *Term) {
	loc := listLoc(c.args[0])
	st.heap[loc] = v
	e := &Event{Kind: "Store", Addr: loc, Val: v, Pos: c.pos}
	if v.op == "lpush" || v.op == "lpushfront" {
		e.Args = c.args[1:]
	}
	st.event(e)
}

// listSet: an element is given another value where it is.
func (ex *Exec) listSet(st *State, node, v *Term, pos token.Pos) {
	if node.op != "lfront" {
		return
	}
	loc := node.args[0]
	for len(loc.args) > 0 && !(loc.op == "fa" && loc.aux == "#list") {
		loc = loc.args[0]
	}
	if loc.op != "fa" {
		return
	}
	cur := ex.listCur(st, loc.args[0])
	if cur.op == "lset" && cur.args[1] == node {
		cur = cur.args[0]
	}
	st.heap[loc] = mk("lset", "", nil, cur, node, unboxed(v))
	st.event(&Event{Kind: "Store", Addr: loc, Val: st.heap[loc], Pos: pos, Args: []*Term{node}})
}

func listLen(t *Term) *Term {
	switch t.op {
	case "lempty":
		return mkInt(0)
	case "lpush", "lpushfront":
		return tAdd(listLen(t.args[0]), mkInt(1))
	case "lset", "lmoved":
		return listLen(t.args[0])
	case "lpop", "lremove":
		return tSub(listLen(t.args[0]), mkInt(1))
	}
	return mk("len", "list", types.Typ[types.Int], t)
}

// listFrontOf names the list whose front element is the front of t.
func listFrontOf(st *State, t *Term) *Term {
	for t.op == "lpush" && st.facts.Less(mkInt(0), listLen(t.args[0])) {
		t = t.args[0]
	}
	return t
}

func (ex *Exec) listPop(st *State, t *Term) *Term {
	if t.op == "lpush" && st.facts.Less(mkInt(0), listLen(t.args[0])) {
		return mk("lpush", "", nil, ex.listPop(st, t.args[0]), t.args[1])
	}
	return mk("lpop", "", nil, t)
}

// listNil relates "no element" with "empty".
func (ex *Exec) listNil(st *State, node, cur *Term) {
	n := listLen(cur)
	if st.facts.Less(mkInt(0), n) {
		st.facts.Assume(mkEq(node, mkNil(nil), nil), false)
	} else if st.facts.Leq(n, mkInt(0)) {
		st.facts.Assume(mkEq(node, mkNil(nil), nil), true)
	} else {
		o := ex.fork(st)
		if o.facts.Assume(mkLeq(n, mkInt(0)), true) {
			o.facts.Assume(mkEq(node, mkNil(nil), nil), true)
			o.top().idx-- // the call is evaluated again, now with the fact
			ex.push(o)
		}
		st.facts.Assume(mkLess(mkInt(0), n), true)
		st.facts.Assume(mkEq(node, mkNil(nil), nil), false)
	}
}

func unboxed(t *Term) *Term {
	if t.op == "mkiface" {
		return t.args[0]
	}
	return t
}

// ---- strings ----

func bufLoc(b *Term) *Term { return mk("fa", "#buf", nil, b) }

func bufCur(ex *Exec, st *State, b *Term) *Term {
	return ex.load(st, bufLoc(b), types.Typ[types.String])
}

func mkItoa(t *Term) *Term {
	if n, ok := t.isInt(); ok {
		return mkStr(strconv.FormatInt(n, 10))
	}
	return mk("itoa", "", types.Typ[types.String], t)
}

func foldStr2(ex *Exec, st *State, c *callCtx, f func(a, b string) string) {
	a, ok1 := c.args[0].isStr()
	b, ok2 := c.args[1].isStr()
	if ok1 && ok2 {
		ex.bind(st, c, mkStr(f(a, b)))
		return
	}
	ex.pureCall(st, c)
}

// fmtParts renders a format string; verbs become itoa / the string itself / fmt:%x terms.
func fmtParts(format string, args []*Term) ([]*Term, bool) {
	var out []*Term
	indexed := false
	n := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = append(out, mkStr(format[i:]))
			break
		}
		out = append(out, mkStr(format[i:i+j]))
		i += j + 1
		k := i
		for k < len(format) && strings.IndexByte("+-# 0123456789.*[]", format[k]) >= 0 {
			k++
		}
		if k >= len(format) {
			return nil, false
		}
		verb := format[k]
		flags := format[i:k]
		i = k + 1
		if verb == '%' {
			out = append(out, mkStr("%"))
			continue
		}
		if l, r := strings.IndexByte(flags, '['), len(flags)-1; l >= 0 && flags[r] == ']' {
			x, err := strconv.Atoi(flags[l+1 : r])
			if err != nil || x < 1 {
				return nil, false
			}
			n, flags, indexed = x-1, flags[:l], true
		}
		if strings.ContainsAny(flags, "*[]") || n >= len(args) {
			return nil, false
		}
		a := args[n]
		n++
		out = append(out, fmtArg(verb, flags, a))
	}
	if n != len(args) && !indexed {
		return nil, false
	}
	return out, true
}

func fmtArg(verb byte, flags string, a *Term) *Term {
	if a.op == "mkiface" && flags == "+" && verb == 'v' && a.args[0].op == "structval" {
		// "{Name:value Name:value}"
		s, ok := a.typ.Underlying().(*types.Struct)
		if ms := types.NewMethodSet(a.typ); ok && ms.Lookup(nil, "String") == nil && ms.Lookup(nil, "Error") == nil && ms.Lookup(nil, "Format") == nil && len(a.args[0].args) == s.NumFields() {
			ps := []*Term{mkStr("{")}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if !f.Exported() {
					ps = nil
					break
				}
				sep := ""
				if i > 0 {
					sep = " "
				}
				ps = append(ps, mkStr(sep+f.Name()+":"))
				if types.IsInterface(f.Type()) {
					ps = append(ps, mk("fmt", "%+v", types.Typ[types.String], a.args[0].args[i]))
				} else {
					ps = append(ps, fmtArg('v', "", mk("mkiface", typeKey(f.Type()), f.Type(), a.args[0].args[i])))
				}
			}
			if ps != nil {
				return mkCat(append(ps, mkStr("}"))...)
			}
		}
	}
	if a.op == "mkiface" && flags == "" {
		x := a.args[0]
		t := a.typ
		_, named := types.Unalias(t).(*types.Named)
		hasMethods := false
		if named {
			ms := types.NewMethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
					hasMethods = true
				}
			}
		}
		if (verb == 's' || verb == 'v') && isStringType(t) && !hasMethods {
			return x
		}
		if (verb == 'd' || verb == 'v') && isIntType(t) && (!hasMethods || verb == 'd') {
			return mkItoa(x)
		}
		if verb == 'v' && isBoolType(t) {
			return mk("pure", "strconv.FormatBool", types.Typ[types.String], x)
		}
		if verb == 's' && x.op == "bytes" {
			return x.args[0]
		}
		return mk("fmt", "%"+string(verb), types.Typ[types.String], x)
	}
	if a.op == "const" {
		return mk("fmt", "%"+flags+string(verb), types.Typ[types.String], a)
	}
	return mk("fmt", "%"+flags+string(verb), types.Typ[types.String], a)
}

func modelSprintf(ex *Exec, st *State, c *callCtx) {
	es, ok := ex.elems(st, c.args[1], types.NewInterfaceType(nil, nil))
	f, ok2 := c.args[0].isStr()
	st.event(&Event{Kind: "Call", Name: c.name, Args: c.args, Elems: map[*Term][]*Term{c.args[1]: es}, Pos: c.pos})
	if ok && ok2 {
		if ps, ok := fmtParts(f, es); ok {
			ex.bind(st, c, mkCat(ps...))
			return
		}
	}
	ex.bind(st, c, opaque("sprintf", types.Typ[types.String], append([]*Term{c.args[0], c.args[1]}, es...)...))
}

// text is the content of a byte slice as a string.
func (ex *Exec) text(st *State, t *Term) *Term {
	return ex.convert(st, t, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
}

// modelErrorsAs: on success the target holds an error found in the chain of the first argument.
func modelErrorsAs(ex *Exec, st *State, c *callCtx) {
	target := c.args[1]
	res := mk("pure", "errors.As:"+typeKey(target.typ), types.Typ[types.Bool], c.args[0])
	ptr, ok := types.Unalias(targetType(target)).(*types.Pointer)
	if target.op != "mkiface" || !ok {
		ex.bind(st, c, opaque("errors.As", types.Typ[types.Bool], c.args...))
		ex.havocReach(st, target)
		return
	}
	v, known := st.facts.Eval(res)
	if !known {
		o := ex.fork(st)
		o.top().idx-- // evaluated again, now with the fact
		if o.facts.Assume(res, false) {
			ex.push(o)
		}
		st.facts.Assume(res, true)
		v = true
	}
	st.event(&Event{Kind: "Call", Name: c.name, Args: c.args, Pos: c.pos, Res: res})
	if v {
		found := mk("aserr", typeKey(ptr.Elem()), ptr.Elem(), c.args[0])
		st.facts.Assume(mkEq(found, mkNil(nil), nil), false)
		st.facts.Assume(mkEq(c.args[0], mkNil(nil), nil), false)
		ex.store(st, target.args[0], found, ptr.Elem())
	}
	ex.bind(st, c, mkBool(v))
}

func targetType(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// modelFprintf: formatted output into a text buffer.
func modelFprintf(ex *Exec, st *State, c *callCtx) {
	w := c.args[0]
	if w.op == "mkiface" && (targetType(w).String() == "*strings.Builder" || targetType(w).String() == "*bytes.Buffer") {
		es, ok := ex.elems(st, c.args[2], types.NewInterfaceType(nil, nil))
		f, ok2 := c.args[1].isStr()
		text := opaque("sprintf", types.Typ[types.String], append([]*Term{c.args[1], c.args[2]}, es...)...)
		if ok && ok2 {
			if ps, ok := fmtParts(f, es); ok {
				text = mkCat(ps...)
			}
		}
		st.heap[bufLoc(w.args[0])] = mkCat(bufCur(ex, st, w.args[0]), text)
		ex.bind(st, c, mkTuple(mkLen(text), mkNil(nil)))
		return
	}
	ex.opaqueCall(st, c)
}

func modelSprint(ex *Exec, st *State, c *callCtx) {
	es, ok := ex.elems(st, c.args[0], types.NewInterfaceType(nil, nil))
	var parts []*Term
	text := true // the operand before is a string
	for _, e := range es {
		t, _ := e.typ.(types.Type)
		if (e.op != "mkiface" || t == nil) && len(es) > 1 {
			ok = false
			break
		}
		s := t != nil && isStringType(t)
		if !s && !text {
			parts = append(parts, mkStr(" ")) // between operands when neither is a string
		}
		text = s
		parts = append(parts, fmtArg('v', "", e))
	}
	if ok && len(parts) > 0 {
		ex.bind(st, c, mkCat(parts...))
		return
	}
	ex.bind(st, c, opaque("sprint", types.Typ[types.String], es...))
}

func modelErr(ex *Exec, st *State, c *callCtx) {
	var parts []*Term
	if c.name == "fmt.Errorf" {
		es, ok := ex.elems(st, c.args[1], types.NewInterfaceType(nil, nil))
		f, ok2 := c.args[0].isStr()
		if ok && ok2 {
			if ps, ok := fmtParts(f, es); ok {
				parts = []*Term{mkCat(ps...)}
			}
		}
		if parts == nil {
			parts = append([]*Term{c.args[0]}, es...)
		}
	} else {
		parts = c.args
	}
	t := mk("newerr", fmt.Sprint(nextSeq()), c.resTypes[0], parts...)
	ex.bind(st, c, t)
}

var _ = constant.MakeInt64
var _ = math.MaxInt64
