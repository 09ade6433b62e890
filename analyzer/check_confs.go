package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["N01"] = checkN01
	checks["N02"] = checkN02
	checks["N05"] = checkN05
	checks["N06"] = checkN06
	checks["N07"] = checkN07
}

const (
	confsPkg  = "confs"
	mysqlLib  = "github.com/go-sql-driver/mysql"
	oraLib    = "github.com/sijms/go-ora/v2"
	esLib     = "github.com/elastic/go-elasticsearch/v7"
	sqlPlugin = "github.com/SkyAPM/go2sky-plugins/sql"
)

// client is one constructor of package confs.
type client struct {
	r      *Report
	name   string
	kind   string
	traced bool
	fn     *ssa.Function
	conf   *Term // the configuration
	confT  types.Type
	cust   *Term // the customiser
	tracer *Term
	ex     *Exec
	ps     []*State
}

var clientKinds = []struct{ name, kind string }{
	{"NewMySqlDb", "mysql"}, {"NewMySqlDbWithTracer", "mysql"},
	{"NewOracleDb", "oracle"}, {"NewOracleDbWithTracer", "oracle"},
	{"NewPostgresqlDb", "postgres"}, {"NewPostgresqlDbWithTracer", "postgres"},
	{"NewRedisClient", "redis"}, {"NewEsClient", "es"}, {"NewFastHttpClient", "http"},
}

func (r *Report) clients(kinds ...string) (out []*client) {
	for _, k := range clientKinds {
		if !has(kinds, k.kind) {
			continue
		}
		fn := r.P.function(confsPkg, k.name)
		if fn == nil {
			r.Missing(k.name)
			continue
		}
		c := &client{r: r, name: k.name, kind: k.kind, traced: strings.HasSuffix(k.name, "Tracer"), fn: fn}
		for i, p := range fn.Params {
			switch u := p.Type().Underlying().(type) {
			case *types.Signature:
				c.cust = paramTerm(fn, i)
			case *types.Pointer:
				if strings.HasPrefix(typeName(u.Elem()), modPath) {
					c.conf, c.confT = paramTerm(fn, i), u.Elem()
				} else {
					c.tracer = paramTerm(fn, i)
				}
			}
		}
		if !r.Ob(c.conf != nil && c.cust != nil && (c.tracer != nil) == c.traced, k.name+"/parameters", fn.Pos(), "no configuration, customiser or tracer among the parameters") {
			continue
		}
		c.ex, c.ps = r.run(k.name, Config{Summarise: true}, fn)
		out = append(out, c)
	}
	r.Count("constructors", len(out))
	return
}

// f is the value of a field of the configuration.
func (c *client) f(name string) *Term {
	a, t := field(c.conf, c.confT, name)
	if a == nil {
		c.r.Missing(typeName(c.confT) + "." + name)
		return mk("missing", name, nil)
	}
	return c.ex.load(newState(), a, t)
}

func (c *client) set(p *State, name string) (yes, no bool) {
	z := mkEqInt(mkLen(c.f(name)), mkInt(0))
	return p.facts.Refutes(z), p.facts.Holds(z)
}

func (c *client) returns() (out []*State) {
	for _, p := range c.ps {
		if p.out == "Return" {
			out = append(out, p)
		}
	}
	c.r.Ob(len(out) > 0, c.name+"/returns", c.fn.Pos(), "never returns a client")
	return
}

// open is the call that opens the database of a path.
func (c *client) open(p *State) *Event {
	var out *Event
	for _, e := range p.events {
		if e.Kind == "Call" && (e.Name == "database/sql.Open" || e.Name == sqlPlugin+".Open") {
			if out != nil {
				return nil
			}
			out = e
		}
	}
	return out
}

// target is the driver's configuration a path uses: the object or map, and the event that uses it.
func (c *client) target(p *State) (obj *Term, use *Event) {
	switch c.kind {
	case "mysql":
		if o := c.open(p); o != nil {
			for _, e := range calls(p, "(*"+mysqlLib+".Config).FormatDSN") {
				if e.Res == o.Args[1] {
					return e.Args[0], e
				}
			}
		}
	case "oracle":
		if o := c.open(p); o != nil {
			for _, e := range calls(p, oraLib+".BuildUrl") {
				if e.Res == o.Args[1] {
					return e.Args[5], e
				}
			}
		}
	case "postgres":
		if o := c.open(p); o != nil {
			var m *Term
			for _, e := range p.events {
				if e.Kind == "RangeEnd" && e.Seq < o.Seq {
					m = e.Addr
				}
			}
			if m != nil {
				return m, o
			}
		}
	case "redis":
		for _, e := range calls(p, "github.com/go-redis/redis/v7.NewClient") {
			return e.Args[0], e
		}
	case "es":
		for _, e := range calls(p, esLib+".NewClient") {
			v := e.Args[0]
			// the configuration is passed by value: a copy of this object
			if u := userCallsOf(p, c.cust); len(u) > 0 {
				obj := u[len(u)-1].Args[0]
				if c.ex.valAt(p, e, obj, v.typ) == v {
					return obj, e
				}
			}
			return v, e
		}
	case "http":
		if len(p.results) == 1 {
			return p.results[0], nil
		}
	}
	return nil, nil
}

// before is the moment at which the settings of the configuration must be in place: when the customiser is
// called, else when the driver gets them.
func (c *client) before(p *State, obj *Term, use *Event) *Event {
	for _, e := range userCallsOf(p, c.cust) {
		if len(e.Args) == 1 && e.Args[0] == obj {
			return e
		}
	}
	return use
}

// get reads a field of the driver's configuration at an event (nil: at the end).
func (c *client) get(p *State, at *Event, obj *Term, T types.Type, name string) *Term {
	if obj.op == "structval" {
		s, _ := openStruct(T)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return obj.args[i]
			}
		}
		return nil
	}
	a, t := field(obj, T, name)
	if a == nil {
		return nil
	}
	if at == nil {
		return c.ex.load(p, a, t)
	}
	return c.ex.valAt(p, at, a, t)
}

type wantField struct {
	name string
	val  *Term
}

func (c *client) addr() *Term { return mkCat(c.f("Host"), mkStr(":"), mkItoa(c.f("Port"))) }

// expect: the fields of obj are as wanted and all others untouched.
func (c *client) expect(p *State, at *Event, obj *Term, T types.Type, what string, wants []wantField, free ...string) {
	r := c.r
	_, s := structType(T)
	if s == nil {
		r.Missing(what)
		return
	}
	seen := map[string]bool{}
	for _, w := range wants {
		seen[w.name] = true
		got := c.get(p, at, obj, T, w.name)
		r.Ob(got == w.val || got != nil && p.facts.Same(got, w.val), c.name+"/"+w.name, c.fn.Pos(), "%s.%s is %v, wanted %v: %s", what, w.name, got, w.val, r.P.pathOf(p))
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if seen[f.Name()] || has(free, f.Name()) || !f.Exported() {
			continue
		}
		got := c.get(p, at, obj, T, f.Name())
		a, _ := field(obj, T, f.Name())
		own := got == nil || isZero(got) || got.op == "init" && got.args[0] == a
		r.Ob(own, c.name+"/other/"+f.Name(), c.fn.Pos(), "%s.%s is set to %v: %s", what, f.Name(), got, r.P.pathOf(p))
	}
	r.Count("settings", len(wants))
}

func isZero(t *Term) bool {
	if t.op == "structval" {
		for _, a := range t.args {
			if !isZero(a) {
				return false
			}
		}
		return true
	}
	if t.isNil() {
		return true
	}
	if b, ok := t.isBool(); ok {
		return !b
	}
	if s, ok := t.isStr(); ok {
		return s == ""
	}
	if n, ok := t.isInt(); ok {
		return n == 0
	}
	return t == zeroOf(t.typ)
}

// elemOf: t is element k of the list P.
func elemOf(t, P *Term, k int64) bool {
	return t != nil && t.op == "init" && t.args[0].op == "ia" && t.args[0].args[0] == P && t.args[0].args[1] == mkInt(k)
}

// params: on p the key=value pairs of conf.Params end up in the map M, and M holds nothing else but the
// entries of want, each if its condition holds.
type wantEntry struct {
	key       string
	val, zero *Term // present unless zero holds
}

func (c *client) params(p *State, M *Term, want []wantEntry) {
	r, where := c.r, c.r.P.pathOf(p)
	if !r.Ob(M != nil && M.op == "alloc", c.name+"/params-map", c.fn.Pos(), "the extra parameters are collected in %v, not a map of its own: %s", M, where) {
		return
	}
	text := c.f("Params")
	n := 0
	for _, e := range p.events {
		if e.Kind != "LoopEnter" {
			continue
		}
		for _, s := range calls(p, "strings.Split") {
			if amp, _ := s.Args[1].isStr(); s.Args[0] != text || amp != "&" {
				continue
			}
			w, _ := c.ex.loopOver(c.ps, e, s.Res)
			if w == nil {
				continue
			}
			n++
			r.Ob(w.finished(p), c.name+"/params-whole", e.Pos, "leaves the list of parameters early: %s", where)
			c.paramsLoop(w, M)
			break
		}
	}
	_, none := c.set(p, "Params")
	r.Ob(n == 1 || n == 0 && none, c.name+"/params", c.fn.Pos(), "the extra parameters are walked %d times: %s", n, where)
	var ups []*Event
	for _, e := range p.events {
		if (e.Kind == "MapUpdate" || e.Kind == "MapDelete" || e.Kind == "MapClear") && e.Addr == M {
			ups = append(ups, e)
		}
	}
	found := map[*Event]bool{}
	for _, w := range want {
		var mine []*Event
		for _, e := range ups {
			if k, ok := e.Args[0].isStr(); ok && k == w.key && e.Kind == "MapUpdate" {
				mine = append(mine, e)
				found[e] = true
			}
		}
		ok := len(mine) == 0 && p.facts.Holds(w.zero) || len(mine) == 1 && mine[0].Val == w.val && p.facts.Refutes(w.zero)
		r.Ob(ok, c.name+"/option/"+w.key, c.fn.Pos(), "option %q is set %d times, wanted %v unless %v: %s", w.key, len(mine), w.val, w.zero, where)
	}
	for _, e := range ups {
		r.Ob(found[e], c.name+"/option/other", e.Pos, "option %v is set or removed: %s", e.Args, where)
	}
	r.Count("options", len(want)+1)
}

// kvPair is what an iteration knows about the equals signs of its pair.
type kvPair struct {
	seen     bool
	one      []lit // hold if there is exactly one
	first    []lit // each says that there is one
	only     []lit // each says that there is no second one, given that there is one
	exact    []lit // each says that there is exactly one
	key, val []func(t *Term) bool
}

type lit struct {
	t *Term
	v bool
}

func anyHolds(f *Facts, ls []lit) bool {
	for _, l := range ls {
		if v, known := f.Eval(l.t); known && v == l.v {
			return true
		}
	}
	return false
}

func isOne(fs []func(t *Term) bool, t *Term) bool {
	for _, f := range fs {
		if f(t) {
			return true
		}
	}
	return false
}

func equalsSign(t *Term) bool {
	if s, ok := t.isStr(); ok {
		return s == "="
	}
	n, ok := t.isInt()
	return ok && n == '='
}

// splitPair collects the ways in which the iteration q looks for the equals signs of its element.
func (c *client) splitPair(w *sliceLoop, q *State) (k kvPair) {
	var rests, finds, lasts []*Term
	elem := func(P *Term, i int64) func(t *Term) bool {
		return func(t *Term) bool { return elemOf(t, P, i) }
	}
	is := func(x *Term) func(t *Term) bool { return func(t *Term) bool { return t == x } }
	seen := func(ls ...lit) { k.seen, k.one = true, append(k.one, ls...) }
	str := types.Typ[types.String]
	body := w.body(q)
	for _, e := range body {
		if e.Kind != "Call" || e.Res == nil || len(e.Args) < 2 || !w.isElem(e.Args[0]) || !equalsSign(e.Args[1]) {
			continue
		}
		E := e.Args[0]
		switch e.Name {
		case "strings.Split", "strings.SplitN":
			n := int64(-1)
			if e.Name == "strings.SplitN" {
				n, _ = e.Args[2].isInt()
			}
			two := lit{mkEqInt(mkLen(e.Res), mkInt(2)), true}
			k.key, k.val = append(k.key, elem(e.Res, 0)), append(k.val, elem(e.Res, 1))
			switch {
			case n < 0 || n >= 3:
				seen(two)
				k.exact = append(k.exact, two)
			case n == 2:
				seen(two)
				k.first = append(k.first, two, lit{mkLess(mkLen(e.Res), mkInt(2)), false})
				rests = append(rests, c.ex.load(q, mk("ia", "", types.NewPointer(str), e.Res, mkInt(1)), str))
			}
		case "strings.Cut":
			ok := lit{resPart(e, 2), true}
			seen(ok)
			k.first = append(k.first, ok)
			k.key, k.val = append(k.key, is(resPart(e, 0))), append(k.val, is(resPart(e, 1)))
			rests = append(rests, resPart(e, 1))
		case "strings.Index", "strings.IndexByte", "strings.LastIndex", "strings.LastIndexByte":
			found := lit{mkLess(e.Res, mkInt(0)), false}
			seen(found)
			k.first = append(k.first, found)
			rest := mk("substr", "", str, E, tAdd(e.Res, mkInt(1)), mkLen(E))
			k.key, k.val = append(k.key, is(mk("substr", "", str, E, mkInt(0), e.Res))), append(k.val, is(rest))
			if strings.HasPrefix(e.Name, "strings.Last") {
				lasts = append(lasts, e.Res)
			} else {
				finds = append(finds, e.Res)
				rests = append(rests, rest)
			}
		case "strings.Count":
			one := lit{mkEqInt(e.Res, mkInt(1)), true}
			seen(one)
			k.exact = append(k.exact, one)
			k.only = append(k.only, lit{mkLess(mkInt(1), e.Res), false})
			k.first = append(k.first, lit{mkEqInt(e.Res, mkInt(0)), false}, lit{mkLess(e.Res, mkInt(1)), false})
		}
	}
	for _, x := range rests { // strings.Contains(rest, "=")
		none := lit{mkLeq(mkInt(0), mk("pure", "strings.Index", types.Typ[types.Int], x, mkStr("="))), false}
		k.one, k.only = append(k.one, none), append(k.only, none)
	}
	for _, a := range finds {
		for _, b := range lasts {
			same := lit{mkEqInt(a, b), true}
			k.one, k.only = append(k.one, same), append(k.only, same)
		}
	}
	for _, e := range body {
		if e.Kind != "Call" || e.Res == nil || len(e.Args) < 2 || !equalsSign(e.Args[1]) || !has2(rests, e.Args[0]) {
			continue
		}
		var none lit
		switch e.Name {
		case "strings.Index", "strings.IndexByte", "strings.LastIndex":
			none = lit{mkLess(e.Res, mkInt(0)), true}
		case "strings.Count":
			none = lit{mkEqInt(e.Res, mkInt(0)), true}
		default:
			continue
		}
		k.one, k.only = append(k.one, none), append(k.only, none)
	}
	return
}

func (c *client) paramsLoop(w *sliceLoop, M *Term) {
	r := c.r
	taken, left := 0, 0
	for _, q := range w.iterations(c.ps) {
		where := r.P.pathOf(q)
		k := c.splitPair(w, q)
		var ups, escs []*Event
		for _, e := range w.body(q) {
			switch {
			case e.Kind == "Call" && e.Name == "net/url.QueryUnescape":
				escs = append(escs, e)
			case e.Kind == "MapUpdate" || e.Kind == "MapDelete" || e.Kind == "MapClear":
				ups = append(ups, e)
			}
		}
		if !r.Ob(k.seen, c.name+"/params-split", w.enter.Pos, "a pair is not split at its equals signs: %s", where) {
			continue
		}
		if len(ups) == 0 {
			left++
			f := q.facts.clone()
			ok := true
			for _, l := range k.one {
				ok = ok && f.Assume(l.t, l.v)
			}
			for _, e := range escs {
				ok = ok && f.Assume(mkEq(resPart(e, 1), mkNil(nil), nil), true)
			}
			r.Ob(!ok, c.name+"/params-kept", w.enter.Pos, "a well-formed pair may be left out: %s", where)
			continue
		}
		taken++
		u := ups[0]
		pair := anyHolds(q.facts, k.exact) || anyHolds(q.facts, k.first) && anyHolds(q.facts, k.only)
		ok := len(ups) == 1 && u.Kind == "MapUpdate" && u.Addr == M && isOne(k.key, u.Args[0]) && pair
		good := false
		for _, e := range escs {
			good = good || isOne(k.val, e.Args[0]) && u.Val == resPart(e, 0) && q.facts.Holds(mkEq(resPart(e, 1), mkNil(nil), nil))
		}
		r.Ob(ok && good, c.name+"/params-pair", u.Pos, "a pair sets %v to %v, wanted its key and unescaped value: %s", u.Args, u.Val, where)
	}
	r.Ob(taken > 0 && left > 0, c.name+"/params-cases", w.enter.Pos, "%d ways to take and %d to ignore a pair", taken, left)
}

func checkN02(r *Report) {
	r.Rule("on every path that hands settings to a driver, at the moment the customiser is called (or else the driver is), every option of the driver's configuration that belongs to a setting holds exactly that setting, and every other option is untouched; the text of extra parameters is split at '&' and '=', and each iteration of that one whole walk puts the unescaped value under its key exactly when there are two parts and unescaping succeeded")
	r.Assume("the drivers' FormatDSN, BuildUrl and url parsing give each option the value it has in the connection string")
	for _, c := range r.clients("mysql", "oracle", "postgres", "redis", "es", "http") {
		for _, p := range c.ps {
			if p.out == "LoopBack" {
				continue
			}
			obj, use := c.target(p)
			if obj == nil {
				r.ObIf(p.out == "Return" || p.out != "Panic" && p.out != "Exit", c.name+"/use", c.fn.Pos(), "ends with %s without handing a configuration to the driver: %s", p.out, r.P.pathOf(p))
				continue
			}
			if c.kind == "http" && p.out != "Return" {
				continue
			}
			c.mapping(p, obj, use)
			r.Count("mappings", 1)
		}
	}
	r.Floor("constructors", 9)
	r.Floor("mappings", 30)
	r.Floor("settings", 200)
}

func (c *client) mapping(p *State, obj *Term, use *Event) {
	r, where := c.r, c.r.P.pathOf(p)
	at := c.before(p, obj, use)
	if o := c.open(p); o != nil {
		d, _ := o.Args[0].isStr()
		r.Ob(d == c.kind, c.name+"/driver", o.Pos, "opens driver %v", o.Args[0])
		if c.traced {
			r.Ob(o.Name == sqlPlugin+".Open" && o.Args[2] == c.tracer, c.name+"/tracer", o.Pos, "is not traced with the given tracer")
		}
	}
	lib := func(path, name string) types.Type {
		if q := r.P.prog.ImportedPackage(path); q != nil {
			if t := q.Type(name); t != nil {
				return t.Type()
			}
		}
		r.Missing(path + "." + name)
		return types.Typ[types.Invalid]
	}
	itoa := mkItoa(c.f0("ConnectTimeout"))
	unset := func(name string) *Term { return mkEqInt(mkLen(c.f(name)), mkInt(0)) }
	switch c.kind {
	case "mysql":
		T := lib(mysqlLib, "Config")
		r.Ob(obj.op == "call" && strings.HasPrefix(obj.aux, mysqlLib+".NewConfig#"), c.name+"/defaults", use.Pos, "starts from %v, not the driver's defaults", obj)
		w := []wantField{{"Timeout", c.f("Timeout")}, {"ReadTimeout", c.f("ReadTimeout")}, {"WriteTimeout", c.f("WriteTimeout")},
			{"User", c.f("Username")}, {"Passwd", c.f("Password")}, {"Net", mkStr("tcp")}, {"Addr", c.addr()}, {"DBName", c.f("Database")}, {"ParseTime", c.f("ParseTime")}}
		yes, no := c.set(p, "Loc")
		switch {
		case yes:
			ok := false
			got := c.get(p, at, obj, T, "Loc")
			for _, e := range calls(p, "time.LoadLocation") {
				// it never gives nil without an error
				none := p.facts.Holds(mkEq(resPart(e, 0), mkNil(nil), nil))
				ok = ok || e.Args[0] == c.f("Loc") && (got == resPart(e, 0) || none) && p.facts.Holds(mkEq(resPart(e, 1), mkNil(nil), nil))
			}
			r.Ob(ok, c.name+"/Loc", c.fn.Pos(), "Loc is %v although a location is configured: %s", got, where)
			c.expect(p, at, obj, T, "mysql.Config", w, "Loc", "Params")
		case no:
			c.expect(p, at, obj, T, "mysql.Config", w, "Params")
		default:
			r.Ob(false, c.name+"/Loc", c.fn.Pos(), "whether a location is configured is not looked at: %s", where)
		}
		c.params(p, c.get(p, at, obj, T, "Params"), nil)
	case "oracle":
		a := use.Args
		for i, name := range []string{"Host", "Port", "Service", "Username", "Password"} {
			r.Ob(a[i] == c.f(name), c.name+"/"+name, use.Pos, "argument %d of BuildUrl is %v, wanted %s: %s", i, a[i], name, where)
		}
		r.Count("settings", 5)
		c.params(p, obj, []wantEntry{{"SID", c.f("Sid"), unset("Sid")}, {"server", c.f("Servers"), unset("Servers")},
			{"CONNECTION TIMEOUT", itoa, mkEqInt(c.f("ConnectTimeout"), mkInt(0))}})
	case "postgres":
		c.pgDsn(p, use)
		c.params(p, obj, []wantEntry{{"connect_timeout", itoa, mkEqInt(c.f("ConnectTimeout"), mkInt(0))}})
	case "redis":
		c.expect(p, at, obj, lib("github.com/go-redis/redis/v7", "Options"), "redis.Options", []wantField{{"Addr", c.addr()}, {"Password", c.f("Password")},
			{"PoolSize", c.f("Pool")}, {"MinIdleConns", c.f("MinIdle")}, {"DB", c.f("Db")}})
	case "es":
		T := lib(esLib, "Config")
		addrs := (*Term)(nil)
		for _, e := range calls(p, "strings.Split") {
			if sep, _ := e.Args[1].isStr(); e.Args[0] == c.f("Addrs") && sep == "," {
				addrs = e.Res
			}
		}
		c.expect(p, at, obj, T, "elasticsearch.Config", []wantField{{"Addresses", addrs}, {"Username", c.f("Username")}, {"Password", c.f("Password")}}, "Transport")
		tr := unbox1(c.get(p, at, obj, T, "Transport"))
		HT := lib("net/http", "Transport")
		clone := tr.op == "call" && strings.HasPrefix(tr.aux, "(*net/http.Transport).Clone#")
		r.Ob(clone, c.name+"/Transport", use.Pos, "uses the transport %v, not a copy of the default one", tr)
		if clone {
			c.expect(p, at, tr, HT, "http.Transport", []wantField{{"MaxConnsPerHost", c.f("MaxConnsPerHost")}, {"MaxIdleConnsPerHost", c.f("MaxIdleConnsPerHost")}}, "ResponseHeaderTimeout")
			got := c.get(p, at, tr, HT, "ResponseHeaderTimeout")
			r.Ob(got.op == "const" || got.op == "init" && got.args[0].args[0] == tr, c.name+"/ResponseHeaderTimeout", use.Pos, "ResponseHeaderTimeout is %v", got)
		}
	case "http":
		names := []string{"MaxConnsPerHost", "MaxIdleConnDuration", "MaxConnDuration", "ReadTimeout", "WriteTimeout", "MaxConnWaitTimeout"}
		var w []wantField
		for _, n := range names {
			w = append(w, wantField{n, c.f(n)})
		}
		c.expect(p, at, obj, lib("github.com/valyala/fasthttp", "Client"), "fasthttp.Client", w, "TLSConfig")
	}
}

// f0: the field if the configuration has it.
func (c *client) f0(name string) *Term {
	if a, _ := field(c.conf, c.confT, name); a == nil {
		return mkInt(0)
	}
	return c.f(name)
}

// ---- N05 ----

func checkN05(r *Report) {
	r.Rule("every path on which a database, Redis or Elasticsearch constructor returns has opened the client, pinged it and knows that both succeeded (for Elasticsearch also that the answer is no error response); what it returns is that client; a returned database client has had each pool limit set, last to the configured value, and the body of the ping's answer is closed if an Elasticsearch client is returned; every path that terminates instead knows that some operation failed or that an Oracle configuration names neither service nor SID, and none returns in that case")
	r.Assume("(*log.Logger).Fatal does not return; ping calls of the client libraries report a failed connection test")
	for _, c := range r.clients("mysql", "oracle", "postgres", "redis", "es") {
		for _, p := range c.ps {
			r.ObIf(p.out != "Return" && p.out != "LoopBack" && p.out != "Exit" && p.out != "Panic", c.name+"/ends", c.fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p))
			if p.out == "Exit" || p.out == "Panic" {
				r.Count("failing_paths", 1)
				r.Ob(c.failure(p), c.name+"/gives-up", c.fn.Pos(), "terminates although neither opening nor pinging is known to have failed and the configuration is not known to be unusable: %s", r.P.pathOf(p))
			}
		}
		for _, p := range c.returns() {
			if c.kind == "oracle" {
				_, neither := p.factsWith(nil, mkEqInt(mkLen(c.f("Sid")), mkInt(0)), mkEqInt(mkLen(c.f("Service")), mkInt(0)))
				r.Ob(!neither, c.name+"/service", c.fn.Pos(), "connects although neither a service nor a SID may be configured: %s", r.P.pathOf(p))
			}
			where := r.P.pathOf(p)
			isNil := func(t *Term) bool { return t != nil && p.facts.Holds(mkEq(t, mkNil(nil), nil)) }
			var db *Term
			switch c.kind {
			case "redis":
				for _, e := range calls(p, "github.com/go-redis/redis/v7.NewClient") {
					db = e.Res
				}
				ok := false
				for _, e := range redisCalls(p) {
					if cmd, _ := redisCall(e); cmd == "Ping" && ofClient(e.Args[0], db) {
						_, errs := cmdResult(p, e.Res)
						bad, good := erred(p, errs)
						ok = ok || good && !bad
					}
				}
				r.Ob(db != nil && ok, c.name+"/ping", c.fn.Pos(), "returns although no ping is known to have succeeded: %s", where)
				r.Ob(p.results[0] == db, c.name+"/result", c.fn.Pos(), "returns %v", p.results[0])
				continue
			case "es":
				for _, e := range calls(p, esLib+".NewClient") {
					if isNil(resPart(e, 1)) {
						db = resPart(e, 0)
					}
				}
				r.Ob(db != nil, c.name+"/open", c.fn.Pos(), "returns although creating the client may have failed: %s", where)
				ok := false
				for _, e := range p.events {
					if e.Kind != "Call" || !strings.HasSuffix(e.Name, "Ping") && e.Name != "dynamic" || len(e.Args) > 0 && e.Name != "dynamic" && !ofClient(e.Args[0], db) {
						continue
					}
					if e.Name == "dynamic" && !(e.Callee != nil && e.Callee.op == "init" && e.Callee.args[0].op == "fa" && strings.HasSuffix(e.Callee.args[0].aux, ".Ping") && ofClient(e.Callee, db)) {
						continue
					}
					if !isNil(resPart(e, 1)) {
						continue
					}
					for _, x := range p.events {
						if x.Kind == "Call" && strings.HasSuffix(x.Name, "Response).IsError") && sameBase(x.Args[0], resPart(e, 0)) {
							ok = ok || p.facts.Refutes(x.Res)
						}
					}
					r.Ob(r.bodyClosed(p, e), c.name+"/connection-returned", e.Pos, "returns although the answer to the ping was not closed, so that its connection stays in use: %s", where)
				}
				r.Ob(ok, c.name+"/ping", c.fn.Pos(), "returns although no ping is known to have been answered without error: %s", where)
				r.Ob(p.results[0] == db, c.name+"/result", c.fn.Pos(), "returns %v", p.results[0])
				continue
			}
			o := c.open(p)
			if !r.Ob(o != nil && isNil(resPart(o, 1)), c.name+"/open", c.fn.Pos(), "returns although opening may have failed: %s", where) {
				continue
			}
			db = resPart(o, 0)
			inner := func(t *Term) bool {
				return t == db && !c.traced || c.traced && t != nil && t.op == "init" && t.args[0].op == "fa" && strings.HasSuffix(t.args[0].aux, ".DB.DB") && t.args[0].args[0] == db
			}
			r.Ob(inner(p.results[0]), c.name+"/result", c.fn.Pos(), "returns %v, not the opened database", p.results[0])
			pinged := false
			last := map[string]*Event{}
			for _, e := range p.events {
				if e.Kind != "Call" || len(e.Args) == 0 || !inner(e.Args[0]) && e.Args[0] != db {
					continue
				}
				switch m := e.Name[strings.LastIndex(e.Name, ".")+1:]; m {
				case "Ping", "PingContext":
					pinged = pinged || isNil(e.Res)
				case "SetMaxOpenConns", "SetMaxIdleConns", "SetConnMaxLifetime", "SetConnMaxIdleTime":
					last[m] = e
				case "Close":
					r.Ob(false, c.name+"/closed", e.Pos, "returns a closed client: %s", where)
				}
			}
			r.Ob(pinged, c.name+"/ping", c.fn.Pos(), "returns although no ping is known to have succeeded: %s", where)
			for _, n := range []string{"MaxOpenConns", "MaxIdleConns", "ConnMaxLifetime"} {
				e := last["Set"+n]
				r.Ob(e != nil && e.Args[1] == c.f(n), c.name+"/"+n, c.fn.Pos(), "%s is not set to the configured value: %s", n, where)
			}
			r.Count("returns_db", 1)
		}
	}
	r.Floor("constructors", 8)
	r.Floor("returns_db", 12)
}

// failure: the facts of p know that an operation failed, or that an Oracle configuration names no database.
func (c *client) failure(p *State) bool {
	if c.kind == "oracle" {
		_, no1 := c.set(p, "Sid")
		_, no2 := c.set(p, "Service")
		if no1 && no2 {
			return true
		}
	}
	for _, e := range p.events {
		if e.Kind != "Call" || e.Res == nil {
			continue
		}
		if strings.HasSuffix(e.Name, "Response).IsError") && p.facts.Holds(e.Res) {
			return true
		}
		for i := 0; i < 3; i++ {
			t := e.Res
			if t.op == "tuple" {
				if i >= len(t.args) {
					break
				}
				t = t.args[i]
			}
			if t.typ != nil && t.typ.String() == "error" && p.facts.Refutes(mkEq(t, mkNil(nil), nil)) {
				return true
			}
		}
		if _, err := cmdResult(p, e.Res); len(err) > 0 {
			if bad, _ := erred(p, err); bad {
				return true
			}
		}
	}
	return false
}

// bodyClosed: the body of the response which e got is closed afterwards, or there is none.
func (r *Report) bodyClosed(p *State, e *Event) bool {
	res := resPart(e, 0)
	body := func(t *Term) bool {
		return t != nil && t.op == "init" && t.args[0].op == "fa" && strings.HasSuffix(t.args[0].aux, ".Body") && sameBase(t.args[0].args[0], res)
	}
	after := false
	for _, x := range p.events {
		after = after || x == e
		if after && x.Kind == "Call" && strings.HasSuffix(x.Name, ".Close") && len(x.Args) > 0 && body(unbox1(x.Args[0])) {
			return true
		}
	}
	for _, l := range p.facts.log {
		if l.Val && l.T.op == "eq" && (body(l.T.args[0]) || body(l.T.args[1])) && p.facts.Holds(l.T) && (l.T.args[0].op == "nil" || l.T.args[1].op == "nil") {
			return true
		}
	}
	return false
}

func sameBase(a, b *Term) bool { return a != nil && b != nil && (a == b || sameLoad(a, b)) }

// ofClient: t is the client or a part of it.
func ofClient(t, db *Term) bool {
	return t != nil && db != nil && t.contains(func(x *Term) bool { return x == db })
}

// ---- N07 ----

func checkN07(r *Report) {
	r.Rule("on every path that builds a client the customiser is called exactly once if it is given and never if it is not, with the driver's configuration (or option map, or client) that is then used; after the call no option of that configuration is overwritten, apart from the extra parameters of Oracle and PostgreSQL")
	for _, c := range r.clients("mysql", "oracle", "postgres", "redis", "es", "http") {
		given, without := 0, 0
		for _, p := range c.ps {
			if p.out == "LoopBack" {
				continue
			}
			where := r.P.pathOf(p)
			us := userCallsOf(p, c.cust)
			for _, e := range p.events {
				r.ObIf(e.Kind == "PanicSite" && len(e.Args) > 0 && e.Args[0] == c.cust, c.name+"/nil", e.Pos, "a missing customiser may be called: %s", where)
				r.ObIf((e.Kind == "Go" || e.Kind == "AfterFunc") && e.Callee == c.cust, c.name+"/async", e.Pos, "the customiser runs concurrently")
			}
			null := mkEq(c.cust, mkNil(nil), nil)
			obj, use := c.target(p)
			built := obj != nil && (c.kind != "http" || p.out == "Return")
			if p.out == "Return" {
				r.Ob(built, c.name+"/use", c.fn.Pos(), "returns without handing a configuration to the driver: %s", where)
			}
			if !built {
				r.Ob(len(us) <= 1, c.name+"/once", c.fn.Pos(), "the customiser is called %d times: %s", len(us), where)
				continue
			}
			switch {
			case p.facts.Holds(null):
				without++
				r.Ob(len(us) == 0, c.name+"/absent", c.fn.Pos(), "calls a missing customiser: %s", where)
			case !r.Ob(p.facts.Refutes(null) && len(us) == 1, c.name+"/once", c.fn.Pos(), "the customiser is called %d times although it may be given: %s", len(us), where):
			default:
				given++
				u := us[0]
				r.Ob(len(u.Args) == 1 && u.Args[0] == obj, c.name+"/object", u.Pos, "the customiser gets %v, but %v is used: %s", u.Args, obj, where)
				r.Ob(use == nil || u.Seq < use.Seq, c.name+"/early", u.Pos, "the customiser is called after its configuration was used: %s", where)
				for _, e := range p.events {
					if e.Seq <= u.Seq || use != nil && e.Seq >= use.Seq {
						continue
					}
					switch e.Kind {
					case "Store":
						r.ObIf(rootOf(e.Addr2()) == rootOf(obj) && e.Addr2() != obj || e.Addr2() == obj, c.name+"/last-word", e.Pos, "%v is overwritten after the customiser: %s", e.Addr2(), where)
					case "MapUpdate", "MapDelete", "MapClear":
						r.ObIf(e.Addr == obj || e.Addr != nil && obj.op != "alloc" && rootOf(e.Addr) == rootOf(obj), c.name+"/last-word", e.Pos, "%v is changed after the customiser: %s", e.Args, where)
					}
				}
			}
			r.Count("built", 1)
		}
		r.Ob(given > 0 && without > 0, c.name+"/cases", c.fn.Pos(), "%d paths with and %d without a customiser", given, without)
	}
	r.Floor("constructors", 9)
	r.Floor("built", 30)
}

// ---- N06 ----

func checkN06(r *Report) {
	r.Rule("the connection string handed to the PostgreSQL driver is, on every path, postgres://<url.UserPassword(user, password)>@host:port/<url.PathEscape(database)>? followed by what one walk over the option map adds: per option exactly its query-escaped name, '=', and its query-escaped trimmed value, with '&' between options")
	r.Assume("url.UserPassword(...).String, url.PathEscape and url.QueryEscape escape as documented")
	for _, c := range r.clients("postgres") {
		for _, p := range c.ps {
			if o := c.open(p); o != nil && p.out != "LoopBack" {
				c.pgDsn(p, o)
				r.Count("strings", 1)
			}
		}
	}
	r.Floor("constructors", 2)
	r.Floor("strings", 12)
	r.Floor("option_iterations", 2)
}

// textOf flattens a text into its parts.
func textOf(t *Term) []*Term {
	if t.op == "cat" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, textOf(a)...)
		}
		return out
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

func (c *client) pgDsn(p *State, o *Event) {
	r, where := c.r, c.r.P.pathOf(p)
	var loop *Event
	var acc *Term
	var expand func(t *Term) []*Term
	expand = func(t *Term) (out []*Term) {
		for _, x := range textOf(t) {
			switch {
			case isPureOf(x, "strings.TrimRight") || isPureOf(x, "strings.TrimSuffix"):
				if s, _ := x.args[1].isStr(); s == "&" {
					out = append(out, expand(x.args[0])...)
					continue
				}
				out = append(out, x)
			case isPureOf(x, "strings.Join"):
				if s, _ := x.args[1].isStr(); s == "&" {
					if e := c.ex.accLoop(p, x.args[0]); e != nil && loop == nil {
						if i, _ := c.ex.accInit(p, x.args[0]); isEmptyList(i) {
							loop, acc = e, x.args[0]
							out = append(out, mk("options", "", nil))
							continue
						}
					}
				}
				out = append(out, x)
			case x.op == "call" && strings.HasPrefix(x.aux, "(net/url.Values).Encode#") && c.pgValues(p, x.args[0]):
				out = append(out, mk("options", "", nil))
			default:
				if e := c.ex.accLoop(p, x); e != nil && loop == nil {
					loop, acc = e, x
					i, _ := c.ex.accInit(p, x)
					out = append(out, expand(i)...)
					out = append(out, mk("options", "", nil))
					continue
				}
				out = append(out, x)
			}
		}
		return
	}
	dsn := o.Args[1]
	got := expand(dsn)
	if len(got) == 1 && got[0].op == "call" && strings.HasPrefix(got[0].aux, "(*net/url.URL).String#") {
		got = c.urlParts(p, got[0], expand)
	}
	want := func(i int) (*Term, string) {
		switch i {
		case 0:
			return mkStr("postgres://"), "scheme"
		case 1:
			return nil, "user"
		case 2:
			return mkStr("@"), "at"
		case 3:
			return c.f("Host"), "host"
		case 4:
			return mkStr(":"), "colon"
		case 5:
			return mkItoa(c.f("Port")), "port"
		case 6:
			return mkStr("/"), "slash"
		case 7:
			return nil, "database"
		case 8:
			return mkStr("?"), "query"
		}
		return mk("options", "", nil), "options"
	}
	if v, first := c.separator(loop); v != nil && first == "?" {
		// the first option brings the question mark
		if len(got) == 9 {
			got = append(got[:8:8], mkStr("?"), got[8])
		} else if c.leads(loop, acc, v) {
			r.Ob(false, c.name+"/dsn/query", o.Pos, "a second question mark leads the options: %s", where)
		}
	}
	ok := len(got) == 10
	if !r.Ob(ok, c.name+"/dsn", o.Pos, "the connection string is made of %v: %s", got, where) {
		return
	}
	for i, g := range got {
		w, what := want(i)
		switch i {
		case 1:
			ok = c.isUserInfo(p, g)
		case 7:
			ok = isPureOf(g, "net/url.PathEscape") && g.args[0] == c.f("Database")
		default:
			ok = g == w
		}
		r.Ob(ok, c.name+"/dsn/"+what, o.Pos, "part %d (%s) of the connection string is %v: %s", i, what, g, where)
	}
	whole := false
	for _, e := range p.events {
		whole = whole || e.Kind == "RangeEnd" && (loop == nil || e.Seq > loop.Seq) && e.Seq < o.Seq
	}
	r.Ob(whole, c.name+"/option-all", o.Pos, "leaves the walk over the options early: %s", where)
	if loop != nil {
		c.pgOptions(loop, acc, dsn)
	}
}

// separator: the variable of the loop that holds what goes before the next option: its first value,
// and "&" from then on.
func (c *client) separator(loop *Event) (v *Term, first string) {
	if loop == nil {
		return nil, ""
	}
	for j := 1; j < len(loop.Args); j += 2 {
		cur := loop.Args[j]
		init, ok := loop.Args[j-1].isStr()
		if !ok || init != "" && init != "?" || cur == loop.Args[j-1] {
			continue
		}
		n, good := 0, true
		for _, q := range c.ps {
			if l := q.events; q.out == "LoopBack" && l[len(l)-1].Name == loop.Name && q.entered(loop.Name, cur) {
				n++
				next, ok := c.ex.accNext(q, cur)
				good = good && ok && next == mkStr("&")
			}
		}
		if good && n > 0 {
			return cur, init
		}
	}
	return nil, ""
}

// leads: an iteration adds the separator's value.
func (c *client) leads(loop *Event, acc, sep *Term) bool {
	for _, q := range c.ps {
		if l := q.events; q.out == "LoopBack" && l[len(l)-1].Name == loop.Name {
			if nv, ok := c.ex.accNext(q, acc); ok && nv.contains(func(x *Term) bool { return x == sep }) {
				return true
			}
		}
	}
	return false
}

func (c *client) isUserInfo(p *State, g *Term) bool {
	is := func(u *Term) bool {
		return isPureOf(u, "net/url.UserPassword") && u.args[0] == c.f("Username") && u.args[1] == c.f("Password")
	}
	if g.op == "fmt" && (g.aux == "%s" || g.aux == "%v") && len(g.args) == 1 {
		return is(unbox1(g.args[0]))
	}
	if g.op == "call" && strings.HasPrefix(g.aux, "(*net/url.Userinfo).String#") {
		return is(g.args[0])
	}
	return is(g)
}

// urlParts: the parts of a connection string assembled by package net/url.
func (c *client) urlParts(p *State, s *Term, expand func(*Term) []*Term) []*Term {
	u := s.args[0]
	for _, e := range calls(p, "(*net/url.URL).String") {
		if e.Res != s {
			continue
		}
		q := c.r.P.prog.ImportedPackage("net/url")
		if q == nil {
			return []*Term{s}
		}
		T := q.Type("URL").Type()
		get := func(n string) *Term { return c.get(p, e, u, T, n) }
		for _, n := range []string{"Opaque", "RawPath", "Fragment", "RawFragment"} {
			if v := get(n); v != nil && !isZero(v) {
				return []*Term{s}
			}
		}
		sc, _ := get("Scheme").isStr()
		path := textOf(get("Path"))
		if len(path) == 2 && path[0] == mkStr("/") {
			path = path[1:]
		}
		if len(path) == 1 && path[0] == c.f("Database") {
			path[0] = mk("pure", "net/url.PathEscape", types.Typ[types.String], path[0])
		}
		out := []*Term{mkStr(sc + "://"), get("User"), mkStr("@")}
		out = append(out, textOf(get("Host"))...)
		out = append(out, mkStr("/"))
		out = append(out, path...)
		out = append(out, mkStr("?"))
		raw := get("RawQuery")
		if raw.op == "call" && strings.HasPrefix(raw.aux, "(net/url.Values).Encode#") && c.pgValues(p, raw.args[0]) {
			return append(out, mk("options", "", nil))
		}
		return append(out, expand(raw)...)
	}
	return []*Term{s}
}

// pgValues: one walk over the options puts each into the url values V.
func (c *client) pgValues(p *State, V *Term) bool {
	n := 0
	for _, q := range c.ps {
		if q.out != "LoopBack" {
			continue
		}
		loop := q.events[len(q.events)-1].Name
		var next, set *Event
		bad := false
		in := false
		for _, e := range q.events {
			if e.Kind == "LoopHavoc" && e.Name == loop {
				in, next, set = true, nil, nil
			}
			if in && e.Kind == "RangeNext" {
				next = e
			}
			if in && e.Kind == "Call" && strings.HasPrefix(e.Name, "(net/url.Values).") && e.Args[0] == V {
				bad = bad || set != nil
				set = e
			}
			if in && e.Kind == "MapUpdate" && e.Addr == V {
				bad = true
			}
		}
		if set == nil {
			continue
		}
		ok := next != nil && !bad && (strings.HasSuffix(set.Name, ".Set") || strings.HasSuffix(set.Name, ".Add")) && set.Args[1] == next.Args[0] &&
			isPureOf(set.Args[2], "strings.TrimSpace") && set.Args[2].args[0] == next.Val
		c.r.Ob(ok, c.name+"/option-escaped", set.Pos, "an option adds %v: %s", set.Args[1:], c.r.P.pathOf(q))
		c.r.Count("option_iterations", 1)
		if !ok {
			return false
		}
		n++
	}
	return n > 0
}

func (c *client) pgOptions(loop *Event, acc *Term, dsn *Term) {
	r := c.r
	_, list := types.Unalias(accType(acc)).Underlying().(*types.Slice)
	var its []*State
	for _, q := range c.ps {
		if l := q.events; q.out == "LoopBack" && l[len(l)-1].Name == loop.Name && (q.entered(loop.Name, acc) || c.ex.accLoop(q, acc) != nil) {
			its = append(its, q)
		}
	}
	n := 0
	sep, _ := c.separator(loop)
	for _, q := range its {
		where := r.P.pathOf(q)
		var next *Event
		for _, e := range q.events {
			if e.Kind == "RangeNext" {
				next = e
			}
		}
		nv, ok := c.ex.accNext(q, acc)
		if !r.Ob(next != nil && ok, c.name+"/option-walk", loop.Pos, "the options are not walked by range: %s", where) {
			continue
		}
		n++
		var add []*Term
		if list {
			b, tail := accSplit(nv)
			ok = b == acc && len(tail) == 1
			if ok {
				add = textOf(tail[0])
			}
		} else {
			parts := textOf(nv)
			ok = len(parts) > 0 && parts[0] == acc
			if ok {
				add = parts[1:]
			}
		}
		front, back := false, false
		if ok && !list && len(add) > 0 {
			if s, is := add[0].isStr(); is && s == "&" || add[0] == sep && sep != nil {
				front, add = true, add[1:]
			}
			if k := len(add) - 1; k >= 0 {
				if s, is := add[k].isStr(); is && s == "&" {
					back, add = true, add[:k]
				}
			}
		}
		esc := func(t, of *Term) bool { return isPureOf(t, "net/url.QueryEscape") && t.args[0] == of }
		good := ok && len(add) == 3 && esc(add[0], next.Args[0]) && isPureOf(add[2], "net/url.QueryEscape") &&
			isPureOf(add[2].args[0], "strings.TrimSpace") && add[2].args[0].args[0] == next.Val
		if good {
			s, _ := add[1].isStr()
			good = s == "="
		}
		r.Ob(good, c.name+"/option-escaped", loop.Pos, "an option adds %v: %s", add, where)
		if !list && !front && !back {
			// no separator: only possible for the first option
			for _, q0 := range its {
				f := q.facts.clone()
				feasible := true
				for j := 1; j < len(loop.Args); j += 2 {
					v := loop.Args[j]
					nx, ok := c.ex.accNext(q0, v)
					switch {
					case !ok:
					case nx.op == "const":
						feasible = feasible && f.Assume(mkEq(v, nx, v.typ), true)
					case v == acc:
						feasible = feasible && f.Assume(mkLess(mkInt(0), mkLen(v)), true)
					case isIntType(v.typ):
						if k, isK := tSub(nx, v).isInt(); isK && k > 0 {
							feasible = feasible && f.Assume(mkLess(loop.Args[j-1], v), true)
						}
					}
				}
				r.ObIf(feasible, c.name+"/option-separated", loop.Pos, "an option follows another without a separator: %s", where)
			}
		} else {
			r.Ob(true, c.name+"/option-separated", loop.Pos, "")
		}
		r.Count("option_iterations", 1)
	}
	r.Ob(n > 0, c.name+"/option-some", loop.Pos, "no option is ever added")
}

func accType(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// ---- N01 ----

func isSecret(t *Term) bool {
	if t.op != "init" || len(t.args) != 1 || t.args[0].op != "fa" {
		return false
	}
	k := t.args[0].aux
	if !strings.HasPrefix(k, modPath+"/"+confsPkg+".") {
		return false
	}
	n := strings.ToLower(k[strings.LastIndex(k, ".")+1:])
	return strings.Contains(n, "password") || strings.Contains(n, "username")
}

// leak decides whether a value reveals a secret on a path.
type leak struct {
	p    *State
	memo map[*Term]int
	ex   *Exec
	ps   []*State
}

var quietResults = []string{ // results of these calls are taken not to repeat credentials they were given
	"(*github.com/go-redis/redis/", "(github.com/go-redis/redis/", "github.com/go-redis/redis/", esLib, "(*" + esLib, "(" + esLib, "time.LoadLocation",
}

func (l *leak) in(t *Term) bool {
	if t == nil {
		return false
	}
	switch l.memo[t] {
	case 1:
		return true
	case 2:
		return false
	}
	l.memo[t] = 2
	v := l.decide(t)
	if v {
		l.memo[t] = 1
	}
	return v
}

func (l *leak) decide(t *Term) bool {
	if isSecret(t) {
		return true
	}
	switch t.op {
	case "len", "eq", "eqz", "le", "not", "and", "or", "isa", "lt":
		return false
	case "init":
		if a := t.args[0]; a.op == "fa" && a.aux == "net/url.Error.Err" && a.args[0].op == "aserr" {
			return false // the error inside an url error, without the url
		}
	case "call":
		name := t.aux[:strings.LastIndex(t.aux, "#")]
		for _, q := range quietResults {
			if strings.HasPrefix(name, q) {
				return false
			}
		}
		if t.typ != nil && t.typ.String() == "error" && (strings.HasPrefix(name, "database/sql.Open") || strings.HasPrefix(name, sqlPlugin+".Open") || strings.HasSuffix(name, ".Ping") || strings.HasSuffix(name, ".PingContext")) {
			mysql := false
			t.walk(func(x *Term) bool {
				if x.op == "call" && (strings.HasPrefix(x.aux, "database/sql.Open#") || strings.HasPrefix(x.aux, sqlPlugin+".Open#")) {
					if s, _ := x.args[0].isStr(); s == "mysql" {
						mysql = true
					}
				}
				return true
			})
			if mysql || l.p.facts.Refutes(mk("pure", "errors.As:**net/url.Error", types.Typ[types.Bool], t)) {
				return false
			}
		}
	}
	if e := l.ex.accLoop(l.p, t); e != nil {
		// carried by a loop: what it starts with and what an iteration makes of it
		if v, ok := l.ex.accInit(l.p, t); ok && l.in(v) {
			return true
		}
		for _, q := range l.ps {
			if n := len(q.events); q.out == "LoopBack" && q.events[n-1].Name == e.Name {
				if v, ok := l.ex.accNext(q, t); ok && l.in(v) {
					return true
				}
			}
		}
	}
	for _, a := range t.args {
		if l.in(a) {
			return true
		}
	}
	if t.op == "alloc" || t.op == "call" || t.op == "param" {
		for _, e := range l.p.events {
			switch {
			case e.Kind == "Store" && e.Addr2() != nil && rootOf(e.Addr2()) == t && l.in(e.Val):
				return true
			case e.Kind == "MapUpdate" && e.Addr == t && (l.in(e.Val) || l.in(e.Args[0])):
				return true
			}
		}
	}
	return false
}

var outputs = regexp.MustCompile(`^(\(\*log\.Logger\)\.|log\.|fmt\.(Print|Fprint)|builtin\.print|\(\*os\.File\)\.Write|io\.WriteString|os\.Exit)`)

func checkN01(r *Report) {
	r.Rule("taint: no value derived from a user name or password of a configuration (through text, objects, connection strings, or errors of calls given such a string, unless the error is known to be no *url.Error or is the error inside one) reaches a log or print call, a panic, or the result of a String method, on any path of any function of the package; every field that a String method shows stands directly behind its own name")
	r.Assume("errors of the MySQL driver for malformed connection strings are fixed texts; errors and answers of the Redis and Elasticsearch clients do not repeat the credentials; an url parse error is the only error of the Oracle and PostgreSQL drivers that repeats the connection string")
	pkg := r.P.pkg(confsPkg)
	if pkg == nil {
		r.Missing(confsPkg)
		return
	}
	for _, fn := range r.P.funcs {
		if fn.Pkg != pkg || fn.Blocks == nil || fn.Synthetic != "" || r.P.onlyCalled(fn) {
			continue
		}
		name := short(fn.String())
		ex, ps := r.run(name, Config{Summarise: true}, fn)
		for _, p := range ps {
			l := &leak{p, map[*Term]int{}, ex, ps}
			for _, e := range p.events {
				switch {
				case e.Kind == "Call" && outputs.MatchString(e.Name):
					bad := false
					raw := false
					see := func(a *Term) {
						bad = bad || l.in(a)
						if s, ok := a.isStr(); ok && strings.Contains(s, "%#") {
							raw = true
						}
					}
					conf := false
					for _, a := range e.Args {
						see(a)
						for _, x := range e.Elems[a] {
							see(x)
							if x.op == "mkiface" && strings.HasPrefix(typeKey(x.typ), "*"+modPath+"/"+confsPkg+".") {
								conf = true
							}
						}
					}
					r.ObIf(bad, name+"/log", e.Pos, "%s is given a text or error that may hold credentials: %s", e.Name, r.P.pathOf(p))
					r.ObIf(raw && conf, name+"/log-raw", e.Pos, "%s prints a configuration with its fields", e.Name)
					r.Count("outputs", 1)
				case e.Kind == "Panic":
					r.ObIf(l.in(e.Val), name+"/panic", e.Pos, "panics with a value that may hold credentials: %s", r.P.pathOf(p))
					r.Count("panics", 1)
				}
			}
			if fn.Name() == "String" && fn.Signature.Recv() != nil && p.out == "Return" {
				r.ObIf(l.in(p.results[0]), name+"/printed", fn.Pos(), "the printed form may hold credentials: %s", r.P.pathOf(p))
				r.labels(name, fn, p)
				r.Count("printed_forms", 1)
			}
		}
	}
	r.Floor("outputs", 8)
	r.Floor("panics", 2)
	r.Floor("printed_forms", 7)
	r.Floor("labels", 10)
}

// labels: each setting shown stands behind its own name.
func (r *Report) labels(name string, fn *ssa.Function, p *State) {
	parts := textOf(p.results[0])
	for i, t := range parts {
		var shown []string
		t.walk(func(x *Term) bool {
			if x.op == "init" && len(x.args) == 1 && x.args[0].op == "fa" && strings.HasPrefix(x.args[0].aux, modPath+"/"+confsPkg+".") {
				k := x.args[0].aux
				shown = append(shown, k[strings.LastIndex(k, ".")+1:])
			}
			return true
		})
		if len(shown) == 0 {
			continue
		}
		ok := len(shown) == 1 && i > 0
		if ok {
			s, is := parts[i-1].isStr()
			ok = is && regexp.MustCompile(`(^|[^A-Za-z0-9_])`+shown[0]+`\s*[:=]\s*$`).MatchString(s)
		}
		r.Ob(ok, name+"/label/"+strings.Join(shown, "+"), fn.Pos(), "%s is shown behind another name: %v", strings.Join(shown, "+"), parts[max(i-1, 0)])
		r.Count("labels", 1)
	}
}
