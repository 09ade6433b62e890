package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["N03"] = checkN03
	checks["N04"] = checkN04
}

const fasthttpLib = "github.com/valyala/fasthttp"

// ---- N03 ----

func checkN03(r *Report) {
	r.Rule("on every path on which the HTTP client constructor returns, and for every combination of trust mode, certificates and client key pair that the path allows: the TLS configuration skips verification exactly in mode INSECURE; its roots are, exactly in mode CUSTOM with certificates named, a new pool to which one whole walk over the comma-separated names adds each file that was read and parsed without error, and otherwise unset; its certificates are, exactly if a chain or key is named, the one key pair loaded from both without error, and otherwise unset; no other option is set and nothing is changed after the customiser; every path that terminates instead knows that reading or parsing a certificate or key failed")
	r.Assume("(*log.Logger).Fatalf does not return; a tls.Config with no roots set trusts the roots of the system; fasthttp uses Client.TLSConfig for every TLS connection")
	for _, c := range r.clients("http") {
		for _, p := range c.ps {
			r.ObIf(p.out != "Return" && p.out != "LoopBack" && p.out != "Exit" && p.out != "Panic", c.name+"/ends", c.fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p))
			if p.out == "Exit" || p.out == "Panic" {
				refused := false
				for _, e := range p.events {
					refused = refused || e.Kind == "Call" && e.Res != nil && strings.HasSuffix(e.Name, ".AppendCertsFromPEM") && p.facts.Refutes(e.Res)
				}
				r.Count("failing_paths", 1)
				r.Ob(refused || c.failure(p), c.name+"/gives-up", c.fn.Pos(), "terminates although no certificate or key is known to be unusable: %s", r.P.pathOf(p))
			}
		}
		for _, p := range c.returns() {
			obj, use := c.target(p)
			if !r.Ob(obj != nil && obj.op == "alloc", c.name+"/client", c.fn.Pos(), "returns %v, not a client of its own: %s", p.results, r.P.pathOf(p)) {
				continue
			}
			c.tls(p, obj, c.before(p, obj, use))
			r.Count("returns", 1)
		}
	}
	r.Floor("constructors", 1)
	r.Floor("returns", 10)
	r.Floor("settings_combinations", 15)
	r.Floor("walks", 2)
}

func (c *client) tls(p *State, obj *Term, at *Event) {
	r, where := c.r, c.r.P.pathOf(p)
	mode, certs, chain, key := c.f("SslTrustMode"), c.f("SslTrustCerts"), c.f("CertChain"), c.f("PrivateKey")
	clientT := derefType2(c.fn.Signature.Results().At(0).Type())
	conf := c.get(p, at, obj, clientT, "TLSConfig")
	var confT types.Type
	if a, t := field(obj, clientT, "TLSConfig"); a != nil {
		confT = derefType2(t)
	}
	if !r.Ob(conf != nil && confT != nil && (conf.isNil() || conf.op == "alloc"), c.name+"/TLSConfig", c.fn.Pos(), "the TLS configuration is %v: %s", conf, where) {
		return
	}
	var skip, roots, own *Term
	if conf.op == "alloc" {
		skip = c.get(p, at, conf, confT, "InsecureSkipVerify")
		roots = c.get(p, at, conf, confT, "RootCAs")
		own = c.get(p, at, conf, confT, "Certificates")
		c.expect(p, at, conf, confT, "tls.Config", nil, "InsecureSkipVerify", "RootCAs", "Certificates")
		if at != nil {
			for _, e := range p.events {
				if e.Kind == "Store" && e.Seq > at.Seq {
					r.ObIf(rootOf(e.Addr2()) == conf, c.name+"/last-word", e.Pos, "%v is set after the customiser: %s", e.Addr2(), where)
				}
			}
		}
	}
	unset := func(t *Term) bool { return t == nil || t.isNil() || isZero(t) }
	is := func(t *Term, s string) *Term { return mkEq(t, mkStr(s), nil) }
	atoms := []*Term{is(mode, "INSECURE"), is(mode, "CUSTOM"), mkEqInt(mkLen(certs), mkInt(0)), mkEqInt(mkLen(chain), mkInt(0)), mkEqInt(mkLen(key), mkInt(0))}
	for m := 0; m < 1<<len(atoms); m++ {
		var as []*Term
		val := func(i int) bool { return m>>i&1 == 1 }
		for i, a := range atoms {
			if val(i) {
				as = append(as, a)
			} else {
				as = append(as, mkNot(a))
			}
		}
		if val(0) && val(1) {
			continue
		}
		f, ok := p.factsWith(nil, as...)
		if !ok {
			continue
		}
		r.Count("settings_combinations", 1)
		if val(0) {
			r.Ob(skip != nil && f.Holds(skip), c.name+"/insecure", c.fn.Pos(), "mode INSECURE, but InsecureSkipVerify is %v: %s", skip, where)
		} else {
			r.Ob(skip == nil || f.Refutes(skip), c.name+"/verify", c.fn.Pos(), "mode is not INSECURE, but InsecureSkipVerify is %v: %s", skip, where)
		}
		if val(1) && !val(2) {
			r.Ob(c.isPool(p, f, roots), c.name+"/custom", c.fn.Pos(), "mode CUSTOM with certificates, but the roots are %v: %s", roots, where)
		} else {
			r.Ob(unset(roots), c.name+"/system", c.fn.Pos(), "roots are replaced by %v outside of mode CUSTOM with certificates: %s", roots, where)
		}
		if !val(3) || !val(4) {
			r.Ob(c.isPair(p, f, at, own), c.name+"/keypair", c.fn.Pos(), "a client certificate is configured, but %v is presented: %s", own, where)
		} else {
			r.Ob(unset(own), c.name+"/no-keypair", c.fn.Pos(), "no client certificate is configured, but %v is presented: %s", own, where)
		}
	}
}

// isPair: the one certificate loaded from the configured files.
func (c *client) isPair(p *State, f *Facts, at *Event, t *Term) bool {
	if t == nil {
		return false
	}
	if n, ok := mkLen(t).isInt(); !ok || n != 1 || t.op != "slice" {
		return false
	}
	for _, e := range calls(p, "crypto/tls.LoadX509KeyPair") {
		T := resPart(e, 0).typ
		addr := indexAddr(t, mkInt(0), T)
		v := c.ex.load(p, addr, T)
		if at != nil {
			v = c.ex.valAt(p, at, addr, T)
		}
		if whole(v) == resPart(e, 0) {
			return e.Args[0] == c.f("CertChain") && e.Args[1] == c.f("PrivateKey") && f.Holds(mkEq(resPart(e, 1), mkNil(nil), nil))
		}
	}
	return false
}

// whole: a struct put together from all fields of x is x.
func whole(t *Term) *Term {
	if t == nil || t.op != "structval" || len(t.args) == 0 {
		return t
	}
	var x *Term
	for _, a := range t.args {
		if a.op != "fv" || x != nil && a.args[0] != x {
			return t
		}
		x = a.args[0]
	}
	return x
}

// isPool: a new pool filled by a whole walk over the configured names.
func (c *client) isPool(p *State, f *Facts, pool *Term) bool {
	r := c.r
	if pool == nil {
		return false
	}
	var made *Event
	for _, e := range calls(p, "crypto/x509.NewCertPool") {
		if e.Res == pool {
			made = e
		}
	}
	if made == nil {
		return false
	}
	uses := func(e *Event) bool {
		if e.Kind == "Call" && e.Addr == pool {
			return true
		}
		for _, a := range e.Args {
			if e.Kind == "Call" && a == pool {
				return true
			}
		}
		return false
	}
	var walks []*sliceLoop
	for _, e := range p.events {
		if e.Kind == "LoopEnter" {
			for _, s := range calls(p, "strings.Split") {
				if sep, _ := s.Args[1].isStr(); s.Args[0] == c.f("SslTrustCerts") && sep == "," {
					if w, _ := c.ex.loopOver(c.ps, e, s.Res); w != nil {
						walks = append(walks, w)
						break
					}
				}
			}
		}
		// outside the walk nothing is added or taken away
		if uses(e) {
			r.Ob(false, c.name+"/pool", e.Pos, "%s changes the pool outside the walk: %s", e.Name, r.P.pathOf(p))
		}
	}
	if len(walks) != 1 || !walks[0].finished(p) || walks[0].enter.Seq < made.Seq {
		return false
	}
	its := walks[0].iterations(c.ps)
	for _, q := range its {
		n := 0
		for _, e := range walks[0].body(q) {
			if !uses(e) {
				continue
			}
			good := e.Name == "(*crypto/x509.CertPool).AppendCertsFromPEM" && e.Args[0] == pool && q.facts.Holds(e.Res)
			read := false
			for _, x := range walks[0].body(q) {
				if x.Kind == "Call" && (x.Name == "io/ioutil.ReadFile" || x.Name == "os.ReadFile") && resPart(x, 0) == e.Args[len(e.Args)-1] {
					read = walks[0].isElem(x.Args[0]) && q.facts.Holds(mkEq(resPart(x, 1), mkNil(nil), nil))
				}
			}
			r.Ob(good && read, c.name+"/certificate", e.Pos, "goes on although the file of the name at hand may not have been read and added: %s", r.P.pathOf(q))
			n++
		}
		r.Ob(n == 1, c.name+"/each", walks[0].enter.Pos, "adds %d certificates for a name: %s", n, r.P.pathOf(q))
	}
	r.Count("walks", 1)
	return len(its) > 0
}

// ---- N04 ----

// profLibs: what writes profiles.
func isProfiling(name string) bool {
	name = strings.TrimLeft(name, "(*")
	return strings.HasPrefix(name, fasthttpLib+"/pprofhandler.") || strings.HasPrefix(name, "net/http/pprof.") || strings.HasPrefix(name, "runtime/pprof.")
}

func checkN04(r *Report) {
	r.Rule("gin: with user name or password empty the filter aborts the chain on every path and never continues it; otherwise it is gin's basic authentication with exactly the one configured account. fasthttp-routing: wherever a profile is written, the facts of the path say that name and password are configured and that the name and password decoded from the request's Authorization header equal them; every other path with credentials configured answers with status 401 and a basic challenge and has facts that tell the request's credentials from the configured ones; with credentials configured both put the configured block and mutex profiling rates in force; no other function of the library writes profiles")
	r.Assume("gin.BasicAuth admits exactly the accounts it is given; (*gin.Context).Abort keeps the remaining handlers from running")
	seen := map[token.Pos]bool{}
	r.ginFilter()
	r.routingPprof(seen)
	// nothing else in the library reaches the profiler
	n := 0
	for _, fn := range r.P.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f.Name() != "init" && isProfiling(f.String()) {
						n++
						r.Ob(seen[in.Pos()], trimPkg(fn.String())+"/"+f.Name(), in.Pos(), "%s writes a profile outside of the guarded handler", trimPkg(fn.String()))
					}
				}
			}
		}
	}
	r.Count("profiler_references", n)
	r.Floor("profiler_references", 1)
	r.Floor("rates", 1)
	r.Floor("filters", 2)
	r.Floor("served", 1)
	r.Floor("refused", 1)
}

// pprofRun explores the constructor of a handler; u and pw are the configured credentials.
func (r *Report) pprofRun(name string) (c *client) {
	fn := r.P.function(confsPkg, name)
	if fn == nil {
		r.Missing(name)
		return nil
	}
	c = &client{r: r, name: name, fn: fn}
	for i, p := range fn.Params {
		if u, ok := p.Type().Underlying().(*types.Pointer); ok && strings.HasPrefix(typeName(u.Elem()), modPath) {
			c.conf, c.confT = paramTerm(fn, i), u.Elem()
		}
	}
	if !r.Ob(c.conf != nil, name+"/parameters", fn.Pos(), "has no configuration") {
		return nil
	}
	c.ex, c.ps = r.run(name, Config{Summarise: true}, fn)
	for _, p := range c.ps {
		r.ObIf(p.out != "Return" && p.out != "LoopBack", name+"/ends", fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p))
		for _, e := range p.events {
			r.ObIf(e.Kind == "Call" && isProfiling(e.Name), name+"/profile", e.Pos, "writes a profile while the handler is made")
		}
	}
	return c
}

func (r *Report) ginFilter() {
	const name, ctx = "NewGinPprofBasicAuthFilter", "(*github.com/gin-gonic/gin.Context)."
	c := r.pprofRun(name)
	if c == nil {
		return
	}
	U, W := c.f("Username"), c.f("Password")
	for _, p := range c.returns() {
		where := r.P.pathOf(p)
		r.Count("filters", 1)
		_, noU := c.set(p, "Username")
		_, noW := c.set(p, "Password")
		res := p.results[0]
		r.profileRates(c, p, noU || noW)
		if fn, free := calleeOf(res); fn != nil {
			// a filter of its own is only good for closing the endpoint
			r.Ob(noU || noW, name+"/closed", c.fn.Pos(), "installs %s although credentials may be configured: %s", trimPkg(fn.String()), where)
			qs := c.ex.RunFrom(resume(p), fn, free)
			r.account(name+"/closed", c.ex, qs)
			for _, q := range qs {
				aborted := false
				for _, e := range q.events {
					if e.Kind == "Call" && strings.HasPrefix(e.Name, ctx) && e.Args[0] == paramTerm(fn, 0) {
						aborted = aborted || strings.HasPrefix(e.Name, ctx+"Abort")
						r.ObIf(e.Name == ctx+"Next", name+"/next", e.Pos, "continues the chain without credentials configured: %s", r.P.pathOf(q))
					}
				}
				switch q.out {
				case "Return":
					r.Ob(aborted, name+"/abort", c.fn.Pos(), "lets the chain go on without credentials configured: %s", r.P.pathOf(q))
				case "LoopBack", "Panic":
				default:
					r.Ob(false, name+"/abort", c.fn.Pos(), "ends with %s: %s", q.out, r.P.pathOf(q))
				}
			}
			continue
		}
		yesU, _ := c.set(p, "Username")
		yesW, _ := c.set(p, "Password")
		var auth *Event
		for _, e := range p.events {
			if e.Kind == "Call" && (e.Name == "github.com/gin-gonic/gin.BasicAuth" || e.Name == "github.com/gin-gonic/gin.BasicAuthForRealm") && e.Res == res {
				auth = e
			}
		}
		if !r.Ob(auth != nil && yesU && yesW, name+"/auth", c.fn.Pos(), "installs %v although name or password may be empty: %s", res, where) {
			continue
		}
		var ups []*Event
		for _, e := range p.events {
			if (e.Kind == "MapUpdate" || e.Kind == "MapDelete" || e.Kind == "MapClear") && e.Addr == auth.Args[0] {
				ups = append(ups, e)
			}
		}
		ok := auth.Args[0].op == "alloc" && len(ups) == 1 && ups[0].Kind == "MapUpdate" && ups[0].Seq < auth.Seq && ups[0].Args[0] == U && ups[0].Val == W
		r.Ob(ok, name+"/account", auth.Pos, "the accounts are not exactly the configured one: %s", where)
	}
}

// profileRates: if credentials are configured, the configured profiling rates are in force.
func (r *Report) profileRates(c *client, p *State, closed bool) {
	if closed {
		return
	}
	for _, x := range [][2]string{{"runtime.SetBlockProfileRate", "BlockProfileRate"}, {"runtime.SetMutexProfileFraction", "MutexProfileFraction"}} {
		var last *Event
		for _, e := range calls(p, x[0]) {
			last = e
		}
		r.Count("rates", 1)
		r.Ob(last != nil && assigned(p, last.Args[0]) == c.f(x[1]), c.name+"/"+x[1], c.fn.Pos(), "the configured %s is not put in force: %s", x[1], r.P.pathOf(p))
	}
}

func (r *Report) routingPprof(seen map[token.Pos]bool) {
	const name = "NewFasthttpRoutingPprofHandler"
	c := r.pprofRun(name)
	if c == nil {
		return
	}
	U, W := c.f("Username"), c.f("Password")
	for _, p := range c.returns() {
		r.Count("filters", 1)
		fn, free := calleeOf(p.results[0])
		if !r.Ob(fn != nil && fn.Blocks != nil, name+"/handler", c.fn.Pos(), "returns %v, a handler that cannot be followed", p.results[0]) {
			continue
		}
		_, noU := c.set(p, "Username")
		_, noW := c.set(p, "Password")
		r.profileRates(c, p, noU || noW)
		st := resume(p)
		qs := c.ex.RunFrom(st, fn, free)
		r.account(name+"/handler", c.ex, qs)
		req := paramTerm(fn, 0)
		for _, q := range qs {
			where := r.P.pathOf(q)
			var served *Event
			for _, e := range q.events {
				if e.Kind == "Go" || e.Kind == "AfterFunc" || e.Kind == "Defer" {
					r.Ob(false, name+"/async", e.Pos, "the request is handled concurrently: %s", where)
				}
				if e.Kind != "Call" || !isProfiling(e.Name) {
					continue
				}
				seen[e.Pos] = true
				if served != nil {
					r.Ob(false, name+"/once", e.Pos, "the profile is written twice: %s", where)
				}
				served = e
				r.Count("served", 1)
				r.Ob(e.Name == fasthttpLib+"/pprofhandler.PprofHandler" && len(e.Args) == 1 && rootOf(e.Args[0]) == req || e.Args[0].op == "init" && rootOf(e.Args[0].args[0]) == req, name+"/target", e.Pos, "%s serves %v, not the request: %s", e.Name, e.Args, where)
				f := q.factsAt(e)
				unsetU, unsetW := mkEqInt(mkLen(U), mkInt(0)), mkEqInt(mkLen(W), mkInt(0))
				r.Ob(f.Refutes(unsetU) && f.Refutes(unsetW), name+"/configured", e.Pos, "writes the profile although name or password may be unset: %s", where)
				r.Ob(c.presented(q, e, f, req, U, W), name+"/presented", e.Pos, "writes the profile although the request may not have presented the configured name and password: %s", where)
			}
			if served != nil || q.out != "Return" {
				r.ObIf(q.out != "Return" && q.out != "LoopBack" && q.out != "Panic", name+"/ends", c.fn.Pos(), "ends with %s: %s", q.out, where)
				continue
			}
			for _, e := range q.events {
				r.ObIf(e.Kind == "Call" && strings.HasSuffix(e.Name, "routing.Context).Next"), name+"/passed-on", e.Pos, "a request that is not let in is passed on to the handlers that follow: %s", where)
			}
			_, noU := c.set(q, "Username")
			_, noW := c.set(q, "Password")
			if noU || noW {
				r.Count("closed", 1)
				continue
			}
			refused := len(q.results) == 1 && q.facts.Refutes(mkEq(q.results[0], mkNil(nil), nil))
			for _, e := range q.events {
				if e.Kind != "Call" {
					continue
				}
				switch m := e.Name[strings.LastIndex(e.Name, ".")+1:]; {
				case strings.HasPrefix(e.Name, "(*"+fasthttpLib+".") && (m == "SetStatusCode" || m == "Error"):
					n, ok := e.Args[len(e.Args)-1].isInt()
					refused = ok && n >= 400
				}
			}
			r.Count("refused", 1)
			r.Ob(refused, name+"/refused", c.fn.Pos(), "a request without the credentials is not answered with an error status: %s", where)
			r.Ob(challenged(q), name+"/challenge", c.fn.Pos(), "a refused request is not asked for basic authentication (status 401 and WWW-Authenticate): %s", where)
			r.Ob(c.unpresented(q, req, U, W), name+"/admits", c.fn.Pos(), "a request is refused although it may have presented the configured name and password: %s", where)
		}
	}
	r.Floor("closed", 1)
}

// scheme: t is the header h, or what follows the scheme name in it.
func scheme(t, h *Term) bool {
	switch {
	case t == h:
		return true
	case t.op == "string" || t.op == "bytes":
		return scheme(t.args[0], h)
	case isPureOf(t, "strings.TrimSpace") || isPureOf(t, "bytes.TrimSpace"):
		return scheme(t.args[0], h)
	case isPureOf(t, "strings.TrimPrefix") || isPureOf(t, "bytes.TrimPrefix"):
		k := t.args[1]
		for k.op == "bytes" {
			k = k.args[0]
		}
		s, ok := k.isStr()
		return ok && s == "Basic " && scheme(t.args[0], h)
	case t.op == "substr":
		n, ok := t.args[1].isInt()
		return ok && n == 6 && t.args[2] == mkLen(t.args[0]) && scheme(t.args[0], h)
	case t.op == "slice":
		n, ok := t.args[1].isInt()
		return ok && n == 6 && t.args[2] == tSub(mkLen(t.args[0]), mkInt(6)) && scheme(t.args[0], h)
	}
	return false
}

// challenged: the answer is 401 with a challenge for basic authentication.
func challenged(q *State) bool {
	status, asked := false, false
	for _, e := range q.events {
		if e.Kind != "Call" || !strings.HasPrefix(e.Name, "(*"+fasthttpLib+".") {
			continue
		}
		last := func() int64 {
			n, _ := e.Args[len(e.Args)-1].isInt()
			return n
		}
		switch m := e.Name[strings.LastIndex(e.Name, ".")+1:]; {
		case m == "Error":
			status, asked = last() == 401, false
		case m == "SetStatusCode":
			status = last() == 401
		case strings.HasPrefix(e.Name, "(*"+fasthttpLib+".ResponseHeader).") && (strings.HasPrefix(m, "Add") || strings.HasPrefix(m, "Set")) && len(e.Args) == 3:
			k, v := e.Args[1], e.Args[2]
			for k.op == "bytes" {
				k = k.args[0]
			}
			for v.op == "bytes" {
				v = v.args[0]
			}
			if n, ok := k.isStr(); ok && strings.EqualFold(n, "WWW-Authenticate") {
				s, ok := v.isStr()
				asked = ok && strings.HasPrefix(s, "Basic") || v.op == "cat" && v.args[0].op == "const" && strings.HasPrefix(strings.Trim(v.args[0].String(), "\"`"), "Basic")
			}
		}
	}
	return status && asked
}

// unpresented: the facts tell the request's basic authentication from U and W, or there is none.
func (c *client) unpresented(q *State, req, U, W *Term) bool {
	var headers []*Term
	for _, e := range q.events {
		if e.Kind == "Call" && e.Res != nil && strings.HasPrefix(e.Name, "(*"+fasthttpLib+".RequestHeader).Peek") {
			headers = append(headers, e.Res)
		}
	}
	of := func(t *Term) bool {
		return t.contains(func(x *Term) bool {
			for _, h := range headers {
				if x == h {
					return true
				}
			}
			return false
		})
	}
	f := q.facts
	for _, e := range q.events {
		if e.Kind != "Call" || e.Res == nil || len(e.Args) == 0 || !of(e.Res) {
			continue
		}
		switch e.Name {
		case "strings.SplitN", "bytes.SplitN":
			if f.Refutes(mkEqInt(mkLen(e.Res), mkInt(2))) {
				return true
			}
		case "strings.IndexByte", "strings.Index", "bytes.IndexByte", "strings.IndexRune", "bytes.Index":
			if f.Less(e.Res, mkInt(0)) {
				return true
			}
		case "crypto/subtle.ConstantTimeCompare":
			if f.Refutes(mkEqInt(e.Res, mkInt(1))) {
				return true
			}
		}
	}
	for _, e := range q.events {
		// nothing in it: not even the colon
		if e.Kind == "Call" && strings.HasPrefix(e.Name, "(*encoding/base64.Encoding).DecodeString") && of(e.Res) && f.Leq(mkLen(resPart(e, 0)), mkInt(0)) {
			return true
		}
	}
	for _, l := range f.log {
		t := l.T
		if !of(t) {
			continue
		}
		secret := t.contains(func(x *Term) bool { return x == U || x == W })
		switch {
		case t.op == "eq" && (t.args[0].isNil() || t.args[1].isNil()):
			x := t.args[0]
			if x.isNil() {
				x = t.args[1]
			}
			if isErr := x.typ != nil && x.typ.String() == "error"; isErr && !l.Val || !isErr && l.Val {
				return true
			}
		case t.op == "eqz" || t.op == "le":
			if secret && !l.Val && t.op == "eqz" {
				return true
			}
		case t.op == "eq":
			if secret && !l.Val {
				return true
			}
		case !l.Val: // a prefix that is missing, a decoding that failed
			return true
		}
	}
	for _, h := range headers {
		empty := false
		for _, l := range f.log {
			l.T.walk(func(x *Term) bool {
				if scheme(x, h) && x.op != "len" && f.Leq(mkLen(x), mkInt(0)) {
					empty = true
				}
				return true
			})
		}
		if empty {
			return true
		}
	}
	return false
}

// presented: the facts say that the request's basic authentication is U and W.
func (c *client) presented(q *State, at *Event, f *Facts, req, U, W *Term) bool {
	isHeader := func(t *Term) bool {
		for _, e := range q.events {
			if e.Kind == "Call" && strings.HasPrefix(e.Name, "(*"+fasthttpLib+".RequestHeader).Peek") && e.Seq < at.Seq {
				k := e.Args[len(e.Args)-1]
				for k.op == "bytes" {
					k = k.args[0]
				}
				s, ok := k.isStr()
				if ok && strings.EqualFold(s, "Authorization") && e.Args[0].contains(func(x *Term) bool { return x == req }) && scheme(t, e.Res) {
					return true
				}
			}
		}
		return false
	}
	same := func(a, b *Term) bool { return f.Holds(mkEq(a, b, nil)) }
	for _, d := range q.events {
		if d.Kind != "Call" || d.Seq > at.Seq || !strings.HasPrefix(d.Name, "(*encoding/base64.Encoding).Decode") || len(d.Args) < 2 {
			continue
		}
		if !isHeader(d.Args[len(d.Args)-1]) || !f.Holds(mkEq(resPart(d, 1), mkNil(nil), nil)) {
			continue
		}
		if d.Name == "(*encoding/base64.Encoding).Decode" {
			continue
		}
		D := c.ex.convert(q, resPart(d, 0), types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String])
		if same(D, mkCat(U, mkStr(":"), W)) {
			return true
		}
		head := mkCat(U, mkStr(":"))
		for _, l := range f.log {
			rest := mk("substr", "", types.Typ[types.String], D, mkLen(head), mkLen(D))
			if t := l.T; l.Val && isPureOf(t, "strings.HasPrefix") && t.args[0] == D && t.args[1] == head && (same(rest, W) || same(mk("pure", "strings.TrimPrefix", types.Typ[types.String], D, head), W)) {
				return true
			}
		}
		for _, e := range q.events {
			if e.Kind != "Call" || e.Seq > at.Seq || len(e.Args) < 2 || e.Args[0] != D && e.Args[0] != resPart(d, 0) {
				continue
			}
			sep := e.Args[1]
			colon := false
			if s, ok := sep.isStr(); ok {
				colon = s == ":"
			} else if k, ok := sep.isInt(); ok {
				colon = k == ':'
			}
			if !colon {
				continue
			}
			switch e.Name {
			case "strings.SplitN":
				if n, ok := e.Args[2].isInt(); !ok || n != 2 || !f.Leq(mkInt(2), mkLen(e.Res)) {
					continue
				}
				str := types.Typ[types.String]
				a := c.ex.load(q, mk("ia", "", types.NewPointer(str), e.Res, mkInt(0)), str)
				b := c.ex.load(q, mk("ia", "", types.NewPointer(str), e.Res, mkInt(1)), str)
				if same(a, U) && same(b, W) {
					return true
				}
			case "bytes.SplitN":
				if n, ok := e.Args[2].isInt(); !ok || n != 2 || !f.Leq(mkInt(2), mkLen(e.Res)) {
					continue
				}
				bs, str := types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String]
				part := func(i int64) *Term {
					return c.ex.convert(q, c.ex.load(q, mk("ia", "", types.NewPointer(bs), e.Res, mkInt(i)), bs), bs, str)
				}
				if same(part(0), U) && same(part(1), W) {
					return true
				}
			case "strings.Cut":
				if same(resPart(e, 0), U) && same(resPart(e, 1), W) && f.Holds(resPart(e, 2)) {
					return true
				}
			case "strings.IndexByte", "strings.Index", "bytes.IndexByte":
				if f.Leq(mkInt(0), e.Res) {
					a := mk("substr", "", types.Typ[types.String], D, mkInt(0), e.Res)
					for _, n := range []*Term{mkLen(D), mkLen(resPart(d, 0))} {
						b := mk("substr", "", types.Typ[types.String], D, tAdd(e.Res, mkInt(1)), n)
						if same(a, U) && same(b, W) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
