package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P01"] = checkP01
	checks["P02"] = checkP02
	checks["P03"] = checkP03
}

const rsaPkg = "util/rsa"

type pemKind struct {
	result string // type of what is read
	block  string // PEM type
	parse  string
	unbox  bool // the parser returns any kind of key
}

var pemKinds = []pemKind{
	{"*crypto/rsa.PrivateKey", "RSA PRIVATE KEY", "crypto/x509.ParsePKCS1PrivateKey", false},
	{"*crypto/rsa.PublicKey", "PUBLIC KEY", "crypto/x509.ParsePKIXPublicKey", true},
	{"*crypto/x509.Certificate", "CERTIFICATE", "crypto/x509.ParseCertificate", false},
}

type pemReader struct {
	fn   *ssa.Function
	kind *pemKind
	must bool
}

// pemReaders: exported functions from text or bytes to a key or certificate.
func (r *Report) pemReaders() (out []pemReader) {
	pk := r.P.pkg(rsaPkg)
	if pk == nil {
		r.Missing(rsaPkg)
		return
	}
	for _, f := range r.P.entryPoints(pk) {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() == 0 {
			continue
		}
		in := sig.Params().At(0).Type().String()
		if in != "string" && in != "[]byte" {
			continue
		}
		for i := range pemKinds {
			k := &pemKinds[i]
			if sig.Results().At(0).Type().String() != k.result {
				continue
			}
			switch {
			case sig.Results().Len() == 2 && sig.Results().At(1).Type().String() == "error":
				out = append(out, pemReader{f, k, false})
			case sig.Results().Len() == 1:
				out = append(out, pemReader{f, k, true})
			}
		}
	}
	for _, o := range out {
		if o.must {
			r.Count("must_readers", 1)
		} else {
			r.Count("readers", 1)
		}
	}
	r.Floor("readers", 6)
	r.Floor("must_readers", 5)
	return
}

// pemParse: the call that parsed, on the path, into result and error.
func pemParse(p *State) (out []*Event) {
	for _, e := range p.events {
		if e.Kind == "Call" && strings.HasPrefix(e.Name, "crypto/x509.Parse") {
			out = append(out, e)
		}
	}
	return
}

// pemKey: t is what the reader's parser returned, in its own type.
func (k *pemKind) pemKey(p *State, t *Term) *Event {
	for _, e := range pemParse(p) {
		if e.Name != k.parse {
			continue
		}
		v := resPart(e, 0)
		if k.unbox {
			if t.op == "unbox" && t.args[0] == v && t.typ != nil && t.typ.String() == k.result {
				for _, l := range p.facts.log {
					if l.Val && l.T.op == "isa" && l.T.args[0] == v && strings.Contains(l.T.String(), strings.TrimPrefix(k.result, "*")) {
						return e
					}
				}
			}
		} else if t == v {
			return e
		}
	}
	return nil
}

func errKnown(p *State, t *Term) bool {
	return t.op == "newerr" || t.op == "mkiface" || p.facts.Refutes(mkEq(t, mkNil(nil), nil))
}

func checkP01(r *Report) {
	r.Rule("no path of a reader contains a statement that can panic (nil dereference, index, slice, assertion, division); every path returns an error known to be non-nil, or the key the reader's parser produced with that call's error nil or passed on; each Must form returns the key and panics exactly according to the reader's error")
	r.Assume("encoding/pem and crypto/x509 neither panic nor return neither a value nor an error")
	rs := r.pemReaders()
	byName := map[string]*pemReader{}
	for i := range rs {
		byName[rs[i].fn.String()] = &rs[i]
	}
	for _, rd := range rs {
		name := rd.fn.Name()
		called := map[string]*Event{}
		model := func(ex *Exec, st *State, c *callCtx) bool {
			if !rd.must || c.callee == nil || byName[c.callee.String()] == nil || byName[c.callee.String()].must {
				return false
			}
			a := mk("pure", c.name+"#.0", c.resTypes[0], c.args...)
			b := mk("pure", c.name+"#.1", c.resTypes[1], c.args...)
			e := &Event{Kind: "Call", Name: c.name, Args: c.args, Res: mkTuple(a, b), Pos: c.pos}
			st.event(e)
			called[c.name] = e
			ex.bind(st, c, mkTuple(a, b))
			return true
		}
		_, ps := r.run(name, Config{TrackPanics: true, Model: model}, rd.fn)
		good, bad := 0, 0
		direct := rd.must
		for _, p := range ps {
			var c *Event
			for _, e := range p.events {
				if e.Kind == "Call" && called[e.Name] != nil {
					c = e
				}
			}
			direct = direct && c != nil && len(c.Args) == 1 && c.Args[0] == paramTerm(rd.fn, 0) && byName[c.Name].kind == rd.kind
		}
		if rd.must && !direct {
			// the plain form's code, shared otherwise
			_, ps := r.run(name+"/whole", Config{TrackPanics: true}, rd.fn)
			for _, x := range rs {
				if x.must || x.kind != rd.kind || !types.Identical(x.fn.Signature.Params().At(0).Type(), rd.fn.Signature.Params().At(0).Type()) {
					continue
				}
				_, pps := r.run(name+"/plain", Config{TrackPanics: true}, x.fn)
				same, why := mustForm(pps, ps, paramTerms(x.fn), paramTerms(rd.fn))
				r.Ob(same, name+"/same-reader", rd.fn.Pos(), "neither calls %s nor does the same: %s", x.fn.Name(), why)
				good++
			}
			r.Ob(good == 1, name+"/all-cases", rd.fn.Pos(), "%d plain forms", good)
			continue
		}
		for _, p := range ps {
			for _, e := range p.events {
				r.ObIf(e.Kind == "PanicSite", name+"/no-panic", e.Pos, "may panic (%s): %s", e.Name, r.P.pathOf(p))
			}
			if rd.must {
				var c *Event
				for _, e := range p.events {
					if e.Kind == "Call" && called[e.Name] != nil {
						c = e
					}
				}
				r.Ob(true, name+"/same-reader", rd.fn.Pos(), "")
				errNil := mkEq(resPart(c, 1), mkNil(nil), nil)
				switch p.out {
				case "Return":
					good++
					r.Ob(p.facts.Holds(errNil) && p.results[0] == resPart(c, 0), name+"/returns-key", rd.fn.Pos(), "returns %v although the error may be set: %s", p.results, r.P.pathOf(p))
				case "Panic":
					bad++
					r.Ob(p.facts.Refutes(errNil), name+"/panics-on-error", rd.fn.Pos(), "panics although there may be no error: %s", r.P.pathOf(p))
				default:
					r.Ob(false, name+"/ends", rd.fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p))
				}
				continue
			}
			if p.out == "LoopBack" {
				continue
			}
			if !r.Ob(p.out == "Return", name+"/returns", rd.fn.Pos(), "ends with %s: %s", p.out, r.P.pathOf(p)) {
				continue
			}
			k, e := p.results[0], p.results[1]
			if errKnown(p, e) {
				bad++
				r.Ob(true, name+"/error", rd.fn.Pos(), "")
				continue
			}
			c := rd.kind.pemKey(p, k)
			ok := c != nil && (e == resPart(c, 1) || p.facts.Holds(mkEq(resPart(c, 1), mkNil(nil), nil)) && (e.isNil() || p.facts.Holds(mkEq(e, mkNil(nil), nil))))
			good++
			r.Ob(ok, name+"/key-or-error", rd.fn.Pos(), "returns (%v, %v), which is neither a parsed %s without error nor an error: %s", k, e, rd.kind.result, r.P.pathOf(p))
		}
		r.Ob(good > 0 && bad > 0, name+"/all-cases", rd.fn.Pos(), "%d successful, %d failing paths", good, bad)
	}
}

// marked: whether the path knows the text to contain the marker.
func marked(p *State, s *Term, marker string) (yes, no bool) {
	for _, l := range p.facts.log {
		l.T.walk(func(t *Term) bool {
			if t.op == "pure" && len(t.args) == 2 && t.args[0] == s {
				if m, ok := t.args[1].isStr(); ok && m == marker {
					switch t.aux {
					case "strings.Contains":
						yes = yes || p.facts.Holds(t)
						no = no || p.facts.Refutes(t)
					case "strings.Index", "strings.LastIndex":
						yes = yes || p.facts.Leq(mkInt(0), t)
						no = no || p.facts.Less(t, mkInt(0))
					case "strings.Count":
						yes = yes || p.facts.Less(mkInt(0), t)
						no = no || p.facts.Leq(t, mkInt(0))
					}
				}
			}
			return true
		})
	}
	return
}

func checkP02(r *Report) {
	r.Rule("on every path of a reader that parses, the parsed bytes are the Bytes of the block that pem.Decode found, known to be there and to have the reader's type, by the reader's own parser; pem.Decode gets the given bytes, or the given text unchanged when both markers are known to be in it, or the text wrapped in markers of the reader's type when one is known to be missing")
	for _, rd := range r.pemReaders() {
		if rd.must {
			continue // P01: they call these
		}
		name := rd.fn.Name()
		in := paramTerm(rd.fn, 0)
		isText := types.Identical(in.typ.Underlying(), types.Typ[types.String])
		_, ps := r.run(name, Config{TrackPanics: true}, rd.fn)
		parsed, plain, wrapped := 0, 0, 0
		for _, p := range ps {
			var decs []*Event
			for _, e := range p.events {
				if e.Kind == "Call" && e.Name == "encoding/pem.Decode" {
					decs = append(decs, e)
				}
			}
			for _, d := range decs {
				if !isText {
					r.Ob(d.Args[0] == in, name+"/input", d.Pos, "decodes %v instead of its input: %s", d.Args[0], r.P.pathOf(p))
					continue
				}
				t := d.Args[0]
				if !r.Ob(t.op == "bytes" && len(t.args) == 1, name+"/input", d.Pos, "decodes %v: %s", t, r.P.pathOf(p)) {
					continue
				}
				t = t.args[0]
				by, bn := marked(p, in, "-----BEGIN")
				ey, en := marked(p, in, "-----END")
				if t == in {
					plain++
					r.Ob(by && ey, name+"/unwrapped", d.Pos, "text not known to have both markers is not wrapped: %s", r.P.pathOf(p))
					continue
				}
				wrapped++
				good := t.op == "cat" && len(t.args) == 3 && (t.args[1] == in || t.args[1].op == "pure" && t.args[1].aux == "strings.TrimSpace" && t.args[1].args[0] == in)
				if good {
					a, ok1 := t.args[0].isStr()
					z, ok2 := t.args[2].isStr()
					good = ok1 && ok2 && a == "-----BEGIN "+rd.kind.block+"-----\n" && strings.TrimSuffix(z, "\n") == "\n-----END "+rd.kind.block+"-----"
				}
				r.Ob(good, name+"/wrapped-in", d.Pos, "wraps the text as %v: %s", t, r.P.pathOf(p))
				r.Ob(bn || en, name+"/wrapped", d.Pos, "text that may have both markers is wrapped: %s", r.P.pathOf(p))
			}
			for _, c := range pemParse(p) {
				parsed++
				if !r.Ob(c.Name == rd.kind.parse, name+"/parser", c.Pos, "parses with %s: %s", c.Name, r.P.pathOf(p)) {
					continue
				}
				var block *Term
				for _, d := range decs {
					b := resPart(d, 0)
					if a := c.Args[0]; d.Seq < c.Seq && a.op == "init" && a.args[0].op == "fa" && a.args[0].aux == "encoding/pem.Block.Bytes" && a.args[0].args[0] == b {
						block = b
					}
				}
				if !r.Ob(block != nil, name+"/block-bytes", c.Pos, "parses %v, which is not the decoded block's bytes: %s", c.Args[0], r.P.pathOf(p)) {
					continue
				}
				f := p.factsAt(c)
				r.Ob(f.Refutes(mkEq(block, mkNil(nil), nil)), name+"/block-found", c.Pos, "parses a block not known to exist: %s", r.P.pathOf(p))
				typed := false
				for _, l := range f.log {
					l.T.walk(func(t *Term) bool {
						if t.op == "init" && t.args[0].op == "fa" && t.args[0].aux == "encoding/pem.Block.Type" && t.args[0].args[0] == block {
							typed = typed || f.Same(t, mkStr(rd.kind.block))
						}
						return true
					})
				}
				r.Ob(typed, name+"/block-type", c.Pos, "parses a block not known to be of type %s: %s", rd.kind.block, r.P.pathOf(p))
			}
		}
		r.Ob(parsed > 0 && (!isText || plain > 0 && wrapped > 0), name+"/all-cases", rd.fn.Pos(), "%d parsing paths, %d with markers, %d wrapped", parsed, plain, wrapped)
	}
}

const pkixMarshal = "crypto/x509.MarshalPKIXPublicKey"

// mentions: the call gets the address, itself or in an interface.
func mentions(e *Event, addr *Term) bool {
	for _, a := range e.Args {
		found := false
		a.walk(func(t *Term) bool {
			if t == addr {
				found = true
			}
			return !found && t.op != "call" && t.op != "init"
		})
		if found {
			return true
		}
	}
	return false
}

func checkP03(r *Report) {
	r.Rule("every path of an extractor (private key to text) that returns no error returns the PEM text, written once into a new empty buffer or returned by EncodeToMemory, of a block with the public-key reader's type, without headers, whose bytes are what MarshalPKIXPublicKey returned, without error, for the given key's public half; the public-key reader's own parser is the inverse of that marshaller; every other path returns an error known to be non-nil")
	r.Assume("x509.MarshalPKIXPublicKey and x509.ParsePKIXPublicKey are inverse on RSA keys, pem.Encode and pem.Decode on blocks without headers; MarshalPKIXPublicKey accepts every RSA key")
	pk := r.P.pkg(rsaPkg)
	if pk == nil {
		r.Missing(rsaPkg)
		return
	}
	pub := &pemKinds[1]
	readers := 0
	for _, rd := range r.pemReaders() {
		if rd.kind == pub && !rd.must {
			readers++
		}
	}
	r.Ob(readers > 0 && pub.parse == "crypto/x509.ParsePKIXPublicKey", "reader", 0, "no reader of what is written")
	for _, f := range r.P.entryPoints(pk) {
		sig := f.Signature
		if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Params().At(0).Type().String() != "*crypto/rsa.PrivateKey" || sig.Results().Len() != 2 || sig.Results().At(0).Type().String() != "string" {
			continue
		}
		r.Count("extractors", 1)
		name := f.Name()
		ex, ps := r.run(name, Config{}, f)
		pos := f.Pos()
		good := 0
		for _, p := range ps {
			if p.out == "LoopBack" {
				continue
			}
			if !r.Ob(p.out == "Return", name+"/returns", pos, "ends with %s: %s", p.out, r.P.pathOf(p)) {
				continue
			}
			var ms []*Event
			for _, e := range p.events {
				if e.Kind == "Call" && e.Name == pkixMarshal {
					ms = append(ms, e)
				}
			}
			if errKnown(p, p.results[1]) {
				failed := false
				for _, e := range p.events {
					if e.Kind != "Call" || e.Res == nil {
						continue
					}
					res := e.Res
					switch e.Name {
					case pkixMarshal:
						res = resPart(e, 1)
					case "encoding/pem.Encode":
					default:
						continue
					}
					failed = failed || p.facts.Refutes(mkEq(res, mkNil(nil), nil))
				}
				for _, l := range p.facts.log {
					failed = failed || l.T.op == "eq" && l.Val && has2(l.T.args, mkNil(nil)) && has2(l.T.args, paramTerm(f, 0))
				}
				r.Ob(failed, name+"/error-only-then", pos, "returns an error although everything succeeded: %s", r.P.pathOf(p))
				continue
			}
			good++
			t := p.results[0]
			for t.op == "pure" && t.aux == "strings.TrimSpace" {
				t = t.args[0]
			}
			var enc *Event
			var block *Term
			why := ""
			switch {
			case (t.op == "strof" || t.op == "string") && len(t.args) == 1 && callName(t.args[0]) == "encoding/pem.EncodeToMemory":
				for _, e := range p.events {
					if e.Kind == "Call" && e.Res == t.args[0] {
						enc, block = e, e.Args[0]
					}
				}
			case t.op == "init" && t.args[0].op == "fa" && strings.HasSuffix(t.args[0].aux, "#buf") && t.args[0].args[0].op == "alloc":
				buf := t.args[0].args[0]
				n := 0
				for _, e := range p.events {
					switch {
					case e.Kind == "Store" && e.Addr != nil && rootOf(e.Addr) == buf && e.Addr.op == "fa" && strings.HasSuffix(e.Addr.aux, "#buf"):
						if e.Val == nil || !isZero(e.Val) {
							why = "something else is written into the buffer"
						}
					case e.Kind == "Call" && mentions(e, buf):
						n++
						if e.Name == "encoding/pem.Encode" && len(e.Args) == 2 {
							enc, block = e, e.Args[1]
						} else {
							why = "the buffer is also given to " + e.Name
						}
					}
				}
				if n != 1 {
					why = "the buffer is not written exactly once"
				}
				if enc != nil {
					if v := ex.valAt(p, enc, t.args[0], types.Typ[types.String]); !v.isZeroText() {
						why = "the buffer already holds text when the block is encoded"
					}
				}
			default:
				why = "it is not PEM text that was encoded here"
			}
			if !r.Ob(enc != nil && why == "", name+"/encoded", pos, "returns %v: %s: %s", p.results[0], why, r.P.pathOf(p)) {
				continue
			}
			if enc.Name == "encoding/pem.Encode" {
				r.Ob(p.facts.Holds(mkEq(enc.Res, mkNil(nil), nil)) || p.results[1] == enc.Res, name+"/encode-error", enc.Pos, "an encoding error is dropped: %s", r.P.pathOf(p))
			}
			const B = "encoding/pem.Block"
			bt := derefType2(block.typ)
			if !r.Ob(block.op == "alloc" && bt != nil && bt.String() == B, name+"/block", enc.Pos, "encodes %v, which is not a new block: %s", block, r.P.pathOf(p)) {
				continue
			}
			at := func(fname string) *Term {
				a, ty := field(block, bt, fname)
				if a == nil {
					return nil
				}
				return ex.valAt(p, enc, a, ty)
			}
			typ, bs, hd := at("Type"), at("Bytes"), at("Headers")
			r.Ob(typ != nil && p.facts.Same(typ, mkStr(pub.block)), name+"/type", enc.Pos, "encodes a block of type %v, the reader wants %s: %s", typ, pub.block, r.P.pathOf(p))
			r.Ob(hd != nil && (isZero(hd) || hd.isNil()), name+"/no-headers", enc.Pos, "encodes headers %v: %s", hd, r.P.pathOf(p))
			var m *Event
			for _, e := range ms {
				if e.Seq < enc.Seq && bs == resPart(e, 0) {
					m = e
				}
			}
			if !r.Ob(m != nil, name+"/bytes", enc.Pos, "encodes %v, which is not the marshalled public key: %s", bs, r.P.pathOf(p)) {
				continue
			}
			r.Ob(p.facts.Holds(mkEq(resPart(m, 1), mkNil(nil), nil)), name+"/marshal-error", m.Pos, "encodes although marshalling may have failed: %s", r.P.pathOf(p))
			k := unbox1(m.Args[0])
			r.Ob(ownPublicHalf(k, paramTerm(f, 0)), name+"/own-key", m.Pos, "marshals %v, which is not the given key's public half: %s", m.Args[0], r.P.pathOf(p))
		}
		r.Ob(good > 0, name+"/succeeds", pos, "never succeeds")
	}
	r.Floor("extractors", 1)
}

// ownPublicHalf: k is the public key of the private key, read from its field or with its method Public.
func ownPublicHalf(k, private *Term) bool {
	if k == nil {
		return false
	}
	if callName(k) == "(*crypto/rsa.PrivateKey).Public" {
		return k.args[0] == private
	}
	return k.op == "fa" && k.aux == "crypto/rsa.PrivateKey.PublicKey" && k.args[0] == private
}

// isZeroText: the empty text.
func (t *Term) isZeroText() bool {
	s, ok := t.isStr()
	return t == nil || ok && s == ""
}
