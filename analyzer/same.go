package main

// Comparing two functions path by path: the same tests, the same effects in the same order, the same
// results, up to the names of fresh objects.

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var freshNo = regexp.MustCompile(`(?:#|chan|ovf|^)\d+`)

type sigNames map[string]string

func (n sigNames) of(aux string) string {
	return freshNo.ReplaceAllStringFunc(aux, func(s string) string {
		v, ok := n[s]
		if !ok {
			v = "~" + strconv.Itoa(len(n))
			n[s] = v
		}
		return v
	})
}

func (n sigNames) term(t *Term) string {
	if t == nil {
		return "-"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, n.term(a))
	}
	aux := t.aux
	switch t.op {
	case "const":
		return t.k.ExactString() + ":" + typeKey(t.typ)
	case "lin":
		for _, c := range t.lin {
			as = append(as, fmt.Sprintf("%d*%s", c.c, n.term(c.t)))
		}
		sort.Strings(as)
		return "lin(" + t.k.ExactString() + "," + strings.Join(as, ",") + ")"
	case "eq":
		sort.Strings(as)
	case "alloc", "opaque", "newerr", "call", "len":
		aux = n.of(aux)
	case "param":
		aux = "" // by position, see pathSig
		for i, a := range n.params() {
			if a == t.aux {
				aux = strconv.Itoa(i)
			}
		}
		if aux == "" {
			aux = t.aux
		}
	}
	fn := ""
	if t.fn != nil {
		fn = t.fn.String()
	}
	return t.op + "[" + aux + "]" + fn + "(" + strings.Join(as, ",") + ")"
}

func (n sigNames) params() []string {
	if n["params"] == "" {
		return nil
	}
	return strings.Split(n["params"], "\x00")
}

// pathSig describes a path; extra are further literals it is taken under.
func pathSig(p *State, params []*Term, results []*Term, extra ...Lit) string {
	n := sigNames{}
	var ps []string
	for _, t := range params {
		ps = append(ps, t.aux)
	}
	n["params"] = strings.Join(ps, "\x00")
	var out []string
	for _, e := range p.events {
		if e.Kind == "Panic" || e.Kind == "Return" || e.Local && (e.Kind == "Load" || e.Kind == "Store") {
			continue
		}
		name := e.Name
		if strings.HasPrefix(e.Kind, "Loop") {
			name = ""
		}
		s := e.Kind + " " + name + " " + n.term(e.Addr) + " " + n.term(e.Val) + " " + n.term(e.Callee) + " " + strconv.Itoa(e.Chosen)
		for _, a := range e.Args {
			s += " " + n.term(a)
		}
		s += " -> " + n.term(e.Res)
		out = append(out, s)
	}
	for _, t := range results {
		out = append(out, "result "+n.term(t))
	}
	var fs []string
	for _, l := range append(append([]Lit{}, p.facts.log...), extra...) {
		fs = append(fs, fmt.Sprintf("%v %s", l.Val, n.term(l.T)))
	}
	sort.Strings(fs)
	var uniq []string
	for i, f := range fs {
		if i == 0 || f != fs[i-1] {
			uniq = append(uniq, f)
		}
	}
	return strings.Join(append(out, uniq...), "\n")
}

// mustForm: must does path by path what plain does, except that it panics exactly where plain returns a
// non-nil error (its last result) and otherwise returns the remaining results.
func mustForm(plain, must []*State, pp, mp []*Term) (bool, string) {
	want, got := map[string]string{}, map[string]string{}
	for _, p := range plain {
		if p.out != "Return" || len(p.results) == 0 {
			return false, "the plain form ends with " + p.out
		}
		e := p.results[len(p.results)-1]
		rest := p.results[:len(p.results)-1]
		isNil := mkEq(e, mkNil(nil), nil)
		v, known := p.facts.Eval(isNil)
		if !known && (e.op == "newerr" || e.op == "mkiface") {
			v, known = false, true
		}
		if !known || v {
			f := p.facts.clone()
			if f.Assume(isNil, true) {
				var x []Lit
				if !known {
					x = []Lit{{isNil, true}}
				}
				want[pathSig(p, pp, rest, x...)] = "Return"
			}
		}
		if !known || !v {
			var x []Lit
			if !known {
				x = []Lit{{isNil, false}}
			}
			want[pathSig(p, pp, nil, x...)] = "Panic"
		}
	}
	for _, p := range must {
		switch p.out {
		case "Return":
			got[pathSig(p, mp, p.results)] = "Return"
		case "Panic":
			got[pathSig(p, mp, nil)] = "Panic"
		default:
			return false, "ends with " + p.out
		}
	}
	for k, v := range want {
		if got[k] != v {
			return false, "no way to " + strings.ToLower(v) + " for: " + strings.ReplaceAll(k, "\n", "; ")
		}
	}
	for k, v := range got {
		if want[k] != v {
			return false, strings.ToLower(v) + "s unlike the plain form: " + strings.ReplaceAll(k, "\n", "; ")
		}
	}
	return true, ""
}

func paramTerms(fn *ssa.Function) (out []*Term) {
	for i := range fn.Params {
		out = append(out, paramTerm(fn, i))
	}
	return
}
