package main

// Languages of strings described by path facts: every literal about a string becomes a
// deterministic automaton; their product with a specification decides whether any string on the
// path lies inside or outside the specified language.

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// sym is a representative of a class of characters: its rune and its bytes.
type sym struct {
	r rune
	b string
}

type strAut interface {
	start() string
	step(s string, c sym) string
	accepts(s string) bool
	marks() []rune // boundaries of the character classes it distinguishes
}

type constAut bool

func (constAut) start() string           { return "" }
func (constAut) step(string, sym) string { return "" }
func (c constAut) accepts(string) bool   { return bool(c) }
func (constAut) marks() []rune           { return nil }

// regexAut: does the pattern match somewhere in the string?
type regexAut struct {
	prog *syntax.Prog
	memo map[string]string
}

func newRegexAut(pat string) *regexAut {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	return &regexAut{prog: p, memo: map[string]string{}}
}

func (a *regexAut) closure(pcs []uint32, flag syntax.EmptyOp) (out []uint32, matched bool) {
	seen := map[uint32]bool{}
	var add func(pc uint32)
	add = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &a.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(in.Out)
			add(in.Arg)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flag == 0 {
				add(in.Out)
			}
		case syntax.InstCapture, syntax.InstNop:
			add(in.Out)
		case syntax.InstMatch:
			matched = true
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		add(pc)
	}
	add(uint32(a.prog.Start))
	return
}

func (a *regexAut) decode(s string) (prev rune, pcs []uint32) {
	var p int
	parts := strings.Split(s, ",")
	fmt.Sscan(parts[0], &p)
	for _, x := range parts[1:] {
		var n uint32
		fmt.Sscan(x, &n)
		pcs = append(pcs, n)
	}
	return rune(p), pcs
}

func (a *regexAut) start() string { return "-1" }

func (a *regexAut) step(s string, c sym) string {
	if s == "M" {
		return s
	}
	key := s + "|" + c.b
	if v, ok := a.memo[key]; ok {
		return v
	}
	prev, pcs := a.decode(s)
	cl, m := a.closure(pcs, syntax.EmptyOpContext(prev, c.r))
	out := "M"
	if !m {
		var next []int
		for _, pc := range cl {
			in := &a.prog.Inst[pc]
			if in.MatchRune(c.r) {
				next = append(next, int(in.Out))
			}
		}
		sort.Ints(next)
		p := rune(' ')
		if c.r == '\n' {
			p = '\n'
		} else if syntax.IsWordChar(c.r) {
			p = 'a'
		}
		out = fmt.Sprint(int(p))
		last := -1
		for _, n := range next {
			if n != last {
				out += "," + fmt.Sprint(n)
			}
			last = n
		}
	}
	a.memo[key] = out
	return out
}

func (a *regexAut) accepts(s string) bool {
	if s == "M" {
		return true
	}
	prev, pcs := a.decode(s)
	_, m := a.closure(pcs, syntax.EmptyOpContext(prev, -1))
	return m
}

func (a *regexAut) marks() (out []rune) {
	for _, in := range a.prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			for i := 0; i < len(in.Rune); i++ {
				r := in.Rune[i]
				out = append(out, r-1, r, r+1)
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					out = append(out, f-1, f, f+1)
				}
			}
		}
	}
	return
}

// lenAut: a predicate on the number of bytes, constant from cap on.
type lenAut struct {
	pred func(int64) bool
	cap  int64
}

func (a *lenAut) start() string           { panic("part of a scan") }
func (a *lenAut) step(string, sym) string { panic("part of a scan") }
func (a *lenAut) accepts(string) bool     { panic("part of a scan") }
func (a *lenAut) marks() []rune           { return nil }

// byteAut: a predicate on the byte at a fixed position, which exists.
type byteAut struct {
	pos  int64
	pred func(int64) bool
	at   []rune
}

func (a *byteAut) start() string           { panic("part of a scan") }
func (a *byteAut) step(string, sym) string { panic("part of a scan") }
func (a *byteAut) accepts(string) bool     { panic("part of a scan") }
func (a *byteAut) marks() []rune           { return a.at }

// scanAut: all predicates on the length and on single bytes together; a state is the number of
// bytes seen, or "x" once none can hold any more.
type scanAut struct {
	bytes map[int64][]func(int64) bool
	okLen []bool // by number of bytes; constant from the last on
	alive []bool // some length from here on is fine
	at    []rune
}

func newScanAut(auts []strAut, pols []bool) *scanAut {
	a := &scanAut{bytes: map[int64][]func(int64) bool{}}
	lim := int64(0)
	for _, x := range auts {
		switch x := x.(type) {
		case *lenAut:
			if x.cap > lim {
				lim = x.cap
			}
		case *byteAut:
			if x.pos+1 > lim {
				lim = x.pos + 1
			}
		}
	}
	a.okLen, a.alive = make([]bool, lim+1), make([]bool, lim+1)
	for n := range a.okLen {
		a.okLen[n] = true
		for i, x := range auts {
			switch x := x.(type) {
			case *lenAut:
				a.okLen[n] = a.okLen[n] && x.pred(int64(n)) == pols[i]
			case *byteAut:
				a.okLen[n] = a.okLen[n] && int64(n) > x.pos
			}
		}
	}
	for n := lim; n >= 0; n-- {
		a.alive[n] = a.okLen[n] || n < lim && a.alive[n+1]
	}
	for _, x := range auts {
		if b, is := x.(*byteAut); is {
			a.bytes[b.pos] = append(a.bytes[b.pos], b.pred)
			a.at = append(a.at, b.at...)
		}
	}
	return a
}

func (a *scanAut) start() string { return "0" }
func (a *scanAut) step(s string, c sym) string {
	if s == "x" {
		return s
	}
	n, _ := strconv.Atoi(s)
	for i := 0; i < len(c.b); i++ {
		for _, p := range a.bytes[int64(n)] {
			if !p(int64(c.b[i])) {
				return "x"
			}
		}
		if n < len(a.okLen)-1 {
			n++
		}
	}
	if !a.alive[n] {
		return "x"
	}
	return strconv.Itoa(n)
}
func (a *scanAut) accepts(s string) bool {
	if s == "x" {
		return false
	}
	n, _ := strconv.Atoi(s)
	return a.okLen[n]
}
func (a *scanAut) marks() []rune { return a.at }

// strLit: the automaton of a literal about the string, nil if it says nothing this can use.
func strLit(t *Term, val bool, value *Term) (aut strAut, pol bool) {
	pol = val
	for t.op == "not" {
		t, pol = t.args[0], !pol
	}
	quoted := func(pre string, c *Term, post string) strAut {
		if s, ok := c.isStr(); ok {
			if a := newRegexAut(`(?s)` + pre + regexp.QuoteMeta(s) + post); a != nil {
				return a
			}
		}
		return nil
	}
	switch t.op {
	case "le", "eqz":
		cs, k := linOf(t.args[0])
		if len(cs) != 1 {
			return nil, pol
		}
		c, op := cs[0], t.op
		pred := func(n int64) bool {
			v := c.c*n + k
			if op == "le" {
				return v <= 0
			}
			return v == 0
		}
		if c.t == mkLen(value) {
			lim := k
			if lim < 0 {
				lim = -lim
			}
			if lim > 4096 {
				return nil, pol
			}
			return &lenAut{pred, lim + 2}, pol
		}
		if c.t.op == "byteat" && c.t.args[0] == value {
			if i, ok := c.t.args[1].isInt(); ok && i >= 0 && i < 64 {
				p := pred
				if !pol {
					p = func(n int64) bool { return !pred(n) }
				}
				a := &byteAut{pos: i, pred: p}
				for n := int64(0); n < 128; n++ {
					if n > 0 && pred(n) != pred(n-1) {
						a.at = append(a.at, rune(n-1), rune(n))
					}
				}
				return a, true
			}
		}
	case "eq":
		for i := 0; i < 2; i++ {
			a, b := t.args[i], t.args[1-i]
			if a == value {
				if q := quoted(`\A`, b, `\z`); q != nil {
					return q, pol
				}
			}
			if a.isNil() && b.op == "pure" && b.aux == "regexp.MatchString#.1" {
				if p, ok := b.args[0].isStr(); ok {
					return constAut(newRegexAut(p) != nil), pol
				}
			}
		}
	case "pure":
		var pat *Term
		switch {
		case t.aux == "regexp.MatchString#.0" && t.args[1] == value:
			pat = t.args[0]
		case t.aux == "(*regexp.Regexp).MatchString" && t.args[1] == value && t.args[0].op == "pure" && t.args[0].aux == "regexp.MustCompile":
			pat = t.args[0].args[0]
		case t.aux == "strings.HasPrefix" && t.args[0] == value:
			if q := quoted(`\A`, t.args[1], ``); q != nil {
				return q, pol
			}
		case t.aux == "strings.HasSuffix" && t.args[0] == value:
			if q := quoted(``, t.args[1], `\z`); q != nil {
				return q, pol
			}
		case t.aux == "strings.Contains" && t.args[0] == value:
			if q := quoted(``, t.args[1], ``); q != nil {
				return q, pol
			}
		}
		if pat != nil {
			if s, ok := pat.isStr(); ok {
				if a := newRegexAut(s); a != nil {
					return a, pol
				}
			}
		}
	}
	return nil, pol
}

// strDecide: is there a string satisfying the literals inside, and one outside, the language?
func strDecide(lits []Lit, value *Term, spec strAut) (in, out, ok bool) {
	auts, pols := []strAut{spec}, []bool{true}
	var scan []strAut
	var scanPols []bool
	for _, l := range lits {
		if a, pol := strLit(l.T, l.Val, value); a != nil {
			switch a.(type) {
			case *lenAut, *byteAut:
				scan, scanPols = append(scan, a), append(scanPols, pol)
			default:
				auts, pols = append(auts, a), append(pols, pol)
			}
		}
	}
	if scan != nil {
		auts, pols = append(auts, newScanAut(scan, scanPols)), append(pols, true)
	}
	set := map[rune]bool{'\n': true, 'a': true, ' ': true, 0: true, 'é': true, '€': true, '😀': true, unicode.MaxRune: true}
	for _, a := range auts {
		for _, m := range a.marks() {
			if m >= 0 && m <= unicode.MaxRune {
				set[m] = true
			}
		}
	}
	syms := []sym{{utf8.RuneError, "\x80"}, {utf8.RuneError, "\xff"}}
	for m := range set {
		syms = append(syms, sym{m, string(m)})
	}
	type node []string
	enc := func(n node) string { return strings.Join(n, ";") }
	first := node{}
	for _, a := range auts {
		first = append(first, a.start())
	}
	seen := map[string]bool{enc(first): true}
	work := []node{first}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		all := true
		for i := 1; i < len(auts); i++ {
			all = all && auts[i].accepts(n[i]) == pols[i]
		}
		if all {
			if auts[0].accepts(n[0]) {
				in = true
			} else {
				out = true
			}
		}
		if in && out {
			return in, out, true
		}
		for _, c := range syms {
			m := make(node, len(n))
			for i, a := range auts {
				m[i] = a.step(n[i], c)
			}
			if m[len(m)-1] == "x" {
				continue
			}
			if k := enc(m); !seen[k] {
				if len(seen) > 100000 {
					return true, true, false
				}
				seen[k] = true
				work = append(work, m)
			}
		}
	}
	return in, out, true
}
