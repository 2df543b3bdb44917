package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"regexp"
	"strings"
)

// Set is a subset of 0..255: bytes, reflect kinds, booleans.
type Set [4]uint64

var fullSet = Set{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
var boolSet = setOf(0, 1)

func setOf(vs ...int) Set {
	var s Set
	for _, v := range vs {
		s[v>>6] |= 1 << (v & 63)
	}
	return s
}
func setBytes(str string) Set {
	var s Set
	for i := 0; i < len(str); i++ {
		s[str[i]>>6] |= 1 << (str[i] & 63)
	}
	return s
}
func setRange(lo, hi int) Set {
	var s Set
	for v := lo; v <= hi; v++ {
		s[v>>6] |= 1 << (v & 63)
	}
	return s
}
func (s Set) has(v int) bool    { return v >= 0 && v < 256 && s[v>>6]&(1<<(v&63)) != 0 }
func (s Set) and(t Set) Set     { return Set{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]} }
func (s Set) or(t Set) Set      { return Set{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]} }
func (s Set) not() Set          { return Set{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s Set) empty() bool       { return s == Set{} }
func (s Set) subset(t Set) bool { return s.and(t.not()).empty() }
func (s Set) count() int {
	c := 0
	for _, w := range s {
		c += bits.OnesCount64(w)
	}
	return c
}
func (s Set) min() int {
	for i, w := range s {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}
func (s Set) max() int {
	for i := 3; i >= 0; i-- {
		if s[i] != 0 {
			return i*64 + 63 - bits.LeadingZeros64(s[i])
		}
	}
	return -1
}
func (s Set) each(f func(int)) {
	for v := 0; v < 256; v++ {
		if s.has(v) {
			f(v)
		}
	}
}
func (s Set) bytesString() string {
	if s.count() > 40 {
		return "not{" + s.not().bytesString() + "}"
	}
	var b strings.Builder
	s.each(func(v int) {
		if v >= 32 && v < 127 {
			b.WriteByte(byte(v))
		} else {
			fmt.Fprintf(&b, "\\x%02x", v)
		}
	})
	return b.String()
}

// Term is an interned symbolic term: type terms, value identities, uninterpreted applications.
type Term struct {
	op   string
	args []*Term
	str  string
	lin  *Lin
	typ  types.Type
	key  string
}

var termTab = map[string]*Term{}

func internTerm(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	if t.str != "" {
		b.WriteString("'" + t.str + "'")
	}
	if t.lin != nil {
		b.WriteString("{" + t.lin.key() + "}")
	}
	if t.typ != nil {
		b.WriteString("<" + typeKey(t.typ) + ">")
	}
	if len(t.args) > 0 {
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.key)
		}
		b.WriteByte(')')
	}
	t.key = b.String()
	if o, ok := termTab[t.key]; ok {
		return o
	}
	termTab[t.key] = t
	return t
}

var (
	typeKeys    = map[types.Type]string{}
	predeclared = regexp.MustCompile(`(^|[^.\w])(byte|rune|any)\b`)
	realNames   = map[string]string{"byte": "uint8", "rune": "int32", "any": "interface{}"}
)

// typeKey is one text for identical types.
func typeKey(t types.Type) string {
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := predeclared.ReplaceAllStringFunc(types.TypeString(t, nil), func(m string) string {
		i := strings.LastIndexAny(m, "abr")
		for n := range realNames {
			if strings.HasSuffix(m, n) {
				i = len(m) - len(n)
			}
		}
		return m[:i] + realNames[m[i:]]
	})
	typeKeys[t] = k
	return k
}

func T(op string, args ...*Term) *Term       { return internTerm(&Term{op: op, args: args}) }
func Tstr(op, s string, args ...*Term) *Term { return internTerm(&Term{op: op, str: s, args: args}) }
func Tlin(op string, l Lin, args ...*Term) *Term {
	return internTerm(&Term{op: op, lin: &l, args: args})
}

var termCounter int

func freshTerm(op string) *Term {
	termCounter++
	return Tstr(op, fmt.Sprintf("#%d", termCounter))
}

func (t *Term) String() string {
	if t == nil {
		return "?"
	}
	var b strings.Builder
	b.WriteString(t.op)
	if t.str != "" {
		b.WriteString(t.str)
	}
	if t.typ != nil {
		b.WriteString(types.TypeString(t.typ, func(p *types.Package) string { return p.Name() }))
	}
	if t.lin != nil {
		b.WriteString("[" + t.lin.String() + "]")
	}
	if len(t.args) > 0 {
		b.WriteByte('(')
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(a.String())
		}
		b.WriteByte(')')
	}
	return b.String()
}

// renameTerm applies a symbol renaming (and term substitution) inside a term.
func renameTerm(t *Term, rs func(Sym) Sym, sub map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.lin == nil {
		return t
	}
	nt := &Term{op: t.op, str: t.str, typ: t.typ}
	for _, a := range t.args {
		nt.args = append(nt.args, renameTerm(a, rs, sub))
	}
	if t.lin != nil {
		l := t.lin.rename(rs)
		nt.lin = &l
	}
	return internTerm(nt)
}

func (t *Term) syms(f func(Sym)) {
	if t.lin != nil {
		for _, m := range t.lin.m {
			f(m.s)
			if st := symtab[m.s].term; st != nil {
				st.syms(f)
			}
		}
	}
	for _, a := range t.args {
		a.syms(f)
	}
}

func (t *Term) mentions(u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if a.mentions(u) {
			return true
		}
	}
	if t.lin != nil {
		for _, m := range t.lin.m {
			if st := symtab[m.s].term; st != nil && st.mentions(u) {
				return true
			}
		}
	}
	return false
}

type SymInfo struct {
	name   string
	term   *Term // identity of a derived symbol, nil for a fresh one
	fin    bool  // finite domain
	dom    Set
	lo, hi N
}

var symtab []SymInfo
var symByTerm = map[string]Sym{}

func newSym(name string, lo, hi N) Sym {
	symtab = append(symtab, SymInfo{name: name, lo: lo, hi: hi})
	return Sym(len(symtab) - 1)
}
func newFin(name string, dom Set) Sym {
	symtab = append(symtab, SymInfo{name: name, fin: true, dom: dom, lo: n(int64(dom.min())), hi: n(int64(dom.max()))})
	return Sym(len(symtab) - 1)
}
func symForTerm(t *Term, lo, hi N) Sym {
	if s, ok := symByTerm[t.key]; ok {
		return s
	}
	s := newSym("", lo, hi)
	symtab[s].term = t
	symByTerm[t.key] = s
	return s
}
func finForTerm(t *Term, dom Set) Sym {
	if s, ok := symByTerm[t.key]; ok {
		return s
	}
	s := newFin("", dom)
	symtab[s].term = t
	symByTerm[t.key] = s
	return s
}
func symName(s Sym) string {
	i := symtab[s]
	if i.term != nil {
		return i.term.String()
	}
	return fmt.Sprintf("%s$%d", i.name, s)
}
