package main

import (
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sym int32

type mono struct {
	s Sym
	c int64
}

// Lin is an immutable linear expression sum(c_i*s_i) + k.
type Lin struct {
	m []mono
	k N
}

func lconst(v int64) Lin { return Lin{k: n(v)} }
func lnum(v N) Lin       { return Lin{k: v} }
func lsym(s Sym) Lin     { return Lin{m: []mono{{s, 1}}} }

func (a Lin) isConst() bool { return len(a.m) == 0 }
func (a Lin) constVal() (int64, bool) {
	if len(a.m) == 0 && a.k.isInt64() {
		return a.k.int64(), true
	}
	return 0, false
}
func (a Lin) single() (Sym, bool) {
	if len(a.m) == 1 && a.m[0].c == 1 && a.k == n0 {
		return a.m[0].s, true
	}
	return 0, false
}

// addScaled returns a + f*b.
func (a Lin) addScaled(b Lin, f int64) (Lin, bool) {
	if f == 0 {
		return a, true
	}
	out := Lin{}
	bk, ok := b.k.mulInt(f)
	if !ok {
		return a, false
	}
	out.k = a.k.add(bk)
	if len(b.m) == 0 {
		out.m = a.m
		return out, true
	}
	i, j := 0, 0
	r := make([]mono, 0, len(a.m)+len(b.m))
	for i < len(a.m) || j < len(b.m) {
		switch {
		case j >= len(b.m) || (i < len(a.m) && a.m[i].s < b.m[j].s):
			r = append(r, a.m[i])
			i++
		case i >= len(a.m) || b.m[j].s < a.m[i].s:
			c, ok := mul64(b.m[j].c, f)
			if !ok {
				return a, false
			}
			r = append(r, mono{b.m[j].s, c})
			j++
		default:
			c, ok := mul64(b.m[j].c, f)
			if !ok {
				return a, false
			}
			c2 := a.m[i].c + c
			if (c > 0 && c2 < a.m[i].c) || (c < 0 && c2 > a.m[i].c) {
				return a, false
			}
			if c2 != 0 {
				r = append(r, mono{a.m[i].s, c2})
			}
			i++
			j++
		}
	}
	out.m = r
	return out, true
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	h, l := bits.Mul64(absU(a), absU(b))
	if h != 0 || l > 1<<56 {
		return 0, false
	}
	return a * b, true
}

func absU(a int64) uint64 {
	if a < 0 {
		return -uint64(a)
	}
	return uint64(a)
}

func (a Lin) add(b Lin) Lin { return a.exactly(b, 1) }
func (a Lin) sub(b Lin) Lin { return a.exactly(b, -1) }

func (a Lin) exactly(b Lin, f int64) Lin {
	r, ok := a.addScaled(b, f)
	if !ok {
		panic(undecided{"a linear form with coefficients past the analyser's range"})
	}
	return r
}

func (a Lin) addK(v int64) Lin { return Lin{a.m, a.k.add(n(v))} }
func (a Lin) addN(v N) Lin     { return Lin{a.m, a.k.add(v)} }
func (a Lin) neg() Lin         { return Lin{}.sub(a) }
func (a Lin) eq(b Lin) bool {
	if a.k != b.k || len(a.m) != len(b.m) {
		return false
	}
	for i := range a.m {
		if a.m[i] != b.m[i] {
			return false
		}
	}
	return true
}
func (a Lin) coef(s Sym) int64 {
	for _, m := range a.m {
		if m.s == s {
			return m.c
		}
	}
	return 0
}

// subst replaces s by e.
func (a Lin) subst(s Sym, e Lin) Lin {
	c := a.coef(s)
	if c == 0 {
		return a
	}
	return a.exactly(lsym(s), -c).exactly(e, c)
}

// substOK is subst, when the coefficients stay in range.
func (a Lin) substOK(s Sym, e Lin) (Lin, bool) {
	c := a.coef(s)
	if c == 0 {
		return a, true
	}
	r, ok := a.addScaled(lsym(s), -c)
	if ok {
		r, ok = r.addScaled(e, c)
	}
	return r, ok
}

// rename maps symbols.
func (a Lin) rename(f func(Sym) Sym) Lin {
	out := Lin{k: a.k}
	for _, m := range a.m {
		out = out.exactly(lsym(f(m.s)), m.c)
	}
	return out
}

func (a Lin) coefKey() string {
	var b strings.Builder
	for _, m := range a.m {
		b.WriteString(strconv.Itoa(int(m.s)))
		b.WriteByte('*')
		b.WriteString(strconv.FormatInt(m.c, 10))
		b.WriteByte(' ')
	}
	return b.String()
}
func (a Lin) key() string { return a.coefKey() + "+" + a.k.String() }

func (a Lin) String() string {
	var p []string
	for _, m := range a.m {
		s := symName(m.s)
		if m.c != 1 {
			s = strconv.FormatInt(m.c, 10) + "*" + s
		}
		p = append(p, s)
	}
	if a.k.sign() != 0 || len(p) == 0 {
		p = append(p, a.k.String())
	}
	return strings.Join(p, "+")
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides l <= 0 by the gcd of its coefficients.
func (a Lin) tighten() Lin {
	if len(a.m) == 0 {
		return a
	}
	g := int64(0)
	for _, m := range a.m {
		g = gcd64(g, m.c)
		if g == 1 {
			return a
		}
	}
	r := Lin{m: make([]mono, len(a.m))}
	for i, m := range a.m {
		r.m[i] = mono{m.s, m.c / g}
	}
	// sum + k <= 0  ==>  sum' <= floor(-k/g)
	r.k = a.k.neg().floorDiv(g).neg()
	return r
}

// unsat reports that the conjunction of (l <= 0) for l in le and (e == 0) for e in eqs has
// no integer solution (sound, incomplete): equality substitution, then Fourier-Motzkin.
func unsat(le, eqs []Lin) bool {
	// substitute equalities with a unit coefficient
	eqs = append([]Lin(nil), eqs...)
	le = append([]Lin(nil), le...)
	for len(eqs) > 0 {
		e := eqs[len(eqs)-1]
		eqs = eqs[:len(eqs)-1]
		if len(e.m) == 0 {
			if e.k.sign() != 0 {
				return true
			}
			continue
		}
		pick := -1
		for i, m := range e.m {
			if m.c == 1 || m.c == -1 {
				pick = i
				break
			}
		}
		if pick < 0 {
			le = append(le, e, e.neg())
			continue
		}
		s, c := e.m[pick].s, e.m[pick].c
		// c*s + rest = 0  ->  s = -rest/c
		rest := e.exactly(lsym(s), -c)
		val := rest
		if c == 1 {
			val = rest.neg()
		}
		for _, ls := range [][]Lin{eqs, le} {
			for i := range ls {
				l, ok := ls[i].substOK(s, val)
				if !ok {
					return false
				}
				ls[i] = l
			}
		}
	}
	cur, bad := normalise(le)
	if bad {
		return true
	}
	for steps := 0; len(cur) > 0 && steps < 60; steps++ {
		pos := map[Sym]int{}
		neg := map[Sym]int{}
		for _, l := range cur {
			for _, m := range l.m {
				if m.c > 0 {
					pos[m.s]++
				} else {
					neg[m.s]++
				}
			}
		}
		best, bestCost := Sym(-1), 1<<30
		var syms []Sym
		for s := range pos {
			syms = append(syms, s)
		}
		for s := range neg {
			if _, ok := pos[s]; !ok {
				syms = append(syms, s)
			}
		}
		sort.Slice(syms, func(i, j int) bool { return syms[i] < syms[j] })
		for _, s := range syms {
			cost := pos[s]*neg[s] - pos[s] - neg[s]
			if cost < bestCost {
				best, bestCost = s, cost
			}
		}
		if best < 0 {
			return false
		}
		var ps, ns, keep []Lin
		for _, l := range cur {
			c := l.coef(best)
			switch {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				keep = append(keep, l)
			}
		}
		if len(ps)*len(ns) > 600 {
			return false
		}
		for _, p := range ps {
			for _, q := range ns {
				cp, cq := p.coef(best), -q.coef(best)
				a, ok1 := Lin{}.addScaled(p, cq)
				b, ok2 := a.addScaled(q, cp)
				if !ok1 || !ok2 {
					continue
				}
				keep = append(keep, b)
			}
		}
		cur, bad = normalise(keep)
		if bad {
			return true
		}
		if len(cur) > 800 {
			return false
		}
	}
	return false
}

func normalise(le []Lin) ([]Lin, bool) {
	idx := make(map[string]int, len(le))
	out := le[:0:0]
	for _, l := range le {
		if len(l.m) == 0 {
			if l.k.sign() > 0 {
				return nil, true
			}
			continue
		}
		l = l.tighten()
		k := l.coefKey()
		if i, ok := idx[k]; ok {
			if l.k.cmp(out[i].k) > 0 {
				out[i] = l
			}
			continue
		}
		idx[k] = len(out)
		out = append(out, l)
	}
	return out, false
}
