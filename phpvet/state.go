package main

import (
	"sort"
)

// ByteFact: the byte of array obj at index pos is the finite symbol s.
type ByteFact struct {
	obj ObjID
	pos Lin
	s   Sym
}

// RangeFact: every byte of obj at an index in [lo,hi) is in set.
type RangeFact struct {
	obj    ObjID
	lo, hi Lin
	set    Set
}

// SpanFact: [lo,hi) of obj is one complete serialized value.
type SpanFact struct {
	obj    ObjID
	lo, hi Lin
	tag    Sym // tag byte
}

// SeqFact: [lo,hi) of obj is a concatenation of complete values; cnt of them modulo 2 is par.
type SeqFact struct {
	obj    ObjID
	lo, hi Lin
	par    int
}

type Effect struct {
	kind string // SetZero, Set, Delegate, Call ...
	rv   *Term
	arg  Val
	pos  string
}

type State struct {
	le, eq, ne []Lin
	dom        map[Sym]Set
	heap       map[ObjID]*Obj
	bytes      []ByteFact
	ranges     []RangeFact
	spans      []SpanFact
	seqs       []SeqFact
	digest     map[Sym]Digest // integer computed only from the bytes of a slice
	ver        map[string]int // versions of mutable reflect values
	effects    []Effect
	pending    string          // site of an unreported failure
	seenAs     []seenAs        // codecs a type switch has told apart
	lossy      string          // site of a conversion or operation that lost information
	alias      map[*Term]*Term // type terms known to denote the same type
	guards     []Guard
	locks      []string // locks held, with their mode
	views      []elemView
	dead       bool
	noFeas     bool
	trace      []string
}

// Guard records a finite symbol value established by a check (for diagnostics).
type Guard struct{}

// Digest says a symbol was computed by a function of the bytes [lo,hi) of obj only.
type Digest struct {
	obj    ObjID
	lo, hi Lin
	fn     string
	arg    *Lin // for int -> int functions
}

func newState() *State {
	return &State{dom: map[Sym]Set{}, heap: map[ObjID]*Obj{}, digest: map[Sym]Digest{}, ver: map[string]int{}}
}

func (s *State) clone() *State {
	c := *s
	c.le = s.le[:len(s.le):len(s.le)]
	c.eq = s.eq[:len(s.eq):len(s.eq)]
	c.views = s.views[:len(s.views):len(s.views)]
	c.ne = s.ne[:len(s.ne):len(s.ne)]
	c.seenAs = s.seenAs[:len(s.seenAs):len(s.seenAs)]
	c.bytes = s.bytes[:len(s.bytes):len(s.bytes)]
	c.ranges = s.ranges[:len(s.ranges):len(s.ranges)]
	c.spans = s.spans[:len(s.spans):len(s.spans)]
	c.seqs = append([]SeqFact(nil), s.seqs...)
	c.effects = s.effects[:len(s.effects):len(s.effects)]
	c.trace = s.trace[:len(s.trace):len(s.trace)]
	c.dom = make(map[Sym]Set, len(s.dom))
	for k, v := range s.dom {
		c.dom[k] = v
	}
	c.heap = make(map[ObjID]*Obj, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.digest = make(map[Sym]Digest, len(s.digest))
	for k, v := range s.digest {
		c.digest[k] = v
	}
	c.ver = make(map[string]int, len(s.ver))
	for k, v := range s.ver {
		c.ver[k] = v
	}
	return &c
}

func (s *State) domOf(y Sym) Set {
	if d, ok := s.dom[y]; ok {
		return d
	}
	return symtab[y].dom
}

// relevant collects the constraints connected to the symbols of the query.
func (s *State) relevant(q []Lin) (le, eq []Lin) {
	syms := map[Sym]bool{}
	var todo []Sym
	add := func(l Lin) {
		for _, m := range l.m {
			if !syms[m.s] {
				syms[m.s] = true
				todo = append(todo, m.s)
			}
		}
	}
	for _, l := range q {
		add(l)
	}
	usedLe := make([]bool, len(s.le))
	usedEq := make([]bool, len(s.eq))
	for changed := true; changed; {
		changed = false
		for i, l := range s.eq {
			if usedEq[i] {
				continue
			}
			for _, m := range l.m {
				if syms[m.s] {
					usedEq[i] = true
					changed = true
					eq = append(eq, l)
					add(l)
					break
				}
			}
		}
		for i, l := range s.le {
			if usedLe[i] {
				continue
			}
			for _, m := range l.m {
				if syms[m.s] {
					usedLe[i] = true
					changed = true
					le = append(le, l)
					add(l)
					break
				}
			}
		}
	}
	for y := range syms {
		lo, hi := s.bounds(y)
		le = append(le, lnum(lo).sub(lsym(y)), lsym(y).addN(hi.neg()))
	}
	sort.Slice(le, func(i, j int) bool { return len(le[i].m) < len(le[j].m) })
	return le, eq
}

func (s *State) bounds(y Sym) (N, N) {
	i := &symtab[y]
	if i.fin {
		d := s.domOf(y)
		if d.empty() {
			return n1, n0
		}
		return n(int64(d.min())), n(int64(d.max()))
	}
	return i.lo, i.hi
}

var statEntail, statFM int

// entailsLE reports that l <= 0 holds in every concrete state.
func (s *State) entailsLE(l Lin) bool {
	statEntail++
	if l.isConst() {
		return l.k.sign() <= 0
	}
	// interval bound
	hi := l.k
	ok := true
	for _, m := range l.m {
		lo, h := s.bounds(m.s)
		v := h
		if m.c < 0 {
			v = lo
		}
		p, good := v.mulInt(m.c)
		if !good {
			ok = false
			break
		}
		hi = hi.add(p)
	}
	if ok && hi.sign() <= 0 {
		return true
	}
	for i := range s.le {
		c := &s.le[i]
		if len(c.m) == len(l.m) && c.k.cmp(l.k) >= 0 {
			same := true
			for j := range l.m {
				if c.m[j] != l.m[j] {
					same = false
					break
				}
			}
			if same {
				return true
			}
		}
	}
	neg := l.neg().addK(1) // -l + 1 <= 0  i.e. l >= 1
	le, eq := s.relevant([]Lin{neg})
	statFM++
	return unsat(append(le, neg), eq)
}

func (s *State) entailsEQ(l Lin) bool {
	if l.isConst() {
		return l.k.sign() == 0
	}
	return s.entailsLE(l) && s.entailsLE(l.neg())
}

func (s *State) feasible() bool {
	if s.dead {
		return false
	}
	for _, d := range s.dom {
		if d.empty() {
			return false
		}
	}
	return true
}

func (s *State) linFeasible(q Lin) bool {
	if s.noFeas {
		return true
	}
	le, eq := s.relevant([]Lin{q})
	statFM++
	return !unsat(le, eq)
}

// addLE adds l <= 0; false when the state becomes infeasible.
func (s *State) addLE(l Lin) bool {
	if l.isConst() {
		if l.k.sign() > 0 {
			s.dead = true
			return false
		}
		return true
	}
	if y, ok := l.finSingle(); ok {
		return s.filterFin(y, func(v int) bool { return l.at(y, v).sign() <= 0 })
	}
	if s.entailsLE(l) {
		return true
	}
	s.le = append(s.le, l)
	if !s.linFeasible(l) {
		s.dead = true
		return false
	}
	return s.closeNE(l)
}

func (s *State) addEQ(l Lin) bool {
	if l.isConst() {
		if l.k.sign() != 0 {
			s.dead = true
			return false
		}
		return true
	}
	if y, ok := l.finSingle(); ok {
		return s.filterFin(y, func(v int) bool { return l.at(y, v).sign() == 0 })
	}
	s.eq = append(s.eq, l)
	if !s.linFeasible(l) {
		s.dead = true
		return false
	}
	// a linear equality of two finite symbols: narrow both domains
	if len(l.m) == 2 && symtab[l.m[0].s].fin && symtab[l.m[1].s].fin && l.k == n0 && l.m[0].c == -l.m[1].c {
		d := s.domOf(l.m[0].s).and(s.domOf(l.m[1].s))
		s.dom[l.m[0].s], s.dom[l.m[1].s] = d, d
		if d.empty() {
			s.dead = true
			return false
		}
	}
	return s.closeNE(l)
}

func (s *State) addNE(l Lin) bool {
	if l.isConst() {
		if l.k.sign() == 0 {
			s.dead = true
			return false
		}
		return true
	}
	if y, ok := l.finSingle(); ok {
		return s.filterFin(y, func(v int) bool { return l.at(y, v).sign() != 0 })
	}
	if s.entailsEQ(l) {
		s.dead = true
		return false
	}
	if s.entailsLE(l) {
		return s.addLE(l.addK(1))
	}
	if s.entailsLE(l.neg()) {
		return s.addLE(l.neg().addK(1))
	}
	s.ne = append(s.ne, l)
	return true
}

// closeNE turns recorded disequalities into strict inequalities once one side is excluded.
func (s *State) closeNE(l Lin) bool {
	if len(s.ne) == 0 {
		return true
	}
	keep := s.ne[:0:0]
	todo := s.ne
	s.ne = nil
	for _, e := range todo {
		touch := false
		for _, m := range e.m {
			if l.coef(m.s) != 0 {
				touch = true
			}
		}
		if !touch {
			keep = append(keep, e)
			continue
		}
		le, ge := s.entailsLE(e), s.entailsLE(e.neg())
		switch {
		case le && ge:
			s.dead = true
			return false
		case le:
			s.le = append(s.le, e.addK(1))
		case ge:
			s.le = append(s.le, e.neg().addK(1))
		default:
			keep = append(keep, e)
		}
	}
	s.ne = keep
	return true
}

func (l Lin) finSingle() (Sym, bool) {
	if len(l.m) == 1 && symtab[l.m[0].s].fin {
		return l.m[0].s, true
	}
	return 0, false
}
func (l Lin) at(y Sym, v int) N {
	p, _ := n(int64(v)).mulInt(l.coef(y))
	return l.k.add(p)
}

func (s *State) filterFin(y Sym, keep func(int) bool) bool {
	d := s.domOf(y)
	var r Set
	d.each(func(v int) {
		if keep(v) {
			r[v>>6] |= 1 << (v & 63)
		}
	})
	if r != d {
		return s.setDom(y, r)
	}
	if r.empty() {
		s.dead = true
		return false
	}
	return true
}

func (s *State) setDom(y Sym, d Set) bool {
	s.dom[y] = d
	if d.empty() {
		s.dead = true
		return false
	}
	// propagate through recorded equalities between finite symbols
	for _, e := range s.eq {
		if len(e.m) == 2 && e.k == n0 && e.m[0].c == -e.m[1].c && (e.m[0].s == y || e.m[1].s == y) {
			o := e.m[0].s
			if o == y {
				o = e.m[1].s
			}
			if symtab[o].fin && !s.domOf(o).subset(d) {
				if !s.setDom(o, s.domOf(o).and(d)) {
					return false
				}
			}
		}
	}
	return impliedFacts(s, y)
}

// constOf returns the constant value of l if it is determined.
func (s *State) constOf(l Lin) (int64, bool) {
	if v, ok := l.constVal(); ok {
		return v, ok
	}
	r := lnum(l.k)
	for _, m := range l.m {
		if !symtab[m.s].fin {
			return 0, false
		}
		d := s.domOf(m.s)
		if d.count() != 1 {
			return 0, false
		}
		p, ok := n(int64(d.min())).mulInt(m.c)
		if !ok {
			return 0, false
		}
		r.k = r.k.add(p)
	}
	return r.constVal()
}

// ---- byte contents of immutable arrays ----

// byteAt returns the symbol of the byte at pos, creating it if needed.
func (s *State) byteAt(obj ObjID, pos Lin) Sym {
	if f, ok := s.findByte(obj, pos); ok {
		return f
	}
	y := newFin("byte", fullSet)
	d := fullSet
	for _, r := range s.ranges {
		if r.obj == obj && s.entailsLE(r.lo.sub(pos)) && s.entailsLE(pos.sub(r.hi).addK(1)) {
			d = d.and(r.set)
		}
	}
	if d != fullSet {
		s.dom[y] = d
	}
	s.bytes = append(s.bytes, ByteFact{obj, pos, y})
	return y
}

func (s *State) findByte(obj ObjID, pos Lin) (Sym, bool) {
	for _, b := range s.bytes {
		if b.obj == obj && b.pos.eq(pos) {
			return b.s, true
		}
	}
	for _, b := range s.bytes {
		if b.obj != obj {
			continue
		}
		d := b.pos.sub(pos)
		if d.isConst() {
			continue
		}
		if s.entailsEQ(d) {
			return b.s, true
		}
	}
	return 0, false
}

// byteSet is the set of values the byte at pos can have, without recording a new fact.
func (s *State) byteSet(obj ObjID, pos Lin) Set {
	d := fullSet
	if y, ok := s.findByte(obj, pos); ok {
		d = s.domOf(y)
	}
	for _, r := range s.ranges {
		if r.obj == obj && s.entailsLE(r.lo.sub(pos)) && s.entailsLE(pos.sub(r.hi).addK(1)) {
			d = d.and(r.set)
		}
	}
	return d
}
