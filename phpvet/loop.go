package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops: exact unrolling while it is deterministic, inductive invariants otherwise.

type proj func(Val) (Lin, bool)

// ileaf is an integer component of a generalised value.
type ileaf struct {
	key  string
	g    Sym
	get  func(f *flow) (Lin, bool)
	init Lin
	pos  bool // can be a position in the input
}

type finLeaf struct {
	y   Sym
	get func(f *flow) (Val, bool)
}

type cand struct {
	le  *Lin // holds as le <= 0 over leaf symbols
	eq  *Lin
	rng *RangeFact
	seq *SeqFact
}

type genVal struct {
	val   Val
	parts []part
}

type part struct {
	g   Sym
	get proj
	fin bool
}

type loopRun struct {
	an    *Analysis
	fr    *Frame
	li    *loopInfo
	entry *flow
	phis  []*ssa.Phi
	gphi  map[*ssa.Phi]*genVal
	gcell map[ObjID]map[string]*genVal
	gobj  map[ObjID]*Obj
	gver  map[string]bool
	finD  map[Sym]Set
	objG  map[string]ObjID
	effs  []Effect
	pend  string
	lossy string
	rng   map[Sym]Set // byte sets of the range candidates
	rngOK map[Sym]bool
	seqOK map[Sym]bool
	les   []Lin
	eqs   []Lin
	cinit bool
	liveV []ssa.Value
	wm    Sym
	terms int // fresh names handed out before the loop
}

// genOwner is the loop a symbol was made for.
var genOwner = map[Sym]*ssa.BasicBlock{}

var debugLoop = os.Getenv("PV_LOOP") != ""

var verCounter = 1000000

func (an *Analysis) phiList(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		} else {
			break
		}
	}
	return ps
}

func (an *Analysis) runLoop(fr *Frame, li *loopInfo, pred *ssa.BasicBlock, fl *flow) []outcome {
	h := li.header
	limit := 40
	if an.inInit {
		limit = 700
	}
	digest := an.root != nil && (an.root.kind == rkDigest || an.root.kind == rkDigits)
	if digest {
		limit = 300
	}
	fields := an.root != nil && an.root.kind == rkFields
	// a loop that follows a value to what it refers to is short
	follows := false
	if an.root != nil && an.root.side == sideEncode {
		for _, p := range an.phiList(h) {
			if isReflectValue(p.Type()) {
				follows = true
			}
		}
	}
	// the first turn of a loop that follows codecs is taken on its own: it says what the codec it starts with is
	if an.root != nil && an.root.kind == rkCompile && !fr.peeled[h] {
		codecs := false
		for _, p := range an.phiList(h) {
			codecs = codecs || codecSort(p.Type()) != 0
		}
		if codecs {
			if fr.peeled == nil {
				fr.peeled = map[*ssa.BasicBlock]bool{}
			}
			fr.peeled[h] = true
			defer delete(fr.peeled, h)
			var outs []outcome
			first := fl.clone()
			an.phis(h, pred, first)
			for _, o := range an.runBlock(fr, h, first, 0, li) {
				if o.kind != outBack {
					outs = append(outs, o)
					continue
				}
				outs = append(outs, an.runLoop(fr, li, o.pred, o.fl)...)
			}
			return outs
		}
	}
	// exact unrolling
	an.push()
	cur := []outcome{{kind: outBack, fl: fl.clone(), pred: pred}}
	var outs []outcome
	exact := false
	for it := 0; it < limit; it++ {
		var next []outcome
		others := 0
		for _, c := range cur {
			an.phis(h, c.pred, c.fl)
			for _, o := range an.runBlock(fr, h, c.fl, 0, li) {
				if o.kind == outBack {
					next = append(next, o)
				} else {
					outs = append(outs, o)
					others++
				}
			}
		}
		if len(next) == 0 {
			exact = true
			break
		}
		if digest || fields {
			if len(next) > 24 && !(fields && len(next) <= 400) {
				break
			}
		} else if len(next) > 1 || others > 0 {
			if !(follows && len(next) <= 2 && it < 6) {
				break
			}
		}
		cur = next
	}
	if exact {
		an.keep()
		return outs
	}
	an.drop()
	an.phis(h, pred, fl)
	lr := &loopRun{an: an, fr: fr, li: li, entry: fl, phis: an.phiList(h), gphi: map[*ssa.Phi]*genVal{}, gcell: map[ObjID]map[string]*genVal{},
		gobj: map[ObjID]*Obj{}, gver: map[string]bool{}, finD: map[Sym]Set{}, objG: map[string]ObjID{}, rng: map[Sym]Set{}, rngOK: map[Sym]bool{}, seqOK: map[Sym]bool{}}
	lr.wm = Sym(len(symtab))
	lr.terms = termCounter
	lr.liveIns()
	return lr.solve()
}

// liveIns lists values from outside the loop that its instructions use.
func (lr *loopRun) liveIns() {
	seen := map[ssa.Value]bool{}
	for _, b := range lr.fr.fn.Blocks {
		if !lr.li.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			var buf [12]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				if op == nil || *op == nil || seen[*op] {
					continue
				}
				v := *op
				if i, ok := v.(ssa.Instruction); ok && lr.li.blocks[i.Block()] {
					continue
				}
				if _, ok := lr.entry.env[v]; ok {
					seen[v] = true
					lr.liveV = append(lr.liveV, v)
				}
			}
		}
	}
}

func (lr *loopRun) solve() []outcome {
	an := lr.an
	for round := 0; round < 40; round++ {
		an.push()
		backs, rest := lr.run()
		changed := lr.discover(backs)
		if changed {
			an.drop()
			lr.cinit = false
			if debugLoop {
				fmt.Fprintf(os.Stderr, "%*sloop %s round %d: leaves changed\n", len(an.stack), "", an.pos(lr.li.header.Instrs[0]), round)
			}
			continue
		}
		if !lr.cinit {
			an.drop()
			lr.initCands()
			lr.cinit = true
			continue
		}
		if lr.filter(backs) {
			an.drop()
			if debugLoop {
				fmt.Fprintf(os.Stderr, "%*sloop %s round %d: %d le %d eq\n", len(an.stack), "", an.pos(lr.li.header.Instrs[0]), round, len(lr.les), len(lr.eqs))
			}
			continue
		}
		an.keep()
		if debugLoop {
			fmt.Fprintf(os.Stderr, "%*sloop %s solved: le %v eq %v live %v\n", len(an.stack), "", an.pos(lr.li.header.Instrs[0]), lr.les, lr.eqs, lr.liveV)
		}
		return rest
	}
	panic(undecided{fmt.Sprintf("no loop invariant found for the loop at %s in %s", an.pos(lr.li.header.Instrs[0]), lr.fr.fn)})
}

// header builds the generalised state at the loop header.
func (lr *loopRun) header() *flow {
	f := lr.entry.clone()
	st := f.st
	for _, p := range lr.phis {
		if g := lr.gphi[p]; g != nil {
			f.env[p] = g.val
		}
	}
	for id, o := range lr.gobj {
		c := *o
		st.heap[id] = &c
	}
	for id, cells := range lr.gcell {
		m := st.mut(id)
		for k, g := range cells {
			m.cells[k] = g.val
		}
	}
	for id := range lr.gver {
		verCounter++
		st.ver[id] = verCounter
	}
	st.effects = append(st.effects[:len(st.effects):len(st.effects)], lr.effs...)
	st.pending = firstOf(st.pending, lr.pend)
	st.lossy = firstOf(st.lossy, lr.lossy)
	for y, d := range lr.finD {
		st.dom[y] = d
	}
	for _, l := range lr.les {
		st.le = append(st.le, l)
	}
	for _, l := range lr.eqs {
		st.eq = append(st.eq, l)
	}
	if lr.cinit {
		obj := an0Input(lr.an)
		for _, lf := range lr.leaves() {
			if obj == 0 {
				break
			}
			if lr.rngOK[lf.g] {
				st.ranges = append(st.ranges[:len(st.ranges):len(st.ranges)], RangeFact{obj, lf.init, lsym(lf.g), lr.rng[lf.g]})
			}
			if lr.seqOK[lf.g] {
				st.seqs = append(st.seqs, SeqFact{obj, lf.init, lsym(lf.g), 0})
			}
		}
	}
	return f
}

func an0Input(an *Analysis) ObjID {
	if an.root != nil {
		return an.root.input
	}
	return 0
}

func (lr *loopRun) run() (backs []outcome, rest []outcome) {
	f := lr.header()
	if !f.st.feasible() {
		return nil, nil
	}
	for _, o := range lr.an.runBlock(lr.fr, lr.li.header, f, 0, lr.li) {
		if o.kind == outBack {
			if o.fl.st.dead {
				continue
			}
			lr.an.phis(lr.li.header, o.pred, o.fl)
			backs = append(backs, o)
		} else {
			rest = append(rest, o)
		}
	}
	return
}

// discover finds components that the loop changes and generalises them.
func (lr *loopRun) discover(backs []outcome) bool {
	changed := false
	// cells of external objects materialised by the body
	for _, b := range backs {
		for id, o := range b.fl.st.heap {
			e := lr.entry.st.heap[id]
			if e == nil || e.kind != oCells {
				continue
			}
			for k := range o.cells {
				if _, ok := e.cells[k]; ok {
					continue
				}
				if k == "" || k[0] == '$' {
					continue
				}
				t := lr.an.pathType(e.typ, k)
				if e.ext && t != nil {
					lr.entry.st.loadCells(e, k, t)
					e = lr.entry.st.heap[id]
					changed = true
				}
			}
		}
	}
	if changed {
		return true
	}
	for pass := 0; pass < 2 && !changed; pass++ {
		for _, p := range lr.phis {
			// counters first: collections then only ever see their general values
			if _, isInt := lr.entry.env[p].(VInt); isInt != (pass == 0) {
				continue
			}
			cur := lr.gphi[p]
			var cv Val = lr.entry.env[p]
			if cur != nil {
				cv = cur.val
			}
			for _, b := range backs {
				bv := b.fl.env[p]
				if lr.covers(cv, cur, bv, b.fl.st, "phi"+p.Name()) {
					continue
				}
				g := lr.generalise(lr.entry.env[p], cv, cur, bv, lr.entry.st, b.fl.st, "phi"+p.Name(), p.Type())
				lr.gphi[p] = g
				cur, cv = g, g.val
				changed = true
				if debugLoop {
					fmt.Fprintln(os.Stderr, "phi", p.Name(), vkey(bv), "->", vkey(cv))
				}
			}
		}
	}
	if changed {
		// contents of collections are only looked at once the variables are general
		return true
	}
	var ids []int
	for id := range lr.entry.st.heap {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := ObjID(i)
		e := lr.entry.st.heap[id]
		for _, b := range backs {
			o := b.fl.st.heap[id]
			if o == nil || o == e {
				continue
			}
			if e.kind == oCells {
				for _, k := range sortedCells(o) {
					if k != "" && k[0] == '$' {
						continue
					}
					ev, ok := e.cells[k]
					if !ok {
						panic(undecided{fmt.Sprintf("loop splits the value at %s of %s in %s", k, e.name, lr.fr.fn)})
					}
					cur := lr.gcell[id][k]
					cv := ev
					if cur != nil {
						cv = cur.val
					}
					key := fmt.Sprintf("cell%d%s", id, k)
					if lr.covers(cv, cur, o.cells[k], b.fl.st, key) {
						continue
					}
					if lr.gcell[id] == nil {
						lr.gcell[id] = map[string]*genVal{}
					}
					lr.gcell[id][k] = lr.generalise(ev, cv, cur, o.cells[k], lr.entry.st, b.fl.st, key, lr.an.pathType(e.typ, k))
					if debugLoop {
						fmt.Fprintln(os.Stderr, "cell", e.name, k, vkey(cv), "->", vkey(o.cells[k]))
					}
					changed = true
				}
				if o.released && !e.released || o.published && !e.published {
					panic(undecided{"an object changes its ownership inside a loop in " + lr.fr.fn.String()})
				}
				continue
			}
			cur := e
			if g := lr.gobj[id]; g != nil {
				cur = g
			}
			j := joinObjs(lr.entry.st, []*Obj{cur, lr.detach(b.fl.st, o)})
			if objKey(j) != objKey(cur) {
				if debugLoop {
					fmt.Fprintln(os.Stderr, "obj", e.name, objKey(cur), "->", objKey(j))
				}
				lr.gobj[id] = j
				changed = true
			}
		}
	}
	// objects that exist at the header only and were changed in place
	var own []int
	for _, id := range lr.objG {
		own = append(own, int(id))
	}
	sort.Ints(own)
	for _, i := range own {
		for _, b := range backs {
			if o := b.fl.st.heap[ObjID(i)]; o != nil && lr.gobj[ObjID(i)] != nil && !lr.absorb(ObjID(i), lr.detach(b.fl.st, o)) {
				changed = true
			}
		}
	}
	for _, b := range backs {
		for id, v := range b.fl.st.ver {
			if lr.entry.st.ver[id] != v && !lr.gver[id] {
				if t := termTab[id]; t != nil && lr.outlives(t) != t {
					continue
				}
				if debugLoop {
					fmt.Fprintln(os.Stderr, "version", id)
				}
				lr.gver[id] = true
				changed = true
			}
		}
		st := b.fl.st
		if lr.cinit && st.pending != "" && firstOf(lr.entry.st.pending, lr.pend) == "" {
			lr.pend = st.pending
			changed = true
		}
		if lr.cinit && st.lossy != "" && firstOf(lr.entry.st.lossy, lr.lossy) == "" {
			lr.lossy = st.lossy
			changed = true
		}
		for _, e := range st.effects {
			e.rv = lr.outlives(e.rv)
			if e.rv != nil && !hasEffect(lr.entry.st.effects, e) && !hasEffect(lr.effs, e) {
				e.arg = nil
				lr.effs = append(lr.effs, e)
				changed = true
				if debugLoop {
					fmt.Fprintln(os.Stderr, "effect", e.kind, e.rv)
				}
			}
		}
	}
	return changed
}

// outlives is the part of an effect's target that exists outside one iteration.
func (lr *loopRun) outlives(t *Term) *Term {
	cut := false
	for t != nil {
		inner := t.freshSince(lr.terms) || t.hasLoopVersion() || lr.localVar(t)
		t.syms(func(y Sym) {
			if y >= lr.wm && symtab[y].term == nil {
				inner = true
			}
		})
		if !inner {
			if cut {
				return T("some", t)
			}
			return t
		}
		cut = true
		if len(t.args) == 0 {
			return nil
		}
		t = t.args[0]
	}
	return nil
}

// localVar: the term is about a variable of one iteration.
func (lr *loopRun) localVar(t *Term) bool {
	if t.op == "var" {
		var id int
		if _, err := fmt.Sscanf(t.str, "p%d", &id); err == nil && lr.entry.st.heap[ObjID(id)] == nil {
			return true
		}
	}
	for _, a := range t.args {
		if lr.localVar(a) {
			return true
		}
	}
	return false
}

// freshIn: effects on values that only exist inside one iteration are not carried over.
func freshIn(t *Term) bool { return t != nil && t.hasFresh() }

// hasLoopVersion: the term mentions a version of a value inside a loop.
func (t *Term) hasLoopVersion() bool {
	if t.op == "v" && len(t.str) >= 7 {
		return true
	}
	for _, a := range t.args {
		if a.hasLoopVersion() {
			return true
		}
	}
	return false
}

// freshSince: the term mentions a name that was handed out after the first n.
func (t *Term) freshSince(n int) bool {
	if len(t.str) > 1 && t.str[0] == '#' {
		if k, err := strconv.Atoi(t.str[1:]); err != nil || k > n || t.op != "New" {
			return true
		}
	}
	for _, a := range t.args {
		if a.freshSince(n) {
			return true
		}
	}
	return false
}

func (t *Term) hasFresh() bool {
	if len(t.str) > 0 && t.str[0] == '#' {
		return true
	}
	for _, a := range t.args {
		if a.hasFresh() {
			return true
		}
	}
	return false
}

// transient: the term mentions a number that has no lasting name.
func (t *Term) transient() bool {
	if t.lin != nil {
		for _, m := range t.lin.m {
			if tt := symtab[m.s].term; tt == nil && !isCanon[m.s] || tt != nil && tt.transient() {
				return true
			}
		}
	}
	for _, a := range t.args {
		if a.transient() {
			return true
		}
	}
	return false
}

func hasEffect(es []Effect, e Effect) bool {
	for _, x := range es {
		if x.kind == e.kind && x.rv == e.rv && x.pos == e.pos {
			return true
		}
	}
	return false
}

func objKey(o *Obj) string {
	s := fmt.Sprintf("%v%v%v", o.closed, o.opened, o.released)
	for _, k := range sortedCells(o) {
		s += k + "=" + vkey(o.cells[k]) + ";"
	}
	var ks []string
	for _, a := range o.alts {
		ks = append(ks, a.ckey+fmt.Sprint(len(a.le), len(a.eq), a.dom))
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += k
	}
	for _, e := range o.ents {
		s += vkey(e.key) + ":" + vkey(e.val) + fmt.Sprint(e.del)
	}
	return s
}

// covers: the header value stands for v as well.
func (lr *loopRun) covers(h Val, g *genVal, v Val, st *State, key string) bool {
	if vkey(h) == vkey(v) {
		return true
	}
	if g == nil {
		return false
	}
	return lr.match(g.val, v, st, key)
}

func (lr *loopRun) isGen(y Sym) bool {
	if _, ok := lr.finD[y]; ok {
		return true
	}
	return genSyms[y]
}

var genSyms = map[Sym]bool{}

func genLin(l Lin) bool {
	y, ok := l.single()
	return ok && genSyms[y]
}

// match: v has the shape of the generalised value h, whose symbols can take v's numbers.
func (lr *loopRun) match(h, v Val, st *State, key string) bool {
	if vkey(h) == vkey(v) {
		return true
	}
	lin := func(a, b Lin) bool { return genLin(a) || a.eq(b) || st.entailsEQ(a.sub(b)) }
	switch x := h.(type) {
	case VInt:
		y, ok := v.(VInt)
		if !ok {
			return false
		}
		if s, ok := x.l.single(); ok && symtab[s].fin && genSyms[s] {
			d, few := finVals(st, y.l)
			if few && d.subset(lr.finD[s]) {
				return true
			}
			if few {
				lr.finD[s] = lr.finD[s].or(d)
			}
			return false
		}
		return lin(x.l, y.l)
	case VBool:
		_, ok := v.(VBool)
		return ok && x.c.op == cIn && genSyms[x.c.y]
	case VSlice:
		y, ok := v.(VSlice)
		if !ok {
			if _, isNil := v.(VNil); isNil {
				return x.nilness == 2 && genSyms[x.nilSym] && genLin(x.len) && lr.ownObj(x.obj) && (x.em == nil || lr.matchEm(x.em, emptyEmit(), st))
			}
			return false
		}
		if !(lin(x.off, y.off) && lin(x.len, y.len) && lin(x.cap, y.cap)) {
			return false
		}
		if x.nilness != y.nilness && !(x.nilness == 2 && genSyms[x.nilSym]) {
			return false
		}
		if x.nilness == 2 && y.nilness == 2 && x.nilSym != y.nilSym && !genSyms[x.nilSym] {
			return false
		}
		if x.em != nil && (y.em == nil || !lr.matchEm(x.em, y.em, st)) {
			return false
		}
		if x.obj != y.obj {
			if !lr.ownObj(x.obj) {
				return false
			}
			return lr.absorb(x.obj, lr.detach(st, st.heap[y.obj]))
		}
		return true
	case VStr:
		y, ok := v.(VStr)
		return ok && !x.konst && x.obj == 0 && genLin(x.len) && x.t != nil && x.t.op == "lv" && y.key() != ""
	case VRV:
		y, ok := v.(VRV)
		return ok && !y.inv && x.id.op == "lv" && (x.typ == y.typ || x.typ.op == "lvt") && (!x.set || y.set) && (y.nilOf == nil)
	case VType:
		y, ok := v.(VType)
		return ok && x.t.op == "lvt" && y.nilOf == nil
	case VDyn:
		if x.t.op == "lv" {
			if x.nonnl {
				d, ok := v.(VDyn)
				_, ok2 := v.(VIface)
				return ok && d.nonnl || ok2
			}
			return true
		}
		return false
	case VOpaque:
		return x.t.op == "lv"
	case VCodec:
		y, ok := v.(VCodec)
		return ok && x.enc == y.enc && x.typ.op == "lvt"
	case VStruct:
		y, ok := v.(VStruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !lr.match(x.f[i], y.f[i], st, fmt.Sprintf("%s.%d", key, i)) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := v.(VTuple)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !lr.match(x.v[i], y.v[i], st, fmt.Sprintf("%s.%d", key, i)) {
				return false
			}
		}
		return true
	case VIface:
		y, ok := v.(VIface)
		return ok && types.Identical(x.typ, y.typ) && lr.match(x.v, y.v, st, key)
	}
	return false
}

// finVals lists the values l can take, when they are few and small.
func finVals(st *State, l Lin) (Set, bool) {
	if c, ok := st.constOf(l); ok {
		if c >= 0 && c < 256 {
			return setOf(int(c)), true
		}
		return fullSet, false
	}
	if y, ok := l.single(); ok && symtab[y].fin {
		return st.domOf(y), true
	}
	return fullSet, st.inRange(l, n0, n(255))
}

func (lr *loopRun) ownObj(id ObjID) bool {
	for _, o := range lr.objG {
		if o == id {
			return true
		}
	}
	return false
}

// absorb merges the contents of an iteration's object into the header's object.
func (lr *loopRun) absorb(id ObjID, o *Obj) bool {
	cur := lr.gobj[id]
	if o == nil || cur == nil {
		return true
	}
	if o.kind == oBytes {
		if o.input != cur.input || o.argMem && !cur.argMem || o.pooled && !cur.pooled || !o.fresh && cur.fresh {
			n := *cur
			n.argMem = n.argMem || o.argMem
			n.pooled = n.pooled || o.pooled
			n.input = n.input || o.input
			n.fresh = n.fresh && o.fresh
			lr.gobj[id] = &n
			return false
		}
		return true
	}
	n := joinContents(lr.entry.st, cur, o)
	if objKey(n) == objKey(cur) {
		return true
	}
	if debugLoop {
		fmt.Fprintln(os.Stderr, "absorb", id, "\n   ", objKey(cur), "->\n   ", objKey(n))
	}
	lr.gobj[id] = n
	return false
}

func (lr *loopRun) sym(name string) Sym {
	y := newSym(name, minI64, maxU64)
	genSyms[y] = true
	genOwner[y] = lr.li.header
	return y
}

// generalise builds a value that stands for the entry value and the value of an iteration.
func (lr *loopRun) generalise(ev, cv Val, cur *genVal, bv Val, est, bst *State, key string, t types.Type) *genVal {
	g := &genVal{}
	var gen func(e, b Val, get func(Val) (Val, bool), key string) Val
	lin := func(name string, e, b Lin, get proj) Lin {
		if genLin(e) {
			if y, _ := e.single(); true {
				g.parts = append(g.parts, part{g: y, get: get})
			}
			return e
		}
		if e.eq(b) {
			return e
		}
		y := lr.sym(name)
		g.parts = append(g.parts, part{g: y, get: get})
		return lsym(y)
	}
	compose := func(get func(Val) (Val, bool), f func(Val) (Lin, bool)) proj {
		return func(v Val) (Lin, bool) {
			x, ok := get(v)
			if !ok {
				return Lin{}, false
			}
			return f(x)
		}
	}
	gen = func(e, b Val, get func(Val) (Val, bool), key string) Val {
		if vkey(e) == vkey(b) {
			return e
		}
		switch x := e.(type) {
		case VInt:
			if y, ok := b.(VInt); ok {
				if s, ok := x.l.single(); ok && symtab[s].fin && genSyms[s] {
					if _, few := finVals(bst, y.l); few {
						return x
					}
					// not one of a few values after all
					z := lr.sym("lv")
					g.parts = append(g.parts, part{g: z, get: compose(get, func(v Val) (Lin, bool) {
						i, ok := v.(VInt)
						return i.l, ok
					})})
					return VInt{lsym(z)}
				}
				_, xf := x.l.finSingle()
				_, yf := y.l.finSingle()
				if xf || yf {
					de, few1 := finVals(est, x.l)
					db, few2 := finVals(bst, y.l)
					if few1 && few2 && (de != fullSet || db != fullSet || xf && yf) {
						s := newFin("lv", fullSet)
						genSyms[s] = true
						lr.finD[s] = de.or(db)
						return VInt{lsym(s)}
					}
				}
				return VInt{lin("lv", x.l, y.l, compose(get, func(v Val) (Lin, bool) {
					i, ok := v.(VInt)
					return i.l, ok
				}))}
			}
		case VBool:
			if _, ok := b.(VBool); ok {
				if x.c.op == cIn && genSyms[x.c.y] {
					return x
				}
				s := newFin("lv", boolSet)
				genSyms[s] = true
				return VBool{csym(s)}
			}
		case VNil:
			switch y := b.(type) {
			case VSlice:
				r := VSlice{nilness: 2, off: lconst(0)}
				z := newFin("lv", boolSet)
				genSyms[z] = true
				r.nilSym = z
				id := lr.headerObj(key, lr.detach(bst, bst.heap[y.obj]), nil)
				r.obj = id
				lenOf := func(f func(VSlice) Lin) proj {
					return compose(get, func(v Val) (Lin, bool) {
						switch s := v.(type) {
						case VSlice:
							return f(s), true
						case VNil:
							return lconst(0), true
						}
						return Lin{}, false
					})
				}
				r.off = lin("lvoff", Lin{k: n(-7)}, lconst(1), lenOf(func(s VSlice) Lin { return s.off }))
				r.len = lin("lvlen", Lin{k: n(-7)}, lconst(1), lenOf(func(s VSlice) Lin { return s.len }))
				r.cap = lin("lvcap", Lin{k: n(-7)}, lconst(1), lenOf(func(s VSlice) Lin { return s.cap }))
				if y.em != nil {
					r.em = lr.genEm(emptyEmit(), y.em, bst, func(name string, a, b Lin, f func(*Emit) (Lin, bool)) Lin {
						return lin(name, a, b, emProj(get, f))
					})
				}
				return r
			}
		case VSlice:
			y, ok := b.(VSlice)
			if !ok {
				if _, isNil := b.(VNil); isNil {
					y = VSlice{}
					ok = true
				}
			}
			if ok {
				r := x
				field := func(f func(VSlice) Lin) proj {
					return compose(get, func(v Val) (Lin, bool) {
						switch s := v.(type) {
						case VSlice:
							return f(s), true
						case VNil:
							return lconst(0), true
						}
						return Lin{}, false
					})
				}
				r.off = lin("lvoff", x.off, y.off, field(func(s VSlice) Lin { return s.off }))
				r.len = lin("lvlen", x.len, y.len, field(func(s VSlice) Lin { return s.len }))
				r.cap = lin("lvcap", x.cap, y.cap, field(func(s VSlice) Lin { return s.cap }))
				if x.nilness != y.nilness || x.nilSym != y.nilSym || y.obj == 0 {
					if !(x.nilness == 2 && genSyms[x.nilSym]) {
						z := newFin("lv", boolSet)
						genSyms[z] = true
						r.nilness, r.nilSym = 2, z
					}
				}
				if x.obj != y.obj && y.obj != 0 && !lr.ownObj(x.obj) {
					r.obj = lr.headerObj(key, lr.detach(bst, bst.heap[y.obj]), est.heap[x.obj])
				}
				if x.em != nil || y.em != nil {
					ye := y.em
					if y.obj == 0 {
						ye = emptyEmit()
					}
					r.em = lr.genEm(x.em, ye, bst, func(name string, a, b Lin, f func(*Emit) (Lin, bool)) Lin {
						return lin(name, a, b, emProj(get, f))
					})
				}
				return r
			}
		case VStr:
			if _, ok := b.(VStr); ok {
				if x.t != nil && x.t.op == "lv" {
					return x
				}
				y := lr.sym("lvstrlen")
				symtab[y].lo, symtab[y].hi = n0, maxLenN
				return VStr{t: freshTerm("lv"), len: lsym(y)}
			}
		case VRV:
			if y, ok := b.(VRV); ok && !x.inv && !y.inv {
				r := VRV{typ: x.typ, id: x.id, set: x.set && y.set}
				if x.id.op != "lv" {
					r.id = freshTerm("lv")
				}
				if x.typ != y.typ && x.typ.op != "lvt" {
					r.typ = freshTerm("lvt")
				}
				if x.nilOf != nil || y.nilOf != nil {
					r.nilOf = freshTerm("lvnil")
				}
				return r
			}
		case VType:
			if y, ok := b.(VType); ok && x.nilOf == nil && y.nilOf == nil {
				return VType{t: freshTerm("lvt")}
			}
		case VCodec:
			if y, ok := b.(VCodec); ok && x.enc == y.enc {
				return VCodec{typ: freshTerm("lvt"), enc: x.enc, role: x.role}
			}
		case VOpaque:
			if _, ok := b.(VOpaque); ok {
				return VOpaque{freshTerm("lv")}
			}
		case VStruct:
			if y, ok := b.(VStruct); ok && len(x.f) == len(y.f) {
				r := VStruct{typ: x.typ}
				for i := range x.f {
					i := i
					r.f = append(r.f, gen(x.f[i], y.f[i], func(v Val) (Val, bool) {
						w, ok := get(v)
						if !ok {
							return nil, false
						}
						s, ok := w.(VStruct)
						if !ok {
							return nil, false
						}
						return s.f[i], true
					}, fmt.Sprintf("%s.%d", key, i)))
				}
				return r
			}
		case VTuple:
			if y, ok := b.(VTuple); ok && len(x.v) == len(y.v) {
				r := VTuple{}
				for i := range x.v {
					i := i
					r.v = append(r.v, gen(x.v[i], y.v[i], func(v Val) (Val, bool) {
						w, ok := get(v)
						if !ok {
							return nil, false
						}
						s, ok := w.(VTuple)
						if !ok {
							return nil, false
						}
						return s.v[i], true
					}, fmt.Sprintf("%s.%d", key, i)))
				}
				return r
			}
		case VIface:
			if y, ok := b.(VIface); ok && types.Identical(x.typ, y.typ) {
				return VIface{x.typ, gen(x.v, y.v, func(v Val) (Val, bool) {
					w, ok := get(v)
					if !ok {
						return nil, false
					}
					s, ok := w.(VIface)
					return s.v, ok
				}, key)}
			}
		}
		nn := func(v Val) bool {
			switch d := v.(type) {
			case VDyn:
				return d.nonnl
			case VIface, VPtr, VMap, VCodec:
				return true
			}
			return false
		}
		if t != nil && isByteSlice(t) {
			panic(undecided{fmt.Sprintf("loop variable %s of %s", key, lr.fr.fn)})
		}
		return VDyn{t: freshTerm("lv"), nonnl: nn(e) && nn(b)}
	}
	g.val = gen(cv, bv, func(v Val) (Val, bool) { return v, true }, key)
	if cur != nil {
		// keep projections of symbols found earlier
		for _, p := range cur.parts {
			dup := false
			for _, q := range g.parts {
				if q.g == p.g {
					dup = true
				}
			}
			if !dup {
				g.parts = append(g.parts, p)
			}
		}
	}
	return g
}

// headerObj is the object a slice variable points to at the loop header when iterations replace it.
// detach makes the elements of a collection independent of the objects and symbols of one iteration.
func (lr *loopRun) detach(bst *State, o *Obj) *Obj {
	if o == nil || len(o.alts) == 0 {
		return o
	}
	n := *o
	n.alts = nil
	known := map[*Alt]bool{}
	for _, h := range lr.gobj {
		if h != nil {
			for _, a := range h.alts {
				known[a] = true
			}
		}
	}
	for _, a := range o.alts {
		if known[a] {
			n.alts = append(n.alts, a)
			continue
		}
		st := bst.clone()
		k, v := st.instantiate(a, nil)
		if st.dead {
			continue
		}
		na := st.template(k, v, func(y Sym) bool { return y >= lr.wm && symtab[y].term == nil }, func(x *Obj) bool {
			return lr.entry.st.heap[x.id] == nil && lr.gobj[x.id] == nil && !x.input && x.global == ""
		})
		dup := false
		for i, b := range n.alts {
			if b.ckey == na.ckey {
				n.alts[i] = b.joinFacts(na)
				dup = true
			}
		}
		if !dup {
			n.alts = append(n.alts, na)
		}
	}
	return &n
}

func (lr *loopRun) headerObj(key string, o, e *Obj) ObjID {
	if id, ok := lr.objG[key]; ok {
		lr.absorb(id, o)
		return id
	}
	n := lr.entry.st.newObj(oBytes, nil, "loop "+key)
	delete(lr.entry.st.heap, n.id)
	if o != nil {
		wm, wmObj := n.wm, n.wmObj
		c := *o
		c.id = n.id
		if e != nil {
			c = *joinContents(lr.entry.st, &c, e)
			c.argMem = c.argMem || e.argMem
			c.input = c.input || e.input
			c.pooled = c.pooled || e.pooled
			c.fresh = c.fresh && e.fresh
		}
		if o.wm < wm {
			wm, wmObj = o.wm, o.wmObj
		}
		c.id = n.id
		c.wm, c.wmObj = wm, wmObj
		n = &c
	}
	lr.objG[key] = n.id
	lr.gobj[n.id] = n
	return n.id
}

// leaves lists the integer symbols of the header with their entry values.
func (lr *loopRun) leaves() []ileaf {
	var ls []ileaf
	seen := map[Sym]bool{}
	add := func(g *genVal, e Val, get func(f *flow) Val, key string) {
		for _, p := range g.parts {
			if seen[p.g] {
				continue
			}
			p := p
			iv, ok := p.get(e)
			if !ok {
				continue
			}
			seen[p.g] = true
			ls = append(ls, ileaf{key: key, g: p.g, init: iv, get: func(f *flow) (Lin, bool) { return p.get(get(f)) }})
		}
	}
	for _, p := range lr.phis {
		if g := lr.gphi[p]; g != nil {
			p := p
			add(g, lr.entry.env[p], func(f *flow) Val { return f.env[p] }, p.Name())
		}
	}
	var ids []int
	for id := range lr.gcell {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := ObjID(i)
		var ks []string
		for k := range lr.gcell[id] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			add(lr.gcell[id][k], lr.entry.st.heap[id].cells[k], func(f *flow) Val { return f.st.heap[id].cells[k] }, k)
		}
	}
	return ls
}

// initCands proposes relations that hold on entry.
func (lr *loopRun) initCands() {
	ls := lr.leaves()
	lr.les, lr.eqs = nil, nil
	est := lr.entry.st
	bind := est.clone()
	for _, l := range ls {
		bind.eq = append(bind.eq, lsym(l.g).sub(l.init))
	}
	var refs []Lin
	seen := map[string]bool{}
	addRef := func(l Lin) {
		if seen[l.key()] || len(l.m) > 3 {
			return
		}
		seen[l.key()] = true
		refs = append(refs, l)
	}
	for _, v := range lr.liveV {
		switch x := lr.entry.env[v].(type) {
		case VInt:
			if !x.l.isConst() {
				addRef(x.l)
			}
		case VSlice:
			addRef(x.len)
			if !x.off.isConst() {
				addRef(x.off.add(x.len))
			}
		case VStr:
			addRef(x.len)
		case VPtr:
			if o := est.heap[x.obj]; o != nil && o.kind == oCells {
				if i, ok := o.cells[x.path].(VInt); ok && !i.l.isConst() {
					addRef(i.l)
				}
			}
		}
	}
	for _, p := range lr.phis {
		// the declared counts of open containers
		if s, ok := lr.entry.env[p].(VSlice); ok && s.em != nil {
			for _, i := range s.em.items {
				if i.k == 'O' && !i.l.isConst() {
					addRef(i.l)
				}
			}
		}
	}
	for _, l := range lr.an.refLens(est) {
		addRef(l)
	}
	if len(refs) > 14 {
		refs = refs[:14]
	}
	try := func(l Lin) {
		if bind.entailsLE(l) {
			lr.les = append(lr.les, l)
		}
	}
	for i, x := range ls {
		g := lsym(x.g)
		try(x.init.sub(g))
		try(g.sub(x.init))
		if !x.init.isConst() {
			try(g.neg())
			try(g.neg().addK(1))
		}
		for _, r := range refs {
			for _, k := range []int64{1, 0, -1} {
				try(g.sub(r).addK(k))
			}
			for _, k := range []int64{1, 0, -1} {
				try(r.sub(g).addK(k))
			}
		}
		try(g.addN(maxI64.neg()))
		for _, y := range ls[:i] {
			h := lsym(y.g)
			for _, k := range []int64{1, 0, -1} {
				try(g.sub(h).addK(k))
				try(h.sub(g).addK(k))
			}
			for _, ab := range [][2]int64{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {1, -1}} {
				l, ok := g.sub(x.init).addScaled(h.sub(y.init), -ab[1])
				if ab[0] != 1 {
					a, ok1 := Lin{}.addScaled(g.sub(x.init), ab[0])
					b, ok2 := a.addScaled(h.sub(y.init), -1)
					l, ok = b, ok1 && ok2
				}
				if ok && bind.entailsEQ(l) {
					lr.eqs = append(lr.eqs, l)
				}
			}
		}
		if an0Input(lr.an) != 0 {
			lr.rngOK[x.g] = true
			lr.rng[x.g] = Set{}
			lr.seqOK[x.g] = true
		}
	}
}

// filter drops the candidates an iteration does not preserve.
func (lr *loopRun) filter(backs []outcome) bool {
	ls := lr.leaves()
	dropped := false
	obj := an0Input(lr.an)
	for _, b := range backs {
		st := b.fl.st
		sub := map[Sym]Lin{}
		for _, l := range ls {
			v, ok := l.get(b.fl)
			if !ok {
				v = lsym(lr.sym("lost"))
			}
			sub[l.g] = v
		}
		subst := func(l Lin) Lin {
			r := Lin{k: l.k}
			for _, m := range l.m {
				e, ok := sub[m.s]
				if !ok {
					e = lsym(m.s)
				}
				r = r.exactly(e, m.c)
			}
			return r
		}
		keep := lr.les[:0:0]
		for _, l := range lr.les {
			if st.entailsLE(subst(l)) {
				keep = append(keep, l)
			} else {
				dropped = true
			}
		}
		lr.les = keep
		keep = lr.eqs[:0:0]
		for _, l := range lr.eqs {
			if st.entailsEQ(subst(l)) {
				keep = append(keep, l)
			} else {
				dropped = true
			}
		}
		lr.eqs = keep
		for _, l := range ls {
			if lr.rngOK[l.g] {
				d, ok := lr.stepBytes(st, obj, lsym(l.g), sub[l.g])
				switch {
				case !ok:
					lr.rngOK[l.g] = false
					dropped = true
				case !d.subset(lr.rng[l.g]):
					lr.rng[l.g] = lr.rng[l.g].or(d)
					if lr.rng[l.g].count() > 255 {
						lr.rngOK[l.g] = false
					}
					dropped = true
				}
			}
			if lr.seqOK[l.g] {
				par, ok := st.seqPath(obj, lsym(l.g), sub[l.g], 0)
				if !ok || par != 0 {
					if debugLoop {
						p, pp := lsym(l.g), 0
						for i := 0; i < 8; i++ {
							n, np, w := st.seqStep(obj, p, pp)
							if w != "" {
								fmt.Fprintln(os.Stderr, "seq lost", l.g, "->", sub[l.g], "at", p, w, strings.Join(st.trace, " "), st.dbgRanges())
								break
							}
							p, pp = n, np
						}
					}
					lr.seqOK[l.g] = false
					dropped = true
				}
			}
		}
	}
	return dropped
}

// stepBytes is the set of bytes between two positions a constant distance apart.
func (lr *loopRun) stepBytes(st *State, obj ObjID, from, to Lin) (Set, bool) {
	for k := int64(0); k <= 4; k++ {
		if st.entailsEQ(to.sub(from).addK(-k)) {
			var d Set
			for j := int64(0); j < k; j++ {
				d = d.or(st.byteSet(obj, from.addK(j)))
			}
			return d, true
		}
	}
	return Set{}, false
}

// mergeLeaves joins the ways out of a loop when there are many.
func (an *Analysis) mergeLeaves(fr *Frame, outs []outcome) []outcome {
	return outs
}

// ---- output ----

// norm makes the end of the output a sequence of values, which a loop can extend.
func (e *Emit) norm() *Emit {
	n := len(e.items)
	i := n
	for i > 0 && e.items[i-1].k == 'V' {
		i--
	}
	if i > 0 && e.items[i-1].k == 'Q' {
		i--
	} else if i == n && n > 0 && e.items[n-1].k != 'X' {
		return e
	}
	q := Item{k: 'Q', keys: true, key1: true}
	for _, it := range e.items[i:] {
		if it.k == 'Q' {
			q = it
			continue
		}
		if q.key1 && !it.tags.subset(keyTags) {
			q.keys = false
		}
		q.l = q.l.addK(1)
		q.key1 = !q.key1
	}
	q.len = lconst(0)
	return &Emit{items: append(e.items[:i:i], q)}
}

func emProj(get func(Val) (Val, bool), f func(*Emit) (Lin, bool)) proj {
	return func(v Val) (Lin, bool) {
		x, ok := get(v)
		if !ok {
			return Lin{}, false
		}
		switch s := x.(type) {
		case VSlice:
			if s.em != nil {
				return f(s.em)
			}
			if s.obj == 0 {
				return f(emptyEmit())
			}
		case VNil:
			return f(emptyEmit())
		}
		return Lin{}, false
	}
}

func (lr *loopRun) matchEm(x, y *Emit, st *State) bool {
	if x.key() == y.key() {
		return true
	}
	x, y = x.norm(), y.norm()
	if len(x.items) != len(y.items) {
		return false
	}
	lin := func(a, b Lin) bool { return genLin(a) || a.eq(b) || st.entailsEQ(a.sub(b)) }
	for i := range x.items {
		a, b := x.items[i], y.items[i]
		if a.k != b.k {
			return false
		}
		switch a.k {
		case 'Q':
			if !lin(a.l, b.l) || a.keys && !b.keys || a.key1 != b.key1 {
				return false
			}
		case 'V':
			if !b.tags.subset(a.tags) || a.t != nil && a.t != b.t {
				return false
			}
		case 'O':
			if !lin(a.l, b.l) {
				return false
			}
		default:
			if a.key() != b.key() {
				return false
			}
		}
	}
	return true
}

func (lr *loopRun) genEm(x, y *Emit, st *State, lin func(name string, a, b Lin, f func(*Emit) (Lin, bool)) Lin) *Emit {
	if x == nil || y == nil {
		return nil
	}
	if x.key() == y.key() {
		return x
	}
	x, y = x.norm(), y.norm()
	if len(x.items) != len(y.items) {
		return nil
	}
	r := &Emit{}
	for i := range x.items {
		i := i
		a, b := x.items[i], y.items[i]
		if a.k != b.k {
			return nil
		}
		at := func(e *Emit) (Lin, bool) {
			e = e.norm()
			if i >= len(e.items) || e.items[i].k != a.k {
				return Lin{}, false
			}
			return e.items[i].l, true
		}
		switch a.k {
		case 'Q':
			if a.key1 != b.key1 {
				return nil
			}
			a.l = lin("lvvalues", a.l, b.l, at)
			a.keys = a.keys && b.keys
		case 'O':
			a.l = lin("lvpairs", a.l, b.l, at)
		case 'V':
			a.tags = a.tags.or(b.tags)
			if a.t != b.t {
				a.t = nil
			}
		default:
			if a.key() != b.key() {
				return nil
			}
		}
		r.items = append(r.items, a)
	}
	return r
}
