package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CompSum summarises a compile function: the codecs it can return and what is known about the
// type for each.
type CompSum struct {
	fn    *ssa.Function
	exits []*CompExit
	key   string
}

type CompExit struct {
	tmpl  *Alt
	param *Term
	doms  map[Sym]Set
	le    []Lin
	eq    []Lin
	alias map[*Term]*Term
	memo  bool // a codec taken from the memo
	key   string
}

// hop is a recursive compile call.
type hop struct {
	fn, pos  string
	from, to Set
	guarded  bool
	reset    bool // the memo of the caller is not passed on
	why      string
}

func isTypeKeyed(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isReflectType(m.Key())
}

// memoField is the field of a struct that holds the codecs under construction.
func memoField(t types.Type) int {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if isReflectType(t) || isReflectValue(t) {
		return -1
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if m := s.Field(i).Type(); isTypeKeyed(m) {
				return i
			}
		}
	}
	return -1
}

// memoType is the type of the memo a parameter is or holds.
func memoType(t types.Type) types.Type {
	if isTypeKeyed(t) {
		return t
	}
	if i := memoField(t); i >= 0 {
		return structOf(deref(t)).Field(i).Type()
	}
	return nil
}

// memoIn is the memo an argument is or holds.
func memoIn(st *State, t types.Type, v Val) Val {
	if isTypeKeyed(t) {
		return v
	}
	i := memoField(t)
	if i < 0 {
		return nil
	}
	switch x := v.(type) {
	case VStruct:
		if i < len(x.f) {
			return x.f[i]
		}
	case VPtr:
		if o := st.heap[x.obj]; o != nil {
			return o.cells[fmt.Sprintf("%s.%d", x.path, i)]
		}
	}
	return nil
}

// withMemo is an arbitrary value for a parameter, with the given memo.
func (an *Analysis) withMemo(st *State, p *ssa.Parameter, m VMap) Val {
	t := p.Type()
	i := memoField(t)
	if isTypeKeyed(t) {
		return m
	}
	if e := deref(t); e != t {
		o := st.newObj(oCells, e, p.Name())
		o.ext, o.fresh, o.tid = true, false, Tstr("cparam", p.Name())
		o.cells[fmt.Sprintf(".%d", i)] = m
		return VPtr{obj: o.id}
	}
	v := an.unknownOf(st, t, Tstr("cparam", p.Name()))
	if x, ok := v.(VStruct); ok {
		fs := append([]Val{}, x.f...)
		fs[i] = m
		return VStruct{typ: x.typ, f: fs}
	}
	panic(undecided{"parameter " + p.Name() + " of " + p.Parent().String()})
}

// compileParam is the index of the type a compile function builds a codec for.
func compileParam(fn *ssa.Function) int {
	for i, p := range fn.Params {
		if isReflectType(p.Type()) {
			return i
		}
	}
	return -1
}

func (an *Analysis) compileContract(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) []sv {
	i := compileParam(fn)
	t, ok := args[i].(VType)
	if !ok {
		if _, isNil := args[i].(VNil); isNil {
			an.ob(an.nilProp(), "reflect.Type is not nil where a codec is built", fr, in, false, func() string { return "compiling a nil type" })
			return nil
		}
		panic(undecided{fmt.Sprintf("type argument %T in %s", args[i], fr.fn)})
	}
	if t.nilOf != nil {
		z := nilSym(t.nilOf)
		isn := st.domOf(z) != setOf(0)
		an.ob(an.nilProp(), "reflect.Type is not nil where a codec is built", fr, in, !isn, func() string { return "compiling a nil type" })
		if !st.assume(csym(z).neg()) {
			return nil
		}
	}
	an.register(func() {
		an.enqueue(&Root{kind: rkCompile, side: sideCompile, name: fnShort(fn), key: "comp|" + fn.String(), fn: fn})
	})
	r := an.root
	x := st.rt(t.t)
	var memo *Obj
	for k, p := range fn.Params {
		if m, ok := memoIn(st, p.Type(), args[k]).(VMap); ok {
			memo = st.mut(m.obj)
		}
	}
	if r.kind == rkCompile && an.scc[r.fn] == an.scc[fn] {
		an.terminates(fr, st, in, x, memo)
	}
	if memo != nil {
		memo.closed = false
		memo.opened = true
		// entries other calls may have added make earlier misses stale, except for keys this call holds
		var keep []string
		for _, k := range memo.missed {
			if liveEntry(memo, k) {
				keep = append(keep, k)
			}
		}
		memo.missed = keep
	}
	es := st.clone()
	es.pending = firstOf(es.pending, "building a codec at "+an.pos(in))
	rs := fn.Signature.Results()
	pack := func(s *State, v Val, err Val) sv {
		vs := []Val{v}
		for k := 1; k < rs.Len()-1; k++ {
			vs = append(vs, an.unknownOf(s, rs.At(k).Type(), freshTerm("res")))
		}
		if rs.Len() > 1 {
			vs = append(vs, err)
		}
		return sv{s, an.packRets(vs)}
	}
	c := VCodec{typ: x, enc: codecSort(rs.At(0).Type()) == 2}
	res := []sv{pack(st, c, VNil{})}
	if rs.Len() > 1 && isErrorType(rs.At(rs.Len()-1).Type()) {
		res = append(res, pack(es, VNil{}, an.newErr(es, in)))
	}
	return res
}

func liveEntry(o *Obj, key string) bool {
	for i := len(o.ents) - 1; i >= 0; i-- {
		if k, ok := o.ents[i].key.(VType); ok && k.t.key == key {
			return !o.ents[i].del
		}
	}
	return false
}

// madeOf: x is t or a part of t that t alone determines.
func madeOf(x, t *Term) bool {
	for x != t {
		if len(x.args) != 1 || x.lin != nil || x.op != "elem" && x.op != "key" && x.op != "ptrto" {
			return false
		}
		x = x.args[0]
	}
	return true
}

// terminates records a recursive compile call from the root's type to x.
func (an *Analysis) terminates(fr *Frame, st *State, in ssa.Instruction, x *Term, memo *Obj) {
	r := an.root
	t := st.rt(r.typ)
	h := hop{fn: in.Parent().String(), pos: an.pos(in), from: st.kinds(t), to: st.kinds(x)}
	switch {
	case memo == nil:
		h.why = "no memo is passed on"
		h.reset = true
	default:
		if memo.fresh {
			h.reset = true
		}
		// a type that was not in the memo and has been entered: the next time around it is found
		entered := false
		for _, e := range memo.ents {
			if k, ok := e.key.(VType); ok && madeOf(k.t, t) && liveEntry(memo, k.t.key) {
				entered = true
				for _, m := range memo.missed {
					if m == k.t.key {
						h.guarded = true
					}
				}
			}
		}
		h.why = "the type being compiled is not in the memo"
		if entered {
			h.why = "the memo was not consulted for the type before"
		}
	}
	if x == t {
		h.guarded = false
		h.why = "the same type is compiled again"
	}
	if h.reset {
		h.guarded = false
		if memo != nil {
			h.why = "it starts with an empty memo"
		}
	}
	an.register(func() { an.hops = append(an.hops, h) })
}

// checkHops: every cycle of types passes through a guarded hop.
func (an *Analysis) checkHops() {
	type edge struct{ from, to int }
	seen := map[string]bool{}
	for _, h := range an.hops {
		h := h
		if h.guarded {
			an.obAt("C12", "recursion over types is cut by the memo or by the kind of the type", h.fn, h.pos, true, nil)
			continue
		}
		// kinds from which an unguarded hop starts, reachable again from this one
		reach := map[int]bool{}
		var work []int
		h.to.each(func(k int) { work = append(work, k); reach[k] = true })
		for len(work) > 0 {
			k := work[len(work)-1]
			work = work[:len(work)-1]
			for _, g := range an.hops {
				// what the other calls remember is lost where the memo is not passed on
				if g.guarded && !h.reset || !g.from.has(k) {
					continue
				}
				g.to.each(func(m int) {
					if !reach[m] {
						reach[m] = true
						work = append(work, m)
					}
				})
			}
		}
		bad := ""
		h.from.each(func(k int) {
			if reach[k] && bad == "" {
				bad = kindNames(setOf(k))
			}
		})
		key := h.fn + h.pos + bad
		if seen[key] {
			continue
		}
		seen[key] = true
		an.obAt("C12", "recursion over types is cut by the memo or by the kind of the type", h.fn, h.pos, bad == "", func() string {
			return "a type that refers to itself through " + bad + " is compiled without end: " + h.why
		})
	}
	_ = edge{}
}

// runCompileRoot analyses a compile function for an arbitrary type.
func (an *Analysis) runCompileRoot(r *Root) {
	an.runRoot(r, func() {
		for i := 0; ; i++ {
			an.push()
			sum := an.compileOnce(r)
			old := an.comp[r.fn.String()]
			an.comp[r.fn.String()] = sum
			if old != nil && old.key == sum.key {
				an.keep()
				return
			}
			an.drop()
			if debugLoop && old != nil {
				diffLines(old.key, sum.key)
			}
			if i > 6 {
				panic(undecided{"the codecs " + r.fn.String() + " builds do not stabilise"})
			}
		}
	})
}

func (an *Analysis) compileOnce(r *Root) *CompSum {
	r.exits = 0
	st := an.start(nil)
	r.typ = Tstr("T", "")
	args := make([]Val, len(r.fn.Params))
	pi := compileParam(r.fn)
	var memo ObjID
	for i, p := range r.fn.Params {
		switch {
		case i == pi:
			args[i] = VType{t: r.typ}
		case memoType(p.Type()) != nil && memo == 0:
			o := st.newObj(oMap, memoType(p.Type()), "memo of "+r.fn.Name())
			o.ext, o.fresh, o.codecRel = true, false, "self"
			o.tid = Tstr("memo", "")
			memo = o.id
			args[i] = an.withMemo(st, p, VMap{o.id})
		case isReflectType(p.Type()):
			args[i] = VType{t: Tstr("T2", p.Name())}
		default:
			args[i] = an.unknownOf(st, p.Type(), Tstr("cparam", p.Name()))
		}
	}
	sum := &CompSum{fn: r.fn}
	var keys []string
	for _, e := range an.execFn(st, r.fn, args, nil, nil, nil) {
		if e.panic || e.st.dead || !e.st.feasible() {
			continue
		}
		r.exits++
		es := e.st
		an.checkLocks(r, es)
		last := e.rets[len(e.rets)-1]
		if len(e.rets) > 1 {
			switch an.errState(es, last) {
			case 1:
				continue
			case -1:
				es = es.clone()
				if c, ok := an.isNil(es, last); ok && !es.assume(c) {
					continue
				}
			}
		}
		an.rootOb(r, "C15", "a type whose codec cannot be built is refused", es.pending == "", func() string {
			return "a codec is returned although " + es.pending + " failed"
		})
		v := e.rets[0]
		ok := an.registerCodec(es, v, r.typ, "")
		why := func() string {
			return fmt.Sprintf("what is returned for a type of kind %s is not a codec for it: %s", kindNames(es.kinds(r.typ)), vkey(v))
		}
		an.rootOb(r, "C21", "the codec returned is one for the requested type", ok, why)
		if memo != 0 {
			an.checkMemo(r, es, memo)
		}
		x := &CompExit{param: r.typ, doms: map[Sym]Set{}, alias: es.alias}
		if _, isC := v.(VCodec); isC {
			x.memo = true
		}
		x.tmpl = es.template(nil, v, func(y Sym) bool { return symtab[y].term == nil }, func(o *Obj) bool { return o.global == "" && o.id != memo })
		fact := func(l Lin) bool {
			for _, m := range l.m {
				if t := symtab[m.s].term; t == nil || !typeFact(t) || t.transient() {
					return false
				}
			}
			return len(l.m) > 0
		}
		for y, d := range es.dom {
			if d != symtab[y].dom && fact(lsym(y)) {
				x.doms[y] = d
			}
		}
		for _, l := range es.le {
			if fact(l) {
				x.le = append(x.le, l)
			}
		}
		for _, l := range es.eq {
			if fact(l) {
				x.eq = append(x.eq, l)
			}
		}
		x.key = stableKey(x.tmpl.ckey) + "|" + typeFactsOf(es, true)
		sum.exits = append(sum.exits, x)
		keys = append(keys, x.key)
	}
	sort.Strings(keys)
	sum.key = strings.Join(keys, "\n")
	return sum
}

// checkMemo: every live memo entry ends up holding a codec for its key.
func (an *Analysis) checkMemo(r *Root, st *State, memo ObjID) {
	o := st.heap[memo]
	done := map[string]bool{}
	for i := len(o.ents) - 1; i >= 0; i-- {
		e := o.ents[i]
		k, ok := e.key.(VType)
		if !ok || done[k.t.key] {
			continue
		}
		done[k.t.key] = true
		v := e.val
		if e.del {
			// the codec that stood in while the type was compiled is still used by the others
			v = nil
			for j := i - 1; j >= 0; j-- {
				if p, ok := o.ents[j].key.(VType); ok && p.t == k.t && !o.ents[j].del {
					v = o.ents[j].val
					break
				}
			}
			if v == nil {
				an.rootOb(r, "C12", "a memo entry is only removed by the call that made it", false, func() string {
					return "the entry of " + k.t.String() + " is removed without having been stored"
				})
				continue
			}
		}
		ok = an.registerCodec(st, v, k.t, "")
		an.rootOb(r, "C21", "a memo entry is a codec for its key", ok, func() string {
			if p, ok := v.(VPtr); ok {
				return fmt.Sprintf("the entry stored for %s is not a codec for it: it holds %s", k.t, objKey(st.heap[p.obj]))
			}
			return fmt.Sprintf("the entry stored for %s is not a codec for it: %s", k.t, vkey(v))
		})
	}
}

// registerCodec queues the analysis of v as a codec for type t; false when it cannot be one.
func (an *Analysis) registerCodec(st *State, v Val, t *Term, role string) bool {
	switch x := v.(type) {
	case VCodec:
		return st.rt(x.typ) == st.rt(t) || st.decide(an.typeEq(st, x.typ, t)) == 1
	case VIface:
		if an.decIface == nil || !types.Implements(x.typ, an.decIface) {
			return false
		}
		m := an.prog.LookupMethod(x.typ, an.decIface.Method(0).Pkg(), an.decIface.Method(0).Name())
		if m == nil {
			return false
		}
		an.registerDecode(st, m, x.v, t, role, false)
		return true
	case VFunc:
		an.registerEncode(st, x, t, role)
		return true
	case VPtr:
		// a holder of codecs
		o := st.heap[x.obj]
		if o == nil {
			return false
		}
		if o.codecFor != nil {
			return st.rt(o.codecFor) == st.rt(t)
		}
		pt := an.pathType(o.typ, x.path)
		if codecSort(pt) != 0 {
			return an.registerCodec(st, st.loadCells(o, x.path, pt), t, role)
		}
		s := structOf(pt)
		n := 0
		if s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if codecSort(s.Field(i).Type()) != 0 {
					n++
					if !an.registerCodec(st, st.loadCells(o, fmt.Sprintf("%s.%d", x.path, i), s.Field(i).Type()), t, role) {
						return false
					}
				}
			}
		}
		return n > 0
	}
	return false
}

// assumeExit makes st one in which compiling x took the given exit, and returns the codec.
func (an *Analysis) assumeExit(st *State, e *CompExit, x *Term) (Val, bool) {
	sub := map[*Term]*Term{e.param: x}
	r := &renamer{sub: sub, memo: map[Sym]Sym{}, sym: func(y Sym) Sym { return y }, obj: func(o ObjID) ObjID { return o }}
	for a, b := range e.alias {
		if !st.assume(an.typeEq(st, r.term(a), r.term(b))) {
			return nil, false
		}
	}
	var ys []int
	for y := range e.doms {
		ys = append(ys, int(y))
	}
	sort.Ints(ys)
	for _, y := range ys {
		if !st.assume(cin(r.s(Sym(y)), e.doms[Sym(y)])) {
			return nil, false
		}
	}
	for _, l := range e.le {
		if !st.addLE(r.lin(l)) {
			return nil, false
		}
	}
	for _, l := range e.eq {
		if !st.addEQ(r.lin(l)) {
			return nil, false
		}
	}
	_, v := st.instantiate(e.tmpl, sub)
	if v == nil || st.dead {
		return nil, false
	}
	return v, true
}

// expandCodec: a codec for a type is one of those its compile function returns.
func (an *Analysis) expandCodec(fr *Frame, st *State, x *ssa.TypeAssert, d VCodec, res func(*State, Val, bool) sv) []sv {
	var out []sv
	var keys []string
	for k, s := range an.comp {
		if codecSort(s.fn.Signature.Results().At(0).Type()) == 1 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var fails []*State
	t := st.rt(d.typ)
	for _, k := range keys {
		for _, e := range an.comp[k].exits {
			s := st.clone()
			v, ok := an.assumeExit(s, e, t)
			if !ok {
				continue
			}
			if i, isI := v.(VIface); isI && types.Identical(i.typ, x.AssertedType) {
				if an.root.kind == rkFields {
					s.seenAs = append(s.seenAs, seenAs{d.key(), i})
				}
				out = append(out, res(s, i.v, true))
				continue
			}
			if e.memo && an.memoHolds(x.AssertedType) {
				panic(undecided{"assertion on a codec from the memo in " + fr.fn.String()})
			}
			fails = append(fails, s)
		}
	}
	if len(fails) == 0 {
		return out
	}
	if !x.CommaOk {
		an.ob(an.typeProp(), "type assertion cannot fail", fr, x, false, func() string { return "the codec may have another type" })
		return out
	}
	// what the codec looks like is not remembered on this side, only what its type can be
	s := st.clone()
	for y, d := range fails[0].dom {
		if tt := symtab[y].term; tt == nil || !typeFact(tt) {
			continue
		}
		for _, f := range fails[1:] {
			d = d.or(f.domOf(y))
		}
		s.dom[y] = d
	}
	return append(out, res(s, nil, false))
}

// memoHolds: codecs of the type are kept in a memo.
func (an *Analysis) memoHolds(t types.Type) bool {
	for _, fn := range an.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isTypeKeyed(mu.Map.Type()) {
					continue
				}
				v := mu.Value
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				if types.Identical(v.Type(), t) {
					return true
				}
			}
		}
	}
	return false
}

func (an *Analysis) onCodecStore(fr *Frame, st *State, in ssa.Instruction, o *Obj, kt VType, val Val) {
}

// stableKey numbers the fresh terms of a key in the order they appear.
func stableKey(k string) string {
	var b strings.Builder
	m := map[string]int{}
	for i := 0; i < len(k); {
		if k[i] != '#' {
			b.WriteByte(k[i])
			i++
			continue
		}
		j := i + 1
		for j < len(k) && k[j] >= '0' && k[j] <= '9' {
			j++
		}
		n, ok := m[k[i:j]]
		if !ok {
			n = len(m)
			m[k[i:j]] = n
		}
		fmt.Fprintf(&b, "#%d", n)
		i = j
	}
	return b.String()
}
