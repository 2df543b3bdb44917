package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// renamer rewrites symbols, objects and terms inside values.
type renamer struct {
	sym  func(Sym) Sym
	obj  func(ObjID) ObjID
	sub  map[*Term]*Term
	memo map[Sym]Sym
	// leaf, when set, renames the names that stand for nothing but a fresh value
	leaf func(*Term) *Term
}

func (t *Term) hasJoined() bool {
	if t.op == "cj" {
		return true
	}
	for _, a := range t.args {
		if a.hasJoined() {
			return true
		}
	}
	return false
}

// leaves finds the names of joined strings inside a term.
func (r *renamer) leaves(t *Term) {
	if t == nil || r.leaf == nil {
		return
	}
	if len(t.args) == 0 && (t.op == "j" || t.op == "join" || t.op == "cj") {
		if _, ok := r.sub[t]; !ok {
			r.sub[t] = r.leaf(t)
		}
		return
	}
	for _, a := range t.args {
		r.leaves(a)
	}
}

func (r *renamer) s(y Sym) Sym {
	if n, ok := r.memo[y]; ok {
		return n
	}
	var n Sym
	if t := symtab[y].term; t != nil {
		nt := r.term(t)
		if nt == t {
			n = y
		} else if symtab[y].fin {
			n = finForTerm(nt, symtab[y].dom)
		} else {
			n = symForTerm(nt, symtab[y].lo, symtab[y].hi)
		}
	} else {
		n = r.sym(y)
	}
	r.memo[y] = n
	return n
}
func (r *renamer) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	r.leaves(t)
	nt := renameTerm(t, r.s, r.sub)
	return normTerm(nt)
}
func (r *renamer) lin(l Lin) Lin {
	changed := false
	for _, m := range l.m {
		if r.s(m.s) != m.s {
			changed = true
		}
	}
	if !changed {
		return l
	}
	return l.rename(r.s)
}
func (r *renamer) cond(c Cond) Cond {
	if c.op == cIn {
		c.y = r.s(c.y)
	} else {
		c.l = r.lin(c.l)
	}
	return c
}
func (r *renamer) val(v Val) Val {
	switch x := v.(type) {
	case nil:
		return nil
	case VInt:
		return VInt{r.lin(x.l)}
	case VBool:
		return VBool{r.cond(x.c)}
	case VOpaque:
		return VOpaque{r.term(x.t)}
	case VSlice:
		x.obj = r.obj(x.obj)
		x.off, x.len, x.cap = r.lin(x.off), r.lin(x.len), r.lin(x.cap)
		if x.nilness == 2 {
			x.nilSym = r.s(x.nilSym)
		}
		if x.em != nil {
			x.em = x.em.rename(r)
		}
		return x
	case VStr:
		x.obj = r.obj(x.obj)
		x.off, x.len = r.lin(x.off), r.lin(x.len)
		x.t = r.term(x.t)
		return x
	case VPtr:
		x.obj = r.obj(x.obj)
		if x.idx != nil {
			l := r.lin(*x.idx)
			x.idx = &l
		}
		return x
	case VIface:
		return VIface{x.typ, r.val(x.v)}
	case VDyn:
		x.t = r.term(x.t)
		return x
	case VStruct:
		return VStruct{x.typ, r.vals(x.f)}
	case VTuple:
		return VTuple{r.vals(x.v)}
	case VFunc:
		return VFunc{x.fn, r.vals(x.bind)}
	case VRV:
		x.typ, x.id, x.nilOf = r.term(x.typ), r.term(x.id), r.term(x.nilOf)
		if x.cell != nil {
			p := r.val(*x.cell).(VPtr)
			x.cell = &p
		}
		return x
	case VType:
		x.t, x.nilOf = r.term(x.t), r.term(x.nilOf)
		return x
	case VCodec:
		x.typ = r.term(x.typ)
		return x
	case VMap:
		return VMap{r.obj(x.obj)}
	case VArr:
		x.p = r.val(x.p).(VPtr)
		return x
	}
	return v
}
func (r *renamer) vals(v []Val) []Val {
	out := make([]Val, len(v))
	for i := range v {
		out[i] = r.val(v[i])
	}
	return out
}
func (r *renamer) object(o *Obj) *Obj {
	n := *o
	n.id = r.obj(o.id)
	n.cells = make(map[string]Val, len(o.cells))
	for _, k := range sortedCells(o) {
		n.cells[k] = r.val(o.cells[k])
	}
	n.codecFor = r.term(o.codecFor)
	n.tid = r.term(o.tid)
	n.ents = nil
	for _, e := range o.ents {
		n.ents = append(n.ents, MapEnt{r.val(e.key), r.val(e.val), e.del})
	}
	n.alts = nil
	for _, a := range o.alts {
		n.alts = append(n.alts, r.alt(a))
	}
	return &n
}
func (r *renamer) alt(a *Alt) *Alt {
	if r.leaf != nil {
		// the names inside a template are its own
		c := &renamer{sym: r.sym, obj: r.obj, sub: map[*Term]*Term{}, memo: map[Sym]Sym{}}
		for k, v := range r.sub {
			if k.op != "cj" {
				c.sub[k] = v
			}
		}
		for k, v := range r.memo {
			if t := symtab[k].term; t == nil || !t.hasJoined() {
				c.memo[k] = v
			}
		}
		n := c.alt(a)
		for k, v := range c.memo {
			if t := symtab[k].term; t == nil || !t.hasJoined() {
				r.memo[k] = v
			}
		}
		return n
	}
	n := &Alt{key: r.val(a.key), val: r.val(a.val), ckey: a.ckey, dom: map[Sym]Set{}, objs: map[ObjID]*Obj{}}
	// the private (canonical) objects of the template keep their identity
	for id, o := range a.objs {
		n.objs[id] = r.object(o)
	}
	for _, l := range a.le {
		n.le = append(n.le, r.lin(l))
	}
	for _, l := range a.eq {
		n.eq = append(n.eq, r.lin(l))
	}
	for y, d := range a.dom {
		n.dom[r.s(y)] = d
	}
	return n
}

// objsIn visits the objects a value refers to directly.
func objsIn(v Val, f func(ObjID)) {
	switch x := v.(type) {
	case VSlice:
		if x.obj != 0 {
			f(x.obj)
		}
	case VStr:
		if x.obj != 0 {
			f(x.obj)
		}
	case VPtr:
		f(x.obj)
	case VMap:
		f(x.obj)
	case VArr:
		f(x.p.obj)
	case VIface:
		objsIn(x.v, f)
	case VStruct:
		for _, e := range x.f {
			objsIn(e, f)
		}
	case VTuple:
		for _, e := range x.v {
			objsIn(e, f)
		}
	case VFunc:
		for _, e := range x.bind {
			objsIn(e, f)
		}
	case VRV:
		if x.cell != nil {
			f(x.cell.obj)
		}
	}
}

// reach lists the objects reachable from the values, in a deterministic order.
func (s *State) reach(vals []Val, keep func(*Obj) bool) []ObjID {
	seen := map[ObjID]bool{}
	var order []ObjID
	var visit func(v Val)
	visitObj := func(id ObjID) {
		if seen[id] {
			return
		}
		o := s.heap[id]
		if o == nil || !keep(o) {
			return
		}
		seen[id] = true
		order = append(order, id)
		for _, k := range sortedCells(o) {
			visit(o.cells[k])
		}
		for _, e := range o.ents {
			visit(e.key)
			visit(e.val)
		}
		for _, a := range o.alts {
			visit(a.key)
			visit(a.val)
			for _, ao := range sortedObjs(a.objs) {
				for _, k := range sortedCells(ao) {
					visit(ao.cells[k])
				}
			}
		}
	}
	visit = func(v Val) { objsIn(v, visitObj) }
	for _, v := range vals {
		visit(v)
	}
	return order
}

func sortedObjs(m map[ObjID]*Obj) []*Obj {
	var ids []int
	for id := range m {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	var out []*Obj
	for _, id := range ids {
		out = append(out, m[ObjID(id)])
	}
	return out
}

var canonSyms = map[string]Sym{}
var isCanon = map[Sym]bool{}

func canonSym(k int, y Sym) Sym {
	i := symtab[y]
	key := fmt.Sprintf("%d|%v|%v|%s|%s", k, i.fin, i.dom, i.lo, i.hi)
	if c, ok := canonSyms[key]; ok {
		return c
	}
	var c Sym
	if i.fin {
		c = newFin(fmt.Sprintf("c%d", k), i.dom)
	} else {
		c = newSym(fmt.Sprintf("c%d", k), i.lo, i.hi)
	}
	canonSyms[key] = c
	isCanon[c] = true
	return c
}

// template captures values with everything private to them in a canonical form. Symbols for
// which private() holds and objects for which privObj() holds are renamed to placeholders.
func (s *State) template(key, val Val, private func(Sym) bool, privObj func(*Obj) bool) *Alt {
	order := s.reach([]Val{key, val}, privObj)
	objN := map[ObjID]ObjID{}
	for i, id := range order {
		objN[id] = ObjID(-1 - i)
	}
	n := 0
	r := &renamer{memo: map[Sym]Sym{}, sub: map[*Term]*Term{}}
	used := map[Sym]bool{}
	r.sym = func(y Sym) Sym {
		if !private(y) {
			return y
		}
		c := canonSym(n, y)
		n++
		used[y] = true
		return c
	}
	r.obj = func(id ObjID) ObjID {
		if n, ok := objN[id]; ok {
			return n
		}
		return id
	}
	leafs := 0
	r.leaf = func(t *Term) *Term {
		if t.op == "cj" {
			return t
		}
		leafs++
		return Tstr("cj", fmt.Sprint(leafs))
	}
	a := &Alt{dom: map[Sym]Set{}, objs: map[ObjID]*Obj{}}
	a.key, a.val = r.val(key), r.val(val)
	for _, id := range order {
		o := r.object(s.heap[id])
		a.objs[o.id] = o
	}
	var b strings.Builder
	b.WriteString(vkey(a.key) + "=>" + vkey(a.val))
	for _, o := range sortedObjs(a.objs) {
		fmt.Fprintf(&b, "|%d:", o.id)
		for _, k := range sortedCells(o) {
			b.WriteString(k + "=" + vkey(o.cells[k]) + ";")
		}
		for _, al := range o.alts {
			b.WriteString("alt" + al.ckey)
		}
	}
	a.ckey = b.String()
	// facts about the renamed symbols
	mentions := func(l Lin) bool {
		hit := false
		for _, m := range l.m {
			if r.s(m.s) != m.s {
				hit = true
			} else if private(m.s) {
				return false
			}
		}
		return hit
	}
	known := func(l Lin) bool {
		for _, m := range l.m {
			ok := true
			symSyms(m.s, func(y Sym) {
				if private(y) && !used[y] {
					ok = false
				}
			})
			if !ok {
				return false
			}
		}
		return true
	}
	addNew := func(ls []Lin, l Lin) []Lin {
		for _, m := range ls {
			if m.eq(l) {
				return ls
			}
		}
		return append(ls, l)
	}
	for _, l := range s.le {
		if known(l) && mentions(l) {
			a.le = addNew(a.le, r.lin(l))
		}
	}
	for _, l := range s.eq {
		if known(l) && mentions(l) {
			a.eq = addNew(a.eq, r.lin(l))
		}
	}
	var ys []int
	for y := range s.dom {
		ys = append(ys, int(y))
	}
	sort.Ints(ys)
	for _, yi := range ys {
		y := Sym(yi)
		if known(lsym(y)) && r.s(y) != y {
			a.dom[r.s(y)] = s.dom[y]
		}
	}
	return a
}

func symSyms(y Sym, f func(Sym)) {
	f(y)
	if t := symtab[y].term; t != nil {
		t.syms(f)
	}
}

// joinFacts weakens the facts of a to those shared with b (same canonical key).
func (a *Alt) joinFacts(b *Alt) *Alt {
	n := *a
	n.dom = map[Sym]Set{}
	for y, d := range a.dom {
		if e, ok := b.dom[y]; ok {
			n.dom[y] = d.or(e)
		}
	}
	n.le, n.eq = nil, nil
	for _, l := range a.le {
		for _, m := range b.le {
			if l.eq(m) {
				n.le = append(n.le, l)
				break
			}
		}
	}
	for _, l := range a.eq {
		for _, m := range b.eq {
			if l.eq(m) {
				n.eq = append(n.eq, l)
				break
			}
		}
	}
	return &n
}

func (an *Analysis) addAlt(st *State, id ObjID, key, val Val) {
	o := st.mut(id)
	wm, wmObj := o.wm, o.wmObj
	if debugLoop {
		st.dangling(fmt.Sprint("addAlt ", o.name, " wmobj ", wmObj), val)
	}
	key, val = st.settle(key), st.settle(val)
	a := st.template(key, val, func(y Sym) bool {
		p := y >= wm && symtab[y].term == nil
		return p
	}, func(x *Obj) bool { return x.id > wmObj && !x.input })
	for i, b := range o.alts {
		if b.ckey == a.ckey {
			o.alts = append([]*Alt(nil), o.alts...)
			o.alts[i] = b.joinFacts(a)
			return
		}
	}
	if len(o.alts) > 160 {
		if debugLoop {
			for _, b := range o.alts {
				fmt.Println("ALT", b.ckey)
			}
		}
		panic(undecided{"too many different elements in " + o.name})
	}
	o.alts = append(o.alts, a)
}

// settle replaces conditions that are decided on this path by their value.
func (st *State) settle(v Val) Val {
	switch x := v.(type) {
	case VBool:
		switch st.decide(x.c) {
		case 1:
			return VBool{cbool(true)}
		case 0:
			return VBool{cbool(false)}
		}
	case VStruct:
		f := make([]Val, len(x.f))
		for i := range x.f {
			f[i] = st.settle(x.f[i])
		}
		return VStruct{x.typ, f}
	}
	return v
}

// instantiate makes a fresh copy of a template in st.
func (st *State) instantiate(a *Alt, sub map[*Term]*Term) (Val, Val) {
	r := &renamer{memo: map[Sym]Sym{}, sub: sub}
	if r.sub == nil {
		r.sub = map[*Term]*Term{}
	}
	r.leaf = func(t *Term) *Term {
		if t.op == "cj" {
			return freshTerm("j")
		}
		return t
	}
	r.sym = func(y Sym) Sym {
		if !isCanon[y] {
			return y
		}
		i := symtab[y]
		if i.fin {
			return newFin(i.name, i.dom)
		}
		return newSym(i.name, i.lo, i.hi)
	}
	objN := map[ObjID]ObjID{}
	for _, o := range sortedObjs(a.objs) {
		if o.id < 0 {
			nextObj++
			objN[o.id] = nextObj
		}
	}
	r.obj = func(id ObjID) ObjID {
		if n, ok := objN[id]; ok {
			return n
		}
		return id
	}
	k, v := r.val(a.key), r.val(a.val)
	for _, o := range sortedObjs(a.objs) {
		n := r.object(o)
		n.wm, n.wmObj = Sym(len(symtab)), nextObj
		st.heap[n.id] = n
	}
	for _, l := range a.le {
		if !st.addLE(r.lin(l)) {
			return nil, nil
		}
	}
	for _, l := range a.eq {
		if !st.addEQ(r.lin(l)) {
			return nil, nil
		}
	}
	for y, d := range a.dom {
		ny := r.s(y)
		if !st.assume(cin(ny, d)) {
			return nil, nil
		}
	}
	return k, v
}

func (an *Analysis) loadAlts(fr *Frame, st *State, in ssa.Instruction, o *Obj, t types.Type, id *Term) []sv {
	var res []sv
	for _, a := range o.alts {
		c := st.clone()
		_, v := c.instantiate(a, nil)
		if c.dead {
			continue
		}
		if debugLoop {
			c.dangling("loadAlts "+o.name+" "+a.ckey, v)
		}
		res = append(res, sv{c, v})
	}
	if !o.closed {
		res = append(res, sv{st, an.unknownOf(st, t, id)})
	}
	return res
}

// ---- maps ----

func (an *Analysis) lookup(fr *Frame, fl *flow, x *ssa.Lookup) []sv {
	st := fl.st
	base := an.val(fl, x.X)
	key := an.val(fl, x.Index)
	if s, ok := base.(VStr); ok {
		iv := key.(VInt)
		if !an.boundsOK(fr, st, x, iv.l, s.len, "string") {
			return nil
		}
		if s.konst {
			if c, ok := st.constOf(iv.l); ok {
				return one(st, intv(int64(s.s[c])))
			}
		}
		return one(st, VInt{lsym(finForTerm(T("char", strTerm(s), linTerm(iv.l)), fullSet))})
	}
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	mk := func(s *State, v Val, ok bool) sv {
		if !ok {
			v = s.zeroVal(elem)
		}
		if x.CommaOk {
			return sv{s, VTuple{[]Val{v, VBool{cbool(ok)}}}}
		}
		return sv{s, v}
	}
	m, ok := base.(VMap)
	if !ok {
		if _, isNil := base.(VNil); isNil {
			return []sv{mk(st, nil, false)}
		}
		panic(undecided{fmt.Sprintf("lookup in %T", base)})
	}
	o := st.heap[m.obj]
	an.access(fr, st, x, o, "", false)
	if kt, ok := key.(VType); ok && (o.tid == nil || o.tid.op != "ctxmap") {
		t := st.rt(kt.t)
		for i := len(o.ents) - 1; i >= 0; i-- {
			e := o.ents[i]
			if ek, ok := e.key.(VType); ok && st.rt(ek.t) == t {
				if e.del {
					break
				}
				return []sv{mk(st, e.val, true)}
			}
		}
		if o.closed && len(o.ents) == 0 && len(o.alts) == 0 {
			st.mut(o.id).missed = append(st.heap[o.id].missed, t.key)
			return []sv{mk(st, nil, false)}
		}
		h := st.clone()
		hit := mk(h, an.codecIn(h, o, elem, t), true)
		mm := st.mut(o.id)
		mm.missed = append(mm.missed, t.key)
		return []sv{hit, mk(st, nil, false)}
	}
	if an.visited(o, key) {
		return an.seenLookup(fr, st, x, o, key, mk)
	}
	if o.closed && len(o.alts) == 0 {
		return []sv{mk(st, nil, false)}
	}
	var res []sv
	for _, a := range o.alts {
		c := st.clone()
		_, v := c.instantiate(a, nil)
		if !c.dead {
			res = append(res, mk(c, v, true))
		}
	}
	if !o.closed {
		c := st.clone()
		res = append(res, mk(c, an.unknownOf(c, elem, T("mapval", Tstr("obj", fmt.Sprint(o.id)), valTerm(key))), true))
	}
	return append(res, mk(st, nil, false))
}

// visited: the map is a table of visited values.
func (an *Analysis) visited(o *Obj, key Val) bool {
	if o.tid != nil && o.tid.op == "ctxmap" {
		return true
	}
	_, ok := key.(VStruct)
	return ok
}

// codecIn is the unknown value a type-keyed map holds for key t.
func (an *Analysis) codecIn(st *State, o *Obj, elem types.Type, t *Term) Val {
	ft := t
	if o.codecRel == "elem" {
		ft = an.elemT(t)
	}
	if s := codecSort(elem); s != 0 {
		return VCodec{typ: ft, enc: s == 2, role: "memo"}
	}
	if p, ok := elem.Underlying().(*types.Pointer); ok {
		x := st.extObj(p.Elem(), T("memo", Tstr("map", o.name), t))
		m := st.mut(x.id)
		m.codecFor = ft
		return VPtr{obj: x.id}
	}
	return an.unknownOf(st, elem, T("mapval", Tstr("map", o.name), t))
}

func (an *Analysis) mapAny(fr *Frame, st *State, in ssa.Instruction, m VMap, kt, vt types.Type) []sv {
	o := st.heap[m.obj]
	an.access(fr, st, in, o, "", false)
	mt, _ := o.typ.Underlying().(*types.Map)
	if mt != nil {
		kt, vt = mt.Key(), mt.Elem()
	}
	var res []sv
	if isReflectType(kt) {
		for _, e := range o.ents {
			if !e.del {
				res = append(res, sv{st.clone(), VTuple{[]Val{e.key, e.val}}})
			}
		}
		if !o.closed || o.opened {
			t := freshTerm("anytype")
			res = append(res, sv{st, VTuple{[]Val{VType{t: t}, an.codecIn(st, o, vt, t)}}})
		}
		return res
	}
	for _, a := range o.alts {
		c := st.clone()
		k, v := c.instantiate(a, nil)
		if !c.dead {
			res = append(res, sv{c, VTuple{[]Val{k, v}}})
		}
	}
	if !o.closed {
		res = append(res, sv{st, VTuple{[]Val{an.unknownOf(st, kt, freshTerm("anykey")), an.unknownOf(st, vt, freshTerm("anyval"))}}})
	}
	return res
}

func (an *Analysis) mapUpdate(fr *Frame, st *State, in ssa.Instruction, mv, key, val Val) {
	m, ok := mv.(VMap)
	if !ok {
		if _, isNil := mv.(VNil); isNil {
			an.ob(an.typeProp(), "map is not nil when written", fr, in, false, func() string { return "assignment to entry in nil map" })
			st.dead = true
			return
		}
		panic(undecided{fmt.Sprintf("update of %T", mv)})
	}
	o := st.mut(m.obj)
	an.writesPublished(fr, st, in, o, "", "a published cache map is never written", "map update of")
	if kt, ok := key.(VType); ok && (o.tid == nil || o.tid.op != "ctxmap") {
		if o.shared != "" && !an.inInit {
			an.publish(fr, st, in, "map "+o.shared, val)
			an.checkCacheEntry(fr, st, in, "map "+o.shared, kt, val)
		} else {
			an.onCodecStore(fr, st, in, o, kt, val)
		}
		o = st.mut(m.obj)
		o.ents = append(o.ents, MapEnt{key: key, val: val})
		return
	}
	if an.visited(o, key) {
		an.seenUpdate(fr, st, in, o, key)
		return
	}
	an.addAlt(st, m.obj, key, val)
}

func (an *Analysis) mapDelete(fr *Frame, st *State, in ssa.Instruction, mv, key Val) {
	m, ok := mv.(VMap)
	if !ok {
		return
	}
	o := st.mut(m.obj)
	an.writesPublished(fr, st, in, o, "", "a published cache map is never written", "deletion from")
	if kt, ok := key.(VType); ok && (o.tid == nil || o.tid.op != "ctxmap") {
		o.ents = append(o.ents, MapEnt{key: kt, del: true})
		return
	}
	if an.visited(o, key) {
		an.seenDelete(fr, st, in, o, key)
	}
}
