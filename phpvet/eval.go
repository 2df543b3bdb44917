package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type undecided struct{ why string }

func fieldName(t types.Type, i int) string {
	if st := structOf(t); st != nil && i < st.NumFields() {
		return st.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// eval computes an SSA value; several results mean the path splits.
func (an *Analysis) eval(fr *Frame, fl *flow, in ssa.Value) []sv {
	st := fl.st
	switch x := in.(type) {
	case *ssa.Alloc:
		t := deref(x.Type())
		o := st.newObj(oCells, t, an.objName(fr, x))
		st.storeCells(o, "", t, st.zeroVal(t))
		return one(st, VPtr{obj: o.id})
	case *ssa.BinOp:
		return an.binop(fr, fl, x)
	case *ssa.UnOp:
		v := an.val(fl, x.X)
		switch x.Op {
		case token.MUL:
			return an.load(fr, st, x, v, x.Type())
		case token.NOT:
			if b, ok := v.(VBool); ok {
				return one(st, VBool{b.c.neg()})
			}
		case token.SUB:
			if i, ok := v.(VInt); ok {
				r := an.wrap(st, i.l.neg(), x.Type())
				an.arith(fr, x, st, r, i.l.neg())
				return r
			}
			return one(st, VOpaque{T("neg", valTerm(v))})
		case token.XOR:
			lo, hi, _ := intRange(x.Type())
			if i, ok := v.(VInt); ok {
				if lo.sign() == 0 {
					return one(st, VInt{lnum(hi).sub(i.l)})
				}
				return one(st, VInt{i.l.neg().addK(-1)})
			}
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var op ssa.Value
		if c, ok := x.(*ssa.ChangeType); ok {
			op = c.X
		} else {
			op = x.(*ssa.ChangeInterface).X
		}
		return one(st, an.val(fl, op))
	case *ssa.Convert:
		return an.convert(fr, fl, x)
	case *ssa.SliceToArrayPointer:
	case *ssa.MakeInterface:
		v := an.val(fl, x.X)
		switch v.(type) {
		case VCodec, VDyn:
			return one(st, v)
		}
		return one(st, VIface{x.X.Type(), v})
	case *ssa.MakeClosure:
		f := VFunc{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, an.val(fl, b))
		}
		return one(st, f)
	case *ssa.MakeMap:
		if x.Reserve != nil && !isTypeKeyed(x.Type().Underlying()) {
			if l, ok := an.val(fl, x.Reserve).(VInt); ok {
				an.reserve(fr, st, x, l.l, nil)
			}
		}
		o := st.newObj(oMap, x.Type(), an.objName(fr, x))
		o.closed = true
		return one(st, VMap{o.id})
	case *ssa.MakeSlice:
		l, ok1 := an.val(fl, x.Len).(VInt)
		c, ok2 := an.val(fl, x.Cap).(VInt)
		if !ok1 || !ok2 {
			break
		}
		an.ob(an.panicProp(), "make size is in range", fr, x, st.entailsLE(l.l.neg()) && st.entailsLE(l.l.sub(c.l)) && st.entailsLE(c.l.addN(twoPow(47).neg())) || an.lenSafe(st, l.l, c.l), func() string {
			return "make with length " + st.explain(l.l)
		})
		if s, isS := x.Type().Underlying().(*types.Slice); isS && !isByteSlice(x.Type()) {
			an.reserve(fr, st, x, c.l, tyConst(s.Elem()))
		} else {
			an.reserve(fr, st, x, c.l, nil)
		}
		if !(st.addLE(l.l.neg()) && st.addLE(l.l.sub(c.l))) {
			return nil
		}
		return one(st, an.makeSlice(fr, st, x, x.Type(), l.l, c.l))
	case *ssa.Slice:
		return an.slice(fr, fl, x)
	case *ssa.FieldAddr:
		v := an.val(fl, x.X)
		p, ok := an.ptr(fr, st, x, v, deref(x.X.Type()))
		if !ok {
			return nil
		}
		p.path += fmt.Sprintf(".%d", x.Field)
		return one(st, p)
	case *ssa.Field:
		v := an.val(fl, x.X)
		if s, ok := v.(VStruct); ok {
			return one(st, s.f[x.Field])
		}
		return one(st, an.project(st, v, x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		return an.indexAddr(fr, fl, x)
	case *ssa.Index:
		return an.index(fr, fl, x)
	case *ssa.Lookup:
		return an.lookup(fr, fl, x)
	case *ssa.Extract:
		t, ok := an.val(fl, x.Tuple).(VTuple)
		if ok {
			return one(st, t.v[x.Index])
		}
	case *ssa.Range:
		return one(st, an.val(fl, x.X))
	case *ssa.Next:
		return an.next(fr, fl, x)
	case *ssa.TypeAssert:
		return an.typeAssert(fr, fl, x)
	case *ssa.Call:
		fn, args := an.callArgs(fl, &x.Call)
		return an.callValue(fr, st, x, &x.Call, fn, args)
	}
	panic(undecided{fmt.Sprintf("cannot interpret %s = %s in %s", in.Name(), in, fr.fn)})
}

func (an *Analysis) objName(fr *Frame, in ssa.Instruction) string {
	return fr.fn.Name() + "@" + an.pos(in)
}

func (an *Analysis) lenSafe(st *State, l, c Lin) bool {
	// sums of a few lengths are far below the address space limit
	lo, hi, ok := st.bound(c)
	_ = lo
	if ok && hi.cmp(twoPow(59)) <= 0 && st.entailsLE(l.neg()) && st.entailsLE(l.sub(c)) {
		return an.onlyLengths(st, c)
	}
	return false
}

// onlyLengths: every symbol of l is the length of something that exists in memory.
func (an *Analysis) onlyLengths(st *State, l Lin) bool {
	for _, m := range l.m {
		lo, hi := st.bounds(m.s)
		if hi.cmp(maxLenN) > 0 || lo.sign() < 0 {
			return false
		}
	}
	return true
}

func (an *Analysis) makeSlice(fr *Frame, st *State, in ssa.Instruction, t types.Type, l, c Lin) Val {
	if isByteSlice(t) {
		o := st.newObj(oBytes, t, an.objName(fr, in))
		s := VSlice{obj: o.id, len: l, cap: c}
		if l.isConst() && l.k.sign() == 0 {
			s.em = &Emit{}
		}
		return s
	}
	o := st.newObj(oColl, t.Underlying().(*types.Slice).Elem(), an.objName(fr, in))
	o.closed = l.isConst() && l.k.sign() == 0
	return VSlice{obj: o.id, len: l, cap: c}
}

// ptr resolves a pointer operand, reporting a possible nil dereference.
func (an *Analysis) ptr(fr *Frame, st *State, in ssa.Instruction, v Val, elem types.Type) (VPtr, bool) {
	switch p := v.(type) {
	case VPtr:
		an.ob(an.nilProp(), "pointer is not nil where it is dereferenced", fr, in, true, nil)
		if o := st.heap[p.obj]; o != nil && o.released {
			for _, p := range []string{"C10", "C11"} {
				an.ob(p, "pooled object is not used after it was released", fr, in, false, func() string { return "use of " + o.name + " after Put" })
			}
		}
		return p, true
	case VNil:
		an.ob(an.nilProp(), "pointer is not nil where it is dereferenced", fr, in, false, func() string { return "nil pointer dereference" })
		return VPtr{}, false
	case VDyn:
		// pointer to an object of unknown origin
		o := st.extObj(elem, p.t)
		return VPtr{obj: o.id}, true
	}
	panic(undecided{fmt.Sprintf("pointer operand %T (%s) of %s in %s", v, vkey(v), in, fr.fn)})
}

func (s *State) extObj(t types.Type, id *Term) *Obj {
	for _, o := range s.heap {
		if o.ext && o.tid == id && o.typ != nil && types.Identical(o.typ, t) {
			return o
		}
	}
	o := s.newObj(oCells, t, "external "+id.String())
	o.ext, o.fresh, o.tid = true, false, id
	return o
}

func (an *Analysis) load(fr *Frame, st *State, in ssa.Instruction, pv Val, t types.Type) []sv {
	p, ok := an.ptr(fr, st, in, pv, t)
	if !ok {
		return nil
	}
	o := st.heap[p.obj]
	if o == nil {
		panic(undecided{fmt.Sprintf("dangling pointer %s loaded by %s in %s", vkey(pv), in, fr.fn)})
	}
	if an.access(fr, st, in, o, p.path, false) && an.mutable(o, p.path) {
		return one(st, an.unknownOf(st, t, freshTerm("shared")))
	}
	if p.idx != nil {
		return an.loadElem(fr, st, in, p, t)
	}
	if v, ok := an.prefixProject(st, o, p.path, t); ok {
		return one(st, v)
	}
	return one(st, st.loadCells(o, p.path, t))
}

// prefixProject reads a component of a value stored as a unit (reflect.StructField, arrays).
func (an *Analysis) prefixProject(st *State, o *Obj, path string, t types.Type) (Val, bool) {
	if _, ok := o.cells[path]; ok || path == "" {
		return nil, false
	}
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] != '.' {
			continue
		}
		if v, ok := o.cells[path[:i]]; ok {
			if _, isStruct := v.(VStruct); isStruct {
				return nil, false
			}
			var f int
			rest := path[i+1:]
			if strings.ContainsAny(rest, ".[") {
				return nil, false
			}
			fmt.Sscanf(rest, "%d", &f)
			pt := an.pathType(o.typ, path[:i])
			return an.project(st, v, pt, f), true
		}
	}
	return nil, false
}

func (an *Analysis) pathType(t types.Type, path string) types.Type {
	for path != "" {
		end := strings.IndexAny(path[1:], ".[")
		seg := path
		if end >= 0 {
			seg = path[:end+1]
			path = path[end+1:]
		} else {
			path = ""
		}
		if seg[0] == '.' {
			var f int
			fmt.Sscanf(seg[1:], "%d", &f)
			st := structOf(t)
			if st == nil {
				return nil
			}
			t = st.Field(f).Type()
		} else if at, ok := t.Underlying().(*types.Array); ok {
			t = at.Elem()
		}
	}
	return t
}

// project reads field i of an opaque struct value.
func (an *Analysis) project(st *State, v Val, t types.Type, i int) Val {
	name := "?"
	var ft types.Type
	if t != nil {
		if s := structOf(t); s != nil {
			name = s.Field(i).Name()
			ft = s.Field(i).Type()
		}
	}
	if namedIs(t, "reflect", "StructField") {
		f := valTerm(v)
		switch name {
		case "Name":
			return VStr{t: T("fname", f), len: lsym(symForTerm(T("strlen", T("fname", f)), n1, maxLenN))}
		case "Type":
			return VType{t: an.ftype(f)}
		case "Anonymous":
			return VBool{csym(finForTerm(T("fanon", f), boolSet))}
		case "Tag":
			return VStr{t: T("ftag", f), len: lsym(symForTerm(T("strlen", T("ftag", f)), n0, maxLenN))}
		case "PkgPath":
			// only whether it is empty is told apart
			return VStr{t: T("fpkg", f), len: lconst(1).sub(lsym(expSym(f)))}
		}
	}
	if ft == nil {
		panic(undecided{"projection from opaque value"})
	}
	return an.unknownOf(st, ft, Tstr("fld", name, valTerm(v)))
}

// ftype is the type of a struct field term.
func (an *Analysis) ftype(f *Term) *Term { return T("ftype", f) }

func (s *State) unknown(t types.Type, o *Obj, path string) Val {
	var id *Term
	if o.tid != nil {
		id = Tstr("cell", path, o.tid)
	} else {
		id = Tstr("cell", fmt.Sprintf("%d%s", o.id, path))
	}
	if o.codecFor != nil {
		if codecSort(t) != 0 {
			return VCodec{typ: o.codecFor, enc: codecSort(t) == 2, role: "memo"}
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if st := structOf(p.Elem()); st != nil && !opaqueStruct(p.Elem()) {
				x := s.extObj(p.Elem(), id)
				m := s.mut(x.id)
				m.codecFor = o.codecFor
				return VPtr{obj: x.id}
			}
		}
	}
	v := theAnalysis.unknownOf(s, t, id)
	if o.pooled {
		if sl, ok := v.(VSlice); ok {
			s.mut(sl.obj).pooled = true
		}
		if m, ok := v.(VMap); ok {
			s.mut(m.obj).pooled = true
		}
	}
	return v
}

// unknownOf is a value of type t nothing is known about, identified by id.
func (an *Analysis) unknownOf(s *State, t types.Type, id *Term) Val {
	switch {
	case isReflectType(t):
		return VType{t: id}
	case isReflectValue(t):
		return VRV{typ: T("dyn", id), id: id}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{csym(finForTerm(id, boolSet))}
		case u.Info()&types.IsInteger != 0:
			lo, hi, w := intRange(t)
			if w == 8 && lo.sign() == 0 {
				return VInt{lsym(finForTerm(id, fullSet))}
			}
			return VInt{lsym(symForTerm(id, lo, hi))}
		case u.Info()&types.IsString != 0:
			return VStr{t: id, len: lsym(symForTerm(T("strlen", id), n0, maxLenN))}
		}
		return VOpaque{id}
	case *types.Slice:
		k := oColl
		if isByteSlice(t) {
			k = oBytes
		}
		o := s.extObj(u.Elem(), id)
		s.heap[o.id].kind = k
		l := lsym(symForTerm(T("len", id), n0, maxLenN))
		c := lsym(symForTerm(T("cap", id), n0, maxLenN))
		s.addLE(l.sub(c))
		return VSlice{obj: o.id, len: l, cap: c, nilness: 2, nilSym: nilSym(id)}
	case *types.Pointer:
		o := s.extObj(u.Elem(), id)
		return VPtr{obj: o.id}
	case *types.Map:
		o := s.extObj(t, id)
		s.heap[o.id].kind = oMap
		return VMap{o.id}
	case *types.Struct:
		if opaqueStruct(t) {
			return VOpaque{id}
		}
		v := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, an.unknownOf(s, u.Field(i).Type(), Tstr("fld", u.Field(i).Name(), id)))
		}
		return v
	case *types.Interface:
		return VDyn{t: id}
	}
	return VDyn{t: id}
}

// loadElem reads an element through a pointer with a symbolic index.
func (an *Analysis) loadElem(fr *Frame, st *State, in ssa.Instruction, p VPtr, t types.Type) []sv {
	o := st.heap[p.obj]
	idx := *p.idx
	if o.kind == oBytes {
		if o.input {
			return one(st, VInt{lsym(st.byteAt(o.id, idx))})
		}
		if k, ok := o.cells["$str"].(VStr); ok {
			if v, ok := st.constOf(idx); ok && v >= 0 && v < int64(len(k.s)) {
				return one(st, intv(int64(k.s[v])))
			}
		}
		return one(st, VInt{lsym(newFin("byte", fullSet))})
	}
	if v, ok := st.constOf(idx); ok {
		if c, ok := o.cells[fmt.Sprintf("%s[%d]", p.path, v)]; ok {
			return one(st, c)
		}
		if structOf(t) != nil {
			if _, ok := o.cells[fmt.Sprintf("%s[%d].0", p.path, v)]; ok {
				return one(st, st.loadCells(o, fmt.Sprintf("%s[%d]", p.path, v), t))
			}
		}
	}
	if o.kind == oColl {
		return an.loadAlts(fr, st, in, o, t, T("elem", Tstr("obj", fmt.Sprint(o.id)), linTerm(idx)))
	}
	// table with known cells
	type ent struct {
		i int
		v Val
	}
	var ents []ent
	lo, hi := st.tightBound(idx)
	if lo.sign() < 0 {
		lo = n0
	}
	y, isFin := idx.finSingle()
	for i := int64(0); i < 512; i++ {
		c, ok := o.cells[fmt.Sprintf("%s[%d]", p.path, i)]
		if !ok {
			break
		}
		if n(i).cmp(lo) < 0 || n(i).cmp(hi) > 0 {
			continue
		}
		if isFin {
			hit := false
			st.domOf(y).each(func(v int) {
				if idx.at(y, v) == n(i) {
					hit = true
				}
			})
			if !hit {
				continue
			}
		}
		ents = append(ents, ent{int(i), c})
	}
	if at, ok := an.pathType(o.typ, p.path).Underlying().(*types.Array); ok {
		for i := int64(0); i < at.Len() && i < 512; i++ {
			if _, ok := o.cells[fmt.Sprintf("%s[%d]", p.path, i)]; !ok {
				ents = nil
			}
		}
	}
	if len(ents) == 0 {
		panic(undecided{fmt.Sprintf("element of unknown table %s in %s", o.name, fr.fn)})
	}
	groups := map[string][]ent{}
	var order []string
	for _, e := range ents {
		k := vkey(e.v)
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], e)
	}
	if len(order) == 1 {
		return one(st, ents[0].v)
	}
	if isFin {
		mk := func(es []ent) Set {
			var set Set
			for v := 0; v < 256; v++ {
				for _, e := range es {
					if idx.at(y, v) == n(int64(e.i)) {
						set[v>>6] |= 1 << (v & 63)
					}
				}
			}
			return set
		}
		if b, ok := ents[0].v.(VBool); ok && len(order) == 2 && (b.c.op == cTrue || b.c.op == cFalse) {
			return one(st, VBool{cin(y, mk(groups["b"+cbool(true).key()]))})
		}
		if len(order) <= 40 {
			var res []sv
			for _, k := range order {
				c := st.clone()
				if c.assume(cin(y, mk(groups[k]))) {
					res = append(res, sv{c, groups[k][0].v})
				}
			}
			return res
		}
	}
	// integers: interval of the possible entries
	var mn, mx N
	for i, e := range ents {
		iv, ok := e.v.(VInt)
		if !ok || !iv.l.isConst() {
			panic(undecided{"element of table " + o.name})
		}
		if i == 0 || iv.l.k.cmp(mn) < 0 {
			mn = iv.l.k
		}
		if i == 0 || iv.l.k.cmp(mx) > 0 {
			mx = iv.l.k
		}
	}
	return one(st, VInt{lsym(newSym("table", mn, mx))})
}

func (an *Analysis) store(fr *Frame, st *State, in ssa.Instruction, pv, v Val, t types.Type) {
	p, ok := an.ptr(fr, st, in, pv, t)
	if !ok {
		st.dead = true
		return
	}
	o := st.heap[p.obj]
	if p.idx != nil || o.kind == oBytes || sharedLabel(o) != "" {
		an.writesPublished(fr, st, in, o, p.path, "a published codec is never written", "store to")
	}
	if p.idx != nil || o.kind == oBytes {
		if o.input {
			an.ob("C09", "the input is never written", fr, in, false, func() string { return "store into the bytes being decoded" })
		}
		if o.argMem {
			an.ob("C26", "memory of the encoded value is never written", fr, in, false, func() string { return "store into memory of the value being encoded (" + o.name + ")" })
		}
	}
	if p.idx != nil {
		if o.kind == oBytes {
			if o.cells["$str"] != nil {
				delete(st.mut(o.id).cells, "$str")
			}
			return
		}
		if c, ok := st.constOf(*p.idx); ok && o.kind == oCells {
			m := st.mut(o.id)
			st.storeCells(m, fmt.Sprintf("%s[%d]", p.path, c), t, v)
			return
		}
		if o.kind == oColl {
			an.addAlt(st, o.id, nil, v)
			return
		}
		if o.kind == oCells {
			// weak update of an array
			if _, ok := v.(VInt); ok {
				m := st.mut(o.id)
				for k := range m.cells {
					if strings.HasPrefix(k, p.path+"[") {
						delete(m.cells, k)
					}
				}
				return
			}
		}
		panic(undecided{"store to an unknown element in " + fr.fn.String()})
	}
	m := st.mut(o.id)
	an.onStore(fr, st, in, m, p.path, v, t)
	if m.view {
		panic(undecided{"store into an element of " + m.name})
	}
	for k := range m.cells {
		if len(k) > len(p.path) && strings.HasPrefix(k, p.path) && (k[len(p.path)] == '.' || k[len(p.path)] == '[') {
			delete(m.cells, k)
		}
	}
	// a store into a component of a unit value splits the unit
	if p.path != "" {
		for i := len(p.path) - 1; i >= 0; i-- {
			if p.path[i] == '.' {
				if _, ok := m.cells[p.path[:i]]; ok {
					delete(m.cells, p.path[:i])
				}
			}
		}
	}
	st.storeCells(m, p.path, t, v)
}

func (an *Analysis) convert(fr *Frame, fl *flow, x *ssa.Convert) []sv {
	st := fl.st
	v := an.val(fl, x.X)
	from, to := x.X.Type(), x.Type()
	switch {
	case isInt(from) && isInt(to):
		i, ok := v.(VInt)
		if !ok {
			break
		}
		return an.convInt(fr, st, x, i.l, to)
	case isInt(from) && isFloat(to):
		return one(st, VOpaque{Tstr("i2f", typeKey(to), valTerm(v))})
	case isFloat(from) && isFloat(to):
		b := to.Underlying().(*types.Basic)
		fb := from.Underlying().(*types.Basic)
		if b.Kind() == fb.Kind() || b.Kind() == types.Float64 {
			return one(st, v) // widening is exact
		}
		return one(st, VOpaque{T("f32", valTerm(v))})
	case isFloat(from) && isInt(to):
		lo, hi, _ := intRange(to)
		an.ob("C08", "numbers are not converted lossily", fr, x, !an.decoding, func() string { return "float converted to integer" })
		return one(st, VInt{lsym(symForTerm(Tstr("f2i", typeKey(to), valTerm(v)), lo, hi))})
	case isByteSlice(from) && isString(to):
		s, ok := v.(VSlice)
		if !ok {
			if _, isNil := v.(VNil); isNil {
				return one(st, constStr(""))
			}
			break
		}
		if s.em != nil {
			if r, ok := textOf(s.em.items); ok && st.entailsEQ(r.len.sub(s.len)) {
				return one(st, r)
			}
		}
		return one(st, VStr{obj: s.obj, off: s.off, len: s.len, t: emTerm(s)})
	case isString(from) && isByteSlice(to):
		if s, ok := v.(VStr); ok {
			o := st.newObj(oBytes, to, an.objName(fr, x))
			if s.konst {
				o.cells["$str"] = s
			}
			r := VSlice{obj: o.id, len: s.len, cap: s.len}
			r.em = (&Emit{}).add(an.textItems(st, s)...)
			return one(st, r)
		}
	case isInt(from) && isString(to):
		return one(st, VStr{t: T("runestr", valTerm(v)), len: lsym(newSym("strlen", n0, n(4)))})
	}
	if u, ok := to.Underlying().(*types.Basic); ok && u.Kind() == types.UnsafePointer {
		return one(st, v)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return one(st, v)
	}
	panic(undecided{fmt.Sprintf("conversion %s in %s", x, fr.fn)})
}

func emTerm(s VSlice) *Term {
	if s.em != nil {
		return Tstr("emtext", s.em.key())
	}
	return nil
}

func (an *Analysis) convInt(fr *Frame, st *State, in ssa.Instruction, l Lin, to types.Type) []sv {
	lo, hi, w := intRange(to)
	if st.inRange(l, lo, hi) {
		return one(st, VInt{l})
	}
	var res []sv
	b := st.clone()
	lossy := false
	for i, k := range []N{twoPow(w), twoPow(w).neg()} {
		a := st.clone()
		r := l.addN(k)
		if i == 0 {
			a.addLE(l.addK(1).addN(lo.neg()))
		} else {
			a.addLE(lnum(hi).addK(1).sub(l))
		}
		if a.dead {
			continue
		}
		lossy = true
		if a.addLE(r.addN(hi.neg())) && a.addLE(r.neg().addN(lo)) {
			a.markLossy(an.pos(in))
			res = append(res, sv{a, VInt{r}})
		} else {
			c := st.clone()
			if i == 0 {
				c.addLE(l.addK(1).addN(lo.neg()))
			} else {
				c.addLE(lnum(hi).addK(1).sub(l))
			}
			if !c.dead {
				c.markLossy(an.pos(in))
				res = append(res, sv{c, VInt{lsym(newSym("trunc", lo, hi))}})
			}
		}
	}
	_ = lossy
	if b.addLE(l.addN(hi.neg())) && b.addLE(l.neg().addN(lo)) {
		res = append([]sv{{b, VInt{l}}}, res...)
	}
	return res
}

// asSlice views a value as a slice; nil becomes an empty one.
func (an *Analysis) asSlice(st *State, v Val) (VSlice, bool) {
	switch x := v.(type) {
	case VSlice:
		return x, true
	case VNil:
		return VSlice{em: &Emit{}}, true
	}
	return VSlice{}, false
}

func (an *Analysis) slice(fr *Frame, fl *flow, x *ssa.Slice) []sv {
	st := fl.st
	base := an.val(fl, x.X)
	get := func(v ssa.Value, def Lin) Lin {
		if v == nil {
			return def
		}
		i, ok := an.val(fl, v).(VInt)
		if !ok {
			panic(undecided{"slice bound is not an integer"})
		}
		return i.l
	}
	if s, ok := base.(VStr); ok {
		lo := get(x.Low, lconst(0))
		hi := get(x.High, s.len)
		good := st.entailsLE(lo.neg()) && st.entailsLE(lo.sub(hi)) && st.entailsLE(hi.sub(s.len))
		an.ob(an.panicProp(), "slice bounds are in range", fr, x, good, func() string {
			return fmt.Sprintf("string[%s:%s] of length %s", lo, hi, s.len)
		})
		if !(st.addLE(lo.neg()) && st.addLE(lo.sub(hi)) && st.addLE(hi.sub(s.len))) {
			return nil
		}
		if s.konst {
			if a, ok := st.constOf(lo); ok {
				if b, ok := st.constOf(hi); ok {
					return one(st, constStr(s.s[a:b]))
				}
			}
		}
		if s.obj != 0 {
			return one(st, VStr{obj: s.obj, off: s.off.add(lo), len: hi.sub(lo), alias: s.alias})
		}
		return one(st, VStr{t: T("substr", strTerm(s), linTerm(lo), linTerm(hi)), len: hi.sub(lo)})
	}
	if p, ok := base.(VPtr); ok { // slice of an array
		at, ok := deref(x.X.Type()).Underlying().(*types.Array)
		if !ok {
			panic(undecided{"slice of pointer"})
		}
		lo, hi := get(x.Low, lconst(0)), get(x.High, lconst(at.Len()))
		good := st.entailsLE(lo.neg()) && st.entailsLE(lo.sub(hi)) && st.entailsLE(hi.addK(-at.Len()))
		an.ob(an.panicProp(), "slice bounds are in range", fr, x, good, func() string { return "array slice" })
		if p.path != "" {
			panic(undecided{"slice of an embedded array in " + fr.fn.String()})
		}
		return one(st, VSlice{obj: p.obj, off: lo, len: hi.sub(lo), cap: lconst(at.Len()).sub(lo)})
	}
	s, ok := an.asSlice(st, base)
	if !ok {
		panic(undecided{fmt.Sprintf("slice of %T", base)})
	}
	lo := get(x.Low, lconst(0))
	hi := get(x.High, s.len)
	mx := get(x.Max, s.cap)
	good := st.entailsLE(lo.neg()) && st.entailsLE(lo.sub(hi)) && st.entailsLE(hi.sub(mx)) && st.entailsLE(mx.sub(s.cap))
	an.ob(an.panicProp(), "slice bounds are in range", fr, x, good, func() string {
		if !st.entailsLE(lo.neg()) {
			return "low bound may be negative: " + st.explain(lo.neg())
		}
		if !st.entailsLE(lo.sub(hi)) {
			return "low bound may exceed high bound: " + st.explain(lo.sub(hi))
		}
		return "high bound may exceed capacity: " + st.explain(hi.sub(mx))
	})
	if !(st.addLE(lo.neg()) && st.addLE(lo.sub(hi)) && st.addLE(hi.sub(mx)) && st.addLE(mx.sub(s.cap))) {
		return nil
	}
	o := st.heap[s.obj]
	if o != nil && o.input && x.High != nil {
		// reslicing beyond the length of the input would expose foreign bytes
		an.ob("C01", "no bytes beyond the input are used", fr, x, st.entailsLE(hi.sub(s.len)), func() string {
			return "slice may extend past the length of the input: " + st.explain(hi.sub(s.len))
		})
	}
	r := s
	r.off = s.off.add(lo)
	r.len = hi.sub(lo)
	r.cap = mx.sub(lo)
	r.em = nil
	if o != nil && o.kind == oBytes && !o.input && !o.argMem {
		if lo.isConst() && lo.k.sign() == 0 {
			switch {
			case hi.isConst() && hi.k.sign() == 0:
				r.em = &Emit{}
			case s.em != nil && st.entailsEQ(hi.sub(s.len)):
				r.em = s.em
			}
		}
	}
	if s.obj == 0 && s.em != nil {
		r.em = s.em
	}
	return one(st, r)
}

func (an *Analysis) boundsOK(fr *Frame, st *State, in ssa.Instruction, i, l Lin, what string) bool {
	ok := st.entailsLE(i.neg()) && st.entailsLE(i.sub(l).addK(1))
	an.ob(an.panicProp(), "index is in range", fr, in, ok, func() string {
		if !st.entailsLE(i.neg()) {
			return what + ": index may be negative: " + st.explain(i.neg())
		}
		return what + ": index may be beyond the length: " + st.explain(i.sub(l).addK(1))
	})
	return st.addLE(i.neg()) && st.addLE(i.sub(l).addK(1))
}

func (an *Analysis) indexAddr(fr *Frame, fl *flow, x *ssa.IndexAddr) []sv {
	st := fl.st
	base := an.val(fl, x.X)
	iv, ok := an.val(fl, x.Index).(VInt)
	if !ok {
		panic(undecided{"index is not an integer"})
	}
	if p, ok := base.(VPtr); ok {
		at, ok := deref(x.X.Type()).Underlying().(*types.Array)
		if !ok {
			panic(undecided{"index of pointer"})
		}
		if !an.boundsOK(fr, st, x, iv.l, lconst(at.Len()), "array") {
			return nil
		}
		if c, ok := st.constOf(iv.l); ok {
			p.path += fmt.Sprintf("[%d]", c)
			return one(st, p)
		}
		l := iv.l
		p.idx = &l
		return one(st, p)
	}
	s, ok := an.asSlice(st, base)
	if !ok {
		panic(undecided{fmt.Sprintf("index of %T in %s", base, fr.fn)})
	}
	if !an.boundsOK(fr, st, x, iv.l, s.len, "slice") {
		return nil
	}
	l := s.off.add(iv.l)
	o := st.heap[s.obj]
	if c, ok := st.constOf(l); ok && o.kind == oCells {
		return one(st, VPtr{obj: s.obj, path: fmt.Sprintf("[%d]", c)})
	}
	if o.kind == oColl && structOf(deref(x.Type())) != nil && !opaqueStruct(deref(x.Type())) && !wholeElem(x) {
		return an.elemViews(fr, st, x, o, deref(x.Type()), l)
	}
	return one(st, VPtr{obj: s.obj, idx: &l})
}

// elemView is a copy of an element that was made earlier; the collection is unchanged since.
type elemView struct {
	coll *Obj
	idx  *Term
	view ObjID
}

// wholeElem: the element is only read or written as a whole.
func wholeElem(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
		case *ssa.Store:
			if u.Addr != ssa.Value(x) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// elemViews reads an element whose parts are used through a pointer: one view for each shape
// the element may have. Views are read only.
func (an *Analysis) elemViews(fr *Frame, st *State, x *ssa.IndexAddr, o *Obj, t types.Type, l Lin) []sv {
	k := linTerm(l)
	for _, w := range st.views {
		if w.coll == o && w.idx == k && st.heap[w.view] != nil {
			return one(st, VPtr{obj: w.view})
		}
	}
	var res []sv
	for _, r := range an.loadAlts(fr, st, x, o, t, T("elem", Tstr("obj", fmt.Sprint(o.id)), linTerm(l))) {
		if r.st == st {
			r.st = st.clone()
		}
		v := r.st.newObj(oCells, t, "element of "+o.name)
		v.view, v.fresh, v.published, v.shared = true, false, o.published, o.shared
		v.wm, v.wmObj = o.wm, o.wmObj
		r.st.storeCells(v, "", t, r.val)
		r.st.views = append(r.st.views, elemView{o, k, v.id})
		res = append(res, sv{r.st, VPtr{obj: v.id}})
	}
	return res
}

func (an *Analysis) index(fr *Frame, fl *flow, x *ssa.Index) []sv {
	st := fl.st
	base := an.val(fl, x.X)
	iv, ok := an.val(fl, x.Index).(VInt)
	if !ok {
		panic(undecided{"index is not an integer"})
	}
	switch b := base.(type) {
	case VStr:
		if !an.boundsOK(fr, st, x, iv.l, b.len, "string") {
			return nil
		}
		if b.konst {
			if c, ok := st.constOf(iv.l); ok {
				return one(st, intv(int64(b.s[c])))
			}
			return one(st, VInt{lsym(newFin("char", setBytes(b.s)))})
		}
		if b.obj != 0 && st.heap[b.obj].input {
			return one(st, VInt{lsym(st.byteAt(b.obj, b.off.add(iv.l)))})
		}
		return one(st, VInt{lsym(finForTerm(T("char", strTerm(b), linTerm(iv.l)), fullSet))})
	case VArr:
		if !an.boundsOK(fr, st, x, iv.l, lconst(b.typ.Len()), "array") {
			return nil
		}
		l := iv.l
		p := b.p
		p.idx = &l
		return an.loadElem(fr, st, x, p, b.typ.Elem())
	}
	panic(undecided{fmt.Sprintf("index of %T", base)})
}

func (an *Analysis) typeAssert(fr *Frame, fl *flow, x *ssa.TypeAssert) []sv {
	st := fl.st
	v := an.val(fl, x.X)
	res := func(s *State, val Val, ok bool) sv {
		if x.CommaOk {
			if !ok {
				val = s.zeroVal(x.AssertedType)
			}
			return sv{s, VTuple{[]Val{val, VBool{cbool(ok)}}}}
		}
		return sv{s, val}
	}
	iface, toIface := x.AssertedType.Underlying().(*types.Interface)
	fail := func(s *State, why string) []sv {
		if x.CommaOk {
			return []sv{res(s, nil, false)}
		}
		an.ob(an.typeProp(), "type assertion cannot fail", fr, x, false, func() string { return why })
		return nil
	}
	switch d := v.(type) {
	case VNil:
		return fail(st, "assertion on a nil interface")
	case VIface:
		if toIface {
			if types.Implements(d.typ, iface) {
				return []sv{res(st, v, true)}
			}
			return fail(st, fmt.Sprintf("%s does not implement %s", d.typ, x.AssertedType))
		}
		if types.Identical(d.typ, x.AssertedType) {
			return []sv{res(st, d.v, true)}
		}
		return fail(st, fmt.Sprintf("%s is not %s", d.typ, x.AssertedType))
	case VCodec:
		if !d.enc && !toIface {
			return an.expandCodec(fr, st, x, d, res)
		}
		if toIface == !d.enc && codecSort(x.AssertedType) != 0 {
			return []sv{res(st, d, true)}
		}
	case VDyn:
		an.onDynAssert(fr, st, x, d)
		// an interface value of unknown type
		if t, ok := dynValueType(d.t); ok && toIface {
			im := an.implements(st, t, x.AssertedType)
			y := st.clone()
			var out []sv
			if y.assume(im) && (x.CommaOk || true) {
				// the interface holding the value must itself not be nil
				r := VDyn{t: d.t, nonnl: true}
				out = append(out, res(y, r, true))
			}
			if !x.CommaOk {
				an.ob(an.typeProp(), "type assertion cannot fail", fr, x, st.decide(im) == 1, func() string {
					return fmt.Sprintf("type %s is not known to implement %s", t, x.AssertedType)
				})
				return out
			}
			if st.assume(im.neg()) {
				out = append(out, res(st, nil, false))
			}
			return out
		}
		y := finForTerm(Tstr("isa", typeKey(x.AssertedType), d.t), boolSet)
		a := st.clone()
		var out []sv
		if a.assume(csym(y)) {
			var val Val
			if toIface {
				val = VDyn{t: d.t, nonnl: true, err: d.err}
			} else {
				val = an.unknownOf(a, x.AssertedType, Tstr("as", typeKey(x.AssertedType), d.t))
			}
			out = append(out, res(a, val, true))
		}
		if x.CommaOk {
			if st.assume(csym(y).neg()) {
				out = append(out, res(st, nil, false))
			}
		} else if d.t.op != "pool" {
			an.ob(an.typeProp(), "type assertion cannot fail", fr, x, false, func() string { return "unchecked assertion on a value of unknown type" })
		}
		return out
	}
	panic(undecided{fmt.Sprintf("type assertion on %T (%s) in %s", v, vkey(v), fr.fn)})
}

// next models range over maps and strings.
func (an *Analysis) next(fr *Frame, fl *flow, x *ssa.Next) []sv {
	st := fl.st
	it := an.val(fl, x.Iter)
	tup := x.Type().(*types.Tuple)
	end := func(s *State) sv {
		return sv{s, VTuple{[]Val{VBool{cbool(false)}, s.zeroOr(tup.At(1).Type()), s.zeroOr(tup.At(2).Type())}}}
	}
	if x.IsString {
		a := st.clone()
		if s, ok := it.(VStr); ok {
			y := newSym("rune", n0, n(0x10ffff))
			i := newSym("ri", n0, maxLenN)
			a.addLE(lsym(i).addK(1).sub(s.len))
			return []sv{{a, VTuple{[]Val{VBool{cbool(true)}, VInt{lsym(i)}, VInt{lsym(y)}}}}, end(st)}
		}
	}
	m, ok := it.(VMap)
	if !ok {
		if _, isNil := it.(VNil); isNil {
			return []sv{end(st)}
		}
		panic(undecided{"range over unknown map"})
	}
	var out []sv
	for _, r := range an.mapAny(fr, st.clone(), x, m, tup.At(1).Type(), tup.At(2).Type()) {
		t := r.val.(VTuple)
		out = append(out, sv{r.st, VTuple{[]Val{VBool{cbool(true)}, t.v[0], t.v[1]}}})
	}
	return append(out, end(st))
}

func (s *State) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return s.zeroVal(t)
}

func (s *State) markLossy(pos string) {
	if s.lossy == "" {
		s.lossy = pos
	}
}
