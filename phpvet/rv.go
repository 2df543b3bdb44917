package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

var (
	kInts    = kset(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	kUints   = kset(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	kFloats  = kset(reflect.Float32, reflect.Float64)
	kNilable = kset(reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer)
	kLen     = kset(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String)
)

// vid is the identity of a reflect value in its current version.
func (s *State) vid(id *Term) *Term {
	if n := s.ver[id.key]; n > 0 {
		return Tstr("v", fmt.Sprint(n), id)
	}
	return id
}

func (s *State) bump(id *Term) { s.ver[id.key] = s.ver[id.key] + 1 }

func (s *State) rvNil(id *Term) Sym { return finForTerm(T("isnil", s.vid(id)), boolSet) }

func (s *State) rvLen(rv VRV) Lin {
	t := s.rt(rv.typ)
	if s.kindIn(t, kset(reflect.Array)) {
		if t.op == "ty" {
			if at, ok := t.typ.Underlying().(*types.Array); ok {
				return lconst(at.Len())
			}
		}
		return lsym(symForTerm(T("alen", t), n0, n(1<<40)))
	}
	return lsym(symForTerm(T("rlen", s.vid(rv.id)), n0, maxLenN))
}

func (s *State) effect(e Effect) { s.effects = append(s.effects, e) }

// asRV views a value as a reflect value; the zero Value is refused.
func (an *Analysis) asRV(fr *Frame, st *State, in ssa.Instruction, v Val, what string) (VRV, bool) {
	rv, ok := v.(VRV)
	if !ok {
		panic(undecided{fmt.Sprintf("reflect value operand %T of %s in %s", v, what, fr.fn)})
	}
	if rv.inv {
		an.ob(an.typeProp(), "reflect value is valid for "+what, fr, in, false, func() string { return what + " on the zero reflect.Value" })
		return rv, false
	}
	if rv.nilOf != nil {
		y := s_nilOf(st, rv)
		ok := st.domOf(y) == setOf(0)
		an.ob(an.typeProp(), "reflect value is valid for "+what, fr, in, ok, func() string { return what + " on the value behind a pointer or interface that may be nil" })
		if !st.assume(csym(y).neg()) {
			return rv, false
		}
		rv.nilOf = nil
	}
	return rv, true
}

func s_nilOf(st *State, rv VRV) Sym { return finForTerm(rv.nilOf, boolSet) }

// needKind checks that a reflect method is legal for the kind of the value.
func (an *Analysis) needKind(fr *Frame, st *State, in ssa.Instruction, what string, rv VRV, ks Set) bool {
	have := st.kinds(rv.typ)
	ok := have.subset(ks)
	an.ob(an.typeProp(), what+" is legal for the kind", fr, in, ok, func() string {
		return fmt.Sprintf("%s on a value of type %s which can be of kind %s", what, rv.typ, kindNames(have.and(ks.not())))
	})
	l := st.kind(rv.typ)
	if y, isSym := l.single(); isSym {
		return st.assume(cin(y, ks))
	}
	return !have.and(ks).empty()
}

func (an *Analysis) needSet(fr *Frame, st *State, in ssa.Instruction, what string, rv VRV) {
	an.ob(an.typeProp(), "value is settable", fr, in, addressable(st, rv), func() string {
		return fmt.Sprintf("%s on a value that is not settable (%s)", what, rv.id)
	})
	an.onSet(fr, st, in, rv)
}

// addrSym says whether a value can be addressed.
func addrSym(st *State, rv VRV) Sym {
	id := st.vid(rv.id)
	for id.op == "field" {
		id = id.args[0]
	}
	return finForTerm(T("canaddr", id), boolSet)
}

func addressable(st *State, rv VRV) bool {
	return rv.set || st.domOf(addrSym(st, rv)) == setOf(1)
}

// needAddr: an array can only be used as a slice where it is addressable.
func (an *Analysis) needAddr(fr *Frame, st *State, in ssa.Instruction, what string, rv VRV) bool {
	arr := kset(reflect.Array)
	ks := st.kinds(rv.typ)
	if ks.and(arr).empty() || addressable(st, rv) {
		return true
	}
	an.ob(an.typeProp(), "value is addressable", fr, in, false, func() string { return what + " of an array that is not addressable" })
	y, isSym := st.kind(rv.typ).single()
	return isSym && st.assume(cin(y, ks.and(arr.not())))
}

// assignable: a value of type b can be stored in a location of type a.
func (an *Analysis) assignable(st *State, a, b *Term) bool {
	a, b = st.rt(a), st.rt(b)
	if a == b || st.decide(an.typeEq(st, a, b)) == 1 {
		return true
	}
	if a.op == "ty" && b.op == "ty" {
		return types.AssignableTo(b.typ, a.typ)
	}
	// the element-wise identical unnamed type
	if b.op == "ptrto" && st.kindIn(a, kset(reflect.Pointer)) && st.rt(b.args[0]) == st.rt(elemOf(a)) {
		return true
	}
	if b.op == "sliceof" && st.kindIn(a, kset(reflect.Slice)) && st.rt(b.args[0]) == st.rt(elemOf(a)) {
		return true
	}
	// any value can be stored in an empty interface
	if st.kindIn(a, kset(reflect.Interface)) {
		if v, ok := st.numMethod(a); ok && v == 0 {
			return true
		}
		if st.entailsEQ(st.numMethodLin(a)) {
			return true
		}
	}
	return false
}

func (s *State) numMethodLin(t *Term) Lin {
	t = s.rt(t)
	if t.op == "ty" {
		if it, ok := t.typ.Underlying().(*types.Interface); ok {
			return lconst(int64(it.NumMethods()))
		}
	}
	return lsym(symForTerm(T("nmeth", t), n0, n(1<<20)))
}
func (s *State) numMethod(t *Term) (int64, bool) { return s.constOf(s.numMethodLin(t)) }

// setValue records that the contents of rv change.
func (an *Analysis) setValue(st *State, rv VRV, kind string, arg Val, pos string) {
	an.sharedWrite(st, rv, kind, pos)
	st.effect(Effect{kind: kind, rv: rv.id, arg: arg, pos: pos})
	st.bump(rv.id)
	if rv.cell != nil {
		o := st.heap[rv.cell.obj]
		if o != nil {
			m := st.mut(o.id)
			t := an.pathType(o.typ, rv.cell.path)
			for k := range m.cells {
				if k == rv.cell.path || len(k) > len(rv.cell.path) && k[:len(rv.cell.path)] == rv.cell.path {
					delete(m.cells, k)
				}
			}
			if t == nil {
				t = o.typ
			}
			var v Val
			if x, ok := arg.(VInt); ok && kind == "SetInt" || ok && kind == "SetUint" {
				v = x
			} else {
				v = an.unknownOf(st, t, freshTerm("decoded"))
			}
			st.storeCells(m, rv.cell.path, t, v)
		}
	}
}

// callRV interprets a method of reflect.Value.
func (an *Analysis) callRV(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) []sv {
	name := fn.Name()
	rv0, isRV := args[0].(VRV)
	if !isRV {
		panic(undecided{fmt.Sprintf("reflect.Value.%s on %T in %s", name, args[0], fr.fn)})
	}
	what := "reflect.Value." + name
	switch name {
	case "IsValid":
		if rv0.inv {
			return one(st, VBool{cbool(false)})
		}
		if rv0.nilOf != nil {
			return one(st, VBool{csym(s_nilOf(st, rv0)).neg()})
		}
		return one(st, VBool{cbool(true)})
	case "Kind":
		if rv0.inv {
			return one(st, intv(0))
		}
		if rv0.nilOf != nil {
			y := s_nilOf(st, rv0)
			a := st.clone()
			var res []sv
			if a.assume(csym(y)) {
				res = append(res, sv{a, intv(0)})
			}
			if st.assume(csym(y).neg()) {
				res = append(res, sv{st, VInt{st.kind(rv0.typ)}})
			}
			return res
		}
		return one(st, VInt{st.kind(rv0.typ)})
	case "String":
		if rv0.inv {
			return one(st, constStr("<invalid Value>"))
		}
	}
	rv, ok := an.asRV(fr, st, in, rv0, what)
	if !ok {
		return nil
	}
	an.onRead(fr, st, in, name, rv)
	arg := func(i int) VRV {
		x, ok := an.asRV(fr, st, in, args[i], what+" argument")
		if !ok {
			st.dead = true
		}
		return x
	}
	need := func(ks Set) bool { return an.needKind(fr, st, in, what, rv, ks) }
	boolTerm := func(op string) []sv {
		return one(st, VBool{csym(finForTerm(T(op, st.vid(rv.id)), boolSet))})
	}
	unit := func() []sv { return one(st, VNil{}) }
	switch name {
	case "Type":
		return one(st, VType{t: rv.typ})
	case "CanInterface", "Comparable":
		return one(st, VBool{cbool(true)})
	case "CanSet", "CanAddr":
		if rv.set {
			return one(st, VBool{cbool(true)})
		}
		return one(st, VBool{csym(addrSym(st, rv))})
	case "CanInt":
		return one(st, VBool{an.kindCond(st, rv.typ, kInts)})
	case "CanUint":
		return one(st, VBool{an.kindCond(st, rv.typ, kUints)})
	case "CanFloat":
		return one(st, VBool{an.kindCond(st, rv.typ, kFloats)})
	case "NumMethod":
		return one(st, VInt{st.numMethodLin(rv.typ)})
	case "IsNil":
		if !need(kNilable) {
			return nil
		}
		return one(st, VBool{csym(st.rvNil(rv.id))})
	case "IsZero":
		if ks := st.kinds(rv.typ); !ks.empty() && ks.subset(kNilable) {
			return one(st, VBool{csym(st.rvNil(rv.id))})
		}
		return boolTerm("iszero")
	case "Bool":
		if !need(kset(reflect.Bool)) {
			return nil
		}
		return boolTerm("boolof")
	case "Int":
		if !need(kInts) {
			return nil
		}
		return one(st, VInt{lsym(symForTerm(T("intof", st.vid(rv.id)), minI64, maxI64))})
	case "Uint":
		if !need(kUints) {
			return nil
		}
		return one(st, VInt{lsym(symForTerm(T("uintof", st.vid(rv.id)), n0, maxU64))})
	case "Float":
		if !need(kFloats) {
			return nil
		}
		return one(st, VOpaque{T("floatof", st.vid(rv.id))})
	case "String":
		if !need(kset(reflect.String)) {
			return nil
		}
		t := T("strof", st.vid(rv.id))
		return one(st, VStr{t: t, len: lsym(symForTerm(T("strlen", t), n0, maxLenN))})
	case "Bytes":
		if !need(kset(reflect.Slice, reflect.Array)) {
			return nil
		}
		if !an.needAddr(fr, st, in, "Bytes", rv) {
			return nil
		}
		e := elemOf(rv.typ)
		an.ob(an.typeProp(), what+" is legal for the kind", fr, in, st.kindIn(st.rt(e), kset(reflect.Uint8)), func() string { return "Bytes of a slice whose elements are not bytes" })
		t := T("bytesof", st.vid(rv.id))
		o := st.extObj(types.Typ[types.Uint8], t)
		st.heap[o.id].kind = oBytes
		st.heap[o.id].argMem = true
		l := st.rvLen(rv)
		c := symForTerm(T("cap", t), n0, maxLenN)
		st.addLE(l.sub(lsym(c)))
		return one(st, VSlice{obj: o.id, len: l, cap: lsym(c), nilness: 2, nilSym: st.rvNil(rv.id)})
	case "Len":
		if !need(kLen) {
			return nil
		}
		if st.kindIn(rv.typ, kset(reflect.String)) {
			return one(st, VInt{lsym(symForTerm(T("strlen", T("strof", st.vid(rv.id))), n0, maxLenN))})
		}
		return one(st, VInt{st.rvLen(rv)})
	case "Cap":
		return one(st, VInt{lsym(newSym("cap", n0, maxLenN))})
	case "Elem":
		if !need(kset(reflect.Pointer, reflect.Interface)) {
			return nil
		}
		ptr := kset(reflect.Pointer)
		mk := func(s *State, isPtr bool) sv {
			v := s.vid(rv.id)
			if isPtr {
				return sv{s, an.ptrElem(s, rv)}
			}
			// what an interface holds has the methods of the interface
			for _, enc := range []bool{true, false} {
				if it := an.customIface(enc); it != nil && s.decide(an.implements(s, rv.typ, it)) == 1 {
					s.assume(an.implements(s, T("dyn", v), it))
				}
			}
			return sv{s, VRV{typ: T("dyn", v), id: T("content", v), nilOf: T("isnil", v)}}
		}
		ks := st.kinds(rv.typ)
		if ks.subset(ptr) {
			return []sv{mk(st, true)}
		}
		if ks.and(ptr).empty() {
			return []sv{mk(st, false)}
		}
		y, _ := st.kind(rv.typ).single()
		a := st.clone()
		var res []sv
		if a.assume(cin(y, ptr)) {
			res = append(res, mk(a, true))
		}
		if st.assume(cin(y, kset(reflect.Interface))) {
			res = append(res, mk(st, false))
		}
		return res
	case "Addr":
		an.ob(an.typeProp(), "value is addressable", fr, in, addressable(st, rv), func() string { return "Addr of a value that is not addressable" })
		id := T("addr", rv.id)
		st.assume(csym(st.rvNil(id)).neg())
		return one(st, VRV{typ: ptrTo(rv.typ), id: id, cell: nil})
	case "Field":
		if !need(kset(reflect.Struct)) {
			return nil
		}
		i, ok := args[1].(VInt)
		if !ok {
			break
		}
		nf := an.numField(st, rv.typ)
		if !an.boundsOK(fr, st, in, i.l, nf, "reflect Field") {
			return nil
		}
		f := an.fieldTerm(st, rv.typ, i.l)
		exp := st.domOf(expSym(f)) == setOf(1)
		an.ob("C22", "only exported fields are accessed", fr, in, exp, func() string { return "field may be unexported" })
		st.assume(csym(expSym(f)))
		return one(st, VRV{typ: an.ftype(f), id: T("field", st.vid(rv.id), linTerm(i.l)), set: rv.set})
	case "NumField":
		if !need(kset(reflect.Struct)) {
			return nil
		}
		return one(st, VInt{an.numField(st, rv.typ)})
	case "Index":
		if !need(kset(reflect.Array, reflect.Slice, reflect.String)) {
			return nil
		}
		i, ok := args[1].(VInt)
		if !ok {
			break
		}
		if !an.boundsOK(fr, st, in, i.l, st.rvLen(rv), "reflect Index") {
			return nil
		}
		set := rv.set
		if st.kinds(rv.typ).and(kset(reflect.Array)).empty() {
			set = true
		}
		return one(st, VRV{typ: elemOf(st.rt(rv.typ)), id: T("idx", st.vid(rv.id), linTerm(i.l)), set: set})
	case "Slice", "Slice3":
		if !need(kset(reflect.Slice, reflect.Array, reflect.String)) {
			return nil
		}
		if !an.needAddr(fr, st, in, name, rv) {
			return nil
		}
		typ := rv.typ
		if st.kindIn(typ, kset(reflect.Array)) {
			typ = sliceOf(elemOf(st.rt(typ)))
		}
		r := VRV{typ: typ, id: T("reslice", st.vid(rv.id), valTerm(args[1]), valTerm(args[2]))}
		lo, ok1 := args[1].(VInt)
		hi, ok2 := args[2].(VInt)
		if ok1 && ok2 {
			st.addEQ(st.rvLen(r).sub(hi.l).add(lo.l))
		}
		return one(st, r)
	case "Interface":
		ifk := kset(reflect.Interface)
		ks := st.kinds(rv.typ)
		v := st.vid(rv.id)
		mk := func(s *State, isIface bool) sv {
			if isIface {
				return sv{s, VDyn{t: T("content", v)}}
			}
			return sv{s, VDyn{t: T("iface", s.rt(rv.typ), v), nonnl: true}}
		}
		if ks.and(ifk).empty() {
			return []sv{mk(st, false)}
		}
		if ks.subset(ifk) {
			return []sv{mk(st, true)}
		}
		y, _ := st.kind(rv.typ).single()
		a := st.clone()
		var res []sv
		if a.assume(cin(y, ifk)) {
			res = append(res, mk(a, true))
		}
		if st.assume(cin(y, ifk.not())) {
			res = append(res, mk(st, false))
		}
		return res
	case "OverflowInt", "OverflowUint", "OverflowFloat":
		ks := kInts
		if name == "OverflowUint" {
			ks = kUints
		} else if name == "OverflowFloat" {
			ks = kFloats
		}
		if !need(ks) {
			return nil
		}
		return one(st, VBool{csym(ovfSym(st, rv.typ, args[1]))})
	case "Set":
		x := arg(1)
		an.needSet(fr, st, in, what, rv)
		ok := an.assignable(st, rv.typ, x.typ)
		an.ob(an.typeProp(), "assigned value has an assignable type", fr, in, ok, func() string {
			return fmt.Sprintf("value of type %s stored in a location of type %s", st.rt(x.typ), st.rt(rv.typ))
		})
		if isZeroValue(x) {
			an.setValue(st, rv, "SetZero", nil, an.pos(in))
		} else {
			an.setValue(st, rv, "Set", x, an.pos(in))
		}
		if st.kinds(x.typ).subset(kNilable) && st.domOf(st.rvNil(x.id)) == setOf(0) {
			st.assume(csym(st.rvNil(rv.id)).neg())
		}
		if st.kinds(rv.typ).subset(kset(reflect.Interface)) && st.kinds(x.typ).and(kset(reflect.Interface)).empty() {
			st.assume(csym(st.rvNil(rv.id)).neg())
		}
		if st.kinds(rv.typ).and(kset(reflect.Slice)) != (Set{}) {
			st.addEQ(st.rvLen(rv).sub(st.rvLen(x)))
		}
		return unit()
	case "SetZero":
		an.needSet(fr, st, in, what, rv)
		an.setValue(st, rv, "SetZero", nil, an.pos(in))
		if st.kinds(rv.typ).subset(kNilable) {
			st.assume(csym(st.rvNil(rv.id)))
		}
		return unit()
	case "Clear":
		if !need(kset(reflect.Map, reflect.Slice)) {
			return nil
		}
		an.setValue(st, rv, name, nil, an.pos(in))
		return unit()
	case "SetBool":
		if !need(kset(reflect.Bool)) {
			return nil
		}
		an.needSet(fr, st, in, what, rv)
		an.setValue(st, rv, name, args[1], an.pos(in))
		return unit()
	case "SetInt", "SetUint":
		ks := kInts
		if name == "SetUint" {
			ks = kUints
		}
		if !need(ks) {
			return nil
		}
		an.needSet(fr, st, in, what, rv)
		x, ok := args[1].(VInt)
		if !ok {
			break
		}
		good := st.domOf(ovfSym(st, rv.typ, x)) == setOf(0)
		if !good {
			good = true
			st.kinds(rv.typ).each(func(k int) {
				lo, hi := kindRange(reflect.Kind(k))
				c := st.clone()
				if y, ok := st.kind(rv.typ).single(); ok {
					if !c.assume(cin(y, setOf(k))) {
						return
					}
				}
				if !c.inRange(x.l, lo, hi) {
					good = false
				}
			})
		}
		an.ob("C08", "stored number fits the destination", fr, in, good, func() string {
			return fmt.Sprintf("%s may truncate: value %s, destination type %s", name, x.l, rv.typ)
		})
		an.setValue(st, rv, name, args[1], an.pos(in))
		return unit()
	case "SetFloat":
		if !need(kFloats) {
			return nil
		}
		an.needSet(fr, st, in, what, rv)
		good := st.domOf(ovfSym(st, rv.typ, args[1])) == setOf(0) || st.kindIn(rv.typ, kset(reflect.Float64))
		an.ob("C08", "stored number fits the destination", fr, in, good, func() string { return "SetFloat without an overflow check" })
		an.setValue(st, rv, name, args[1], an.pos(in))
		return unit()
	case "SetString":
		if !need(kset(reflect.String)) {
			return nil
		}
		an.needSet(fr, st, in, what, rv)
		an.onStoreText(fr, st, in, args[1])
		an.setValue(st, rv, name, args[1], an.pos(in))
		return unit()
	case "SetBytes":
		if !need(kset(reflect.Slice)) {
			return nil
		}
		e := st.rt(elemOf(st.rt(rv.typ)))
		an.ob(an.typeProp(), what+" is legal for the kind", fr, in, st.kindIn(e, kset(reflect.Uint8)), func() string { return "SetBytes on a slice whose elements may not be bytes" })
		an.needSet(fr, st, in, what, rv)
		an.onGiveBytes(fr, st, in, args[1], "decoded byte slice")
		an.setValue(st, rv, name, args[1], an.pos(in))
		return unit()
	case "SetMapIndex":
		if !need(kset(reflect.Map)) {
			return nil
		}
		k := arg(1)
		if st.dead {
			return nil
		}
		an.ob(an.typeProp(), "map is not nil when an entry is set", fr, in, st.domOf(st.rvNil(rv.id)) == setOf(0), func() string { return "SetMapIndex on a map that may be nil" })
		mt := st.rt(rv.typ)
		an.ob(an.typeProp(), "assigned value has an assignable type", fr, in, an.assignable(st, keyOf(mt), k.typ), func() string {
			return fmt.Sprintf("map key of type %s for a map with keys %s", st.rt(k.typ), st.rt(keyOf(mt)))
		})
		v := arg(2)
		if st.dead {
			return nil
		}
		an.ob(an.typeProp(), "assigned value has an assignable type", fr, in, an.assignable(st, elemOf(mt), v.typ), func() string {
			return fmt.Sprintf("map value of type %s for a map of %s", st.rt(v.typ), st.rt(elemOf(mt)))
		})
		an.hashable(fr, st, in, k)
		st.effect(Effect{kind: "SetMapIndex", rv: rv.id, arg: VTuple{[]Val{k, v}}, pos: an.pos(in)})
		return unit()
	case "MapRange":
		if !need(kset(reflect.Map)) {
			return nil
		}
		return one(st, an.mapRange(st, in, rv))
	case "MapIndex":
		if !need(kset(reflect.Map)) {
			return nil
		}
		mt := st.rt(rv.typ)
		id := T("mapval", st.vid(rv.id), valTerm(args[1]))
		if k, ok := args[1].(VRV); ok && k.id == T("mapkeyof", st.vid(rv.id)) && st.kinds(k.typ).and(kset(reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128, reflect.Interface, reflect.Struct, reflect.Array)).empty() {
			return one(st, VRV{typ: elemOf(mt), id: id}) // only a key with a NaN in it is not found
		}
		return one(st, VRV{typ: elemOf(mt), id: id, nilOf: T("absent", id)})
	case "MapKeys":
		if !need(kset(reflect.Map)) {
			return nil
		}
		return an.mapKeys(fr, st, in, rv)
	case "SetIterKey", "SetIterValue":
		an.needSet(fr, st, in, what, rv)
		x := an.iterValue(fr, st, in, args[1], name == "SetIterKey")
		ok := an.assignable(st, rv.typ, x.typ)
		an.ob(an.typeProp(), "assigned value has an assignable type", fr, in, ok, func() string {
			return fmt.Sprintf("value of type %s stored in a location of type %s", st.rt(x.typ), st.rt(rv.typ))
		})
		an.setValue(st, rv, "Set", x, an.pos(in))
		return unit()
	case "UnsafePointer", "Pointer", "UnsafeAddr":
		if !need(kset(reflect.Pointer, reflect.Chan, reflect.Func, reflect.Map, reflect.Slice, reflect.UnsafePointer, reflect.String)) {
			return nil
		}
		t := T("addrof", st.vid(rv.id))
		if name == "UnsafePointer" {
			return one(st, VDyn{t: t})
		}
		return one(st, VInt{lsym(symForTerm(t, n0, maxU64))})
	case "Grow", "SetLen", "SetCap", "Method", "Call":
	}
	panic(undecided{fmt.Sprintf("reflect.Value.%s in %s", name, fr.fn)})
}

func ovfSym(st *State, typ *Term, v Val) Sym {
	return finForTerm(T("ovf", st.rt(typ), valTerm(v)), boolSet)
}

func kindRange(k reflect.Kind) (N, N) {
	switch k {
	case reflect.Int8:
		return n(-128), n(127)
	case reflect.Int16:
		return n(-1 << 15), n(1<<15 - 1)
	case reflect.Int32:
		return n(-1 << 31), n(1<<31 - 1)
	case reflect.Int, reflect.Int64:
		return minI64, maxI64
	case reflect.Uint8:
		return n0, n(255)
	case reflect.Uint16:
		return n0, n(1<<16 - 1)
	case reflect.Uint32:
		return n0, n(1<<32 - 1)
	}
	return n0, maxU64
}

func (an *Analysis) kindCond(st *State, t *Term, ks Set) Cond {
	l := st.kind(t)
	if v, ok := l.constVal(); ok {
		return cbool(ks.has(int(v)))
	}
	y, _ := l.single()
	return cin(y, ks)
}

// ptrElem is the value a pointer points to.
func (an *Analysis) ptrElem(st *State, rv VRV) VRV {
	if rv.cell != nil {
		return VRV{typ: elemOf(st.rt(rv.typ)), id: Tstr("var", rv.cell.key()), set: true, cell: rv.cell}
	}
	v := st.vid(rv.id)
	id := T("deref", v)
	if rv.id.op == "addr" {
		id = rv.id.args[0]
	}
	r := VRV{typ: elemOf(st.rt(rv.typ)), id: id, set: true}
	if y := st.rvNil(rv.id); st.domOf(y) != setOf(0) {
		r.nilOf = T("isnil", v)
	}
	return r
}

func (an *Analysis) numField(st *State, t *Term) Lin {
	t = st.rt(t)
	if t.op == "ty" {
		if s := structOf(t.typ); s != nil {
			return lconst(int64(s.NumFields()))
		}
	}
	return lsym(symForTerm(T("numfield", t), n0, n(1<<20)))
}

func (an *Analysis) fieldTerm(st *State, t *Term, i Lin) *Term { return T("sf", st.rt(t), linTerm(i)) }

// hashable checks that a map key can be hashed.
func (an *Analysis) hashable(fr *Frame, st *State, in ssa.Instruction, k VRV) {
	ok := true
	why := ""
	kt := st.rt(k.typ)
	ks := st.kinds(kt)
	if os.Getenv("PV_HASH") != "" {
		fmt.Fprintln(os.Stderr, "HASH", fr.fn, kt, ks, k.id, len(st.effects))
		for _, e := range st.effects {
			fmt.Fprintln(os.Stderr, "   E", e.kind, e.rv, e.arg)
		}
	}
	if ks.has(int(reflect.Interface)) {
		c := st.clone()
		if y, isSym := st.kind(kt).single(); isSym {
			c.assume(cin(y, kset(reflect.Interface)))
		}
		if !c.entailsLE(c.numMethodLin(kt).neg().addK(1)) {
			// an empty interface: what was stored in it must be hashable
			last := ""
			good := false
			for _, e := range st.effects {
				if e.rv != k.id {
					continue
				}
				last = e.kind
				good = false
				if e.kind == "Set" {
					if x, isRV := e.arg.(VRV); isRV {
						t := st.rt(x.typ)
						if t.op == "ty" && types.Comparable(t.typ) && !types.IsInterface(t.typ) {
							good = true
						}
					}
					if o, isO := e.arg.(VOpaque); isO && o.t == hashableArg.t {
						good = true
					}
				}
				if e.kind == "SetZero" {
					good = true
				}
			}
			if !good {
				ok = false
				why = "the key is an interface that can hold an unhashable value (last set by " + last + ")"
			}
		}
	}
	if bad := an.holdsInterface(st, kt, 3); bad != "" {
		ok = false
		why = bad
	}
	for _, bk := range []reflect.Kind{reflect.Slice, reflect.Map, reflect.Func} {
		if ks.subset(kset(bk)) {
			ok = false
			why = "keys of kind " + bk.String()
		}
	}
	an.ob("C15", "map key is hashable", fr, in, ok, func() string { return why })
}

// holdsInterface says how a key that the decoder fills itself can hold an interface value, and with it one that cannot be hashed.
func (an *Analysis) holdsInterface(st *State, t *Term, depth int) string {
	t = st.rt(t)
	if t.op == "ty" {
		return ""
	}
	ks := st.kinds(t)
	// what a type decodes on its own is the business of its author
	if st.decide(an.unmarshalerCond(st, t)) == 1 {
		return ""
	}
	for _, k := range []reflect.Kind{reflect.Array, reflect.Struct} {
		if !ks.has(int(k)) {
			continue
		}
		c := st.clone()
		if y, isSym := c.kind(t).single(); isSym && !c.assume(cin(y, kset(k))) || !c.feasible() {
			continue
		}
		if k == reflect.Array && depth > 0 {
			e := elemOf(c.rt(t))
			if !c.kinds(e).has(int(reflect.Interface)) && an.holdsInterface(c, e, depth-1) == "" {
				continue
			}
		}
		return "a key of kind " + k.String() + " can hold an interface, and what is decoded into that need not be hashable"
	}
	return ""
}

// typeMethod interprets a method of reflect.Type.
func (an *Analysis) typeMethod(fr *Frame, st *State, in ssa.Instruction, name string, r VType, args []Val, sig *types.Signature) []sv {
	t := st.rt(r.t)
	need := func(ks Set) bool {
		return an.needKind(fr, st, in, "reflect.Type."+name, VRV{typ: t}, ks)
	}
	switch name {
	case "Kind":
		return one(st, VInt{st.kind(t)})
	case "Elem":
		if !need(kset(reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice)) {
			return nil
		}
		return one(st, VType{t: elemOf(t)})
	case "Key":
		if !need(kset(reflect.Map)) {
			return nil
		}
		return one(st, VType{t: keyOf(t)})
	case "Implements":
		it, ok := args[0].(VType)
		if !ok || st.rt(it.t).op != "ty" {
			panic(undecided{"Implements of an unknown interface in " + fr.fn.String()})
		}
		return one(st, VBool{an.implements(st, t, st.rt(it.t).typ)})
	case "AssignableTo", "ConvertibleTo":
		return one(st, VBool{csym(finForTerm(T(name, t, valTerm(args[0])), boolSet))})
	case "Comparable":
		return one(st, VBool{csym(finForTerm(T("comparable", t), boolSet))})
	case "NumMethod":
		return one(st, VInt{st.numMethodLin(t)})
	case "NumField":
		if !need(kset(reflect.Struct)) {
			return nil
		}
		return one(st, VInt{an.numField(st, t)})
	case "Field":
		if !need(kset(reflect.Struct)) {
			return nil
		}
		i, ok := args[0].(VInt)
		if !ok {
			break
		}
		if !an.boundsOK(fr, st, in, i.l, an.numField(st, t), "reflect Field") {
			return nil
		}
		return one(st, VOpaque{an.fieldTerm(st, t, i.l)})
	case "Len":
		if !need(kset(reflect.Array)) {
			return nil
		}
		return one(st, VInt{st.rvLen(VRV{typ: t, id: t})})
	case "Size":
		return one(st, VInt{lsym(symForTerm(T("size", t), n0, n(1<<40)))})
	case "Bits":
		return one(st, VInt{lsym(symForTerm(T("bits", t), n0, n(128)))})
	case "String", "Name", "PkgPath":
		id := T("tname:"+name, t)
		return one(st, VStr{t: id, len: lsym(symForTerm(T("strlen", id), n0, maxLenN))})
	}
	panic(undecided{fmt.Sprintf("reflect.Type.%s in %s", name, fr.fn)})
}

// callReflect interprets functions of package reflect.
func (an *Analysis) callReflect(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) []sv {
	name := fn.Name()
	switch name {
	case "TypeOf", "ValueOf":
		t := name == "TypeOf"
		switch x := args[0].(type) {
		case VIface:
			if p, ok := x.v.(VRV); ok {
				_ = p
			}
			ty := termOfType(x.typ)
			if t {
				return one(st, VType{t: ty})
			}
			return one(st, an.valueOf(st, x))
		case VNil:
			if t {
				return one(st, VNil{})
			}
			return one(st, VRV{inv: true})
		case VDyn:
			ty, id := an.dynType(x)
			if t {
				v := VType{t: ty}
				if !x.nonnl {
					v.nilOf = x.t
				}
				return one(st, v)
			}
			r := VRV{typ: ty, id: id}
			if !x.nonnl {
				r.nilOf = T("nil", x.t)
			}
			return one(st, r)
		}
	case "PointerTo", "PtrTo":
		if x, ok := an.knownType(fr, st, in, args[0]); ok {
			return one(st, VType{t: ptrTo(st.rt(x.t))})
		}
		return nil
	case "SliceOf":
		if x, ok := an.knownType(fr, st, in, args[0]); ok {
			return one(st, VType{t: sliceOf(st.rt(x.t))})
		}
		return nil
	case "New", "Zero":
		if x, ok := an.knownType(fr, st, in, args[0]); ok {
			id := freshTerm(name)
			if name == "Zero" {
				r := VRV{typ: x.t, id: id}
				ks := st.kinds(st.rt(x.t))
				if ks.subset(kNilable) {
					st.assume(csym(st.rvNil(id)))
				}
				return one(st, r)
			}
			st.assume(csym(st.rvNil(id)).neg())
			return one(st, VRV{typ: ptrTo(st.rt(x.t)), id: id})
		}
		return nil
	case "MakeSlice":
		x, ok := an.knownType(fr, st, in, args[0])
		if !ok {
			return nil
		}
		if !an.needKind(fr, st, in, "reflect.MakeSlice", VRV{typ: x.t}, kset(reflect.Slice)) {
			return nil
		}
		l, c := args[1].(VInt), args[2].(VInt)
		an.makeCheck(fr, st, in, l.l, c.l, st.rt(elemOf(st.rt(x.t))))
		if !(st.addLE(l.l.neg()) && st.addLE(l.l.sub(c.l))) {
			return nil
		}
		id := freshTerm("made")
		st.assume(csym(st.rvNil(id)).neg())
		r := VRV{typ: x.t, id: id}
		st.addEQ(st.rvLen(r).sub(l.l))
		return one(st, r)
	case "MakeMap", "MakeMapWithSize":
		x, ok := an.knownType(fr, st, in, args[0])
		if !ok {
			return nil
		}
		if !an.needKind(fr, st, in, "reflect."+name, VRV{typ: x.t}, kset(reflect.Map)) {
			return nil
		}
		if len(args) > 1 {
			an.reserve(fr, st, in, args[1].(VInt).l, nil)
		}
		id := freshTerm("made")
		st.assume(csym(st.rvNil(id)).neg())
		return one(st, VRV{typ: x.t, id: id})
	case "Copy":
		d, ok1 := an.asRV(fr, st, in, args[0], "reflect.Copy")
		s, ok2 := an.asRV(fr, st, in, args[1], "reflect.Copy")
		if !ok1 || !ok2 {
			return nil
		}
		an.needKind(fr, st, in, "reflect.Copy", d, kset(reflect.Slice, reflect.Array))
		an.needKind(fr, st, in, "reflect.Copy", s, kset(reflect.Slice, reflect.Array, reflect.String))
		a, b := st.rt(elemOf(st.rt(d.typ))), st.rt(elemOf(st.rt(s.typ)))
		an.ob(an.typeProp(), "assigned value has an assignable type", fr, in, a == b || st.decide(an.typeEq(st, a, b)) == 1, func() string { return "reflect.Copy between slices of different elements" })
		an.onSet(fr, st, in, d)
		return one(st, VInt{lsym(newSym("copied", n0, maxLenN))})
	case "Append", "AppendSlice":
		s, ok := an.asRV(fr, st, in, args[0], "reflect."+name)
		if !ok {
			return nil
		}
		an.needKind(fr, st, in, "reflect."+name, s, kset(reflect.Slice))
		id := freshTerm("appended")
		r := VRV{typ: s.typ, id: id}
		st.assume(csym(st.rvNil(id)).neg())
		st.addLE(st.rvLen(s).sub(st.rvLen(r)))
		if x, ok := args[1].(VSlice); ok && name == "Append" {
			st.addEQ(st.rvLen(r).sub(st.rvLen(s)).sub(x.len))
		}
		return one(st, r)
	case "Indirect":
		rv, ok := args[0].(VRV)
		if ok && !rv.inv {
			if st.kindIn(rv.typ, kset(reflect.Pointer)) {
				return one(st, an.ptrElem(st, rv))
			}
			if st.kinds(rv.typ).and(kset(reflect.Pointer)).empty() {
				return one(st, rv)
			}
		}
	}
	panic(undecided{fmt.Sprintf("reflect.%s in %s", name, fr.fn)})
}

// dynType is the dynamic type and the identity of a value held in an interface.
func (an *Analysis) dynType(x VDyn) (*Term, *Term) {
	if t, ok := dynValueType(x.t); ok {
		return t, x.t.args[1]
	}
	if x.t.op == "content" {
		return T("dyn", x.t.args[0]), x.t
	}
	return T("dyn", x.t), T("content", x.t)
}

func (an *Analysis) knownType(fr *Frame, st *State, in ssa.Instruction, v Val) (VType, bool) {
	x, ok := v.(VType)
	if !ok {
		if _, isNil := v.(VNil); isNil {
			an.ob(an.nilProp(), "reflect.Type is not nil where a method is called", fr, in, false, func() string { return "nil reflect.Type" })
			return VType{}, false
		}
		panic(undecided{fmt.Sprintf("type operand %T in %s", v, fr.fn)})
	}
	if x.nilOf != nil {
		z := nilSym(x.nilOf)
		an.ob(an.nilProp(), "reflect.Type is not nil where a method is called", fr, in, st.domOf(z) == setOf(0), func() string { return "reflect.Type may be nil" })
		if !st.assume(csym(z).neg()) {
			return x, false
		}
	}
	return x, true
}

// valueOf is reflect.ValueOf of a value of known type.
func (an *Analysis) valueOf(st *State, x VIface) Val {
	t := termOfType(x.typ)
	switch v := x.v.(type) {
	case VPtr:
		if v.idx == nil {
			id := Tstr("ptr", v.key())
			st.assume(csym(st.rvNil(id)).neg())
			p := v
			return VRV{typ: t, id: id, cell: &p}
		}
	case VNil:
		id := Tstr("nilof", typeKey(x.typ))
		if kindNilable(x.typ) {
			st.assume(csym(st.rvNil(id)))
		}
		return VRV{typ: t, id: id}
	}
	return VRV{typ: t, id: Tstr("of", typeKey(x.typ), valTerm(x.v))}
}

func kindNilable(t types.Type) bool { return kNilable.has(int(kindOfType(t))) }

// makeCheck: sizes given to MakeSlice are legal and affordable.
func (an *Analysis) makeCheck(fr *Frame, st *State, in ssa.Instruction, l, c Lin, elem *Term) {
	ok := st.entailsLE(l.neg()) && st.entailsLE(l.sub(c))
	an.ob(an.panicProp(), "make size is in range", fr, in, ok, func() string {
		if !st.entailsLE(l.neg()) {
			return "length may be negative: " + st.explain(l.neg())
		}
		return "length may exceed capacity"
	})
	an.reserve(fr, st, in, c, elem)
}

// reserve: an amount reserved from input data is bounded by what the input holds.
func (an *Analysis) reserve(fr *Frame, st *State, in ssa.Instruction, c Lin, elem *Term) {
	if an.root == nil || an.root.n0 == nil || !an.root.decodes() {
		return
	}
	if st.entailsLE(c.addN(n(-64))) {
		an.ob("C25", "reserved memory is bounded by the remaining input", fr, in, true, nil)
		return
	}
	rem := an.root.n0.sub(lsym(an.root.c0))
	if lim, ok := c.addScaled(rem, -8); st.entailsLE(c.sub(rem)) || ok && st.entailsLE(lim.addK(-1024)) {
		an.ob("C25", "reserved memory is bounded by the remaining input", fr, in, true, nil)
		return
	}
	// growth up to an index: the element size times the index is bounded by a constant
	bounded := false
	if elem != nil {
		size := lsym(symForTerm(T("size", st.rt(elem)), n0, n(1<<40)))
		check := func(y Sym) {
			t := symtab[y].term
			if t == nil || t.op != "div" {
				return
			}
			num, den := *t.args[0].lin, *t.args[1].lin
			k, isK := num.constVal()
			if isK && k <= 1<<40 && st.entailsLE(size.sub(den)) && st.entailsLE(c.sub(lsym(y))) {
				bounded = true
			}
		}
		for _, l := range st.le {
			for _, m := range l.m {
				check(m.s)
			}
		}
		if _, shi := st.tightBound(size); shi.isInt64() && shi.sign() >= 0 {
			lim := int64(1) << 40
			if shi.int64() > 0 {
				lim /= shi.int64()
			}
			if st.entailsLE(c.addK(-lim)) {
				bounded = true
			}
		}
		kmax, known := int64(0), true
		st.kinds(st.rt(elem)).each(func(k int) {
			sz := int64(0)
			switch reflect.Kind(k) {
			case reflect.Bool, reflect.Int8, reflect.Uint8:
				sz = 1
			case reflect.Int16, reflect.Uint16:
				sz = 2
			case reflect.Int32, reflect.Uint32, reflect.Float32:
				sz = 4
			case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr, reflect.Float64, reflect.Complex64, reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
				sz = 8
			case reflect.String, reflect.Interface, reflect.Complex128:
				sz = 16
			case reflect.Slice:
				sz = 24
			default:
				known = false
			}
			kmax = max(kmax, sz)
		})
		if known && kmax > 0 && st.entailsLE(c.addK(-(int64(1)<<40)/kmax)) {
			bounded = true
		}
		if st.rt(elem).op == "ty" {
			if sz, ok := constSize(st.rt(elem).typ); ok {
				lim := int64(1) << 40
				if sz > 0 {
					lim /= sz
				}
				if st.entailsLE(c.addK(-lim)) {
					bounded = true
				}
			}
		}
	}
	idx := an.fromIndex(st, c)
	prop := "C25"
	if idx {
		prop = "C01"
	}
	an.ob(prop, "reserved memory is bounded", fr, in, bounded && idx, func() string {
		return "size " + c.String() + " is taken from the input and not bounded by the bytes that are left: " + st.explain(c.sub(rem))
	})
	if idx && bounded {
		an.ob("C25", "reserved memory is bounded by the remaining input", fr, in, true, nil)
	}
}

func constSize(t types.Type) (int64, bool) {
	defer func() { recover() }()
	return types.SizesFor("gc", "amd64").Sizeof(t), true
}

// fromIndex: the size is derived from an array index, not from a declared length or count.
func (an *Analysis) fromIndex(st *State, c Lin) bool {
	for _, m := range c.m {
		if d, ok := st.digest[m.s]; ok {
			// the digits follow "i:"
			if y, has := st.findByte(d.obj, d.lo.addK(-2)); has && st.domOf(y) == setBytes("i") {
				return true
			}
		}
	}
	return false
}

// isZeroValue reports that x is a value made by reflect.Zero.
func isZeroValue(x VRV) bool { return x.id != nil && x.id.op == "Zero" }
