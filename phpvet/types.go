package main

import (
	"fmt"
	"go/types"
	"reflect"
)

// ---- type terms ----

func tyConst(t types.Type) *Term { return internTerm(&Term{op: "ty", typ: types.Unalias(t)}) }

func normTerm(t *Term) *Term {
	switch t.op {
	case "elem":
		return elemOf(t.args[0])
	case "key":
		return keyOf(t.args[0])
	case "ptrto":
		return ptrTo(t.args[0])
	case "sliceof":
		return sliceOf(t.args[0])
	}
	return t
}

func elemOf(t *Term) *Term {
	switch t.op {
	case "ptrto", "sliceof":
		return t.args[0]
	case "ty":
		switch u := t.typ.Underlying().(type) {
		case *types.Pointer:
			return tyConst(u.Elem())
		case *types.Slice:
			return tyConst(u.Elem())
		case *types.Array:
			return tyConst(u.Elem())
		case *types.Map:
			return tyConst(u.Elem())
		case *types.Chan:
			return tyConst(u.Elem())
		}
	}
	return T("elem", t)
}
func keyOf(t *Term) *Term {
	if t.op == "ty" {
		if m, ok := t.typ.Underlying().(*types.Map); ok {
			return tyConst(m.Key())
		}
	}
	return T("key", t)
}
func ptrTo(t *Term) *Term {
	if t.op == "ty" {
		return tyConst(types.NewPointer(t.typ))
	}
	return T("ptrto", t)
}
func sliceOf(t *Term) *Term {
	if t.op == "ty" {
		return tyConst(types.NewSlice(t.typ))
	}
	return T("sliceof", t)
}

func (an *Analysis) elemT(t *Term) *Term { return elemOf(t) }

// rt resolves what is known about the identity of a type term.
func (s *State) rt(t *Term) *Term {
	if len(s.alias) == 0 {
		return t
	}
	if r, ok := s.alias[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	switch t.op {
	case "elem", "key", "ptrto", "sliceof":
		a := s.rt(t.args[0])
		if a != t.args[0] {
			nt := &Term{op: t.op, args: []*Term{a}}
			return s.rt(normTerm(internTerm(nt)))
		}
	}
	return t
}

var kindAll = setRange(1, 26)
var kindConcrete = kindAll.and(setOf(int(reflect.Interface)).not())

func kindOfType(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

// kind is the kind of a type term as a linear expression.
func (s *State) kind(t *Term) Lin {
	t = s.rt(t)
	switch t.op {
	case "ty":
		return lconst(int64(kindOfType(t.typ)))
	case "ptrto":
		return lconst(int64(reflect.Pointer))
	case "sliceof":
		return lconst(int64(reflect.Slice))
	case "dyn":
		return lsym(finForTerm(T("kind", t), kindConcrete))
	}
	return lsym(finForTerm(T("kind", t), kindAll))
}

// kinds is the set of kinds the type can have.
func (s *State) kinds(t *Term) Set {
	l := s.kind(t)
	if v, ok := l.constVal(); ok {
		return setOf(int(v))
	}
	y, _ := l.single()
	return s.domOf(y)
}

func (s *State) kindIn(t *Term, ks Set) bool { return s.kinds(t).subset(ks) }

func kset(ks ...reflect.Kind) Set {
	var s Set
	for _, k := range ks {
		s = s.or(setOf(int(k)))
	}
	return s
}

func kindNames(s Set) string {
	if s.count() > 14 {
		return "any kind except " + kindNames(kindAll.and(s.not()))
	}
	r := ""
	s.each(func(v int) {
		if r != "" {
			r += ","
		}
		r += reflect.Kind(v).String()
	})
	return r
}

func (an *Analysis) typeEq(st *State, a, b *Term) Cond {
	a, b = st.rt(a), st.rt(b)
	if a == b {
		return cbool(true)
	}
	if a.op == "ty" && b.op == "ty" {
		return cbool(types.Identical(a.typ, b.typ))
	}
	ks := st.kinds(a).and(st.kinds(b))
	if ks.empty() {
		return cbool(false)
	}
	if ks.subset(kset(reflect.Slice, reflect.Array, reflect.Pointer, reflect.Map, reflect.Chan)) && st.kinds(elemOf(a)).and(st.kinds(elemOf(b))).empty() {
		return cbool(false)
	}
	if a.key > b.key {
		a, b = b, a
	}
	return csym(finForTerm(T("teq", a, b), boolSet))
}

// implements is the condition that type t implements an interface.
func (an *Analysis) implements(st *State, t *Term, iface types.Type) Cond {
	t = st.rt(t)
	iface = canonIface(iface)
	it, _ := iface.Underlying().(*types.Interface)
	if it != nil && it.NumMethods() == 0 {
		return cbool(true)
	}
	return an.impl(st, t, iface, it, 0)
}

func implSym(t *Term, iface types.Type) Sym {
	return finForTerm(Tstr("impl", typeKey(iface), t), boolSet)
}

func (an *Analysis) impl(st *State, t *Term, iface types.Type, it *types.Interface, depth int) Cond {
	if t.op == "ty" {
		return cbool(types.Implements(t.typ, it))
	}
	y := implSym(t, iface)
	if d := st.domOf(y); d.count() == 1 {
		return cbool(d.has(1))
	}
	no := func() Cond {
		st.dom[y] = setOf(0)
		return cbool(false)
	}
	ptrOrIface := kset(reflect.Pointer, reflect.Interface)
	if t.op == "ptrto" {
		if st.kindIn(t.args[0], ptrOrIface) {
			return no() // pointers to pointers and to interfaces have no methods
		}
	} else if depth < 2 {
		// the method set of *T contains that of T
		if st.kinds(t).and(kset(reflect.Interface)).empty() {
			p := ptrTo(t)
			if st.domOf(implSym(p, iface)) == setOf(0) {
				return no()
			}
			// pointer types: kind(P)=Ptr, P not implementing means its base type does not when
			// P is an unnamed pointer type
			if t.op == "elem" && st.kindIn(t.args[0], kset(reflect.Pointer)) && an.unnamedPtr(st, t.args[0]) &&
				st.domOf(implSym(t.args[0], iface)) == setOf(0) {
				return no()
			}
		}
	}
	return csym(y)
}

func (an *Analysis) unnamedPtr(st *State, t *Term) bool { return false }

// impliedFacts propagates the consequences of narrowing a finite symbol.
// spanTag: values of some types have a fixed size.
func (s *State) spanTag(f SpanFact) bool {
	end := func(n int64) bool {
		return s.addEQ(f.hi.sub(f.lo).addK(-n))
	}
	semi := func(n int64) bool {
		return s.assume(cin(s.byteAt(f.obj, f.lo.addK(n)), setBytes(";")))
	}
	switch s.domOf(f.tag) {
	case setBytes("N"):
		return end(2) && semi(1)
	case setBytes("b"):
		return end(4) && semi(3)
	}
	return true
}

func impliedFacts(s *State, y Sym) bool {
	for _, f := range s.spans {
		if f.tag == y && !s.spanTag(f) {
			return false
		}
	}
	t := symtab[y].term
	if t == nil {
		return true
	}
	d := s.domOf(y)
	switch t.op {
	case "impl":
		if a := s.rt(t.args[0]); d == setOf(1) && a.op == "ptrto" {
			// pointers to pointers and to interfaces have no methods
			if l := s.kind(a.args[0]); len(l.m) == 1 {
				k := s.domOf(l.m[0].s)
				k2 := k.and(kset(reflect.Pointer, reflect.Interface).not())
				if k2 != k {
					return s.setDom(l.m[0].s, k2)
				}
			}
		}
	case "teq":
		if d == setOf(1) {
			a, b := s.rt(t.args[0]), s.rt(t.args[1])
			if a == b {
				return true
			}
			if a.op == "ty" || (len(b.key) > len(a.key) && b.op != "ty") {
				a, b = b, a
			}
			ka, kb := s.kinds(a), s.kinds(b)
			k := ka.and(kb)
			if k.empty() {
				s.dead = true
				return false
			}
			if b.op != "ty" {
				if l := s.kind(b); len(l.m) == 1 && s.domOf(l.m[0].s) != k {
					if !s.setDom(l.m[0].s, k) {
						return false
					}
				}
			}
			al := make(map[*Term]*Term, len(s.alias)+1)
			for x, v := range s.alias {
				al[x] = v
			}
			al[a] = b
			s.alias = al
		}
	}
	return true
}

// dynValueType is the dynamic type of an interface value obtained from reflection.
func dynValueType(t *Term) (*Term, bool) {
	if t.op == "iface" {
		return t.args[0], true
	}
	return nil, false
}

// termOfType is the term of a static Go type.
func termOfType(t types.Type) *Term { return tyConst(t) }

func describeType(t *Term) string { return fmt.Sprint(t) }
