package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ObjID int32

// Val is an abstract value.
type Val interface{ key() string }

type VInt struct{ l Lin }
type VBool struct{ c Cond }
type VOpaque struct{ t *Term } // floats and values nothing is known about
type VNil struct{}
type VSlice struct {
	obj           ObjID
	off, len, cap Lin
	nilness       int8 // 0 not nil, 2 unknown (nilSym)
	nilSym        Sym
	em            *Emit // content produced by the encoder, nil for plain memory
}
type VStr struct {
	konst    bool
	s        string
	obj      ObjID // bytes of the string, when they come from a byte slice
	off, len Lin
	alias    bool  // shares memory with obj
	t        *Term // identity
}
type VPtr struct {
	obj  ObjID
	path string
	idx  *Lin // element pointer with a symbolic index, nil otherwise
}
type VIface struct {
	typ types.Type // concrete type
	v   Val
}
type VDyn struct { // interface value of unknown dynamic type
	t     *Term
	nonnl bool
	err   string // non-empty: an error created or received at this site
}
type VStruct struct {
	typ types.Type
	f   []Val
}
type VTuple struct{ v []Val }
type VFunc struct {
	fn   *ssa.Function
	bind []Val
}
type VRV struct {
	typ   *Term
	id    *Term
	set   bool  // addressable and settable
	nilOf *Term // valid only if this value is not nil
	cell  *VPtr // local variable behind it
	inv   bool  // the zero Value
}
type VType struct {
	t *Term
	// nilable type obtained from reflect.TypeOf(x): nil when x is a nil interface
	nilOf *Term
}
type VCodec struct {
	typ  *Term
	enc  bool
	role string
}
type VMap struct{ obj ObjID }
type VBuiltin struct{ b *ssa.Builtin }

func (v VInt) key() string    { return "i" + v.l.key() }
func (v VBool) key() string   { return "b" + v.c.key() }
func (v VOpaque) key() string { return "o" + v.t.key }
func (v VNil) key() string    { return "nil" }
func (v VSlice) key() string {
	k := fmt.Sprintf("S%d[%s,%s,%s]%d.%d", v.obj, v.off.key(), v.len.key(), v.cap.key(), v.nilness, v.nilSym)
	if v.em != nil {
		k += "E" + v.em.key()
	}
	return k
}
func (v VStr) key() string {
	if v.konst {
		return "s'" + v.s + "'"
	}
	k := "s"
	if v.t != nil {
		k += v.t.key
	}
	if v.obj != 0 {
		k += fmt.Sprintf("@%d[%s,%s]%v", v.obj, v.off.key(), v.len.key(), v.alias)
	} else {
		k += v.len.key()
	}
	return k
}
func (v VPtr) key() string {
	k := fmt.Sprintf("p%d%s", v.obj, v.path)
	if v.idx != nil {
		k += "[" + v.idx.key() + "]"
	}
	return k
}
func (v VIface) key() string { return "I" + typeKey(v.typ) + ":" + v.v.key() }
func (v VDyn) key() string   { return fmt.Sprintf("D%s%v%s", v.t.key, v.nonnl, v.err) }
func (v VStruct) key() string {
	var p []string
	for _, x := range v.f {
		p = append(p, vkey(x))
	}
	return "{" + strings.Join(p, ";") + "}"
}
func (v VTuple) key() string {
	var p []string
	for _, x := range v.v {
		p = append(p, vkey(x))
	}
	return "(" + strings.Join(p, ";") + ")"
}
func (v VFunc) key() string {
	var p []string
	for _, x := range v.bind {
		p = append(p, vkey(x))
	}
	return "f" + v.fn.String() + "(" + strings.Join(p, ";") + ")"
}
func (v VRV) key() string {
	k := "rv"
	if v.inv {
		return k + "0"
	}
	k += v.typ.key + "|" + v.id.key
	if v.set {
		k += "!"
	}
	if v.nilOf != nil {
		k += "?" + v.nilOf.key
	}
	if v.cell != nil {
		k += "=" + v.cell.key()
	}
	return k
}
func (v VType) key() string {
	if v.nilOf != nil {
		return "T" + v.t.key + "?" + v.nilOf.key
	}
	return "T" + v.t.key
}
func (v VCodec) key() string   { return fmt.Sprintf("C%s%v%s", v.typ.key, v.enc, v.role) }
func (v VMap) key() string     { return fmt.Sprintf("M%d", v.obj) }
func (v VBuiltin) key() string { return "B" + v.b.Name() }

func vkey(v Val) string {
	if v == nil {
		return "_"
	}
	return v.key()
}

func intv(v int64) Val { return VInt{lconst(v)} }
func constStr(s string) Val {
	return VStr{konst: true, s: s, len: lconst(int64(len(s)))}
}

// Cond is an atomic condition.
type Cond struct {
	op  int8 // cFalse, cTrue, cLE (l<=0), cEQ (l==0), cNE, cIn (y in set)
	l   Lin
	y   Sym
	set Set
}

const (
	cFalse int8 = iota
	cTrue
	cLE
	cEQ
	cNE
	cIn
)

func cbool(b bool) Cond {
	if b {
		return Cond{op: cTrue}
	}
	return Cond{op: cFalse}
}
func cin(y Sym, set Set) Cond { return Cond{op: cIn, y: y, set: set} }
func csym(y Sym) Cond         { return cin(y, setOf(1)) }
func cle(l Lin) Cond          { return Cond{op: cLE, l: l} }
func ceq(l Lin) Cond          { return Cond{op: cEQ, l: l} }
func (c Cond) neg() Cond {
	switch c.op {
	case cFalse:
		return Cond{op: cTrue}
	case cTrue:
		return Cond{op: cFalse}
	case cLE:
		return cle(c.l.neg().addK(1))
	case cEQ:
		return Cond{op: cNE, l: c.l}
	case cNE:
		return ceq(c.l)
	}
	return cin(c.y, c.set.not())
}
func (c Cond) key() string {
	switch c.op {
	case cFalse:
		return "F"
	case cTrue:
		return "T"
	case cIn:
		return fmt.Sprintf("in%d%x", c.y, c.set)
	}
	return fmt.Sprintf("%d:%s", c.op, c.l.key())
}

// assume adds c to the state; false if infeasible.
func (s *State) assume(c Cond) bool {
	switch c.op {
	case cFalse:
		s.dead = true
		return false
	case cTrue:
		return true
	case cLE:
		return s.addLE(c.l)
	case cEQ:
		return s.addEQ(c.l)
	case cNE:
		return s.addNE(c.l)
	}
	d := s.domOf(c.y)
	r := d.and(c.set)
	if r == d {
		return true
	}
	return s.setDom(c.y, r)
}

// decide returns 1/0 when c is known, -1 otherwise.
func (s *State) decide(c Cond) int {
	switch c.op {
	case cFalse:
		return 0
	case cTrue:
		return 1
	case cIn:
		d := s.domOf(c.y)
		if d.subset(c.set) {
			return 1
		}
		if d.and(c.set).empty() {
			return 0
		}
		return -1
	case cLE:
		if s.entailsLE(c.l) {
			return 1
		}
		if s.entailsLE(c.l.neg().addK(1)) {
			return 0
		}
		return -1
	case cEQ, cNE:
		r := -1
		if s.entailsEQ(c.l) {
			r = 1
		} else if s.entailsLE(c.l.addK(1)) || s.entailsLE(c.l.neg().addK(1)) || s.knownNE(c.l) {
			r = 0
		}
		if r >= 0 && c.op == cNE {
			r = 1 - r
		}
		return r
	}
	return -1
}

func (s *State) knownNE(l Lin) bool {
	if y, ok := l.finSingle(); ok {
		hit := false
		s.domOf(y).each(func(v int) {
			if l.at(y, v).sign() == 0 {
				hit = true
			}
		})
		return !hit
	}
	for _, e := range s.ne {
		if e.eq(l) || e.eq(l.neg()) {
			return true
		}
	}
	return false
}

// entails reports that c certainly holds.
func (s *State) entails(c Cond) bool { return s.decide(c) == 1 }

// ---- heap ----

const (
	oCells int8 = iota
	oBytes
	oColl
	oMap
)

// Alt is an element template of a collection: a value, the objects private to it and the
// facts about its private symbols.
type Alt struct {
	key  Val // map key, nil for slices
	val  Val
	objs map[ObjID]*Obj
	le   []Lin
	eq   []Lin
	dom  map[Sym]Set
	ckey string
}

type MapEnt struct {
	key Val
	val Val
	del bool
}

type Obj struct {
	id        ObjID
	kind      int8
	typ       types.Type // type of the contents
	name      string
	ext       bool // exists before the analysed call: unknown cells are materialised on demand
	pooled    bool
	released  bool
	input     bool // the bytes being decoded
	fresh     bool // allocated during the analysed call
	argMem    bool // memory of the value being encoded
	global    string
	view      bool   // a read-only copy of a collection's element
	ctxPath   string // the field of the per-call context it belongs to
	shared    string // name of memory behind a package variable
	cells     map[string]Val
	codecFor  *Term // codec-typed cells of an external object are codecs for this type
	alts      []*Alt
	ents      []MapEnt
	missed    []string
	wm        Sym
	wmObj     ObjID
	closed    bool // all elements are described by alts/ents
	tid       *Term
	codecRel  string // relation between the keys and the codecs of a type-keyed map: self or elem
	published bool   // visible to other goroutines
	opened    bool
}

var nextObj ObjID
var objSyms = map[ObjID]*Obj{}

func (s *State) newObj(kind int8, typ types.Type, name string) *Obj {
	nextObj++
	o := &Obj{id: nextObj, kind: kind, typ: typ, name: name, cells: map[string]Val{}, fresh: true, wm: Sym(len(symtab)), wmObj: nextObj}
	s.heap[o.id] = o
	return o
}

func (s *State) mut(id ObjID) *Obj {
	o := *s.heap[id]
	cells := make(map[string]Val, len(o.cells)+1)
	for k, v := range o.cells {
		cells[k] = v
	}
	o.cells = cells
	o.alts = o.alts[:len(o.alts):len(o.alts)]
	o.ents = o.ents[:len(o.ents):len(o.ents)]
	o.missed = o.missed[:len(o.missed):len(o.missed)]
	s.heap[id] = &o
	return &o
}

func structOf(t types.Type) *types.Struct {
	st, _ := t.Underlying().(*types.Struct)
	return st
}

func isReflectValue(t types.Type) bool { return namedIs(t, "reflect", "Value") }
func isReflectType(t types.Type) bool  { return namedIs(t, "reflect", "Type") }
func namedIs(t types.Type, pkg, name string) bool {
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	return nt.Obj().Pkg().Path() == pkg && nt.Obj().Name() == name
}

// opaqueStruct reports struct types whose values are modelled as a unit.
func opaqueStruct(t types.Type) bool {
	nt, ok := types.Unalias(t).(*types.Named)
	if !ok || nt.Obj().Pkg() == nil {
		return false
	}
	p := nt.Obj().Pkg().Path()
	return p == "reflect" || p == "sync" && nt.Obj().Name() != "Pool" || p == "sync/atomic" || p == "time"
}

func isByteSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// zeroVal is the zero value of a type.
func (s *State) zeroVal(t types.Type) Val {
	switch {
	case isReflectValue(t):
		return VRV{inv: true}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{cbool(false)}
		case u.Info()&types.IsInteger != 0:
			return intv(0)
		case u.Info()&types.IsString != 0:
			return constStr("")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return VNil{}
		}
		return VOpaque{Tstr("fconst", "0")}
	case *types.Struct:
		if opaqueStruct(t) {
			return VOpaque{&Term{op: "zero", typ: t, key: "zero<" + typeKey(t) + ">"}}
		}
		v := VStruct{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.f = append(v.f, s.zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return VNilArr{t}
	}
	return VNil{}
}

// VNilArr is the zero array of a type.
type VNilArr struct{ typ types.Type }

func (v VNilArr) key() string { return "za" + typeKey(v.typ) }

func (s *State) storeCells(o *Obj, path string, t types.Type, v Val) {
	if sv, ok := v.(VStruct); ok && !opaqueStruct(t) {
		st := structOf(t)
		for i := range sv.f {
			s.storeCells(o, fmt.Sprintf("%s.%d", path, i), st.Field(i).Type(), sv.f[i])
		}
		return
	}
	if za, ok := v.(VNilArr); ok {
		at := za.typ.Underlying().(*types.Array)
		if at.Len() <= 512 {
			for i := int64(0); i < at.Len(); i++ {
				s.storeCells(o, fmt.Sprintf("%s[%d]", path, i), at.Elem(), s.zeroVal(at.Elem()))
			}
		}
		return
	}
	if va, ok := v.(VArr); ok && va.typ.Len() <= 512 && va.p.idx == nil {
		if src := s.heap[va.p.obj]; src != nil && src.kind == oCells && (src.id != o.id || va.p.path != path) {
			for i := int64(0); i < va.typ.Len(); i++ {
				ev := s.loadCells(s.heap[va.p.obj], fmt.Sprintf("%s[%d]", va.p.path, i), va.typ.Elem())
				s.storeCells(o, fmt.Sprintf("%s[%d]", path, i), va.typ.Elem(), ev)
			}
			return
		}
	}
	o.cells[path] = v
}

func (s *State) loadCells(o *Obj, path string, t types.Type) Val {
	if v, ok := o.cells[path]; ok {
		return v
	}
	if st := structOf(t); st != nil && !opaqueStruct(t) {
		v := VStruct{typ: t}
		for i := 0; i < st.NumFields(); i++ {
			v.f = append(v.f, s.loadCells(s.heap[o.id], fmt.Sprintf("%s.%d", path, i), st.Field(i).Type()))
		}
		return v
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		return VArr{at, VPtr{obj: o.id, path: path}}
	}
	v := s.unknown(t, o, path)
	m := s.mut(o.id)
	m.cells[path] = v
	return v
}

// VArr is an array value read from a location that does not change meanwhile.
type VArr struct {
	typ *types.Array
	p   VPtr
}

func (v VArr) key() string { return "arr" + v.p.key() }

func sortedCells(o *Obj) []string {
	var ks []string
	for k := range o.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
