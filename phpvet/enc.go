package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encRoot is what the analysis of an encoder needs at its exits.
type encRoot struct {
	x     Item // the output that was there before
	ints  map[string]Val
	seen  ObjID
	depth []string // integer cells of the context
	out   ObjID
	base  map[Sym]Set
	nle   int
	neq   int
	delta string
}

var debugEnc = os.Getenv("PV_ENC") != ""

func emptyEmit() *Emit { return &Emit{} }

// ---- signatures ----

type encRoles struct{ ctx, buf, rv int }

func encSig(sig *types.Signature) (encRoles, bool) {
	r := encRoles{-1, -1, -1}
	ps := sig.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		switch {
		case isReflectValue(t):
			if r.rv >= 0 {
				return r, false
			}
			r.rv = i
		case isByteSlice(t):
			if r.buf >= 0 {
				return r, false
			}
			r.buf = i
		default:
			if p, ok := t.Underlying().(*types.Pointer); ok && structOf(p.Elem()) != nil && r.ctx < 0 {
				r.ctx = i
			}
		}
	}
	return r, isEncoderSig(sig) && r.buf >= 0 && r.rv >= 0
}

// ---- wire types ----

// encTags is the type letters the encoding of a value of type t may have.
func (an *Analysis) encTags(st *State, t *Term) Set { return an.encTagsN(st, t, 4) }

func (an *Analysis) encTagsN(st *State, t *Term, depth int) Set {
	t = st.rt(t)
	if depth == 0 || an.marshals(st, t) != 0 {
		return valueTags
	}
	var s Set
	st.kinds(t).each(func(k int) {
		switch reflect.Kind(k) {
		case reflect.Interface:
			s = s.or(valueTags)
		case reflect.Pointer:
			s = s.or(setBytes("N")).or(an.encTagsN(st, elemOf(t), depth-1))
		case reflect.Slice:
			switch an.isBytes(st, t) {
			case 1:
				s = s.or(setBytes("s"))
			case 0:
				s = s.or(setBytes("aN"))
			default:
				s = s.or(setBytes("saN"))
			}
		case reflect.Map:
			s = s.or(setBytes("aN"))
		case reflect.Struct:
			s = s.or(setBytes("a"))
		case reflect.Uintptr:
		default:
			s = s.or(setBytes(kindTags[reflect.Kind(k)]))
		}
	})
	return s
}

// marshals: 1 the type implements the custom marshaler, 0 it does not, -1 unknown.
func (an *Analysis) marshals(st *State, t *Term) int {
	it := an.customIface(true)
	if it == nil {
		return 0
	}
	return st.decide(an.implements(st, t, it))
}

var bytesTerm *Term

func (an *Analysis) isBytes(st *State, t *Term) int {
	if bytesTerm == nil {
		bytesTerm = tyConst(types.NewSlice(types.Typ[types.Uint8]))
	}
	return st.decide(an.typeEq(st, t, bytesTerm))
}

var kNilDirect = kset(reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map)

// nilKnown: some value on the way from rv to what it refers to is nil on this path.
func nilKnown(st *State, id *Term) bool {
	for y, d := range st.dom {
		if t := symtab[y].term; t != nil && t.op == "isnil" && d == setOf(1) && t.args[0].mentions(id) {
			return true
		}
	}
	return false
}

// produced judges one complete value v that was written for rv.
func (an *Analysis) produced(fr *Frame, in ssa.Instruction, st *State, rv VRV, v Item, where func(prop, rule string, ok bool, detail func() string)) {
	t := st.rt(rv.typ)
	ks := st.kinds(t)
	im := an.marshals(st, t)
	native := v.t != nil && v.t.op != "encoded" && v.t.op != "marshaled"
	key := an.isKey(st, rv)
	if v.t == nil {
		native = true
	}
	quoted := false
	may := an.encTags(st, t)
	if im != 0 && !key && !ks.subset(kset(reflect.Interface)) {
		// the exact bytes of the custom marshaler, or null
		ok := v.t != nil && (v.t.op == "marshaled" && sameSource(v.t.args[0], rv.id) || v.t.op == "encoded" && sameSource(v.t.args[0], rv.id) || v.t.op == "nullval")
		if im == 1 || native {
			where("C16", "a type with a custom marshaler is encoded by it", ok, func() string {
				return fmt.Sprintf("a value of type %s, which %s the custom marshaler, is encoded as %s", t, map[int]string{1: "implements", -1: "may implement"}[im], (&Emit{items: []Item{v}}).String())
			})
		}
	} else {
		where("C16", "a type with a custom marshaler is encoded by it", true, nil)
	}
	if key && !native {
		where("C18", "a value has the type letter of its kind", false, func() string {
			return "a map key is encoded as " + (&Emit{items: []Item{v}}).String()
		})
	}
	if native {
		if key {
			may = Set{}
			ks.each(func(k int) { may = may.or(setBytes(kindTags[reflect.Kind(k)])) })
		} else if quotable(st, rv.typ) && v.tags == setBytes("s") && !ks.has(int(reflect.Slice)) {
			quoted = true
			may = setBytes("sN")
		}
		// the kind is decided where the type letter depends on it
		where("C18", "a value has the type letter of its kind", v.tags.subset(may) && (quoted || an.uniform(st, t, v)), func() string {
			return fmt.Sprintf("a value of kind %s is encoded with type letter %q", kindNames(ks), v.tags.bytesString())
		})
		if v.tags == setBytes("N") {
			where("C18", "null is written for nil only", nilKnown(st, rv.id), func() string {
				return fmt.Sprintf("null is written for a value of kind %s that is not known to be nil", kindNames(ks))
			})
		} else if ks.subset(kNilDirect) && !(ks.has(int(reflect.Slice)) && an.isBytes(st, t) != 0 && v.tags == setBytes("s")) {
			nn := st.domOf(st.rvNil(rv.id)) == setOf(0)
			where("C18", "nil is written as null", nn, func() string {
				return fmt.Sprintf("a value of kind %s that may be nil is encoded as %s", kindNames(ks), (&Emit{items: []Item{v}}).String())
			})
		}
		an.scalarSource(st, rv, v, quoted, where)
	}
}

// uniform: no kind the value may still have would need another type letter.
func (an *Analysis) uniform(st *State, t *Term, v Item) bool {
	ok := true
	ks := st.kinds(t)
	if ks.count() > 12 {
		return true
	}
	ks.each(func(k int) {
		switch reflect.Kind(k) {
		case reflect.Slice:
			// []byte is text, other slices of bytes are not
			if b := an.isBytes(st, t); v.tags == setBytes("s") && b != 1 || v.tags == setBytes("a") && b != 0 {
				ok = false
			}
			return
		case reflect.Map, reflect.Pointer, reflect.Interface:
			return
		}
		if tg := kindTags[reflect.Kind(k)]; tg != "" && v.tags.and(setBytes(tg[:1])).empty() && v.tags != setBytes("N") {
			ok = false
		}
	})
	return ok
}

// sameSource: a refers to b or to what b holds.
func sameSource(a, b *Term) bool {
	if a == b {
		return true
	}
	strip := func(t *Term) *Term {
		for t.op == "v" && len(t.args) > 0 {
			t = t.args[0]
		}
		return t
	}
	a, b = strip(a), strip(b)
	return a == b || a.op == "content" && strip(a.args[0]) == b || a.op == "content" && len(a.args) > 1 && strip(a.args[1]) == b
}

func (an *Analysis) isKey(st *State, rv VRV) bool {
	t := rv.typ
	return t.op == "key" || st.rt(t).op == "key" || rv.id.op == "iterkey"
}

var kScalarKinds = kInts.or(kUints).or(kFloats).or(kset(reflect.String, reflect.Bool))

// scalarSource: what is written for a scalar is computed from that scalar.
func (an *Analysis) scalarSource(st *State, rv VRV, v Item, quoted bool, where func(prop, rule string, ok bool, detail func() string)) {
	ks := st.kinds(rv.typ)
	id := st.vid(rv.id)
	if ks.empty() {
		return
	}
	if v.t == nil {
		if ks.subset(kScalarKinds) {
			panic(undecided{"what is written for a value of kind " + kindNames(ks) + " is not known"})
		}
		return
	}
	intOf := func(l Lin) bool {
		y, ok := l.single()
		if !ok {
			return false
		}
		t := symtab[y].term
		return t != nil && (ks.subset(kInts) && t == T("intof", id) || ks.subset(kUints) && t == T("uintof", id))
	}
	c := v.t
	if quoted && c.op == "sval" && len(c.args) == 1 {
		c = c.args[0]
	}
	fail := ""
	prop, rule := "C27", "an integer is written in full from the value itself"
	switch {
	case ks.subset(kInts) || ks.subset(kUints):
		if !(c.op == "ival" && c.hasLin() && intOf(c.l())) {
			fail = fmt.Sprintf("%s is written for an integer of kind %s", c, kindNames(ks))
		}
	case ks.subset(kFloats):
		rule = "a float is written in full from the value itself"
		fail = an.floatSource(st, ks, id, c)
	case ks.subset(kset(reflect.String)) || ks.subset(kset(reflect.Slice)) && v.tags == setBytes("s"):
		rule = "text is written in full from the value itself"
		if len(v.t.args) != 1 && !(v.t.op == "sval" && len(v.t.args) == 0 && st.domOf(st.rvNil(rv.id)) == setOf(1)) {
			fail = "the content is not the text of the value"
			break
		}
		if len(v.t.args) == 1 {
			x := v.t.args[0]
			if x != T("strof", id) && x != T("bytesof", id) {
				fail = fmt.Sprintf("the content is %s, not the text of the value", x)
			}
		}
	case ks.subset(kset(reflect.Bool)):
		prop, rule = "C18", "a boolean is written by its value"
		y, ok := symLookup(T("boolof", id))
		d := boolSet
		if ok {
			d = st.domOf(y)
		}
		want := Set{}
		switch c {
		case Tstr("bval", "1"), Tstr("lit", "true"):
			want = setOf(1)
		case Tstr("bval", "0"), Tstr("lit", "false"):
			want = setOf(0)
		}
		if d != want {
			fail = fmt.Sprintf("%s is written for a boolean whose value is not known to be so", c)
		}
	default:
		return
	}
	where(prop, rule, fail == "", func() string { return fail })
}

func symLookup(t *Term) (Sym, bool) {
	y := finForTerm(t, boolSet)
	return y, true
}

func (t *Term) hasLin() bool { return t.op == "ival" && t.lin != nil }
func (t *Term) l() Lin       { return *t.lin }

// floatSource judges the text c written for a float.
func (an *Analysis) floatSource(st *State, ks Set, id, c *Term) string {
	src := T("floatof", id)
	alt := T("f32", src)
	is := func(t *Term) bool { return t == src || ks == kset(reflect.Float32) && t == alt }
	cls := func(f string, t *Term) bool { return st.domOf(finForTerm(Tstr("fclass", f, t), boolSet)) == setOf(1) }
	switch c.op {
	case "fval":
		if !is(c.args[0]) {
			return fmt.Sprintf("the number written is %s, not the value", c.args[0])
		}
		var f, prec, bits int64
		fmt.Sscanf(c.str, "%d,%d,%d", &f, &prec, &bits)
		want := int64(64)
		if ks == kset(reflect.Float32) {
			want = 32
		}
		if prec != -1 || bits != want || !ks.subset(kset(reflect.Float32)) && ks.has(int(reflect.Float32)) {
			return fmt.Sprintf("a float of kind %s is formatted with precision %d at %d bits", kindNames(ks), prec, bits)
		}
		return ""
	case "lit", "dval":
		for _, t := range []*Term{src, alt} {
			switch {
			case c.str == "NAN" && cls("nan", t), c.str == "INF" && cls("inf+", t), c.str == "-INF" && cls("inf-", t):
				return ""
			}
		}
		return fmt.Sprintf("%q is written for a float whose class is not known to be so", c.str)
	}
	return fmt.Sprintf("%s is written for a float", c)
}

// ---- calls of encoders ----

// appendValue adds one complete value to the output of b.
func (an *Analysis) appendValue(st *State, b VSlice, v Item) VSlice {
	r := b
	r.off = lconst(0)
	r.len = b.len.add(v.len)
	r.cap = lsym(newSym("cap", n0, maxLenN))
	st.le = append(st.le, r.len.sub(r.cap))
	r.nilness, r.nilSym = 0, 0
	if b.obj == 0 {
		o := st.newObj(oBytes, types.Typ[types.Uint8], "output")
		r.obj = o.id
	}
	r.em = nil
	em := b.em
	if b.obj == 0 && em == nil {
		em = emptyEmit()
	}
	if em != nil {
		r.em = em.add(v).reduce(st)
	}
	return r
}

// encodeContract is a call of an encoder that was built for typ.
func (an *Analysis) encodeContract(fr *Frame, st *State, in ssa.Instruction, typ *Term, args []Val, sig *types.Signature) []sv {
	roles, ok := encSig(sig)
	if !ok {
		panic(undecided{"call of a codec with another signature"})
	}
	rv, okv := an.asRV(fr, st, in, args[roles.rv], "encoder")
	if !okv {
		return nil
	}
	if rv.nilOf != nil {
		panic(undecided{"encoding of a value that may be invalid"})
	}
	rt, ct := st.rt(rv.typ), st.rt(typ)
	same := rt == ct || st.decide(an.typeEq(st, rt, ct)) == 1
	if !same && st.kinds(ct).subset(kset(reflect.Interface)) && st.kinds(rt).subset(kset(reflect.Interface)) {
		same = true // the encoder of one interface type serves every other
	}
	an.ob("C21", "an encoder is applied to values of the type it was built for", fr, in, same, func() string {
		return fmt.Sprintf("the encoder built for %s is applied to a value of type %s", ct, rt)
	})
	if an.root.kind == rkAPI {
		if c := an.ctxArg(st, args, roles); c != nil {
			an.ctxAliases(fr, st, in, c)
		}
	}
	return an.encodeValue(fr, st, in, rv, args[roles.buf], an.ctxArg(st, args, roles))
}

func (an *Analysis) ctxArg(st *State, args []Val, roles encRoles) *Obj {
	if roles.ctx < 0 {
		return nil
	}
	p, ok := args[roles.ctx].(VPtr)
	if !ok {
		return nil
	}
	return st.heap[p.obj]
}

// encodeValue is the effect of encoding rv at the end of buf by a separately analysed encoder.
func (an *Analysis) encodeValue(fr *Frame, st *State, in ssa.Instruction, rv VRV, buf Val, ctx *Obj) []sv {
	b, ok := an.asSlice(st, buf)
	if !ok {
		panic(undecided{fmt.Sprintf("output buffer %T", buf)})
	}
	if b.obj != 0 {
		an.writeSlice(fr, st, in, b)
	}
	if an.root.side == sideAPI {
		an.cleanStart(fr, st, in, ctx)
	} else {
		an.valueHop(fr, st, in, rv, ctx)
		if ctx != nil && an.root.ctx != 0 {
			an.ob("C20", "nested values are encoded in the context of the call", fr, in, ctx.id == an.root.ctx, func() string { return "another context is used for a nested value" })
		}
	}
	es := st.clone()
	es.pending = firstOf(es.pending, "encoding of a nested value at "+an.pos(in))
	// what a failed encoding returns besides the error is unspecified: take it for a value
	junk := Item{k: 'V', tags: valueTags, t: T("encoded", es.vid(rv.id)), len: lsym(newSym("vlen", n(2), maxLenN))}
	bad := an.packRets([]Val{an.appendValue(es, b, junk), an.newErr(es, in)})
	tags := an.encTags(st, rv.typ)
	if an.isKey(st, rv) {
		tags = Set{}
		st.kinds(rv.typ).each(func(k int) { tags = tags.or(setBytes(kindTags[reflect.Kind(k)])) })
	} else if quotable(st, rv.typ) && !tags.empty() {
		tags = tags.or(setBytes("s"))
	}
	out := []sv{{es, bad}}
	if tags.empty() {
		return out
	}
	v := Item{k: 'V', tags: tags, t: T("encoded", st.vid(rv.id)), len: lsym(newSym("vlen", n(2), maxLenN))}
	return append(out, sv{st, an.packRets([]Val{an.appendValue(st, b, v), VNil{}})})
}

// cleanStart: encoding begins with an empty table of visited values and depth zero.
func (an *Analysis) cleanStart(fr *Frame, st *State, in ssa.Instruction, ctx *Obj) {
	if ctx == nil {
		return
	}
	bad := ""
	s := structOf(ctx.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		p := fmt.Sprintf(".%d", i)
		switch v := st.heap[ctx.id].cells[p].(type) {
		case VInt:
			if !st.entailsEQ(v.l) {
				bad = "field " + s.Field(i).Name() + " may be non-zero"
			}
		case VMap:
			if m := st.heap[v.obj]; !m.emptyMap() {
				bad = "field " + s.Field(i).Name() + " may hold entries"
			}
		case nil:
			switch u := s.Field(i).Type().Underlying().(type) {
			case *types.Map:
				bad = "field " + s.Field(i).Name() + " may hold entries"
			case *types.Basic:
				if u.Info()&types.IsInteger != 0 {
					bad = "field " + s.Field(i).Name() + " may be non-zero"
				}
			}
		}
	}
	if bad != "" && os.Getenv("PV_POOL") != "" {
		fmt.Fprintln(os.Stderr, "unclean", an.poolBad, st.heap[ctx.id], bad)
	}
	an.ob("C20", "a call starts from clean scratch state", fr, in, bad == "", func() string {
		return "the context taken from the pool is not clean when encoding starts: " + bad
	})
}

// callEncoder inlines an encoder function applied to some value and judges what it wrote.
func (an *Analysis) callEncoder(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args, bind []Val) ([]sv, bool) {
	if an.root == nil || an.root.side != sideEncode {
		return nil, false
	}
	off := 0
	if fn.Signature.Recv() != nil {
		off = 1
	}
	roles, ok := encSig(fn.Signature)
	if !ok {
		return nil, false
	}
	rv, ok := args[off+roles.rv].(VRV)
	if !ok || rv.inv || rv.nilOf != nil {
		return nil, false
	}
	b, ok := an.asSlice(st, args[off+roles.buf])
	if !ok {
		return nil, false
	}
	em := b.em
	if b.obj == 0 && em == nil {
		em = emptyEmit()
	}
	if em == nil {
		return nil, false
	}
	x := Item{k: 'X', len: b.len, t: freshTerm("before")}
	nb := b
	nb.em = &Emit{items: []Item{x}}
	if b.obj == 0 {
		return nil, false
	}
	nargs := append([]Val(nil), args...)
	nargs[off+roles.buf] = nb
	pre := st.clone()
	exits := an.execFn(st, fn, nargs, bind, fr, in)
	for i := range exits {
		e := &exits[i]
		if e.panic || e.st.dead || len(e.rets) != 2 {
			continue
		}
		if s, ok := e.rets[0].(VSlice); ok && s.em != nil {
			items := s.em.items
			if len(items) > 0 && items[0].k == 'X' && items[0].t == x.t {
				rest := items[1:]
				if an.errState(e.st, e.rets[1]) != 1 && len(rest) == 1 && rest[0].k == 'V' {
					an.produced(fr, in, e.st, rv, rest[0], func(prop, rule string, ok bool, detail func() string) {
						an.obAt(prop, rule, fn.String(), an.fnPos(fn), ok, func() string { return detail() + " [while analysing " + an.root.name + an.chain(fr) + "]" })
					})
				}
				s.em = em.add(rest...).reduce(e.st)
				e.rets = append([]Val{s}, e.rets[1:]...)
			}
		}
		an.encodeError(fr, fn, e)
	}
	return an.mergeExits(fr, in, fn, pre, exits, args), true
}

// encodeError: a value is refused for its type, for a failure inside it, or because it was met before.
func (an *Analysis) encodeError(fr *Frame, fn *ssa.Function, e *Exit) {
	st := e.st
	if an.errState(st, e.rets[len(e.rets)-1]) != 1 || st.pending != "" {
		return
	}
	er := an.root.enc
	why := ""
	valueFact := func(y Sym) bool {
		t := symtab[y].term
		if t == nil {
			return false
		}
		switch t.op {
		case "rlen", "strlen", "intof", "uintof", "fclass", "boolof", "depthcell":
			return true
		}
		return false
	}
	for y, d := range st.dom {
		if b, ok := er.base[y]; ok && b == d || d == symtab[y].dom {
			continue
		}
		if valueFact(y) {
			why = symtab[y].term.String()
		}
	}
	var ls []Lin
	if len(st.le) >= er.nle {
		ls = append(ls, st.le[er.nle:]...)
	}
	if len(st.eq) >= er.neq {
		ls = append(ls, st.eq[er.neq:]...)
	}
	for _, l := range ls {
		for _, m := range l.m {
			if valueFact(m.s) && !(len(l.m) == 1) || valueFact(m.s) && len(l.m) == 1 && l.coef(m.s) != 0 && !trivial(l, m.s) {
				why = symtab[m.s].term.String()
			}
		}
	}
	an.ob("C13", "a value is refused for its type, a failure inside it or a cycle only", fr, nil, why == "", func() string {
		return "an error is returned depending on " + why + " alone"
	})
}

func trivial(l Lin, y Sym) bool { return l.k.sign() <= 0 && l.coef(y) < 0 && l.k == n0 }

// encodeRecursive is a call of an encoder function that is running already.
func (an *Analysis) encodeRecursive(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) []sv {
	off := 0
	if fn.Signature.Recv() != nil {
		off = 1
	}
	roles, ok := encSig(fn.Signature)
	if !ok || fn.Signature.Params().Len() > 3 || off > 0 || len(fn.FreeVars) > 0 {
		panic(undecided{"recursion through " + fn.String()})
	}
	rv, ok := an.asRV(fr, st, in, args[off+roles.rv], "encoder")
	if !ok {
		return nil
	}
	if rv.nilOf != nil {
		panic(undecided{"encoding of a value that may be invalid"})
	}
	an.registerGeneric(st, fn, rv.typ)
	return an.encodeValue(fr, st, in, rv, args[off+roles.buf], an.ctxArg(st, args[off:], roles))
}

// registerGeneric queues the analysis of an encoder for every type that is like typ.
func (an *Analysis) registerGeneric(st *State, fn *ssa.Function, typ *Term) {
	typ = st.rt(typ)
	op := "rectype"
	switch {
	case typ.op == "key":
		op = "key"
	case quotable(st, typ):
		op = "ftype"
	}
	st2 := an.base.clone()
	im, by := an.marshals(st, typ), an.isBytes(st, typ)
	t := Tstr(op, fmt.Sprintf("%s %s %d %d", fn, kindNames(st.kinds(typ)), im, by), Tstr("any", ""))
	if y, ok := st2.kind(t).single(); ok {
		st2.assume(cin(y, st.kinds(typ)))
	}
	if im >= 0 && an.customIface(true) != nil {
		c := an.implements(st2, t, an.customIface(true))
		if im == 0 {
			c = c.neg()
		}
		st2.assume(c)
	}
	if by >= 0 {
		c := an.typeEq(st2, t, bytesTerm)
		if by == 0 {
			c = c.neg()
		}
		st2.assume(c)
	}
	an.registerEncode(st2, VFunc{fn: fn}, t, "")
}

// nestedEncoder: an encoder that was stored is analysed on its own where it is applied to a part of the value.
func (an *Analysis) nestedEncoder(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, f VFunc, args []Val) ([]sv, bool) {
	if an.root == nil || an.root.side != sideEncode || c.StaticCallee() != nil || f.fn.Signature.Recv() != nil {
		return nil, false
	}
	roles, ok := encSig(f.fn.Signature)
	if !ok || f.fn.Signature.Params().Len() > 3 {
		return nil, false
	}
	rv, ok := args[roles.rv].(VRV)
	if !ok || rv.inv || rv.nilOf != nil || rv.id == an.root.dst {
		return nil, false
	}
	if debugEnc && st.kinds(rv.typ).count() > 20 {
		fmt.Println("NESTED", f.fn, rv.typ, st.rt(rv.typ), typeFacts(st))
	}
	if len(f.bind) == 0 {
		an.registerGeneric(st, f.fn, rv.typ)
	} else {
		an.registerEncode(st, f, rv.typ, "")
	}
	return an.encodeValue(fr, st, in, rv, args[roles.buf], an.ctxArg(st, args, roles)), true
}

// ---- encoder roots ----

func (an *Analysis) registerEncode(st *State, f VFunc, t *Term, role string) {
	if an.sides&2 == 0 {
		return
	}
	if len(f.bind) == 1 {
		// the method value of a memo entry
		if p, ok := f.bind[0].(VPtr); ok {
			if o := st.heap[p.obj]; o != nil && o.codecFor != nil {
				same := st.rt(o.codecFor) == st.rt(t)
				an.obAt("C21", "a memo entry is used for its own type", f.fn.String(), an.fnPos(f.fn), same, func() string {
					return fmt.Sprintf("the encoder under construction for %s is used for %s", o.codecFor, t)
				})
				return
			}
		}
	}
	typ := st.rt(t)
	tmpl := st.template(nil, VTuple{f.bind}, func(y Sym) bool { return symtab[y].term == nil }, func(o *Obj) bool { return o.global == "" && !o.input })
	key := stableKey("enc|" + f.fn.String() + "|" + typ.key + "|" + tmpl.ckey + "|" + typeFacts(st))
	base := st.clone()
	an.register(func() {
		ks := kindNames(base.kinds(typ))
		if len(ks) > 40 {
			ks = "many kinds"
		}
		an.enqueue(&Root{kind: rkEncode, side: sideEncode, name: fmt.Sprintf("%s for %s (%s)", fnShort(f.fn), typ, ks), key: key, fn: f.fn, bind: f.bind, st: base, typ: typ, role: role})
	})
}

// wellFormed adds what holds of every slice and string.
func (s *State) wellFormed(v Val) {
	switch x := v.(type) {
	case VSlice:
		s.addLE(x.off.neg())
		s.addLE(x.len.neg())
		s.addLE(x.len.sub(x.cap))
		s.addLE(x.off.add(x.cap).addN(maxLenN.neg()))
	case VStr:
		s.addLE(x.len.neg())
		s.addLE(x.len.addN(maxLenN.neg()))
	case VStruct:
		for _, f := range x.f {
			s.wellFormed(f)
		}
	}
}

func (an *Analysis) runEncodeRoot(r *Root) {
	an.runRoot(r, func() {
		st := an.start(r.st)
		if os.Getenv("PV_FACTS") != "" {
			fmt.Fprintln(os.Stderr, "FACTS", r.name, typeFacts(st))
		}
		for _, id := range st.reach([]Val{VTuple{r.bind}}, func(o *Obj) bool { return true }) {
			if o := st.heap[id]; o.global == "" {
				m := st.mut(id)
				m.published = true
				m.fresh = false
				m.wm, m.wmObj = Sym(len(symtab)), nextObj
				for _, k := range sortedCells(o) {
					st.wellFormed(o.cells[k])
				}
			}
		}
		for _, v := range r.bind {
			st.wellFormed(v)
		}
		r.kept = st.sharedValues(r.bind)
		roles, ok := encSig(r.fn.Signature)
		ps := r.fn.Signature.Params()
		if !ok || ps.Len() > 3 || r.fn.Signature.Recv() != nil {
			panic(undecided{"encoder signature of " + r.fn.String()})
		}
		r.enc = &encRoot{ints: map[string]Val{}}
		args := make([]Val, ps.Len())
		if roles.ctx >= 0 {
			ct := deref(ps.At(roles.ctx).Type())
			co := st.newObj(oCells, ct, "encoding context")
			co.ext, co.fresh, co.tid = true, false, Tstr("ctx", "")
			r.ctx = co.id
			s := structOf(ct)
			for i := 0; i < s.NumFields(); i++ {
				p := fmt.Sprintf(".%d", i)
				switch u := s.Field(i).Type().Underlying().(type) {
				case *types.Basic:
					if u.Info()&types.IsInteger != 0 {
						v := VInt{lsym(symForTerm(Tstr("depthcell", p), n0, n(1<<40)))}
						co.cells[p] = v
						r.enc.ints[p] = v
						r.enc.depth = append(r.enc.depth, p)
					}
				case *types.Map:
					m := st.newObj(oMap, s.Field(i).Type(), "table of visited values")
					m.ext, m.fresh, m.opened, m.tid = true, false, true, Tstr("ctxmap", p)
					m.ctxPath = "ctx " + typeKey(ct) + p
					co.cells[p] = VMap{m.id}
					r.enc.seen = m.id
				case *types.Slice:
					if isByteSlice(s.Field(i).Type()) {
						b := st.newObj(oBytes, u.Elem(), "scratch buffer of the context")
						b.fresh, b.pooled, b.tid = false, true, Tstr("ctxbuf", p)
						b.ctxPath = "ctx " + typeKey(ct) + p
						l, c := newSym("scratchlen", n0, maxLenN), newSym("cap", n0, maxLenN)
						st.addLE(lsym(l).sub(lsym(c)))
						co.cells[p] = VSlice{obj: b.id, len: lsym(l), cap: lsym(c), nilness: 2, nilSym: newFin("scratchnil", boolSet)}
					}
				}
			}
			args[roles.ctx] = VPtr{obj: co.id}
		}
		o := st.newObj(oBytes, types.Typ[types.Uint8], "output buffer")
		o.fresh = false
		r.enc.out = o.id
		bl, bc := newSym("before", n0, maxLenN), newSym("cap", n0, maxLenN)
		st.addLE(lsym(bl).sub(lsym(bc)))
		r.enc.x = Item{k: 'X', len: lsym(bl), t: Tstr("before", "")}
		args[roles.buf] = VSlice{obj: o.id, len: lsym(bl), cap: lsym(bc), nilness: 2, nilSym: newFin("outnil", boolSet), em: &Emit{items: []Item{r.enc.x}}}
		r.dst = Tstr("src", "")
		args[roles.rv] = VRV{typ: r.typ, id: r.dst}
		r.enc.base = map[Sym]Set{}
		for y, d := range st.dom {
			r.enc.base[y] = d
		}
		r.enc.nle, r.enc.neq = len(st.le), len(st.eq)
		exits := an.execFn(st, r.fn, args, r.bind, nil, nil)
		for i := range exits {
			an.encodeExit(r, &exits[i])
		}
	})
}

func (an *Analysis) encodeExit(r *Root, e *Exit) {
	if e.panic || e.st.dead || !e.st.feasible() {
		return
	}
	r.exits++
	st := e.st
	an.checkLocks(r, st)
	// the context is restored, whatever happens
	if r.ctx != 0 {
		co := st.heap[r.ctx]
		bad := ""
		for _, p := range sortedCells(co) {
			v, ok := co.cells[p].(VInt)
			if w, ok2 := r.enc.ints[p].(VInt); ok && ok2 && !st.entailsEQ(v.l.sub(w.l)) {
				bad = fmt.Sprintf("field %s changes by %s", ctxField(co.typ, p), v.l.sub(w.l))
			}
			if m, ok := co.cells[p].(VMap); ok {
				if left := liveSeen(st.heap[m.obj]); len(left) > 0 {
					bad = "an entry stays in " + ctxField(co.typ, p)
				}
			}
		}
		an.rootOb(r, "C20", "cycle tracking is restored on every exit", bad == "", func() string {
			return bad + " on a path that returns"
		})
	}
	switch an.errState(st, e.rets[1]) {
	case 1:
		r.sawErr = true
		an.encodeError(nil, r.fn, e)
		return
	case -1:
		st = st.clone()
		c, ok := an.isNil(st, e.rets[1])
		if ok && !st.assume(c) {
			return
		}
	}
	an.rootOb(r, "C06", "a failure on the way is returned", st.pending == "", func() string {
		return "success is returned although " + st.pending + " failed"
	})
	b, ok := e.rets[0].(VSlice)
	if !ok {
		an.rootOb(r, "C06", "success returns the output", false, func() string { return "no output is returned with a nil error" })
		return
	}
	if b.em == nil {
		panic(undecided{"output of " + r.fn.String() + " is not known"})
	}
	items := b.em.items
	if debugEnc {
		fmt.Fprintln(os.Stderr, "EXIT", r.name, b.em.String(), b.em.key(), typeFacts(st))
	}
	for _, it := range items {
		if it.k == '?' {
			panic(undecided{"output of " + r.fn.String() + " is not known"})
		}
	}
	good := len(items) == 2 && items[0].k == 'X' && items[0].t == r.enc.x.t && items[1].k == 'V'
	if !good && countedElsewhere(items) {
		panic(undecided{"a count and the values it counts come from different loops"})
	}
	an.rootOb(r, "C14", "one complete value is appended to the output", good, func() string {
		return "appended: " + b.em.String()
	})
	o := st.heap[b.obj]
	if o != nil {
		an.rootOb(r, "C10", "output is not scratch memory", b.obj == r.enc.out || !o.pooled && !o.released && !o.argMem && o.global == "", func() string {
			return "the output returned is memory of " + o.name
		})
		an.rootOb(r, "C26", "output is not memory of the value", !o.argMem, func() string { return "the output returned is memory of the encoded value" })
	}
	if !good {
		if ks := st.kinds(r.typ); !ks.empty() && (ks.subset(kInts) || ks.subset(kUints)) && !(len(items) == 2 && items[1].k == 'V') {
			for _, it := range items {
				if it.k != 'I' {
					continue
				}
				y, ok := it.l.single()
				tm := (*Term)(nil)
				if ok {
					tm = symtab[y].term
				}
				an.rootOb(r, "C27", "an integer is written in full from the value itself", tm != nil && (tm.op == "declen" || tm == T("intof", st.vid(r.dst)) || tm == T("uintof", st.vid(r.dst))), func() string {
					return fmt.Sprintf("the number written is %s, not the value", it.l)
				})
			}
		}
		return
	}
	an.rootOb(r, "C27", "no number is truncated on the way", st.lossy == "", func() string {
		return "success although a conversion or operation at " + st.lossy + " can lose information"
	})
	r.tags = r.tags.or(items[1].tags)
	an.produced(nil, nil, st, VRV{typ: r.typ, id: r.dst}, items[1], func(prop, rule string, ok bool, detail func() string) {
		an.rootOb(r, prop, rule, ok, detail)
	})
}

func ctxField(t types.Type, path string) string {
	if s := structOf(t); s != nil && len(path) > 1 {
		if i, err := strconv.Atoi(path[1:]); err == nil && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return path
}

// ---- cycle tracking ----

func liveEnts(o *Obj) []MapEnt {
	var out []MapEnt
	for _, e := range o.ents {
		k := vkey(e.key)
		for i, x := range out {
			if vkey(x.key) == k {
				out = append(out[:i:i], out[i+1:]...)
				break
			}
		}
		if !e.del {
			out = append(out, e)
		}
	}
	return out
}

func liveSeen(o *Obj) []string {
	live := map[string]bool{}
	for _, e := range o.ents {
		if e.del {
			delete(live, vkey(e.key))
		} else {
			live[vkey(e.key)] = true
		}
	}
	return sortedSet(live)
}

func (s *State) encGhostKey() string {
	an := theAnalysis
	r := an.root
	if len(s.locks) > 0 {
		return strings.Join(s.locks, ",") + "|" + s.encGhostKey0(r)
	}
	return s.encGhostKey0(r)
}

func (s *State) encGhostKey0(r *Root) string {
	if r == nil || r.side != sideEncode || r.ctx == 0 || s.heap[r.ctx] == nil {
		return ""
	}
	var b strings.Builder
	fmt.Fprint(&b, s.pending == "", "|")
	o := s.heap[r.ctx]
	for _, k := range sortedCells(o) {
		switch v := o.cells[k].(type) {
		case VInt:
			b.WriteString(k + v.l.key() + ";")
		case VMap:
			b.WriteString(k + strings.Join(liveSeen(s.heap[v.obj]), ",") + ";")
		}
	}
	return b.String()
}

// seenKeyInfo finds what a key of the table of visited values identifies.
func seenKeyInfo(v Val, f func(Val)) {
	if s, ok := v.(VStruct); ok {
		for _, x := range s.f {
			seenKeyInfo(x, f)
		}
		return
	}
	f(v)
}

func (an *Analysis) seenKeyCheck(fr *Frame, st *State, in ssa.Instruction, key Val) {
	var typ, addr *Term
	var ints []Lin
	seenKeyInfo(key, func(v Val) {
		switch x := v.(type) {
		case VType:
			typ = st.rt(x.t)
		case VDyn:
			if x.t.op == "addrof" {
				addr = x.t.args[0]
			}
		case VInt:
			ints = append(ints, x.l)
			if y, ok := x.l.single(); ok {
				if t := symtab[y].term; t != nil && t.op == "addrof" {
					addr = t.args[0]
				}
			}
		}
	})
	an.ob("C13", "visited values are told apart by type, address and length", fr, in, typ != nil && addr != nil, func() string {
		return "the key " + vkey(key) + " does not identify a value: values of different types can share an address"
	})
	if typ == nil || addr == nil {
		return
	}
	if st.kinds(typ).has(int(reflect.Slice)) {
		ok := false
		for _, l := range ints {
			if y, is := l.single(); is {
				if t := symtab[y].term; t != nil && t.op == "rlen" && t.args[0] == addr {
					ok = true
				}
			}
		}
		an.ob("C13", "visited slices are told apart by length", fr, in, ok, func() string {
			return "a slice and a shorter slice of the same array share a key"
		})
	}
}

func (an *Analysis) seenLookup(fr *Frame, st *State, x *ssa.Lookup, o *Obj, key Val, mk func(*State, Val, bool) sv) []sv {
	k := vkey(key)
	for _, l := range liveSeen(o) {
		if l == k {
			return []sv{mk(st, an.zeroOr(st, x), true)}
		}
	}
	if o.closed && len(o.ents) == 0 {
		return []sv{mk(st, nil, false)}
	}
	an.seenKeyCheck(fr, st, x, key)
	h := st.clone()
	h.pending = firstOf(h.pending, "a value met again ("+an.pos(x)+")")
	m := st.mut(o.id)
	m.missed = append(m.missed, k)
	return []sv{mk(h, an.zeroOr(h, x), true), mk(st, nil, false)}
}

func (an *Analysis) zeroOr(st *State, x *ssa.Lookup) Val {
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	if structOf(elem) != nil {
		return st.zeroVal(elem)
	}
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return VBool{cbool(true)}
	}
	return an.unknownOf(st, elem, freshTerm("seenval"))
}

func (an *Analysis) seenUpdate(fr *Frame, st *State, in ssa.Instruction, o *Obj, key Val) {
	k := vkey(key)
	missed := false
	for _, m := range o.missed {
		if m == k {
			missed = true
		}
	}
	an.ob("C13", "a visited value is entered after it was looked for", fr, in, missed, func() string {
		return "an entry is added without checking whether the value is already being encoded"
	})
	o.ents = append(o.ents, MapEnt{key: key, val: VNil{}})
}

func (an *Analysis) seenDelete(fr *Frame, st *State, in ssa.Instruction, o *Obj, key Val) {
	k := vkey(key)
	own := false
	for _, l := range liveSeen(o) {
		if l == k {
			own = true
		}
	}
	an.ob("C13", "only entries of the running encoder are removed", fr, in, own, func() string {
		return "an entry that this encoder did not add is removed, so that a cycle through it is not noticed"
	})
	o.ents = append(o.ents, MapEnt{key: key, del: true})
}

type vhop struct {
	fn, pos      string
	from, to     Set
	cross, guard bool
	why          string
}

// crosses: reaching the value of term t from src follows a reference.
func (an *Analysis) crosses(st *State, t, src *Term) bool {
	for i := 0; t != src && i < 40; i++ {
		switch t.op {
		case "v", "field", "content", "lvfield":
			t = t.args[0]
		default:
			return true
		}
	}
	return t != src
}

func (an *Analysis) valueHop(fr *Frame, st *State, in ssa.Instruction, rv VRV, ctx *Obj) {
	r := an.root
	if an.marshals(st, rv.typ) == 1 && !an.isKey(st, rv) {
		return // encoded by the custom marshaler
	}
	h := vhop{fn: in.Parent().String(), pos: an.pos(in), from: st.kinds(r.typ), to: st.kinds(rv.typ), why: "the value is not entered into a table of visited values"}
	h.cross = !h.from.subset(kset(reflect.Struct, reflect.Array)) && an.crosses(st, rv.id, r.dst)
	if ctx != nil && h.cross {
		live := 0
		for _, k := range sortedCells(ctx) {
			if m, ok := ctx.cells[k].(VMap); ok {
				live += len(liveSeen(st.heap[m.obj]))
			}
		}
		if live > 0 {
			h.guard = true
		} else {
			for _, p := range r.enc.depth {
				v, ok := ctx.cells[p].(VInt)
				w, ok2 := r.enc.ints[p].(VInt)
				if ok && ok2 && st.entailsLE(w.l.sub(v.l).addK(1)) {
					if st.entailsLE(v.l.addK(-100000)) {
						h.guard = true
					} else {
						h.why = "the depth is counted but never limited"
					}
				}
			}
		}
	}
	an.register(func() { an.vhops = append(an.vhops, h) })
}

// checkValueHops: every cycle of values passes through a guarded step.
func (an *Analysis) checkValueHops() {
	for _, h := range an.vhops {
		if h.guard {
			an.obAt("C13", "descending into a referenced value is tracked", h.fn, h.pos, true, nil)
			continue
		}
		if !h.cross {
			continue
		}
		reach := map[int]bool{}
		var work []int
		h.to.each(func(k int) { work = append(work, k); reach[k] = true })
		for len(work) > 0 {
			k := work[len(work)-1]
			work = work[:len(work)-1]
			for _, g := range an.vhops {
				if g.guard || !g.from.has(k) {
					continue
				}
				g.to.each(func(m int) {
					if !reach[m] {
						reach[m] = true
						work = append(work, m)
					}
				})
			}
		}
		bad := ""
		h.from.each(func(k int) {
			if reach[k] && bad == "" {
				bad = kindNames(setOf(k))
			}
		})
		an.obAt("C13", "descending into a referenced value is tracked", h.fn, h.pos, bad == "", func() string {
			return "a value of kind " + bad + " that refers to itself is encoded without end: " + h.why
		})
	}
}

// ---- output ----

func (an *Analysis) appendBytes(fr *Frame, st *State, in ssa.Instruction, t types.Type, d VSlice, src Val, add Lin) []sv {
	enc := an.root != nil && (an.root.side == sideEncode || an.root.side == sideAPI && !an.decoding)
	if d.obj != 0 && !st.entailsEQ(d.cap.sub(d.len)) {
		an.writeSlice(fr, st, in, d)
	}
	if s, ok := src.(VSlice); ok && s.obj != 0 {
		an.readSlice(fr, st, in, s)
	}
	em := d.em
	if d.obj == 0 || st.entailsEQ(d.len) {
		em = emptyEmit()
	}
	type choice struct {
		st    *State
		items []Item
	}
	chs := []choice{{st, nil}}
	var whole *VSlice
	switch s := src.(type) {
	case VStr:
		chs[0].items = an.textItems(st, s)
	case VSlice:
		if s.obj == 0 {
			break
		}
		o := st.heap[s.obj]
		switch {
		case s.em != nil:
			chs[0].items = s.em.items
			whole = &s
		case o.kind == oCells:
			for _, v := range an.arrayElems(st, o, t.Underlying().(*types.Slice).Elem(), s) {
				iv, ok := v.(VInt)
				var next []choice
				for _, c := range chs {
					add := func(c choice, it Item) {
						next = append(next, choice{c.st, append(c.items[:len(c.items):len(c.items)], it)})
					}
					if !ok {
						add(c, Item{k: 'R', l: lconst(1), len: lconst(1), t: freshTerm("byte")})
						continue
					}
					if k, isC := c.st.constOf(iv.l); isC {
						add(c, litItem(string([]byte{byte(k)})))
						continue
					}
					if y, isF := iv.l.single(); isF && symtab[y].fin && c.st.domOf(y).count() <= 4 && len(chs) < 8 {
						c.st.domOf(y).each(func(k int) {
							cs := c.st.clone()
							if cs.assume(cin(y, setOf(k))) {
								add(choice{cs, c.items}, litItem(string([]byte{byte(k)})))
							}
						})
						continue
					}
					add(c, Item{k: 'R', l: lconst(1), len: lconst(1), t: linTerm(iv.l)})
				}
				chs = next
			}
		default:
			whole = &s
			if k, ok := o.cells["$str"].(VStr); ok && s.off.isConst() && s.off.k.sign() == 0 && st.entailsEQ(s.len.sub(k.len)) {
				chs[0].items = []Item{strItem(k)}
				break
			}
			tm := o.tid
			if tm == nil || !(s.off.isConst() && s.off.k.sign() == 0 && st.entailsEQ(s.len.sub(an.fullLen(st, o)))) {
				tm = freshTerm("bytes")
			}
			chs[0].items = []Item{{k: 'R', l: s.len, len: s.len, t: tm}}
		}
	}
	var out []sv
	for _, c := range chs {
		st := c.st
		r := d
		fresh := d.obj == 0 || st.entailsEQ(d.cap)
		if fresh {
			o := st.newObj(oBytes, t.Underlying().(*types.Slice).Elem(), an.objName(fr, in))
			r.obj = o.id
			r.off = lconst(0)
			if whole != nil && st.entailsEQ(d.len) {
				o.cells["$copyof"] = *whole
			}
		} else if o := st.heap[d.obj]; o.cells["$str"] != nil || o.cells["$copyof"] != nil {
			m := st.mut(d.obj)
			delete(m.cells, "$str")
			delete(m.cells, "$copyof")
		}
		r.len = d.len.add(add)
		r.cap = lsym(newSym("cap", n0, maxLenN))
		st.le = append(st.le, r.len.sub(r.cap))
		if d.nilness != 0 {
			if st.entailsLE(add.neg().addK(1)) {
				r.nilness, r.nilSym = 0, 0
			} else {
				r.nilness, r.nilSym = 2, newFin("appnil", boolSet)
			}
		}
		r.em = nil
		if em != nil && enc {
			r.em = em.add(c.items...).reduce(st)
		}
		out = append(out, sv{st, r})
	}
	return out
}

// fullLen is the length of the memory of a value that is read as bytes.
func (an *Analysis) fullLen(st *State, o *Obj) Lin {
	if o.tid != nil && o.tid.op == "bytesof" {
		return lsym(symForTerm(T("rlen", o.tid.args[0]), n0, maxLenN))
	}
	return lconst(-1)
}

func (an *Analysis) readSlice(fr *Frame, st *State, in ssa.Instruction, s VSlice) {
	if o := st.heap[s.obj]; o != nil && o.released {
		for _, p := range []string{"C10", "C11"} {
			an.ob(p, "pooled object is not used after it was released", fr, in, false, func() string { return "read of " + o.name + " after Put" })
		}
	}
}

func declen(l Lin, base int64) Lin { return lsym(symForTerm(Tlin("declen", l), n(1), n(20))) }

func (an *Analysis) appendNumber(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature) []sv {
	d, ok := an.asSlice(st, args[0])
	if !ok {
		panic(undecided{"strconv." + name + " to an unknown slice"})
	}
	bt := sig.Results().At(0).Type()
	emit := func(st *State, it Item) []sv {
		// the item travels as the content of a temporary
		o := st.newObj(oBytes, types.Typ[types.Uint8], "digits")
		s := VSlice{obj: o.id, len: it.len, cap: it.len, em: &Emit{items: []Item{it}}}
		return an.appendBytes(fr, st, in, bt, d, s, it.len)
	}
	var out []sv
	its := an.numberText(fr, st, in, name, args[1:])
	if its == nil {
		panic(undecided{"strconv." + name})
	}
	for _, c := range its {
		out = append(out, emit(c.st, c.it)...)
	}
	return out
}

type itemSt struct {
	st *State
	it Item
}

// numberText is what strconv writes for a number: AppendX(_, args...) or FormatX(args...).
func (an *Analysis) numberText(fr *Frame, st *State, in ssa.Instruction, name string, args []Val) []itemSt {
	konst := func(i int) (int64, bool) {
		if v, ok := args[i].(VInt); ok {
			return st.constOf(v.l)
		}
		return 0, false
	}
	one := func(it Item) []itemSt { return []itemSt{{st, it}} }
	switch name {
	case "AppendBool", "FormatBool":
		c, ok := args[0].(VBool)
		if !ok {
			break
		}
		a := st.clone()
		var out []itemSt
		if a.assume(c.c) {
			out = append(out, itemSt{a, litItem("true")})
		}
		if st.assume(c.c.neg()) {
			out = append(out, itemSt{st, litItem("false")})
		}
		return out
	case "AppendInt", "AppendUint", "FormatInt", "FormatUint", "Itoa":
		v, ok := args[0].(VInt)
		if !ok {
			break
		}
		base, known := int64(10), true
		if name != "Itoa" {
			base, known = konst(1)
		}
		if !known || base != 10 {
			an.ob("C27", "integers are formatted in base ten", fr, in, false, func() string { return fmt.Sprintf("%s in base %d", name, base) })
			l := lsym(newSym("numlen", n(1), n(65)))
			return one(Item{k: 'R', l: l, len: l, t: freshTerm("number")})
		}
		an.ob("C27", "integers are formatted in base ten", fr, in, true, nil)
		if c, ok := st.constOf(v.l); ok {
			return one(litItem(strconv.FormatInt(c, 10)))
		}
		return one(Item{k: 'I', l: v.l, len: declen(v.l, 10)})
	case "AppendFloat", "FormatFloat":
		f, ok := args[0].(VOpaque)
		if !ok {
			break
		}
		prec, ok1 := konst(2)
		bits, ok2 := konst(3)
		if !ok1 || !ok2 {
			break
		}
		bad := ""
		if v, ok := args[1].(VInt); ok {
			d, _ := finVals(st, v.l)
			if c, ok := st.constOf(v.l); ok {
				d = setOf(int(c))
			}
			if !d.subset(setBytes("eEfgG")) {
				bad = d.bytesString()
			}
		}
		an.ob("C27", "floats are formatted in decimal", fr, in, bad == "", func() string { return fmt.Sprintf("format %q", bad) })
		l := lsym(newSym("floatlen", n(1), n(400)))
		t := stripF64(f.t)
		return one(Item{k: 'F', l: l, len: l, t: Tstr("fval", fmt.Sprintf("%d,%d,%d", 0, prec, bits), t), fmt: fmt.Sprintf("%d,%d", prec, bits)})
	}
	return nil
}

func (an *Analysis) formatNumber(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature, opaque func() []sv) []sv {
	if an.root == nil || an.root.side != sideEncode {
		if v, ok := args[0].(VInt); ok && name != "FormatFloat" {
			base := int64(10)
			if len(args) > 1 {
				base = -1
				if b, ok := args[1].(VInt); ok {
					if c, ok := st.constOf(b.l); ok {
						base = c
					}
				}
			}
			if c, ok := st.constOf(v.l); ok && base >= 2 && base <= 36 {
				return one(st, constStr(strconv.FormatInt(c, int(base))))
			}
		}
		return opaque()
	}
	its := an.numberText(fr, st, in, name, args)
	if its == nil {
		return opaque()
	}
	var out []sv
	for _, c := range its {
		r, _ := textOf([]Item{c.it})
		out = append(out, sv{c.st, r})
	}
	return out
}

// formatted: the text fmt writes for a constant format, where every verb is plain.
func (an *Analysis) formatted(fr *Frame, st *State, format string, args Val) ([]Item, bool) {
	var vals []Val
	switch s := args.(type) {
	case VSlice:
		if s.obj == 0 {
			break
		}
		o := st.heap[s.obj]
		if o.kind != oCells {
			return nil, false
		}
		vals = an.arrayElems(st, o, types.NewInterfaceType(nil, nil), s)
	case VNil:
	default:
		return nil, false
	}
	var out []Item
	lit := ""
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += format[i : i+1]
			continue
		}
		i++
		if i == len(format) {
			return nil, false
		}
		if format[i] == '%' {
			lit += "%"
			continue
		}
		if k >= len(vals) {
			return nil, false
		}
		x, ok := vals[k].(VIface)
		k++
		if !ok || types.NewMethodSet(x.typ).Lookup(nil, "Error") != nil || types.NewMethodSet(x.typ).Lookup(nil, "String") != nil || types.NewMethodSet(x.typ).Lookup(nil, "Format") != nil {
			return nil, false
		}
		if lit != "" {
			out = append(out, litItem(lit))
			lit = ""
		}
		switch v := x.v.(type) {
		case VInt:
			if format[i] != 'd' && format[i] != 'v' {
				return nil, false
			}
			if c, ok := st.constOf(v.l); ok {
				out = append(out, litItem(strconv.FormatInt(c, 10)))
				break
			}
			out = append(out, Item{k: 'I', l: v.l, len: declen(v.l, 10)})
		case VStr:
			if format[i] != 's' && format[i] != 'v' {
				return nil, false
			}
			out = append(out, an.textItems(st, v)...)
		case VSlice:
			if format[i] != 's' || v.obj == 0 {
				return nil, false
			}
			o := st.heap[v.obj]
			switch {
			case v.em != nil:
				out = append(out, v.em.items...)
			case o.kind == oBytes && o.tid != nil && v.off.isConst() && v.off.k.sign() == 0 && st.entailsEQ(v.len.sub(an.fullLen(st, o))):
				out = append(out, Item{k: 'R', l: v.len, len: v.len, t: o.tid})
			default:
				return nil, false
			}
		default:
			return nil, false
		}
	}
	if lit != "" {
		out = append(out, litItem(lit))
	}
	return out, k == len(vals)
}

func stripF64(t *Term) *Term {
	for t.op == "f64" && len(t.args) == 1 {
		t = t.args[0]
	}
	return t
}

// floatClass: math.IsNaN and math.IsInf.
func (an *Analysis) floatClass(fr *Frame, st *State, in ssa.Instruction, name string, args []Val) []sv {
	f, ok := args[0].(VOpaque)
	if !ok {
		panic(undecided{"math." + name})
	}
	t := stripF64(f.t)
	cl := func(c string) Sym { return finForTerm(Tstr("fclass", c, t), boolSet) }
	nan, pos, neg := cl("nan"), cl("inf+"), cl("inf-")
	var out []sv
	branch := func(st *State, yes []Sym) []sv {
		var out []sv
		no := st.clone()
		okNo := true
		for _, y := range yes {
			a := st.clone()
			if a.assume(csym(y)) {
				good := true
				for _, z := range []Sym{nan, pos, neg} {
					if z != y && !a.assume(csym(z).neg()) {
						good = false
					}
				}
				if good {
					out = append(out, sv{a, VBool{cbool(true)}})
				}
			}
			okNo = okNo && no.assume(csym(y).neg())
		}
		if okNo {
			out = append(out, sv{no, VBool{cbool(false)}})
		}
		return out
	}
	if name == "IsNaN" {
		return branch(st, []Sym{nan})
	}
	sign, ok := args[1].(VInt)
	c, ok2 := st.constOf(sign.l)
	if !ok || !ok2 {
		panic(undecided{"math.IsInf with an unknown sign"})
	}
	switch {
	case c > 0:
		out = branch(st, []Sym{pos})
	case c < 0:
		out = branch(st, []Sym{neg})
	default:
		out = branch(st, []Sym{pos, neg})
	}
	return out
}

// countedElsewhere: a count was computed by one loop and the values written by another.
func countedElsewhere(items []Item) bool {
	owners := func(l Lin) map[*ssa.BasicBlock]bool {
		m := map[*ssa.BasicBlock]bool{}
		for _, x := range l.m {
			if b := genOwner[x.s]; b != nil {
				m[b] = true
			}
		}
		return m
	}
	for i := 1; i < len(items); i++ {
		if items[i].k == 'Q' && items[i-1].k == 'O' {
			a, b := owners(items[i-1].l), owners(items[i].l)
			for h := range b {
				if len(a) > 0 && !a[h] {
					return true
				}
			}
		}
	}
	return false
}

func fclass(c string, t *Term) Sym { return finForTerm(Tstr("fclass", c, t), boolSet) }

// floatCases splits a state by what kind of number a float is.
func floatCases(st *State, t *Term) (nan, pos, neg, fin *State) {
	cs := []string{"nan", "inf+", "inf-"}
	for i := 0; i <= len(cs); i++ {
		n, ok := st.clone(), true
		for j, c := range cs {
			y := csym(fclass(c, t))
			if i != j {
				y = y.neg()
			}
			ok = ok && n.assume(y)
		}
		if !ok {
			continue
		}
		switch i {
		case 0:
			nan = n
		case 1:
			pos = n
		case 2:
			neg = n
		default:
			fin = n
		}
	}
	return
}

// floatCompare: comparison of a float with itself or with a constant.
func (an *Analysis) floatCompare(st *State, op token.Token, x, y Val) ([]sv, bool) {
	a, ok1 := x.(VOpaque)
	b, ok2 := y.(VOpaque)
	if !ok1 || !ok2 {
		return nil, false
	}
	konst := func(t *Term) (sign int, inf bool, ok bool) {
		t = stripF64(t)
		if t.op != "fconst" {
			return 0, false, false
		}
		switch t.str {
		case "+Inf":
			return 1, true, true
		case "-Inf":
			return -1, true, true
		}
		r, ok := new(big.Rat).SetString(t.str)
		if !ok {
			return 0, false, false
		}
		return r.Sign(), false, true
	}
	bv := func(c bool) Val { return VBool{cbool(c)} }
	self := stripF64(a.t) == stripF64(b.t)
	if _, _, c := konst(a.t); c && !self {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if f, ok := flip[op]; ok {
			op = f
		}
		a, b = b, a
	}
	t := stripF64(a.t)
	if t.op == "fconst" || strings.HasPrefix(t.op, "call") || t.op == "op" {
		return nil, false
	}
	var out []sv
	if self {
		nan := csym(fclass("nan", t))
		eq := op == token.EQL || op == token.LEQ || op == token.GEQ
		if n := st.clone(); n.assume(nan) && n.assume(csym(fclass("inf+", t)).neg()) && n.assume(csym(fclass("inf-", t)).neg()) {
			out = append(out, sv{n, bv(op == token.NEQ)})
		}
		if st.assume(nan.neg()) {
			out = append(out, sv{st, bv(eq)})
		}
		return out, true
	}
	_, inf, ok := konst(b.t)
	if !ok {
		return nil, false
	}
	infSign, _, _ := konst(b.t)
	nan, pos, neg, fin := floatCases(st, t)
	if nan != nil {
		out = append(out, sv{nan, bv(op == token.NEQ)})
	}
	cmp := func(s *State, d int) {
		if s == nil {
			return
		}
		r := false
		switch op {
		case token.LSS:
			r = d < 0
		case token.LEQ:
			r = d <= 0
		case token.GTR:
			r = d > 0
		case token.GEQ:
			r = d >= 0
		case token.EQL:
			r = d == 0
		case token.NEQ:
			r = d != 0
		}
		out = append(out, sv{s, bv(r)})
	}
	switch {
	case inf && infSign > 0:
		cmp(pos, 0)
		cmp(neg, -1)
		cmp(fin, -1)
	case inf:
		cmp(pos, 1)
		cmp(neg, 0)
		cmp(fin, 1)
	default:
		cmp(pos, 1)
		cmp(neg, -1)
		if fin != nil {
			out = append(out, sv{fin, VBool{csym(finForTerm(Tstr("cmp", op.String(), t, b.t), boolSet))}})
		}
	}
	return out, true
}

// finite: the float is known to be neither NaN nor infinite.
func finite(st *State, t *Term) bool {
	for _, c := range []string{"nan", "inf+", "inf-"} {
		if st.domOf(finForTerm(Tstr("fclass", c, t), boolSet)) != setOf(0) {
			return false
		}
	}
	return true
}

// digitsCall: a function that counts decimal digits.
func (an *Analysis) digitsCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) ([]sv, bool) {
	if an.root == nil || an.root.side != sideEncode {
		return nil, false
	}
	v, ok := args[0].(VInt)
	if !ok {
		return nil, false
	}
	an.register(func() {
		an.enqueue(&Root{kind: rkDigits, side: sideEncode, name: fnShort(fn), key: "digits|" + fn.String(), fn: fn})
	})
	return one(st, VInt{declen(v.l, 10)}), true
}

// runDigitsRoot: the result is the length of the decimal text of the argument.
func (an *Analysis) runDigitsRoot(r *Root) {
	an.runRoot(r, func() {
		st := an.start(nil)
		lo, hi, _ := intRange(r.fn.Params[0].Type())
		y := newSym("number", lo, hi)
		for _, e := range an.execFn(st, r.fn, []Val{VInt{lsym(y)}}, nil, nil, nil) {
			if e.panic || e.st.dead || !e.st.feasible() {
				continue
			}
			r.exits++
			c, ok := VInt{}, false
			if len(e.rets) == 1 {
				c, ok = e.rets[0].(VInt)
			}
			k, isC := int64(0), false
			if ok {
				k, isC = e.st.constOf(c.l)
			}
			if !isC || k < 1 || k > 20 {
				if isC {
					an.rootOb(r, "C14", "a digit count is the length of the decimal text", false, func() string { return fmt.Sprintf("the result is %d", k) })
					continue
				}
				panic(undecided{"digit count of " + r.fn.String()})
			}
			// |number| < 10^k and, for more than one digit, >= 10^(k-1); the sign takes one byte
			p10 := func(e int64) N {
				v := n(1)
				for i := int64(0); i < e; i++ {
					v, _ = v.mulInt(10)
				}
				return v
			}
			l := lsym(y)
			s := e.st.clone()
			bad := ""
			if s.assume(cle(l.neg())) { // >= 0
				if !s.entailsLE(l.addN(p10(k).neg()).addK(1)) || k > 1 && !s.entailsLE(lconst(0).addN(p10(k-1)).sub(l)) {
					bad = fmt.Sprintf("%d is returned for a number that may not have %d digits", k, k)
				}
			}
			s = e.st.clone()
			if s.assume(cle(l.addK(1))) { // < 0
				if k < 2 || !s.entailsLE(l.neg().addN(p10(k-1).neg()).addK(1)) || k > 2 && !s.entailsLE(lconst(0).addN(p10(k-2)).add(l)) {
					bad = fmt.Sprintf("%d is returned for a negative number whose text may have another length", k)
				}
			}
			an.rootOb(r, "C14", "a digit count is the length of the decimal text", bad == "", func() string { return bad })
		}
	})
}

// ---- reading the value ----

var nativeReads = map[string]bool{"Bool": true, "Int": true, "Uint": true, "Float": true, "String": true, "Bytes": true, "Index": true, "Field": true, "MapRange": true, "MapKeys": true, "MapIndex": true}

func (an *Analysis) onRead(fr *Frame, st *State, in ssa.Instruction, name string, rv VRV) {}

// userMarshal is a call of the custom marshaler.
func (an *Analysis) userMarshal(fr *Frame, st *State, in ssa.Instruction, name string, r VDyn, args []Val, sig *types.Signature) []sv {
	t, id := an.dynType(r)
	ks := st.kinds(t)
	notNil := true
	if ks.has(int(reflect.Pointer)) {
		s := st.clone()
		if y, ok := s.kind(t).single(); !ok || s.assume(cin(y, kset(reflect.Pointer))) {
			notNil = s.domOf(s.rvNil(id)) == setOf(0)
		}
	}
	an.ob("C16", "the custom marshaler is not called on a nil pointer", fr, in, notNil, func() string {
		return "method " + name + " of a pointer that may be nil"
	})
	rs := sig.Results()
	if rs.Len() != 2 || !isByteSlice(rs.At(0).Type()) {
		panic(undecided{"call of method " + name})
	}
	es := st.clone()
	es.pending = firstOf(es.pending, "custom method "+name+" at "+an.pos(in))
	o := st.newObj(oBytes, types.Typ[types.Uint8], "bytes of a custom marshaler")
	o.fresh, o.argMem, o.ext = false, true, true
	o.tid = T("marshaled", id)
	l := newSym("vlen", n0, maxLenN)
	c := newSym("cap", n0, maxLenN)
	st.addLE(lsym(l).sub(lsym(c)))
	raw := VSlice{obj: o.id, len: lsym(l), cap: lsym(c), nilness: 2, nilSym: newFin("rawnil", boolSet),
		em: &Emit{items: []Item{{k: 'V', tags: valueTags, t: T("marshaled", id), len: lsym(l)}}}}
	return []sv{{es, an.packRets([]Val{an.unknownOf(es, rs.At(0).Type(), freshTerm("user")), an.newErr(es, in)})}, {st, an.packRets([]Val{raw, VNil{}})}}
}

// ---- maps ----

var iterStruct = types.NewStruct([]*types.Var{
	types.NewField(0, nil, "m", types.Typ[types.Int], false),
	types.NewField(0, nil, "pos", types.Typ[types.Int], false),
}, nil)

func (an *Analysis) mapRange(st *State, in ssa.Instruction, rv VRV) Val {
	o := st.newObj(oCells, iterStruct, "map iterator")
	o.cells[".0"] = rv
	o.cells[".1"] = intv(0)
	return VPtr{obj: o.id}
}

func (an *Analysis) iterParts(st *State, v Val) (*Obj, VRV, Lin) {
	p, ok := v.(VPtr)
	if ok {
		if o := st.heap[p.obj]; o != nil {
			rv, ok1 := o.cells[".0"].(VRV)
			pos, ok2 := o.cells[".1"].(VInt)
			if ok1 && ok2 {
				return o, rv, pos.l
			}
		}
	}
	panic(undecided{"map iterator"})
}

func (an *Analysis) iterCall(fr *Frame, st *State, in ssa.Instruction, name string, args []Val) []sv {
	o, rv, pos := an.iterParts(st, args[0])
	switch name {
	case "Next":
		l := st.rvLen(rv)
		more := st.clone()
		var out []sv
		if more.assume(cle(pos.sub(l).addK(1))) {
			more.mut(o.id).cells[".1"] = VInt{pos.addK(1)}
			out = append(out, sv{more, VBool{cbool(true)}})
		}
		if st.assume(ceq(pos.sub(l))) {
			out = append(out, sv{st, VBool{cbool(false)}})
		}
		return out
	case "Key", "Value":
		return one(st, an.iterValue(fr, st, in, args[0], name == "Key"))
	}
	panic(undecided{"map iterator method " + name})
}

func (an *Analysis) iterValue(fr *Frame, st *State, in ssa.Instruction, arg Val, isKey bool) VRV {
	_, rv, pos := an.iterParts(st, arg)
	t := st.rt(rv.typ)
	if isKey {
		return VRV{typ: keyOf(t), id: T("iterkey", st.vid(rv.id), linTerm(pos))}
	}
	return VRV{typ: elemOf(t), id: T("iterval", st.vid(rv.id), linTerm(pos))}
}

func (an *Analysis) mapKeys(fr *Frame, st *State, in ssa.Instruction, rv VRV) []sv {
	o := st.newObj(oColl, types.Typ[types.Invalid], "keys of a map")
	o.fresh, o.closed = true, true
	an.addAlt(st, o.id, nil, VRV{typ: keyOf(st.rt(rv.typ)), id: T("mapkeyof", st.vid(rv.id))})
	l := st.rvLen(rv)
	return one(st, VSlice{obj: o.id, len: l, cap: l})
}

func sortItems(m map[string]Val) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
