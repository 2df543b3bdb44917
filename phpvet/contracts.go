package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- decoding ----

// ctxBuf loads the buffer of a decoding context.
func (an *Analysis) ctxBuf(fr *Frame, st *State, in ssa.Instruction, v Val, t types.Type) (VSlice, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return VSlice{}, false
	}
	o := st.heap[p.obj]
	if o == nil {
		return VSlice{}, false
	}
	i := ctxBufField(t)
	b := st.loadCells(o, fmt.Sprintf("%s.%d", p.path, i), structOf(deref(t)).Field(i).Type())
	s, ok := b.(VSlice)
	return s, ok
}

func (an *Analysis) decodeContract(fr *Frame, st *State, in ssa.Instruction, codec Val, target *decTarget, roles decRoles, args []Val) []sv {
	var sig *types.Signature
	if target != nil {
		sig = target.fn.Signature
	} else {
		sig = an.decIface.Method(0).Type().(*types.Signature)
	}
	r := an.root
	buf, ok := an.ctxBuf(fr, st, in, args[roles.ctx], sig.Params().At(roles.ctx).Type())
	if !ok {
		panic(undecided{"decoding context without a buffer in " + fr.fn.String()})
	}
	cv, ok1 := args[roles.cursor].(VInt)
	dv, ok2 := args[roles.depth].(VInt)
	if !ok1 || !ok2 {
		panic(undecided{"decode arguments in " + fr.fn.String()})
	}
	if r.kind == rkDecode {
		whole := buf.obj == r.input && st.entailsEQ(buf.off) && st.entailsEQ(buf.len.sub(*r.n0))
		an.ob("C02", "nested decoding works on the same input", fr, in, whole, func() string { return "the buffer of the context is replaced" })
	} else if r.kind == rkAPI {
		an.apiDecode(fr, st, in, buf, cv.l, dv.l)
	}
	c := cv.l
	strong := st.entailsLE(c.neg()) && st.entailsLE(c.sub(buf.len).addK(1))
	weak := strong || st.entailsLE(c.neg()) && st.entailsLE(c.sub(buf.len))
	if !strong && weak && !an.weakDec {
		an.register(func() { an.weakDec = true })
	}
	an.ob("C01", "nested decoding starts inside the input", fr, in, weak, func() string {
		return "the position may be outside the input: " + st.explain(c.sub(buf.len).addK(1))
	})
	rv, okRV := an.asRV(fr, st, in, args[roles.rv], "Decode")
	if !okRV {
		return nil
	}
	an.depthRule(fr, st, in, c, dv.l)
	typ := st.rt(rv.typ)
	if vc, ok := codec.(VCodec); ok {
		same := st.rt(vc.typ) == typ || st.decide(an.typeEq(st, vc.typ, typ)) == 1
		d := func() string {
			return fmt.Sprintf("a decoder built for type %s is applied to a value of type %s", st.rt(vc.typ), typ)
		}
		an.ob("C21", "a codec is only applied to values of the type it was built for", fr, in, same, d)
		an.ob("C15", "a codec is only applied to values of the type it was built for", fr, in, same, d)
	}
	an.ob("C15", "nested destination is settable", fr, in, rv.set, func() string { return "decoding into a value that cannot be set" })
	if target != nil {
		role := ""
		if vc, ok := codec.(VCodec); ok {
			role = vc.role
		}
		an.registerDecode(st, target.fn, target.recv, typ, role, true)
	}
	an.onSet(fr, st, in, rv)
	an.scratchRule(fr, st, in, rv, typ)
	// failure
	es := st.clone()
	an.setValue(es, rv, "Delegate", VInt{c}, an.pos(in))
	es.pending = firstOf(es.pending, "nested decoding at "+an.pos(in))
	ep := newSym("badpos", minI64, maxI64)
	res := []sv{{es, VTuple{[]Val{VInt{lsym(ep)}, an.newErr(es, in)}}}}
	// success
	if !st.assume(cle(c.neg())) || !st.assume(cle(c.sub(buf.len).addK(1))) {
		return res
	}
	an.startRule(fr, st, in, buf, c)
	e := an.consume(st, buf, c)
	an.setValue(st, rv, "Delegate", VInt{c}, an.pos(in))
	return append(res, sv{st, VTuple{[]Val{VInt{e}, VNil{}}}})
}

// scratchRule: memory that was decoded into and copied to its place is not decoded into again
// for another place, as long as it may hold a pointer or a map that the copy refers to.
func (an *Analysis) scratchRule(fr *Frame, st *State, in ssa.Instruction, rv VRV, typ *Term) {
	if rv.id.op != "deref" || rv.id.args[0].op != "New" && (len(rv.id.args[0].args) == 0 || rv.id.args[0].args[0].op != "New") {
		return
	}
	used, copied := false, ""
	for _, e := range st.effects {
		switch {
		case e.rv == rv.id && e.kind == "Delegate":
			used = true
		case e.rv == rv.id:
			used, copied = false, ""
		case used && (e.kind == "SetMapIndex" || e.kind == "Set" || e.kind == "Append"):
			copied = e.pos
		}
	}
	ok := copied == "" || st.kinds(typ).and(kset(reflect.Pointer, reflect.Map, reflect.Struct, reflect.Array, reflect.Interface)).empty()
	an.ob("C09", "each place is decoded into memory of its own", fr, in, ok, func() string {
		return "what was decoded here before is stored at " + copied + " and may refer to the same memory"
	})
}

// consume records that a complete value starts at c.
func (an *Analysis) consume(st *State, buf VSlice, c Lin) Lin {
	p := buf.off.add(c)
	y := st.byteAt(buf.obj, p)
	if !st.assume(cin(y, valueTags)) {
		return c
	}
	e := newSym("end", n1, maxLenN)
	el := lsym(e)
	st.le = append(st.le, c.sub(el).addK(1), el.sub(buf.len))
	f := SpanFact{buf.obj, p, buf.off.add(el), y}
	st.spans = append(st.spans, f)
	st.spanTag(f)
	return el
}

// startRule: a nested value starts where the one before it ended.
func (an *Analysis) startRule(fr *Frame, st *State, in ssa.Instruction, buf VSlice, c Lin) {
	r := an.root
	if r.input == 0 || buf.obj != r.input {
		return
	}
	p := buf.off.add(c)
	ok := st.follows(buf.obj, p, lsym(r.c0))
	an.ob("C02", "a nested value starts where the one before it ended", fr, in, ok, func() string {
		return fmt.Sprintf("decoding goes on at %s, which is not known to be the end of the part decoded before", p)
	})
}

// follows reports whether p is the start of the value at c0, the end of a complete part, or
// directly behind a byte that ends one.
func (s *State) follows(obj ObjID, p, c0 Lin) bool {
	if s.entailsEQ(p.sub(c0)) {
		return true
	}
	for _, f := range s.spans {
		if f.obj == obj && s.entailsEQ(f.hi.sub(p)) {
			return true
		}
	}
	for _, f := range s.seqs {
		if f.obj == obj && s.entailsEQ(f.hi.sub(p)) {
			return true
		}
	}
	return s.byteSet(obj, p.addK(-1)).subset(setBytes("{};"))
}

// depthRule: nesting is counted whenever decoding moves inwards.
func (an *Analysis) depthRule(fr *Frame, st *State, in ssa.Instruction, c, d Lin) {
	r := an.root
	bounded := st.entailsLE(d.neg()) && st.entailsLE(d.addK(-maxDepth-1))
	an.ob("C07", "the nesting depth handed to a nested decoder is bounded", fr, in, bounded, func() string {
		return "the depth argument has no fixed bound: " + st.explain(d.addK(-maxDepth-1))
	})
	if r.kind == rkDecode || r.kind == rkScan && r.d0 != 0 {
		d0 := lsym(r.d0)
		ok := st.entailsLE(d0.sub(d).addK(1))
		if !ok && st.entailsEQ(c.sub(lsym(r.c0))) {
			ok = st.entailsLE(d0.sub(d)) // same position: bounded by the type, no input consumed
		}
		an.ob("C07", "the nesting depth grows with every level", fr, in, ok, func() string {
			return "a nested value is decoded without counting the level"
		})
	} else if r.kind == rkScan {
		an.ob("C07", "the nesting depth grows with every level", fr, in, false, func() string { return "recursion without a depth limit" })
	}
}

func (an *Analysis) apiDecode(fr *Frame, st *State, in ssa.Instruction, buf VSlice, c, d Lin) {
	o := st.heap[buf.obj]
	r := an.root
	an.ob("C02", "decoding starts at the first byte", fr, in, st.entailsEQ(c.add(buf.off)), func() string { return "decoding starts at " + c.String() })
	full := false
	private := o != nil && o.fresh && !o.pooled && !o.input
	if o != nil {
		if s, ok := o.cells["$copyof"].(VSlice); ok {
			full = s.obj == r.input && st.entailsEQ(s.len.sub(*r.n0)) && st.entailsEQ(s.off) && st.entailsEQ(buf.off) && st.entailsEQ(buf.len.sub(s.len))
		}
	}
	if buf.obj == r.input {
		full = st.entailsEQ(buf.len.sub(*r.n0)) && st.entailsEQ(buf.off)
	}
	an.ob("C02", "the whole input is decoded", fr, in, full, func() string { return "the decoded buffer is not known to be the whole input" })
	if !private {
		pos := an.pos(in)
		fn := fr.fn.String()
		an.register(func() { an.sharedInput = append(an.sharedInput, [2]string{fn, pos}) })
	} else {
		an.ob("C09", "decoding works on a private copy of the input", fr, in, true, nil)
	}
	r.notes["decoded"] = true
	st.effect(Effect{kind: "Top", arg: buf, pos: an.pos(in)})
}

// ---- scanning ----

func (an *Analysis) scanContract(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) []sv {
	bi, ci, di := an.scanRoles(fn)
	buf, ok := an.asSlice(st, args[bi])
	cv, ok2 := args[ci].(VInt)
	if !ok || !ok2 {
		panic(undecided{"scan arguments in " + fr.fn.String()})
	}
	c := cv.l
	strong := st.entailsLE(c.neg()) && st.entailsLE(c.sub(buf.len).addK(1))
	weak := strong || st.entailsLE(c.neg()) && st.entailsLE(c.sub(buf.len))
	if !strong && weak && !an.weakScan {
		an.register(func() { an.weakScan = true })
	}
	an.ob("C01", "skipping starts inside the input", fr, in, weak, func() string {
		return "the position may be outside the input: " + st.explain(c.sub(buf.len).addK(1))
	})
	if di >= 0 {
		an.depthRule(fr, st, in, c, args[di].(VInt).l)
	} else {
		an.ob("C07", "the nesting depth grows with every level", fr, in, false, func() string { return "skipping recurses without a depth limit" })
	}
	an.register(func() {
		an.enqueue(&Root{kind: rkScan, side: sideDecode, name: fnShort(fn), key: "scan|" + fn.String(), fn: fn})
	})
	es := st.clone()
	es.pending = firstOf(es.pending, "skipping a value at "+an.pos(in))
	res := []sv{{es, VTuple{[]Val{VInt{lsym(newSym("badpos", minI64, maxI64))}, an.newErr(es, in)}}}}
	if !st.assume(cle(c.neg())) || !st.assume(cle(c.sub(buf.len).addK(1))) {
		return res
	}
	an.startRule(fr, st, in, buf, c)
	e := an.consume(st, buf, c)
	return append(res, sv{st, VTuple{[]Val{VInt{e}, VNil{}}}})
}

// ---- numbers ----

func (an *Analysis) digestCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) ([]sv, bool) {
	if an.root == nil || an.root.kind == rkDigest && an.root.fn == fn {
		return nil, false
	}
	if fn.Signature.Recv() != nil {
		if refs := fn.Params[0].Referrers(); refs != nil && len(*refs) > 0 {
			return nil, false
		}
	}
	an.register(func() {
		an.enqueue(&Root{kind: rkDigest, side: sideDecode, name: fnShort(fn), key: "digest|" + fn.String(), fn: fn})
	})
	lo, hi, _ := intRange(fn.Signature.Results().At(0).Type())
	return an.numberOf(fr, st, in, fn.Name(), args[len(args)-1], lo, hi, func(y Sym) Val { return VInt{lsym(y)} }), true
}

// numberOf is the result of parsing the text v.
func (an *Analysis) numberOf(fr *Frame, st *State, in ssa.Instruction, name string, v Val, lo, hi N, mk func(Sym) Val) []sv {
	es := st.clone()
	es.pending = firstOf(es.pending, name+" at "+an.pos(in))
	res := []sv{{es, VTuple{[]Val{mk(newSym("badnum", lo, hi)), an.newErr(es, in)}}}}
	y := newSym(name, lo, hi)
	switch s := v.(type) {
	case VSlice:
		st.digest[y] = Digest{obj: s.obj, lo: s.off, hi: s.off.add(s.len), fn: name}
	case VStr:
		if s.obj != 0 {
			st.digest[y] = Digest{obj: s.obj, lo: s.off, hi: s.off.add(s.len), fn: name}
		}
	}
	return append(res, sv{st, VTuple{[]Val{mk(y), VNil{}}}})
}

func (an *Analysis) runDigestRoot(r *Root) {
	an.runRoot(r, func() {
		st := an.start(nil)
		maxSteps = steps + 20000000
		p := r.fn.Params[len(r.fn.Params)-1]
		var arg Val
		o := st.newObj(oBytes, types.Typ[types.Uint8], "text")
		o.fresh, o.input = false, true
		r.input = 0
		l := lsym(newSym("n", n0, maxLenN))
		if isString(p.Type()) {
			arg = VStr{obj: o.id, off: lconst(0), len: l, alias: true}
		} else {
			arg = VSlice{obj: o.id, len: l, cap: l}
		}
		args := []Val{arg}
		if r.fn.Signature.Recv() != nil {
			// the receiver is not looked at
			args = []Val{VOpaque{freshTerm("receiver")}, arg}
		}
		exits := an.execFn(st, r.fn, args, nil, nil, nil)
		for i := range exits {
			e := &exits[i]
			if e.panic || e.st.dead || !e.st.feasible() {
				continue
			}
			r.exits++
			if os.Getenv("PV_DIG") != "" {
				fmt.Fprintln(os.Stderr, "DIG", r.name, vkey(e.rets[0]), an.errState(e.st, e.rets[1]), e.st.lossy, e.st.trace)
			}
			if an.errState(e.st, e.rets[1]) == 1 {
				continue
			}
			an.rootOb(r, "C08", "no number is truncated on the way", e.st.lossy == "", func() string {
				return "success although a conversion or operation at " + e.st.lossy + " can lose information"
			})
		}
	})
}

// ---- user methods ----

func (an *Analysis) userCall(fr *Frame, st *State, in ssa.Instruction, name string, r VDyn, args []Val, sig *types.Signature) []sv {
	an.ob(an.nilProp(), "interface is not nil where a method is called", fr, in, r.nonnl || st.domOf(nilSym(r.t)) == setOf(0), func() string {
		return "method " + name + " of an interface that may be nil"
	})
	if an.root.side == sideEncode || an.root.side == sideAPI && !an.decoding {
		return an.userMarshal(fr, st, in, name, r, args, sig)
	}
	for _, a := range args {
		if s, ok := a.(VSlice); ok {
			an.onGiveBytes(fr, st, in, s, "byte slice handed to a custom unmarshaler")
			if an.root.side == sideAPI {
				an.ob("C17", "a custom unmarshaler called outside a codec is given a value that was checked", fr, in, an.checkedValue(st, s), func() string {
					return "the bytes are not known to be one complete value that is not null"
				})
			}
		}
	}
	st.effect(Effect{kind: "Call " + name, rv: r.t, arg: VTuple{append([]Val{r}, args...)}, pos: an.pos(in)})
	rs := sig.Results()
	if rs.Len() == 0 {
		return one(st, VNil{})
	}
	n := rs.Len()
	mk := func(s *State, i int) Val { return an.unknownOf(s, rs.At(i).Type(), freshTerm("user")) }
	if !isErrorType(rs.At(n - 1).Type()) {
		var vs []Val
		for i := 0; i < n; i++ {
			vs = append(vs, mk(st, i))
		}
		return one(st, an.packRets(vs))
	}
	es := st.clone()
	es.pending = firstOf(es.pending, "custom method "+name+" at "+an.pos(in))
	var ok, bad []Val
	for i := 0; i < n-1; i++ {
		ok = append(ok, mk(st, i))
		bad = append(bad, mk(es, i))
	}
	return []sv{{es, an.packRets(append(bad, an.newErr(es, in)))}, {st, an.packRets(append(ok, VNil{}))}}
}

// checkedValue: the slice holds exactly one value that was skipped over, and it is not null.
func (an *Analysis) checkedValue(st *State, s VSlice) bool {
	for i := 0; i < 4; i++ {
		for _, f := range st.spans {
			if f.obj == s.obj && st.entailsEQ(f.lo.sub(s.off)) && st.entailsEQ(f.hi.sub(s.off.add(s.len))) && !st.domOf(f.tag).has('N') {
				return true
			}
		}
		o := st.heap[s.obj]
		if o == nil {
			return false
		}
		c, ok := o.cells["$copyof"].(VSlice)
		if !ok || !s.off.isConst() || s.off.k.sign() != 0 || !st.entailsEQ(s.len.sub(c.len)) {
			return false
		}
		s = c
	}
	return false
}

// ---- hooks of the decoding side ----

// onSet is called for every write through reflection.
func (an *Analysis) onSet(fr *Frame, st *State, in ssa.Instruction, rv VRV) {
	if an.root != nil && an.root.side == sideEncode {
		own := rv.cell != nil || ownedTerm(rv.id)
		an.ob("C26", "the encoded value is never written", fr, in, own, func() string {
			return "write to " + rv.id.String() + " while encoding"
		})
	}
}

// ownedTerm: the value was created by the running call.
func ownedTerm(t *Term) bool {
	if t == nil {
		return false
	}
	switch t.op {
	case "new", "New", "made", "zeroval":
		return true
	}
	if len(t.args) > 0 {
		return ownedTerm(t.args[0])
	}
	return false
}

// onStoreText: text stored in the destination.
func (an *Analysis) onStoreText(fr *Frame, st *State, in ssa.Instruction, v Val) {
	s, ok := v.(VStr)
	if !ok || an.root == nil {
		return
	}
	if s.alias && s.obj != 0 {
		o := st.heap[s.obj]
		if o != nil && o.input {
			an.noteAlias(fr, in)
			return
		}
		if o != nil && !o.fresh {
			an.ob("C09", "decoded text does not share memory with other values", fr, in, false, func() string { return "the string shares memory with " + o.name })
		}
	}
	an.ob("C09", "decoded text does not share memory with other values", fr, in, true, nil)
}

func (an *Analysis) noteAlias(fr *Frame, in ssa.Instruction) {
	p := fr.fn.String() + " " + an.pos(in)
	an.register(func() { an.aliasing = append(an.aliasing, p) })
}

// onGiveBytes: bytes that user code can write to.
func (an *Analysis) onGiveBytes(fr *Frame, st *State, in ssa.Instruction, v Val, what string) {
	s, ok := v.(VSlice)
	if !ok {
		return
	}
	o := st.heap[s.obj]
	if o == nil {
		return
	}
	if o.input {
		an.noteAlias(fr, in)
		cut := st.entailsEQ(s.cap.sub(s.len))
		an.ob("C09", "writable memory handed out does not reach other values", fr, in, cut, func() string {
			return what + " has spare capacity that reaches into the rest of the input"
		})
		return
	}
	private := o.fresh && !o.pooled && !o.published
	an.ob("C09", "writable memory handed out does not reach other values", fr, in, private, func() string {
		return what + " shares memory with " + o.name
	})
}

// onDynAssert is called for a type assertion on a value of unknown type.
func (an *Analysis) onDynAssert(fr *Frame, st *State, x *ssa.TypeAssert, d VDyn) {}

// onStore is called before a store to a cell of an object.
func (an *Analysis) onStore(fr *Frame, st *State, in ssa.Instruction, o *Obj, path string, v Val, t types.Type) {
	if sharedLabel(o) == "" {
		an.writesPublished(fr, st, in, o, path, "a published codec is never written", "store to")
	}
	if o.pooled && o.released {
		for _, p := range []string{"C10", "C11"} {
			an.ob(p, "pooled object is not used after it was released", fr, in, false, func() string { return "store to " + o.name + " after Put" })
		}
	}
	if an.root != nil && an.root.kind == rkDecode && o.input {
		an.ob("C09", "the input is never written", fr, in, false, func() string { return "store into the input" })
	}
}

// isErrCtor: the function only builds an error.
func (an *Analysis) isErrCtor(fn *ssa.Function) bool {
	if v, ok := an.errCtor[fn]; ok {
		return v
	}
	an.errCtor[fn] = false
	rs := fn.Signature.Results()
	ok := rs.Len() == 1
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			r, is := in.(*ssa.Return)
			if !is {
				continue
			}
			for _, v := range r.Results {
				switch x := v.(type) {
				case *ssa.MakeInterface, *ssa.Alloc:
				case *ssa.Call:
					g := x.Call.StaticCallee()
					if g == nil || g.String() != "fmt.Errorf" && g.String() != "errors.New" && !(an.isOwn(g) && an.isErrCtor(g)) {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	}
	an.errCtor[fn] = ok
	return ok
}

func isStdPkg(fn *ssa.Function, path string) bool {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() == path
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path() == path
	}
	return false
}

func recvName(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return strings.TrimPrefix(t.String(), "*")
}
