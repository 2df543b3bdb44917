package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// stdCall models the functions outside the module.
func (an *Analysis) stdCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) []sv {
	pkg := ""
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	name, recv := fn.Name(), recvName(fn)
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	sig := fn.Signature
	full := pkg + "." + name
	if recv != "" {
		full = pkg + "." + recv + "." + name
	}
	opaque := func() []sv { return an.opaqueCall(fr, st, in, full, sig, args) }
	if name == "init" && recv == "" {
		return one(st, VNil{})
	}
	switch pkg {
	case "reflect":
		switch recv {
		case "Value":
			return an.callRV(fr, st, in, fn, args)
		case "MapIter":
			return an.iterCall(fr, st, in, name, args)
		case "StructField":
			if name == "IsExported" {
				return one(st, VBool{csym(expSym(valTerm(args[0])))})
			}
		case "":
			return an.callReflect(fr, st, in, fn, args)
		case "Kind", "StructTag":
			return opaque()
		}
	case "sync":
		switch recv {
		case "Pool":
			if name == "Get" {
				return an.poolGet(fr, st, in, args)
			}
			if name == "Put" {
				return an.poolPut(fr, st, in, args)
			}
		case "Mutex", "RWMutex":
			return an.lockCall(fr, st, in, name, args)
		case "Map":
			return an.syncMap(fr, st, in, name, args, sig)
		case "Once":
			if name == "Do" {
				return an.onceDo(fr, st, in, args)
			}
		}
	case "sync/atomic":
		if recv == "Pointer" {
			return an.atomicPointer(fr, st, in, name, args, sig)
		}
	case "errors", "fmt":
		switch name {
		case "New", "Errorf":
			return one(st, an.newErr(st, in))
		case "Sprintf":
			if f, ok := args[0].(VStr); ok && f.konst && an.root != nil && an.root.side == sideEncode {
				if items, ok := an.formatted(fr, st, f.s, args[1]); ok {
					if r, ok := textOf(items); ok {
						return one(st, r)
					}
				}
			}
		case "Append", "Appendf", "Appendln":
			if s, ok := an.asSlice(st, args[0]); ok {
				if f, ok := args[1].(VStr); ok && f.konst && name == "Appendf" {
					if items, ok := an.formatted(fr, st, f.s, args[2]); ok {
						if r, ok := textOf(items); ok {
							return an.appendBytes(fr, st, in, sig.Results().At(0).Type(), s, r, r.len)
						}
					}
				}
				l := newSym("fmtlen", n0, maxLenN)
				return an.appendBytes(fr, st, in, sig.Results().At(0).Type(), s, VStr{t: Tstr("call", full, valsTerm(args[1:])...), len: lsym(l)}, lsym(l))
			}
		}
		return opaque()
	case "strconv":
		return an.strconvCall(fr, st, in, name, args, sig, opaque)
	case "math":
		if f, ok := constFloatFn(name); ok && len(args) == 0 {
			return one(st, VOpaque{Tstr("fconst", f)})
		}
		switch name {
		case "Inf":
			if v, ok := args[0].(VInt); ok {
				if c, ok := st.constOf(v.l); ok {
					if c >= 0 {
						return one(st, VOpaque{Tstr("fconst", "+Inf")})
					}
					return one(st, VOpaque{Tstr("fconst", "-Inf")})
				}
			}
		case "IsNaN", "IsInf":
			return an.floatClass(fr, st, in, name, args)
		}
		return opaque()
	case "bytes":
		switch name {
		case "Clone":
			if s, ok := an.asSlice(st, args[0]); ok {
				return one(st, an.copyOf(fr, st, in, s))
			}
		case "HasPrefix":
			if a, ok := an.inputView(st, args[0]); ok {
				if k, ok := constText(st, args[1]); ok && len(k) <= 16 {
					return an.inputHasPrefix(st, a, k)
				}
			}
		case "IndexByte":
			if a, ok := an.inputView(st, args[0]); ok {
				if c, ok := args[1].(VInt); ok {
					if k, ok := st.constOf(c.l); ok {
						return an.indexByte(st, a, int(k))
					}
				}
			}
		case "Equal":
			a, ok1 := an.asSlice(st, args[0])
			b, ok2 := an.asSlice(st, args[1])
			if ok1 && ok2 {
				return an.bytesEqual(st, a, b)
			}
		}
		return opaque()
	case "slices":
		if name == "Clone" {
			if s, ok := an.asSlice(st, args[0]); ok && isByteSlice(sig.Params().At(0).Type()) {
				return one(st, an.copyOf(fr, st, in, s))
			}
		}
		return opaque()
	case "strings":
		switch name {
		case "HasPrefix":
			if a, ok := an.inputView(st, args[0]); ok {
				if k, ok := constText(st, args[1]); ok && len(k) <= 16 {
					return an.inputHasPrefix(st, a, k)
				}
			}
		case "Clone":
			if s, ok := args[0].(VStr); ok {
				s.alias = false
				return one(st, s)
			}
		case "Split":
			// at least one part when the separator is not empty
			rs := an.opaqueCall(fr, st, in, full, sig, args)
			for _, r := range rs {
				if s, ok := r.val.(VSlice); ok {
					r.st.addLE(s.len.neg().addK(1))
					r.st.assume(csym(s.nilSym).neg())
				}
			}
			return rs
		}
		return opaque()
	case "unicode", "unicode/utf8", "unicode/utf16", "math/bits", "cmp":
		return opaque()
	case "maps":
		if name == "Copy" || name == "Clone" {
			return an.mapsCall(fr, st, in, name, args)
		}
	case "runtime":
		return opaque()
	}
	if name == "Error" || name == "String" {
		return opaque()
	}
	// a function about which nothing is known must not receive memory it could keep
	for _, a := range args {
		switch x := a.(type) {
		case VPtr, VMap, VFunc:
			panic(undecided{fmt.Sprintf("call of %s with %T in %s", full, x, fr.fn)})
		}
	}
	return opaque()
}

func valsTerm(vs []Val) []*Term {
	var ts []*Term
	for _, v := range vs {
		ts = append(ts, valTerm(v))
	}
	return ts
}

func constFloatFn(name string) (string, bool) {
	switch name {
	case "NaN":
		return "NaN", true
	}
	_ = math.Pi
	return "", false
}

func (an *Analysis) copyOf(fr *Frame, st *State, in ssa.Instruction, s VSlice) Val {
	o := st.newObj(oBytes, types.Typ[types.Uint8], an.objName(fr, in))
	o.cells["$copyof"] = s
	if src := st.heap[s.obj]; src != nil && src.cells != nil {
		if c, ok := src.cells["$copyof"].(VSlice); ok && s.off.isConst() && s.off.k.sign() == 0 && st.entailsEQ(s.len.sub(c.len)) {
			o.cells["$copyof"] = c
		}
	}
	cp := newSym("cap", n0, maxLenN)
	st.le = append(st.le, s.len.sub(lsym(cp)))
	r := VSlice{obj: o.id, len: s.len, cap: lsym(cp)}
	return r
}

// bytesEqual compares two byte slices; one with constant content splits the other.
func (an *Analysis) bytesEqual(st *State, a, b VSlice) []sv {
	k, ok := constContent(st, b)
	if !ok {
		a, b = b, a
		k, ok = constContent(st, b)
	}
	if o := st.heap[a.obj]; !ok || len(k) > 16 || o == nil || !o.input {
		return one(st, VBool{csym(newFin("byteseq", boolSet))})
	}
	return an.inputIs(st, a, k)
}

// inputIs compares bytes of the input with a constant.
func (an *Analysis) inputIs(st *State, a VSlice, k string) []sv {
	eqLen := func(s *State) bool { return s.entailsEQ(a.len.addK(-int64(len(k)))) }
	equal := func(s *State) bool {
		return eqLen(s) && s.is(a.obj, a.off, k)
	}
	var res []sv
	yes := st.clone()
	good := yes.addEQ(a.len.addK(-int64(len(k))))
	for i := 0; good && i < len(k); i++ {
		good = yes.assume(cin(yes.byteAt(a.obj, a.off.addK(int64(i))), setOf(int(k[i]))))
	}
	if good {
		res = append(res, sv{yes, VBool{cbool(true)}})
	}
	if equal(st) {
		return res
	}
	if len(k) > 0 {
		y := st.byteAt(a.obj, a.off)
		hyp := st.clone()
		if !hyp.assume(cin(y, setOf(int(k[0])))) || equal(hyp) {
			if st.entailsLE(a.len.neg().addK(1)) && !st.assume(cin(y, setOf(int(k[0])).not())) {
				return res
			}
		}
	}
	return append(res, sv{st, VBool{cbool(false)}})
}

// inputHasPrefix says whether bytes of the input begin with a constant.
func (an *Analysis) inputHasPrefix(st *State, a VSlice, k string) []sv {
	n := int64(len(k))
	short := st.clone()
	var res []sv
	if short.addLE(a.len.addK(1 - n)) {
		res = append(res, sv{short, VBool{cbool(false)}})
	}
	if !st.addLE(a.len.neg().addK(n)) {
		return res
	}
	a.len = lconst(n)
	return append(res, an.inputIs(st, a, k)...)
}

// constText is the constant content of a string or byte slice.
func constText(st *State, v Val) (string, bool) {
	switch x := v.(type) {
	case VStr:
		return x.s, x.konst
	case VSlice:
		return constContent(st, x)
	}
	return "", false
}

// inputView is the part of the input a string or byte slice consists of.
func (an *Analysis) inputView(st *State, v Val) (VSlice, bool) {
	var s VSlice
	switch x := v.(type) {
	case VStr:
		if x.konst {
			return s, false
		}
		s = VSlice{obj: x.obj, off: x.off, len: x.len, cap: x.len}
	case VSlice:
		s = x
	default:
		return s, false
	}
	o := st.heap[s.obj]
	return s, o != nil && o.input
}

// indexByte finds the first c in bytes of the input.
func (an *Analysis) indexByte(st *State, s VSlice, c int) []sv {
	not := setOf(c).not()
	var res []sv
	none := st.clone()
	none.ranges = append(none.ranges[:len(none.ranges):len(none.ranges)], RangeFact{s.obj, s.off, s.off.add(s.len), not})
	res = append(res, sv{none, VInt{lconst(-1)}})
	if !st.addLE(s.len.neg().addK(1)) {
		return res
	}
	at := lsym(newSym("at", n0, maxLenN))
	if st.addLE(at.sub(s.len).addK(1)) && st.assume(cin(st.byteAt(s.obj, s.off.add(at)), setOf(c))) {
		st.ranges = append(st.ranges[:len(st.ranges):len(st.ranges)], RangeFact{s.obj, s.off, s.off.add(at), not})
		res = append(res, sv{st, VInt{at}})
	}
	return res
}

func constContent(st *State, s VSlice) (string, bool) {
	o := st.heap[s.obj]
	if o == nil || !s.off.isConst() || s.off.k.sign() != 0 {
		return "", false
	}
	v, ok := o.cells["$str"].(VStr)
	if !ok || !v.konst || !st.entailsEQ(s.len.addK(-int64(len(v.s)))) {
		return "", false
	}
	return v.s, true
}

func (an *Analysis) strconvCall(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature, opaque func() []sv) []sv {
	bits := func(i int) int64 {
		if v, ok := args[i].(VInt); ok {
			if c, ok := st.constOf(v.l); ok {
				return c
			}
		}
		return -1
	}
	switch name {
	case "AppendInt", "AppendUint", "AppendFloat", "AppendBool":
		return an.appendNumber(fr, st, in, name, args, sig)
	case "ParseInt", "ParseUint":
		base, w := bits(1), bits(2)
		if w == 0 {
			w = 64
		}
		if base != 10 || w < 1 || w > 64 {
			if base != 10 {
				an.ob("C03", "numbers are parsed in base ten", fr, in, false, func() string { return fmt.Sprintf("%s in base %d", name, base) })
			}
			w = 64
		}
		lo, hi := twoPow(uint(w-1)).neg(), twoPow(uint(w-1)).addOne(-1)
		if name == "ParseUint" {
			lo, hi = n0, twoPow(uint(w)).addOne(-1)
		}
		return an.numberOf(fr, st, in, name, args[0], lo, hi, func(y Sym) Val { return VInt{lsym(y)} })
	case "Atoi":
		return an.numberOf(fr, st, in, name, args[0], minI64, maxI64, func(y Sym) Val { return VInt{lsym(y)} })
	case "ParseFloat":
		w := bits(1)
		return an.numberOf(fr, st, in, name, args[0], n0, n0, func(y Sym) Val {
			return VOpaque{Tlin("pfloat", lsym(y).addK(w*0), Tstr("bits", fmt.Sprint(w)))}
		})
	case "ParseBool":
		return an.parseBool(fr, st, in, args)
	case "Itoa", "FormatInt", "FormatUint", "FormatFloat", "FormatBool":
		return an.formatNumber(fr, st, in, name, args, sig, opaque)
	}
	return opaque()
}

func (a N) addOne(k int64) N { return a.add(n(k)) }

func (an *Analysis) parseBool(fr *Frame, st *State, in ssa.Instruction, args []Val) []sv {
	es := st.clone()
	es.pending = firstOf(es.pending, "ParseBool at "+an.pos(in))
	return []sv{{es, VTuple{[]Val{VBool{cbool(false)}, an.newErr(es, in)}}},
		{st, VTuple{[]Val{VBool{csym(finForTerm(Tstr("call", "ParseBool", valTerm(args[0])), boolSet))}, VNil{}}}}}
}

// ---- atomic pointers ----

func (an *Analysis) atomicPointer(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature) []sv {
	p, ok := args[0].(VPtr)
	if !ok {
		panic(undecided{"atomic pointer operand in " + fr.fn.String()})
	}
	o := st.heap[p.obj]
	cell := "$ptr" + p.path
	key := o.global + p.path
	var elem types.Type
	switch name {
	case "Load":
		elem = sig.Results().At(0).Type()
	case "Store", "Swap":
		elem = sig.Params().At(0).Type()
	case "CompareAndSwap":
		elem = sig.Params().At(1).Type()
	default:
		panic(undecided{"atomic pointer method " + name})
	}
	loadVal := func(s *State) []sv {
		if an.inInit {
			if v, ok := s.heap[p.obj].cells[cell]; ok {
				return one(s, v)
			}
			return one(s, VNil{})
		}
		if o.global == "" {
			if v, ok := s.heap[p.obj].cells[cell]; ok {
				return one(s, v)
			}
			panic(undecided{"atomic pointer outside a package variable in " + fr.fn.String()})
		}
		v := an.cacheValue(s, key, elem)
		if _, init := an.base.heap[p.obj].cells[cell]; !init {
			n := s.clone()
			return []sv{{s, v}, {n, VNil{}}}
		}
		return one(s, v)
	}
	switch name {
	case "Load":
		return loadVal(st)
	case "Store":
		an.cacheStore(fr, st, in, p, cell, key, args[1])
		return one(st, VNil{})
	case "Swap":
		old := loadVal(st)
		for _, r := range old {
			an.cacheStore(fr, r.st, in, p, cell, key, args[1])
		}
		return old
	case "CompareAndSwap":
		n := st.clone()
		an.cacheStore(fr, st, in, p, cell, key, args[2])
		return []sv{{st, VBool{cbool(true)}}, {n, VBool{cbool(false)}}}
	}
	return nil
}

// cacheValue is what another goroutine may have stored in a package-level cache.
func (an *Analysis) cacheValue(st *State, key string, t types.Type) Val {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return an.unknownOf(st, t, freshTerm("cache"))
	}
	o := st.extObj(pt.Elem(), freshTerm("cache "+key))
	m := st.mut(o.id)
	m.published = true
	m.name = "cache " + key
	if mt, ok := pt.Elem().Underlying().(*types.Map); ok {
		mo := st.newObj(oMap, pt.Elem(), "cached map of "+key)
		mo.ext, mo.fresh, mo.published = true, false, true
		mo.codecRel = an.cacheRel[key]
		mo.global = ""
		if mo.codecRel == "" {
			mo.codecRel = "self"
		}
		_ = mt
		m.cells[""] = VMap{mo.id}
	}
	return VPtr{obj: o.id}
}

func (an *Analysis) cacheStore(fr *Frame, st *State, in ssa.Instruction, p VPtr, cell, key string, v Val) {
	m := st.mut(p.obj)
	m.cells[cell] = v
	if an.inInit {
		return
	}
	an.publish(fr, st, in, key, v)
}

// publish makes everything reachable from v visible to other goroutines.
func (an *Analysis) publish(fr *Frame, st *State, in ssa.Instruction, key string, v Val) {
	for _, id := range st.reach([]Val{v}, func(o *Obj) bool { return true }) {
		o := st.heap[id]
		if o.kind == oMap {
			mt, _ := o.typ.Underlying().(*types.Map)
			if mt != nil && isReflectType(mt.Key()) {
				an.checkCacheMap(fr, st, in, key, o)
			}
		}
		if o.pooled {
			an.ob("C11", "pooled memory is not published", fr, in, false, func() string { return o.name + " is stored in a shared cache" })
		}
		if o.global == "" {
			st.mut(id).published = true
		}
	}
	an.ob("C11", "shared state is accessed atomically", fr, in, true, nil)
}

// checkCacheMap: every entry of a type-keyed cache holds a codec for its key.
func (an *Analysis) checkCacheMap(fr *Frame, st *State, in ssa.Instruction, key string, o *Obj) {
	for _, e := range o.ents {
		if e.del {
			continue
		}
		if k, ok := e.key.(VType); ok {
			an.checkCacheEntry(fr, st, in, key, k, e.val)
		}
	}
}

func (an *Analysis) checkCacheEntry(fr *Frame, st *State, in ssa.Instruction, key string, k VType, val Val) {
	rel, why := an.codecRelation(st, key, k, val)
	want := an.cacheRel[key]
	if _, ok := val.(VCodec); !ok && want == "" {
		return // the next round knows
	}
	if rel != "" && want == "" {
		rel := rel
		an.cacheRel[key] = rel
		want = rel
	}
	an.ob("C21", "a cache entry is a codec for its key", fr, in, rel != "" && rel == want, func() string {
		if rel == "" {
			return why
		}
		return fmt.Sprintf("the entry stored for %s is related to its key as %q, others as %q", k.t, rel, want)
	})
}

// codecRelation: self when the codec is for the key type, elem when it is for what the key points to.
func (an *Analysis) codecRelation(st *State, key string, k VType, v Val) (string, string) {
	kt := st.rt(k.t)
	if c, ok := v.(VCodec); ok {
		switch t := st.rt(c.typ); {
		case t == kt:
			return "self", ""
		case t == st.rt(elemOf(kt)):
			return "elem", ""
		default:
			return "", fmt.Sprintf("a codec for type %s is stored under type %s", t, kt)
		}
	}
	rel := an.cacheRel[key]
	t := kt
	if rel == "" {
		an.unstable = true
		return "self", ""
	}
	if rel == "elem" {
		t = elemOf(kt)
	}
	if !an.registerCodec(st, v, t, "") {
		return "", "the stored value is not a codec for a known type: " + vkey(v)
	}
	return rel, ""
}

// ---- pools ----

func (an *Analysis) poolNew(st *State, v Val) (VFunc, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return VFunc{}, false
	}
	o := st.heap[p.obj]
	if o == nil {
		return VFunc{}, false
	}
	st2 := structOf(an.pathType(o.typ, p.path))
	if st2 == nil {
		return VFunc{}, false
	}
	for i := 0; i < st2.NumFields(); i++ {
		if st2.Field(i).Name() == "New" {
			f, ok := o.cells[fmt.Sprintf("%s.%d", p.path, i)].(VFunc)
			if !ok && os.Getenv("PV_POOL") != "" {
				fmt.Fprintln(os.Stderr, "poolNew", o, p)
			}
			return f, ok
		}
	}
	return VFunc{}, false
}

func (an *Analysis) poolGet(fr *Frame, st *State, in ssa.Instruction, args []Val) []sv {
	f, ok := an.poolNew(st, args[0])
	if !ok {
		// no New: nil or something stored earlier
		t := freshTerm("pool")
		return one(st, VDyn{t: t})
	}
	var out []sv
	for _, r := range an.callFunc(fr, st, in, f.fn, nil, f.bind) {
		x, ok := r.val.(VIface)
		if !ok {
			panic(undecided{"pool New result in " + f.fn.String()})
		}
		switch p := x.v.(type) {
		case VPtr:
			// a recycled object: same shape, contents as left by an earlier user
			o := r.st.newObj(oCells, deref(x.typ), "pooled "+typeName(deref(x.typ)))
			o.ext, o.fresh, o.pooled = true, false, true
			o.tid = freshTerm("pool")
			if init := r.st.heap[p.obj]; init != nil {
				an.ctxAliases(fr, r.st, in, init)
			}
			an.poolContents(r.st, o, r.st.heap[p.obj])
			out = append(out, sv{r.st, VIface{x.typ, VPtr{obj: o.id}}})
		default:
			v := an.unknownOf(r.st, x.typ, freshTerm("pool"))
			if s, ok := v.(VSlice); ok {
				r.st.mut(s.obj).pooled = true
			}
			out = append(out, sv{r.st, VIface{x.typ, v}})
		}
	}
	return out
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// poolContents applies the invariants every user of the pool restores.
func (an *Analysis) poolContents(st *State, o *Obj, init *Obj) {
	tk := typeKey(o.typ)
	var walk func(path string, t types.Type)
	walk = func(path string, t types.Type) {
		if s := structOf(t); s != nil && !opaqueStruct(t) {
			for i := 0; i < s.NumFields(); i++ {
				walk(fmt.Sprintf("%s.%d", path, i), s.Field(i).Type())
			}
			return
		}
		if an.poolBad[tk+path] {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				o.cells[path] = intv(0)
			}
		case *types.Map:
			m := st.newObj(oMap, t, "pooled map")
			m.fresh, m.closed, m.pooled = false, true, true
			o.cells[path] = VMap{m.id}
		case *types.Slice:
			if isByteSlice(t) {
				b := st.newObj(oBytes, u.Elem(), "pooled buffer")
				b.fresh, b.pooled = false, true
				c := newSym("cap", n0, maxLenN)
				s := VSlice{obj: b.id, len: lconst(0), cap: lsym(c), nilness: 2, nilSym: newFin("poolnil", boolSet)}
				s.em = emptyEmit()
				o.cells[path] = s
			}
		}
	}
	walk("", o.typ)
	// what New does not establish is no invariant
	if init != nil {
		an.checkPoolCells(st, init, tk)
	}
}

// checkPoolCells withdraws the pool invariants an object does not satisfy.
func (an *Analysis) checkPoolCells(st *State, o *Obj, tk string) {
	bad := func(path string) {
		if !an.poolBad[tk+path] {
			if os.Getenv("PV_POOL") != "" {
				fmt.Fprintln(os.Stderr, "pool:", tk, path, an.root.name)
				debug.PrintStack()
			}
			an.register(func() { an.poolBad[tk+path] = true; an.unstable = true })
		}
	}
	for path, v := range o.cells {
		switch x := v.(type) {
		case VInt:
			if !st.entailsEQ(x.l) {
				bad(path)
			}
		case VMap:
			m := st.heap[x.obj]
			if !m.emptyMap() {
				bad(path)
			}
		case VSlice:
			if !st.entailsEQ(x.len) {
				bad(path)
			}
		}
	}
}

// emptyMap: every entry added was removed again.
func (o *Obj) emptyMap() bool {
	if !o.closed || o.opened || len(o.alts) > 0 {
		return false
	}
	live := map[string]bool{}
	for _, e := range o.ents {
		if e.del {
			delete(live, vkey(e.key))
		} else {
			live[vkey(e.key)] = true
		}
	}
	return len(live) == 0
}

func (an *Analysis) poolPut(fr *Frame, st *State, in ssa.Instruction, args []Val) []sv {
	x, ok := args[1].(VIface)
	if !ok {
		return one(st, VNil{})
	}
	p, ok := x.v.(VPtr)
	if !ok {
		if s, ok := x.v.(VSlice); ok && s.obj != 0 {
			m := st.mut(s.obj)
			m.released, m.pooled = true, true
		}
		return one(st, VNil{})
	}
	o := st.heap[p.obj]
	for _, p := range []string{"C10", "C11", "C20"} {
		an.ob(p, "an object is released once", fr, in, !o.released, func() string { return o.name + " is put back twice" })
	}
	an.checkPoolCells(st, o, typeKey(o.typ))
	// nothing of the call's input or result stays behind
	for _, id := range st.reach([]Val{p}, func(y *Obj) bool { return y.global == "" }) {
		y := st.heap[id]
		if y.id == o.id {
			continue
		}
		if y.input || y.argMem {
			an.ob("C20", "released state keeps no reference to the call's input", fr, in, false, func() string { return o.name + " still refers to " + y.name })
		}
		if y.cells["$copyof"] != nil && an.decoding {
			an.ob("C20", "released state keeps no reference to the call's input", fr, in, false, func() string { return o.name + " still refers to the copy of the input" })
		}
	}
	an.ob("C20", "released state keeps no reference to the call's input", fr, in, true, nil)
	m := st.mut(o.id)
	m.released = true
	for _, id := range st.reach([]Val{p}, func(y *Obj) bool { return y.global == "" }) {
		if y := st.heap[id]; (y.kind == oBytes || y.kind == oMap) && !y.input && !y.argMem {
			st.mut(id).released = true
		}
	}
	return one(st, VNil{})
}

func (an *Analysis) mapsCall(fr *Frame, st *State, in ssa.Instruction, name string, args []Val) []sv {
	src, ok := args[len(args)-1].(VMap)
	if !ok {
		if _, isNil := args[len(args)-1].(VNil); isNil {
			return one(st, VNil{})
		}
		panic(undecided{"maps." + name})
	}
	so := st.heap[src.obj]
	if name == "Clone" {
		d := st.newObj(oMap, so.typ, an.objName(fr, in))
		d.ents, d.alts, d.closed, d.opened, d.codecRel = so.ents, so.alts, so.closed, so.opened, so.codecRel
		return one(st, VMap{d.id})
	}
	dst, ok := args[0].(VMap)
	if !ok {
		panic(undecided{"maps.Copy"})
	}
	d := st.mut(dst.obj)
	d.ents = append(append([]MapEnt(nil), d.ents...), so.ents...)
	*d = *joinContents(st, d, so)
	if !so.closed {
		d.closed, d.opened = false, true
		d.codecRel = so.codecRel
	}
	return one(st, VNil{})
}
