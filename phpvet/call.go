package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callArgs evaluates the operands of a call.
func (an *Analysis) callArgs(fl *flow, c *ssa.CallCommon) (Val, []Val) {
	fn := an.val(fl, c.Value)
	var args []Val
	for _, a := range c.Args {
		args = append(args, an.val(fl, a))
	}
	return fn, args
}

func tupleOf(vs ...Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return VTuple{vs}
}

// callValue interprets a call.
func (an *Analysis) callValue(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, fn Val, args []Val) []sv {
	an.tick()
	if c.IsInvoke() {
		return an.invoke(fr, st, in, c, fn, args)
	}
	switch f := fn.(type) {
	case VBuiltin:
		return an.builtin(fr, st, in, c, f.b.Name(), args)
	case VFunc:
		if r, ok := an.nestedEncoder(fr, st, in, c, f, args); ok {
			return r
		}
		return an.callFunc(fr, st, in, f.fn, args, f.bind)
	case VCodec:
		return an.encodeContract(fr, st, in, f.typ, args, c.Signature())
	case VNil:
		an.ob(an.nilProp(), "function value is not nil when called", fr, in, false, func() string { return "call of a nil function" })
		return nil
	case VDyn:
		// a callback of unknown origin
		return an.opaqueCall(fr, st, in, "callback", c.Signature(), append([]Val{fn}, args...))
	}
	panic(undecided{fmt.Sprintf("call of %T in %s", fn, fr.fn)})
}

func (an *Analysis) invoke(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, recv Val, args []Val) []sv {
	name := c.Method.Name()
	switch r := recv.(type) {
	case VIface:
		m := an.prog.LookupMethod(r.typ, c.Method.Pkg(), name)
		if m == nil {
			panic(undecided{fmt.Sprintf("method %s of %s", name, r.typ)})
		}
		return an.callFunc(fr, st, in, m, append([]Val{r.v}, args...), nil)
	case VCodec:
		if !r.enc {
			roles, ok := decodeSig(c.Signature())
			if ok {
				return an.decodeContract(fr, st, in, r, nil, roles, args)
			}
		}
	case VType:
		if r.nilOf != nil {
			z := nilSym(r.nilOf)
			isn := st.domOf(z) != setOf(0)
			an.ob(an.nilProp(), "reflect.Type is not nil where a method is called", fr, in, !isn, func() string { return "method " + name + " of a nil reflect.Type" })
			if !st.assume(csym(z).neg()) {
				return nil
			}
		}
		return an.typeMethod(fr, st, in, name, r, args, c.Signature())
	case VDyn:
		if isErrorType(c.Value.Type()) || name == "Error" || name == "String" {
			return one(st, an.unknownOf(st, types.Typ[types.String], freshTerm("errtext")))
		}
		return an.userCall(fr, st, in, name, r, args, c.Signature())
	case VNil:
		an.ob(an.nilProp(), "interface is not nil where a method is called", fr, in, false, func() string { return "method " + name + " called on a nil interface" })
		return nil
	}
	panic(undecided{fmt.Sprintf("method %s called on %T (%s) in %s", name, recv, vkey(recv), fr.fn)})
}

func (an *Analysis) onStack(fr *Frame, fn *ssa.Function) int {
	n := 0
	for f := fr; f != nil; f = f.caller {
		if f.fn == fn {
			n++
		}
	}
	return n
}

// callFunc interprets a call of a known function.
func (an *Analysis) callFunc(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args, bind []Val) []sv {
	if len(fn.Blocks) == 0 || !an.isOwn(fn) && !ownWrapper(an, fn) {
		return an.stdCall(fr, st, in, fn, args)
	}
	switch an.role[fn] {
	case roleScan:
		return an.scanContract(fr, st, in, fn, args)
	case roleDecode:
		roles, ok := decodeSig(fn.Signature)
		if ok {
			return an.decodeContract(fr, st, in, nil, &decTarget{fn, args[0]}, roles, args[1:])
		}
	case roleCompile:
		return an.compileContract(fr, st, in, fn, args)
	case roleDigest:
		if r, ok := an.digestCall(fr, st, in, fn, args); ok {
			return r
		}
	case roleDigits:
		if r, ok := an.digitsCall(fr, st, in, fn, args); ok {
			return r
		}
	}
	if an.root != nil && an.root.kind == rkDecode && fn.Signature.Recv() != nil {
		// a leaf decoder applied to a nested value is followed here, and judged as a codec of its own
		if roles, ok := decodeSig(fn.Signature); ok {
			if rv, isRV := args[1+roles.rv].(VRV); isRV && rv.id != an.root.dst && !an.passesOn(fr, rv) {
				an.registerDecode(st, fn, args[0], rv.typ, "", true)
			}
		}
	}
	if n := an.onStack(fr, fn); n > 0 {
		if isEncoderSig(fn.Signature) {
			return an.encodeRecursive(fr, st, in, fn, args)
		}
		if n <= 4 && !hasLoop(fn) {
			pre := st.clone()
			exits := an.execFn(st, fn, args, bind, fr, in)
			return an.mergeExits(fr, in, fn, pre, exits, args)
		}
		panic(undecided{fmt.Sprintf("unbounded recursion of %s", fn)})
	}
	if r, ok := an.pureFieldCall(fr, st, in, fn, args); ok {
		return r
	}
	if r, ok := an.callEncoder(fr, st, in, fn, args, bind); ok {
		return r
	}
	pre := st.clone()
	exits := an.execFn(st, fn, args, bind, fr, in)
	return an.mergeExits(fr, in, fn, pre, exits, args)
}

// passesOn: the value is already being decoded by a caller that was judged for it.
func (an *Analysis) passesOn(fr *Frame, rv VRV) bool {
	for f := fr; f != nil && f.caller != nil; f = f.caller {
		if roles, ok := decodeSig(f.fn.Signature); ok && f.fn.Signature.Recv() != nil {
			if v, ok := f.args[1+roles.rv].(VRV); ok && v.id == rv.id {
				return true
			}
		}
	}
	return false
}

func ownWrapper(an *Analysis, fn *ssa.Function) bool {
	if fn.Synthetic == "" {
		return false
	}
	o := fn.Object()
	return o != nil && o.Pkg() != nil && an.own[o.Pkg()]
}

// definiteError reports that an exit certainly returns a non-nil error.
func (an *Analysis) definiteError(fn *ssa.Function, e *Exit) bool {
	rs := fn.Signature.Results()
	if rs.Len() == 0 || len(e.rets) != rs.Len() || !isErrorType(rs.At(rs.Len()-1).Type()) {
		return false
	}
	return an.errState(e.st, e.rets[len(e.rets)-1]) == 1
}

// errState: 1 certainly an error, 0 certainly nil, -1 unknown.
func (an *Analysis) errState(st *State, v Val) int {
	c, ok := an.isNil(st, v)
	if !ok {
		return -1
	}
	switch st.decide(c) {
	case 1:
		return 0
	case 0:
		return 1
	}
	return -1
}

const maxExits = 8

var debugJoin = os.Getenv("PV_JOIN") != ""

func (an *Analysis) mergeExits(fr *Frame, in ssa.Instruction, fn *ssa.Function, pre *State, exits []Exit, args []Val) []sv {
	var errs []Exit
	var res []sv
	errGroups := map[string][]Exit{}
	for i := range exits {
		e := exits[i]
		if e.panic || e.st.dead {
			continue
		}
		if an.definiteError(fn, &e) {
			k := e.st.ghostKey()
			if _, ok := errGroups[k]; !ok {
				errs = append(errs, e)
			}
			errGroups[k] = append(errGroups[k], e)
			continue
		}
		res = append(res, sv{e.st, an.packRets(e.rets)})
	}
	for _, e := range errs {
		g := errGroups[e.st.ghostKey()]
		if len(g) == 1 {
			res = append(res, sv{e.st, an.packRets(e.rets)})
			continue
		}
		st := an.mergeErrors(pre, g)
		var rets []Val
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len()-1; i++ {
			same := true
			for _, x := range g[1:] {
				if vkey(x.rets[i]) != vkey(g[0].rets[i]) {
					same = false
				}
			}
			if same && !refersNew(g[0].rets[i], pre) {
				rets = append(rets, g[0].rets[i])
			} else if v := firstBytes(rs.At(i).Type(), g, i); v != nil {
				rets = append(rets, v)
			} else {
				rets = append(rets, an.freshOf(st, rs.At(i).Type()))
			}
		}
		rets = append(rets, VDyn{t: freshTerm("err"), nonnl: true, err: st.pending})
		res = append(res, sv{st, an.packRets(rets)})
	}
	limit := maxExits
	if an.root != nil && an.root.kind == rkCompile {
		limit = 128 // what has been built so far differs between the ways
	}
	if an.root != nil && an.root.kind == rkFields {
		limit = 4000
	}
	if n := len(res); n > limit {
		fine := an.joinResults(pre, fn.Signature.Results(), res, args, true)
		if len(fine) <= limit {
			return fine
		}
		res = an.joinResults(pre, fn.Signature.Results(), fine, args, false)
	}
	return res
}

// firstBytes is the output that comes with an error, where there is one.
func firstBytes(t types.Type, g []Exit, i int) Val {
	if !isByteSlice(t) {
		return nil
	}
	for _, e := range g {
		if s, ok := e.rets[i].(VSlice); ok && s.obj != 0 {
			s.em = nil
			return s
		}
	}
	return nil
}

// refersNew: the value mentions objects that do not exist in the state.
func refersNew(v Val, pre *State) bool {
	bad := false
	objsIn(v, func(id ObjID) {
		if pre.heap[id] == nil {
			bad = true
		}
	})
	return bad
}

func (an *Analysis) freshOf(st *State, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Pointer:
		return VNil{} // results next to an error are not used; nil keeps misuse visible
	}
	return an.unknownOf(st, t, freshTerm("res"))
}

func (an *Analysis) packRets(rets []Val) Val {
	if len(rets) == 1 {
		return rets[0]
	}
	return VTuple{rets}
}

// ghostKey distinguishes states that must not be merged.
func (s *State) ghostKey() string {
	return s.encGhostKey()
}

// mergeErrors joins error exits: facts known before the call, memory that no exit changed.
func (an *Analysis) mergeErrors(pre *State, g []Exit) *State {
	st := pre.clone()
	st.pending, st.locks = g[0].st.pending, g[0].st.locks
	for _, e := range g {
		if st.pending == "" {
			st.pending = e.st.pending
		}
	}
	for id := range pre.heap {
		same := true
		for _, e := range g {
			if e.st.heap[id] != g[0].st.heap[id] {
				same = false
			}
		}
		if same {
			st.heap[id] = g[0].st.heap[id]
		} else {
			var os []*Obj
			for _, e := range g {
				os = append(os, e.st.heap[id])
			}
			st.heap[id] = joinObjs(st, os)
		}
	}
	// keep objects the kept cells refer to
	for _, e := range g {
		for id, o := range e.st.heap {
			if st.heap[id] == nil {
				st.heap[id] = o
			}
		}
	}
	return st
}

// joinObjs keeps the cells all versions agree on.
func joinObjs(st *State, os []*Obj) *Obj {
	n := *os[0]
	n.cells = map[string]Val{}
	for k, v := range os[0].cells {
		same := true
		for _, o := range os[1:] {
			if w, ok := o.cells[k]; !ok || vkey(w) != vkey(v) {
				same = false
			}
		}
		if same {
			n.cells[k] = v
		} else {
			n.cells[k] = joinUnknown(st, v)
		}
	}
	// alternatives: union
	seen := map[string]int{}
	n.alts = nil
	for _, o := range os {
		for _, a := range o.alts {
			if i, ok := seen[a.ckey]; ok {
				if n.alts[i] != a {
					n.alts[i] = n.alts[i].joinFacts(a)
				}
				continue
			}
			seen[a.ckey] = len(n.alts)
			n.alts = append(n.alts, a)
		}
		n.closed = n.closed && o.closed
		n.released = n.released || o.released
		n.published = n.published || o.published
	}
	if n.tid != nil && n.tid.op == "ctxmap" {
		// what is entered in any version stays
		have := map[string]bool{}
		n.ents, n.missed = nil, nil
		for i, o := range os {
			for _, e := range liveEnts(o) {
				if k := vkey(e.key); !have[k] {
					have[k] = true
					n.ents = append(n.ents, e)
				}
			}
			for _, m := range o.missed {
				if i == 0 {
					n.missed = append(n.missed, m)
				}
			}
		}
		var keep []string
		for _, m := range n.missed {
			all := true
			for _, o := range os[1:] {
				has := false
				for _, x := range o.missed {
					has = has || x == m
				}
				all = all && has
			}
			if all {
				keep = append(keep, m)
			}
		}
		n.missed = keep
		return &n
	}
	// entries: keep the common prefix
	k := len(os[0].ents)
	for _, o := range os[1:] {
		i := 0
		for i < k && i < len(o.ents) && vkey(o.ents[i].key) == vkey(os[0].ents[i].key) && vkey(o.ents[i].val) == vkey(os[0].ents[i].val) && o.ents[i].del == os[0].ents[i].del {
			i++
		}
		k = i
	}
	for _, o := range os {
		if len(o.ents) > k {
			n.opened = true
		}
	}
	n.ents = os[0].ents[:k:k]
	m := len(os[0].missed)
	for _, o := range os[1:] {
		i := 0
		for i < m && i < len(o.missed) && o.missed[i] == os[0].missed[i] {
			i++
		}
		m = i
	}
	n.missed = os[0].missed[:m:m]
	return &n
}

// joinUnknown is a fresh value of the same sort as v.
func joinUnknown(st *State, v Val) Val {
	t := freshTerm("join")
	switch x := v.(type) {
	case VInt:
		lo, hi, ok := st.bound(x.l)
		if !ok || lo.sign() >= 0 {
			lo = minI64
		}
		_ = hi
		return VInt{lsym(newSym("join", minI64, maxU64))}
	case VBool:
		return VBool{csym(finForTerm(t, boolSet))}
	case VStr:
		return VStr{t: t, len: lsym(newSym("len", n0, maxLenN))}
	case VRV:
		if x.inv {
			return x
		}
		return VRV{typ: x.typ, id: t, set: x.set}
	case VSlice:
		o := st.newObj(oBytes, nil, "joined slice")
		if old := st.heap[x.obj]; old != nil {
			o.kind, o.typ = old.kind, old.typ
			o.pooled, o.argMem, o.input, o.fresh = old.pooled, old.argMem, old.input, old.fresh
		}
		l, c := newSym("len", n0, maxLenN), newSym("cap", n0, maxLenN)
		st.le = append(st.le, lsym(l).sub(lsym(c)))
		return VSlice{obj: o.id, len: lsym(l), cap: lsym(c)}
	}
	return VDyn{t: t}
}

// joinResults merges many success results of one call into one; with fine set, only those that
// wrote the same values.
func (an *Analysis) joinResults(pre *State, rs *types.Tuple, res []sv, args []Val, fine bool) []sv {
	groups := map[string][]sv{}
	var order []string
	vals := func(v Val) []Val {
		if t, ok := v.(VTuple); ok && rs.Len() != 1 {
			return t.v
		}
		return []Val{v}
	}
	for _, r := range res {
		var b strings.Builder
		b.WriteString(r.st.ghostKey() + r.st.pending + "|" + r.st.lossy)
		for _, e := range r.st.effects {
			b.WriteString("|" + e.kind + "@" + e.pos)
			if e.rv != nil {
				b.WriteString(e.rv.key)
			}
		}
		if rt := an.root; rt != nil && rt.input != 0 {
			b.WriteString("|" + r.st.byteSet(rt.input, lsym(rt.c0)).bytesString())
			for _, a := range args {
				if x, ok := a.(VInt); ok && !x.l.isConst() && !x.l.eq(lsym(rt.c0)) {
					b.WriteString("|" + r.st.byteSet(rt.input, x.l).bytesString())
				}
			}
		}
		for _, v := range vals(r.val) {
			b.WriteString("|" + shapeKey(v))
			if fine && an.root != nil && an.root.kind == rkCompile {
				b.WriteString(decided(r.st, v))
			}
			if s, ok := v.(VSlice); ok && s.em != nil {
				null := false
				for _, i := range s.em.items {
					if i.t == nil {
						continue
					}
					null = null || i.k == 'V' && i.t.op == "nullval"
					if fine {
						b.WriteString("|" + i.t.key)
						if i.t.op == "lit" || i.t.op == "dval" {
							b.WriteString(classFacts(r.st))
						}
					}
				}
				if null {
					b.WriteString(nilFacts(r.st))
				}
			}
		}
		b.WriteString(r.st.ifaceKey())
		k := b.String()
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], r)
	}
	var out []sv
	for _, k := range order {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		var sts []*State
		var leaves [][]Val
		if debugJoin {
			for _, r := range g {
				fmt.Fprintln(os.Stderr, "JOIN", vkey(r.val))
			}
		}
		for _, r := range g {
			sts = append(sts, r.st)
			leaves = append(leaves, vals(r.val))
		}
		st, vs := an.joinStates(pre, sts, leaves, args)
		out = append(out, sv{st, an.packRets(vs)})
	}
	return out
}

// decided lists the truth values inside a value that are known.
func decided(st *State, v Val) string {
	switch x := v.(type) {
	case VBool:
		return fmt.Sprint(st.decide(x.c))
	case VStruct:
		r := "{"
		for _, f := range x.f {
			r += decided(st, f)
		}
		return r + "}"
	}
	return "."
}

// classFacts lists what kind of number floats are, and which truth values are known.
func classFacts(st *State) string {
	var fs []string
	for y, d := range st.dom {
		if t := symtab[y].term; t != nil && (t.op == "fclass" && d == setOf(1) || t.op == "boolof" && d.count() == 1) {
			fs = append(fs, fmt.Sprintf("%s=%x", t.key, d[0]))
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, ",")
}

// nilFacts lists the values that are nil.
func nilFacts(st *State) string {
	var fs []string
	for y, d := range st.dom {
		if t := symtab[y].term; t != nil && t.op == "isnil" && d == setOf(1) {
			fs = append(fs, t.key)
		}
	}
	sort.Strings(fs)
	return strings.Join(fs, ",")
}

// shapeKey is the sort of a value without its numbers.
func shapeKey(v Val) string {
	switch x := v.(type) {
	case VInt:
		return "i"
	case VBool:
		return "b"
	case VSlice:
		k := fmt.Sprintf("S%d", x.obj)
		if x.em != nil {
			for _, i := range x.em.items {
				k += string(i.k)
				if i.k == 'X' {
					k += i.key()
				}
				if i.k == 'Q' {
					k += fmt.Sprint(i.keys, i.key1)
				}
				if i.k == 'B' {
					k += i.s
				}
				if i.k == 'V' && i.t != nil {
					k += i.t.op
				}
			}
		}
		return k
	case VStr:
		return "s"
	case VStruct:
		var p []string
		for _, f := range x.f {
			p = append(p, shapeKey(f))
		}
		return "{" + strings.Join(p, ";") + "}"
	case VIface:
		return "I" + typeKey(x.typ) + shapeKey(x.v)
	}
	return vkey(v)
}

// joinStates builds one state that covers several.
func (an *Analysis) joinStates(pre *State, sts []*State, leaves [][]Val, args []Val) (*State, []Val) {
	st := pre.clone()
	st.pending, st.lossy, st.locks = sts[0].pending, sts[0].lossy, sts[0].locks
	st.effects = append([]Effect(nil), sts[0].effects...)
	for i := range st.effects {
		for _, s := range sts[1:] {
			if a, b := st.effects[i].arg, s.effects[i].arg; a != nil && (b == nil || vkey(a) != vkey(b)) {
				st.effects[i].arg = joinArgs(st, a, b)
			}
		}
	}
	st.trace = sts[0].trace
	var out []Val
	type pair struct {
		g    Sym
		each []Lin
	}
	var gens []pair
	var gen func(vs []Val) Val
	gen = func(vs []Val) Val {
		same := true
		for _, v := range vs[1:] {
			if vkey(v) != vkey(vs[0]) {
				same = false
			}
		}
		if same {
			return vs[0]
		}
		lin := func(f func(Val) Lin) Lin {
			p := pair{g: newSym("j", minI64, maxU64)}
			eq := true
			for _, v := range vs {
				p.each = append(p.each, f(v))
				if !p.each[0].eq(p.each[len(p.each)-1]) {
					eq = false
				}
			}
			if eq {
				return p.each[0]
			}
			gens = append(gens, p)
			return lsym(p.g)
		}
		switch x := vs[0].(type) {
		case VInt:
			return VInt{lin(func(v Val) Lin { return v.(VInt).l })}
		case VBool:
			return VBool{csym(newFin("j", boolSet))}
		case VSlice:
			r := x
			r.off = lin(func(v Val) Lin { return v.(VSlice).off })
			r.len = lin(func(v Val) Lin { return v.(VSlice).len })
			r.cap = lin(func(v Val) Lin { return v.(VSlice).cap })
			if x.em != nil {
				em := &Emit{}
				for j := range x.em.items {
					it := x.em.items[j]
					at := func(v Val) Item { return v.(VSlice).em.items[j] }
					for _, v := range vs {
						o := at(v)
						if o.t != it.t {
							it.t = nil
						}
						it.tags = it.tags.or(o.tags)
						it.keys = it.keys && o.keys
					}
					if it.k == 'I' || it.k == 'O' || it.k == 'Q' {
						it.l = lin(func(v Val) Lin { return at(v).l })
					}
					it.len = lin(func(v Val) Lin { return at(v).len })
					em.items = append(em.items, it)
				}
				r.em = em
			}
			nn := int8(0)
			for _, v := range vs {
				if v.(VSlice).nilness != 0 {
					nn = 2
				}
			}
			if nn == 2 {
				r.nilness, r.nilSym = 2, newFin("jn", boolSet)
			}
			return r
		case VStr:
			return VStr{t: freshTerm("j"), len: lin(func(v Val) Lin { return v.(VStr).len })}
		case VStruct:
			r := VStruct{typ: x.typ}
			for i := range x.f {
				var fs []Val
				for _, v := range vs {
					fs = append(fs, v.(VStruct).f[i])
				}
				r.f = append(r.f, gen(fs))
			}
			return r
		case VIface:
			var fs []Val
			for _, v := range vs {
				fs = append(fs, v.(VIface).v)
			}
			return VIface{x.typ, gen(fs)}
		}
		return joinUnknown(st, vs[0])
	}
	for i := range leaves[0] {
		var vs []Val
		for _, l := range leaves {
			vs = append(vs, l[i])
		}
		out = append(out, gen(vs))
	}
	// objects
	ids := map[ObjID]bool{}
	for _, s := range sts {
		for id := range s.heap {
			ids[id] = true
		}
	}
	var idl []int
	for id := range ids {
		idl = append(idl, int(id))
	}
	sort.Ints(idl)
	for _, i := range idl {
		id := ObjID(i)
		var os []*Obj
		same := true
		for _, s := range sts {
			if o := s.heap[id]; o != nil {
				if len(os) > 0 && os[0] != o {
					same = false
				}
				os = append(os, o)
			}
		}
		if same {
			st.heap[id] = os[0]
		} else {
			st.heap[id] = joinObjs(st, os)
		}
	}
	// facts: bind the generalised symbols in every state, keep what all entail
	var with []*State
	for k, s := range sts {
		c := s.clone()
		for _, p := range gens {
			c.eq = append(c.eq, lsym(p.g).sub(p.each[k]))
		}
		with = append(with, c)
	}
	all := func(l Lin) bool {
		for _, c := range with {
			if !c.entailsLE(l) {
				return false
			}
		}
		return true
	}
	var refs []Lin
	seen := map[string]bool{}
	addRef := func(l Lin) {
		if k := l.coefKey(); !seen[k] && len(l.m) > 0 {
			seen[k] = true
			refs = append(refs, Lin{m: l.m})
		}
	}
	for _, p := range gens {
		for _, e := range p.each {
			if len(e.m) <= 1 {
				addRef(e)
			}
		}
	}
	for _, v := range an.refLens(pre) {
		addRef(v)
	}
	for _, vs := range leaves {
		for _, v := range vs {
			if s, ok := v.(VSlice); ok && s.em != nil {
				for _, i := range s.em.items {
					if i.k == 'O' {
						if two, ok := (Lin{}).addScaled(i.l, 2); ok {
							addRef(two)
						}
					}
				}
			}
		}
	}
	for _, l := range sts[0].le {
		if all(l) {
			st.le = append(st.le, l)
		}
	}
	for i, p := range gens {
		for _, q := range gens[:i] {
			refs = append(refs, lsym(q.g))
		}
		g := lsym(p.g)
		cands := []Lin{g.neg(), g.neg().addK(1), g.addN(maxI64.neg()), g.neg().addN(minI64)}
		for _, r := range refs {
			for _, k := range []int64{-2, -1, 0, 1, 2} {
				cands = append(cands, g.sub(r).addK(k), r.sub(g).addK(k))
			}
		}
		for _, c := range cands {
			if all(c) {
				st.le = append(st.le, c)
			}
		}
	}
	// finite symbols
	for y, d := range sts[0].dom {
		u := d
		ok := true
		for _, s := range sts[1:] {
			e, has := s.dom[y]
			if !has {
				ok = false
				break
			}
			u = u.or(e)
		}
		if ok {
			st.dom[y] = u
		}
	}
	for _, b := range sts[0].bytes {
		y := b.s
		u := sts[0].domOf(y)
		ok := true
		for _, s := range sts[1:] {
			f, has := s.findByte(b.obj, b.pos)
			if !has {
				ok = false
				break
			}
			u = u.or(s.domOf(f))
		}
		if ok {
			if _, has := st.findByte(b.obj, b.pos); !has {
				ny := newFin("byte", fullSet)
				st.dom[ny] = u
				st.bytes = append(st.bytes, ByteFact{b.obj, b.pos, ny})
			}
		}
	}
	// positions that are the end of a complete value in every state
	if rt := an.root; rt != nil && rt.input != 0 {
		starts := []Lin{lsym(rt.c0)}
		for _, a := range args {
			if x, ok := a.(VInt); ok && !x.l.isConst() && !x.l.eq(starts[0]) {
				starts = append(starts, x.l)
			}
		}
		var cands []endPos
		for _, p := range gens {
			cands = append(cands, endPos{lsym(p.g), p.each})
		}
		for i := range leaves[0] {
			if x, ok := out[i].(VInt); ok && !x.l.isConst() {
				same := true
				e := endPos{pos: x.l}
				for _, l := range leaves {
					y, ok := l[i].(VInt)
					same = same && ok && y.l.eq(x.l)
					e.each = append(e.each, x.l)
				}
				if same {
					cands = append(cands, e)
				}
			}
		}
		for _, from := range starts {
			if len(cands) == 0 {
				break
			}
			var ends []Lin
			for _, s := range sts {
				hi, why := s.clone().recog(rt.input, from)
				if why != "" {
					break
				}
				ends = append(ends, hi)
			}
			if len(ends) != len(sts) {
				an.joinSeqs(st, sts, rt.input, from, cands)
				continue
			}
			spanned := false
			for _, p := range cands {
				ok := true
				for k, s := range sts {
					ok = ok && s.entailsEQ(ends[k].sub(p.each[k]))
				}
				if ok {
					y := st.byteAt(rt.input, from)
					st.spans = append(st.spans, SpanFact{rt.input, from, p.pos, y})
					spanned = true
					break
				}
			}
			if !spanned {
				an.joinSeqs(st, sts, rt.input, from, cands)
			}
		}
	}
	for _, sp := range sts[0].spans {
		ok := true
		for _, s := range sts[1:] {
			hit := false
			for _, o := range s.spans {
				if o.obj == sp.obj && o.lo.eq(sp.lo) && o.hi.eq(sp.hi) {
					hit = true
				}
			}
			ok = ok && hit
		}
		if ok {
			st.spans = append(st.spans, sp)
		}
	}
	return st, out
}

// endPos is a position in the joined state and in each of the states.
type endPos struct {
	pos  Lin
	each []Lin
}

// joinSeqs keeps that complete values lie between two positions in every state.
func (an *Analysis) joinSeqs(st *State, sts []*State, obj ObjID, from Lin, cands []endPos) {
	for _, p := range cands {
		par := -1
		for k, s := range sts {
			q := -1
			if !s.entailsEQ(p.each[k].sub(from)) {
				if n, ok := s.clone().seqPath(obj, from, p.each[k], 0); ok {
					q = n
				}
			}
			if q < 0 || par >= 0 && par != q {
				par = -1
				break
			}
			par = q
		}
		if par >= 0 {
			st.seqs = append(st.seqs, SeqFact{obj, from, p.pos, par})
			return
		}
	}
}

// refLens lists the lengths of the input objects of the analysed root.
func (an *Analysis) refLens(st *State) []Lin {
	if an.root != nil && an.root.n0 != nil {
		return []Lin{*an.root.n0, lsym(an.root.c0)}
	}
	return nil
}

// ---- builtins ----

func (an *Analysis) builtin(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, name string, args []Val) []sv {
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case VSlice:
			if name == "len" {
				return one(st, VInt{x.len})
			}
			return one(st, VInt{x.cap})
		case VStr:
			return one(st, VInt{x.len})
		case VNil:
			return one(st, intv(0))
		case VMap:
			an.access(fr, st, in, st.heap[x.obj], "", false)
			y := newSym("maplen", n0, maxLenN)
			return one(st, VInt{lsym(y)})
		case VArr:
			return one(st, intv(x.typ.Len()))
		case VPtr:
			if at, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return one(st, intv(at.Len()))
			}
		}
	case "min", "max":
		r := []sv{{st, args[0]}}
		for _, b := range args[1:] {
			var next []sv
			for _, s := range r {
				x, ok1 := s.val.(VInt)
				y, ok2 := b.(VInt)
				if !ok1 || !ok2 {
					next = append(next, sv{s.st, VOpaque{Tstr("minmax", name, valTerm(s.val), valTerm(b))}})
					continue
				}
				c := cle(x.l.sub(y.l))
				if name == "max" {
					c = cle(y.l.sub(x.l))
				}
				cc := an.cmp(s.st, c.l, cLE)
				t := s.st.clone()
				if t.assume(cc) {
					next = append(next, sv{t, x})
				}
				if s.st.assume(cc.neg()) {
					next = append(next, sv{s.st, y})
				}
			}
			r = next
		}
		return r
	case "append":
		return an.appendCall(fr, st, in, c, args)
	case "copy":
		return an.copyCall(fr, st, in, args)
	case "delete":
		an.mapDelete(fr, st, in, args[0], args[1])
		return one(st, VNil{})
	case "clear":
		if m, ok := args[0].(VMap); ok {
			o := st.mut(m.obj)
			an.writesPublished(fr, st, in, o, "", "a published cache map is never written", "clearing of")
			o.ents, o.alts, o.closed, o.opened = nil, nil, true, false
			o.ext = false
			return one(st, VNil{})
		}
	case "SliceData":
		if s, ok := args[0].(VSlice); ok {
			l := s.off
			return one(st, VPtr{obj: s.obj, idx: &l})
		}
		return one(st, args[0])
	case "String":
		if p, ok := args[0].(VPtr); ok && p.idx != nil {
			if l, ok := args[1].(VInt); ok {
				return one(st, VStr{obj: p.obj, off: *p.idx, len: l.l, alias: true})
			}
		}
		if _, ok := args[0].(VNil); ok {
			return one(st, constStr(""))
		}
	case "StringData":
		if s, ok := args[0].(VStr); ok && s.obj != 0 {
			l := s.off
			return one(st, VPtr{obj: s.obj, idx: &l})
		}
	case "Slice":
		if p, ok := args[0].(VPtr); ok && p.idx != nil {
			if l, ok := args[1].(VInt); ok {
				return one(st, VSlice{obj: p.obj, off: *p.idx, len: l.l, cap: l.l})
			}
		}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "print", "println":
		return one(st, VNil{})
	case "recover":
		return one(st, VNil{})
	}
	panic(undecided{fmt.Sprintf("builtin %s in %s", name, fr.fn)})
}

func (an *Analysis) copyCall(fr *Frame, st *State, in ssa.Instruction, args []Val) []sv {
	d, ok := an.asSlice(st, args[0])
	if !ok {
		panic(undecided{"copy to unknown slice"})
	}
	var sl Lin
	if dobj := st.heap[d.obj]; dobj != nil && (dobj.cells["$str"] != nil || dobj.cells["$copyof"] != nil) {
		m := st.mut(d.obj)
		delete(m.cells, "$str")
		delete(m.cells, "$copyof")
	}
	switch s := args[1].(type) {
	case VSlice:
		sl = s.len
		an.readSlice(fr, st, in, s)
		if d.obj != 0 && st.heap[d.obj].kind == oColl {
			st.heap[d.obj] = joinContents(st, st.heap[d.obj], st.heap[s.obj])
		}
	case VStr:
		sl = s.len
	case VNil:
		return one(st, intv(0))
	default:
		panic(undecided{"copy from unknown slice"})
	}
	an.writeSlice(fr, st, in, d)
	if dobj := st.heap[d.obj]; dobj != nil && dobj.kind == oBytes {
		// a full copy of the input has the contents of the input
		if s, ok := args[1].(VSlice); ok && st.heap[s.obj] != nil && st.entailsEQ(d.len.sub(s.len)) && d.off.isConst() && d.off.k.sign() == 0 && dobj.fresh {
			m := st.mut(d.obj)
			m.cells["$copyof"] = s
		}
	}
	c := cle(d.len.sub(sl))
	a := st.clone()
	var res []sv
	if a.assume(an.cmp(a, c.l, cLE)) {
		res = append(res, sv{a, VInt{d.len}})
	}
	if st.assume(an.cmp(st, c.l, cLE).neg()) {
		res = append(res, sv{st, VInt{sl}})
	}
	return res
}

func joinContents(st *State, d, s *Obj) *Obj {
	n := *d
	n.alts = append([]*Alt(nil), d.alts...)
	for _, a := range s.alts {
		dup := false
		for i, b := range n.alts {
			if b.ckey == a.ckey {
				n.alts[i] = b.joinFacts(a)
				dup = true
			}
		}
		if !dup {
			n.alts = append(n.alts, a)
		}
	}
	n.closed = d.closed && s.closed
	return &n
}

// writeSlice checks a write into the memory of a slice.
func (an *Analysis) writeSlice(fr *Frame, st *State, in ssa.Instruction, d VSlice) {
	o := st.heap[d.obj]
	if o == nil {
		return
	}
	if o.input {
		an.ob("C09", "the input is never written", fr, in, false, func() string { return "write into the bytes being decoded" })
	}
	if o.argMem {
		an.ob("C26", "memory of the encoded value is never written", fr, in, false, func() string { return "write into memory of the value being encoded (" + o.name + ")" })
	}
	if o.released {
		for _, p := range []string{"C10", "C11"} {
			an.ob(p, "pooled object is not used after it was released", fr, in, false, func() string { return "write to " + o.name + " after Put" })
		}
	}
	an.writesPublished(fr, st, in, o, "", "a published codec is never written", "write to")
}

func (an *Analysis) appendCall(fr *Frame, st *State, in ssa.Instruction, c *ssa.CallCommon, args []Val) []sv {
	d, ok := an.asSlice(st, args[0])
	if !ok {
		panic(undecided{fmt.Sprintf("append to %T", args[0])})
	}
	var add Lin
	var src Val = args[1]
	switch s := src.(type) {
	case VSlice:
		add = s.len
	case VStr:
		add = s.len
	case VNil:
		return one(st, args[0])
	default:
		panic(undecided{fmt.Sprintf("append of %T in %s", src, fr.fn)})
	}
	t := c.Args[0].Type()
	if isByteSlice(t) {
		return an.appendBytes(fr, st, in, t, d, src, add)
	}
	// append to a slice of structures: collection semantics
	o := st.heap[d.obj]
	if d.obj != 0 {
		an.writeSlice(fr, st, in, d)
	}
	if o == nil || o.ext {
		n := st.newObj(oColl, t.Underlying().(*types.Slice).Elem(), an.objName(fr, in))
		n.closed = true
		if o != nil {
			n.alts, n.closed = o.alts, o.closed
			n.wm, n.wmObj = o.wm, o.wmObj
		}
		d.obj = n.id
	} else if o.kind == oCells {
		n := st.newObj(oColl, t.Underlying().(*types.Slice).Elem(), an.objName(fr, in))
		n.closed = true
		for _, e := range an.arrayElems(st, o, t.Underlying().(*types.Slice).Elem(), d) {
			an.addAlt(st, n.id, nil, e)
		}
		d.obj = n.id
	}
	if s, ok := src.(VSlice); ok && s.obj != 0 {
		so := st.heap[s.obj]
		if so.kind == oCells {
			for _, e := range an.arrayElems(st, so, t.Underlying().(*types.Slice).Elem(), s) {
				an.addAlt(st, d.obj, nil, e)
			}
		} else {
			st.heap[d.obj] = joinContents(st, st.mut(d.obj), so)
		}
	}
	d.len = d.len.add(add)
	d.off = lconst(0)
	d.cap = lsym(newSym("cap", n0, maxLenN))
	st.le = append(st.le, d.len.sub(d.cap))
	d.nilness = 0
	return one(st, d)
}

func (an *Analysis) arrayElems(st *State, o *Obj, elem types.Type, s VSlice) []Val {
	lo, ok1 := st.constOf(s.off)
	l, ok2 := st.constOf(s.len)
	if !ok1 || !ok2 || l > 64 {
		panic(undecided{"append of an array of unknown length"})
	}
	var vs []Val
	for i := lo; i < lo+l; i++ {
		vs = append(vs, st.loadCells(st.heap[o.id], fmt.Sprintf("[%d]", i), elem))
	}
	return vs
}

// ---- calls without a model ----

// opaqueCall is a call about which only purity in its arguments is assumed.
func (an *Analysis) opaqueCall(fr *Frame, st *State, in ssa.Instruction, name string, sig *types.Signature, args []Val) []sv {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, valTerm(a))
	}
	rs := sig.Results()
	if rs.Len() == 0 {
		return one(st, VNil{})
	}
	mk := func(s *State, i int) Val {
		return an.unknownOf(s, rs.At(i).Type(), Tstr("call", fmt.Sprintf("%s#%d", name, i), ts...))
	}
	n := rs.Len()
	if isErrorType(rs.At(n - 1).Type()) {
		ok := st.clone()
		var vs, es []Val
		for i := 0; i < n-1; i++ {
			vs = append(vs, mk(ok, i))
			es = append(es, an.unknownOf(st, rs.At(i).Type(), freshTerm("res")))
		}
		st.pending = firstOf(st.pending, name+" at "+an.pos(in))
		return []sv{{ok, an.packRets(append(vs, VNil{}))}, {st, an.packRets(append(es, an.newErr(st, in)))}}
	}
	var vs []Val
	for i := 0; i < n; i++ {
		vs = append(vs, mk(st, i))
	}
	return one(st, an.packRets(vs))
}

func firstOf(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func (an *Analysis) newErr(st *State, in ssa.Instruction) Val {
	return VDyn{t: freshTerm("err"), nonnl: true, err: an.pos(in)}
}

// pureFieldCall treats functions of a struct field in another package as uninterpreted.
func (an *Analysis) pureFieldCall(fr *Frame, st *State, in ssa.Instruction, fn *ssa.Function, args []Val) ([]sv, bool) {
	sig := fn.Signature
	if sig.Recv() != nil || sig.Params().Len() != 1 || !namedIs(sig.Params().At(0).Type(), "reflect", "StructField") || an.root == nil || an.root.inline {
		return nil, false
	}
	if fr.fn.Pkg == nil || fn.Pkg == nil || fr.fn.Pkg == fn.Pkg {
		return nil, false
	}
	f := valTerm(args[0])
	rs := sig.Results()
	if rs.Len() != 1 {
		return nil, false
	}
	if !an.reaches(fn, hasLoop) {
		return nil, false
	}
	an.register(func() {
		an.enqueue(&Root{kind: rkPure, side: sideCompile, name: fnShort(fn), key: "pure|" + fn.String(), fn: fn})
	})
	v := an.unknownOf(st, rs.At(0).Type(), Tstr("sf:"+fn.Name(), "", f))
	if an.root.kind == rkFields {
		an.parsedField(st, fn, v, f)
	}
	return one(st, v), true
}

func expSym(f *Term) Sym { return finForTerm(T("fexp", f), boolSet) }

var _ = token.NoPos

var hashableArg = VOpaque{T("hashable")}

// joinArgs keeps of two stored values that both can be hashed.
func joinArgs(st *State, a, b Val) Val {
	h := func(v Val) bool {
		switch x := v.(type) {
		case VRV:
			t := st.rt(x.typ)
			return t.op == "ty" && types.Comparable(t.typ) && !types.IsInterface(t.typ)
		case VOpaque:
			return x.t == hashableArg.t
		}
		return false
	}
	if h(a) && h(b) {
		return hashableArg
	}
	return nil
}

// ifaceKey tells states apart in which a type is an interface type from those in which it is not.
func (s *State) ifaceKey() string {
	var ks []string
	for y, d := range s.dom {
		if t := symtab[y].term; t != nil && t.op == "kind" && !t.hasFresh() {
			if d == kset(reflect.Interface) {
				ks = append(ks, t.key)
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
