package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How codec construction treats the fields of structs: the codecs built for a struct type with a
// single field are compared between the two sides, for every such type at once.

var debugFields = os.Getenv("PV_FIELDS") != ""

// fieldRec is what a struct codec holds about a field: its key and the codec of its value.
type fieldRec struct {
	key   Val
	codec Val
}

// seenAs: the codec was found to be the given one.
type seenAs struct {
	codec string
	val   VIface
}

type fieldExit struct {
	fn   string
	pos  string
	st   *State
	recs []fieldRec
	tags Set // the type letters of the value, where it is a scalar
}

func (an *Analysis) runFieldsRoot(r *Root) {
	an.runRoot(r, func() {
		r.typ = Tstr("T", "")
		f := T("sf", r.typ, linTerm(lconst(0)))
		var sides [3][]fieldExit
		var fns []string
		for fn, role := range an.role {
			if role == roleCompile {
				fns = append(fns, fn.String())
			}
		}
		sort.Strings(fns)
		for _, nm := range fns {
			for fn := range an.role {
				if fn.String() != nm {
					continue
				}
				side := codecSort(fn.Signature.Results().At(0).Type())
				for _, e := range an.fieldExits(r, fn.String(), f) {
					sides[side] = append(sides[side], e)
				}
			}
		}
		an.compareFields(r, f, sides)
		if debugFields {
			for i := 1; i <= 2; i++ {
				for _, e := range sides[i] {
					fmt.Fprintln(os.Stderr, "SIDE", i, e.fn, fieldFacts(e.st, f))
					for _, x := range e.recs {
						fmt.Fprintln(os.Stderr, "   ", vkey(x.key), "=>", vkey(x.codec))
					}
				}
			}
		}
	})
}

// fieldFacts lists what a state knows about the field.
func fieldFacts(st *State, f *Term) string {
	var ks []string
	for y, d := range st.dom {
		if t := symtab[y].term; t != nil && d != symtab[y].dom && strings.Contains(t.key, f.key) {
			s := fmt.Sprintf("%x", d)
			if strings.HasPrefix(t.key, "kind") {
				s = kindNames(d)
			}
			ks = append(ks, t.key+"="+s)
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n      ")
}

// fieldExits runs a compile function for a struct type with one field.
func (an *Analysis) fieldExits(r *Root, name string, f *Term) []fieldExit {
	var out []fieldExit
	for fn, role := range an.role {
		if role != roleCompile || fn.String() != name {
			continue
		}
		st := an.start(nil)
		pi := compileParam(fn)
		args := make([]Val, len(fn.Params))
		var memo ObjID
		for i, p := range fn.Params {
			switch {
			case i == pi:
				args[i] = VType{t: r.typ}
			case memoType(p.Type()) != nil && memo == 0:
				o := st.newObj(oMap, memoType(p.Type()), "memo of "+fn.Name())
				o.closed, o.codecRel = true, "self"
				memo = o.id
				args[i] = an.withMemo(st, p, VMap{o.id})
			case isReflectType(p.Type()):
				args[i] = VType{t: Tstr("T2", p.Name())}
			default:
				args[i] = an.unknownOf(st, p.Type(), Tstr("cparam", p.Name()))
			}
		}
		if !st.assume(an.kindCond(st, r.typ, kset(reflect.Struct))) || !st.addEQ(an.numField(st, r.typ).addK(-1)) {
			continue
		}
		for _, m := range []bool{false, true} {
			if it := an.customIface(m); it != nil {
				st.assume(an.implements(st, r.typ, it).neg())
				st.assume(an.implements(st, ptrTo(r.typ), it).neg())
			}
		}
		an.push()
		exits := an.execFn(st, fn, args, nil, nil, nil)
		an.drop()
		for _, e := range exits {
			if e.panic || e.st.dead || !e.st.feasible() {
				continue
			}
			es := e.st
			if len(e.rets) > 1 {
				switch an.errState(es, e.rets[len(e.rets)-1]) {
				case 1:
					continue
				case -1:
					es = es.clone()
					if c, ok := an.isNil(es, e.rets[len(e.rets)-1]); ok && !es.assume(c) {
						continue
					}
				}
			}
			x := fieldExit{fn: fn.String(), pos: an.fnPos(fn), st: es}
			if _, isC := e.rets[0].(VCodec); isC {
				continue // taken from the memo, or made elsewhere
			}
			w := &fieldWalk{an: an, st: es, f: f, seen: map[ObjID]bool{}}
			w.walk(e.rets[0], nil)
			x.recs = w.recs
			if debugFields {
				fmt.Fprintln(os.Stderr, "EXIT", fn, vkey(e.rets[0]), w.log)
			}
			out = append(out, x)
		}
	}
	return out
}

type fieldWalk struct {
	an   *Analysis
	st   *State
	f    *Term
	seen map[ObjID]bool
	recs []fieldRec
	log  []string
}

func (w *fieldWalk) walk(v Val, key Val) {
	switch x := v.(type) {
	case VIface:
		w.walk(x.v, key)
	case VFunc:
		for _, b := range x.bind {
			w.walk(b, key)
		}
	case VStruct:
		if w.record(x.f, key) {
			return
		}
		for _, f := range x.f {
			w.walk(f, key)
		}
	case VPtr:
		w.obj(x.obj, key)
	case VSlice:
		w.obj(x.obj, key)
	case VMap:
		w.obj(x.obj, key)
	}
}

func (w *fieldWalk) obj(id ObjID, key Val) {
	o := w.st.heap[id]
	if o == nil || w.seen[id] || o.global != "" {
		return
	}
	w.seen[id] = true
	w.log = append(w.log, fmt.Sprintf("obj %s kind %d cells %d alts %d ents %d", o.name, o.kind, len(o.cells), len(o.alts), len(o.ents)))
	var vs []Val
	for _, k := range sortedCells(o) {
		vs = append(vs, o.cells[k])
	}
	if structOf(o.typ) != nil && w.record(vs, key) {
		return
	}
	for _, v := range vs {
		w.walk(v, key)
	}
	for _, e := range o.ents {
		if !e.del {
			w.walk(e.val, e.key)
		}
	}
	for _, a := range o.alts {
		k, v := w.st.instantiate(a, nil)
		w.walk(v, k)
	}
}

// record: the parts are those of a field of the struct.
func (w *fieldWalk) record(vs []Val, key Val) bool {
	var codec Val
	var strs []Val
	for _, v := range vs {
		switch x := v.(type) {
		case VCodec:
			if strings.Contains(w.st.rt(x.typ).key, w.f.key) {
				codec = x
			}
		case VFunc:
			if _, ok := encSig(x.fn.Signature); ok {
				codec = x
			}
		case VIface:
			if w.an.decIface != nil && types.Implements(x.typ, w.an.decIface) {
				codec = x
			}
		case VStr:
			strs = append(strs, x)
		}
	}
	if codec == nil {
		return false
	}
	if key == nil && len(strs) == 1 {
		key = strs[0]
	}
	if key == nil {
		return false
	}
	w.recs = append(w.recs, fieldRec{key, codec})
	return true
}

var kScalars = kInts.or(kUints).or(kFloats).or(kset(reflect.Bool, reflect.String))

// compareFields: both sides treat the field in the same way, whatever it is.
func (an *Analysis) compareFields(r *Root, f *Term, sides [3][]fieldExit) {
	if len(sides[1]) == 0 || len(sides[2]) == 0 {
		panic(undecided{"codecs of structs with one field"})
	}
	conds := [3]map[string]bool{}
	for i := 1; i <= 2; i++ {
		conds[i] = map[string]bool{}
		some := false
		for k := range sides[i] {
			e := &sides[i][k]
			if len(e.recs) > 1 {
				panic(undecided{"more than one entry for a field in what " + e.fn + " builds"})
			}
			for _, c := range fieldConds(e.st, f) {
				conds[i][c] = true
			}
			if len(e.recs) == 0 {
				continue
			}
			some = true
			e.tags = an.fieldTags(r, e, f)
			an.obAt("C22", "only exported fields take part", e.fn, e.pos, e.st.domOf(expSym(f)) == setOf(1), func() string {
				return "a field that may be unexported takes part"
			})
			st := e.st.clone()
			emb := st.assume(csym(finForTerm(T("fanon", f), boolSet)))
			ft := an.ftype(f)
			if emb {
				ptr := st.clone()
				emb = st.assume(an.kindCond(st, ft, kset(reflect.Struct))) && st.feasible() ||
					ptr.assume(an.kindCond(ptr, ft, kset(reflect.Pointer))) && ptr.assume(an.kindCond(ptr, elemOf(ft), kset(reflect.Struct))) && ptr.feasible()
			}
			an.obAt("C22", "embedded structs are refused", e.fn, e.pos, !emb, func() string {
				return "a struct with an embedded struct field gets a codec"
			})
		}
		if !some {
			panic(undecided{"no entry for a field is recognised in what is built for structs"})
		}
	}
	other := []int{0, 2, 1}
	side := []string{"", "decoding", "encoding"}
	for _, e := range sides[2] {
		for _, d := range sides[1] {
			st := bothFields(e.st, d.st, f)
			if st == nil {
				continue
			}
			known := len(foreign(e.st, f, conds[1])) == 0 || len(foreign(d.st, f, conds[2])) == 0
			same := len(e.recs) == len(d.recs)
			if !same && !known {
				continue
			}
			an.obAt("C22", "a field takes part in both directions or in none", e.fn, e.pos, same, func() string {
				a, b := "encoded", "not decoded"
				if len(e.recs) == 0 {
					a, b = "not encoded", "decoded"
				}
				return "a field is " + a + " but " + b + ": " + fieldFacts(st, f)
			})
			if !same || len(e.recs) == 0 {
				continue
			}
			ok, sure := an.sameKey(st, e.recs[0].key, d.recs[0].key, f)
			if ok || sure {
				an.obAt("C22", "a field has the same key in both directions", e.fn, e.pos, ok, func() string {
					return fmt.Sprintf("the key written is %s, the key read is %s: %s", strTermOf(e.recs[0].key), strTermOf(d.recs[0].key), fieldFacts(st, f))
				})
			}
			x, y := e.tags.and(setBytes("N").not()), d.tags.and(setBytes("N").not())
			if x.empty() || y.empty() || !known && x != y {
				continue
			}
			an.obAt("C22", "a scalar field is quoted in both directions or in none", e.fn, e.pos, x == y, func() string {
				return fmt.Sprintf("a field is written as %q and read as %q: %s", x.bytesString(), y.bytesString(), fieldFacts(st, f))
			})
		}
	}
	for i := 1; i <= 2; i++ {
		for _, e := range sides[i] {
			if len(e.recs) == 0 || e.tags.empty() {
				continue
			}
			met := false
			for _, d := range sides[other[i]] {
				if bothFields(e.st, d.st, f) != nil {
					met = true
					break
				}
			}
			if !met && len(foreign(e.st, f, conds[other[i]])) > 0 {
				continue
			}
			an.obAt("C22", "a field one side supports is supported by the other", e.fn, e.pos, met, func() string {
				return "supported when " + side[i] + " only: " + fieldFacts(e.st, f)
			})
		}
	}
}

// fieldConds lists the conditions on the field whose meaning the analysis does not know.
func fieldConds(st *State, f *Term) []string {
	var out []string
	for y, d := range st.dom {
		t := symtab[y].term
		if t == nil || d == symtab[y].dom || !strings.Contains(t.key, f.key) {
			continue
		}
		switch t.op {
		case "kind", "impl", "fanon", "fexp", "teq":
			continue
		}
		out = append(out, t.key)
	}
	for _, ls := range [][]Lin{st.le, st.eq, st.ne} {
		for _, l := range ls {
			for _, m := range l.m {
				if t := symtab[m.s].term; t != nil && t.op != "kind" && t.op != "strlen" && strings.Contains(t.key, f.key) {
					out = append(out, t.key)
				}
			}
		}
	}
	return out
}

func foreign(st *State, f *Term, conds map[string]bool) []string {
	var out []string
	for _, c := range fieldConds(st, f) {
		if !conds[c] {
			out = append(out, c)
		}
	}
	return out
}

// bothFields is a state in which both sides took the given ways, nil when there is none.
func bothFields(a, b *State, f *Term) *State {
	st := a.clone()
	var ys []int
	for y, d := range b.dom {
		if t := symtab[y].term; t != nil && d != symtab[y].dom && strings.Contains(t.key, f.key) {
			ys = append(ys, int(y))
		}
	}
	sort.Ints(ys)
	for _, y := range ys {
		if !st.assume(cin(Sym(y), b.dom[Sym(y)])) {
			return nil
		}
	}
	about := func(l Lin) bool {
		for _, m := range l.m {
			if t := symtab[m.s].term; t == nil || !strings.Contains(t.key, f.key) {
				return false
			}
		}
		return len(l.m) > 0
	}
	for _, l := range b.le {
		if about(l) && !st.addLE(l) {
			return nil
		}
	}
	for _, l := range b.eq {
		if about(l) && !st.addEQ(l) {
			return nil
		}
	}
	for _, l := range b.ne {
		if about(l) && st.entailsEQ(l) {
			return nil
		}
	}
	for _, l := range st.ne {
		if about(l) && st.entailsEQ(l) {
			return nil
		}
	}
	if st.dead || !st.feasible() {
		return nil
	}
	return st
}

func strTermOf(v Val) string {
	if s, ok := v.(VStr); ok {
		return strTerm(s).String()
	}
	return vkey(v)
}

// sameKey compares the keys; sure says that they are known to differ for some field.
func (an *Analysis) sameKey(st *State, a, b Val, f *Term) (same, sure bool) {
	x, ok1 := a.(VStr)
	y, ok2 := b.(VStr)
	if !ok1 || !ok2 {
		return false, false
	}
	s, t := strTerm(x), strTerm(y)
	if s == t || st.decide(an.strEq(st, x, y)) == 1 {
		return true, true
	}
	if s.hasFresh() || t.hasFresh() {
		return false, false
	}
	// texts computed by different functions may still be the same
	p, q := parser(s), parser(t)
	if p != "" && q != "" && p != q {
		return false, false
	}
	ns, nt := T("fname", f), T("fname", f)
	plain := func(t *Term, n *Term) bool { return t == n || parser(t) != "" && strings.HasPrefix(t.op, "cell") }
	return false, plain(s, ns) && plain(t, nt)
}

// parser is the function of the field a text comes from.
func parser(t *Term) string {
	k := t.key
	if i := strings.Index(k, "sf:"); i >= 0 {
		k = k[i:]
		if j := strings.IndexByte(k, '('); j >= 0 {
			return k[:j]
		}
	}
	return ""
}

// fieldTags is the type letters of a scalar field, empty when it is not one or they are not known.
func (an *Analysis) fieldTags(r *Root, e *fieldExit, f *Term) Set {
	st := e.st
	ft := an.ftype(f)
	typ := ft
	ks := st.kinds(ft)
	if ks == kset(reflect.Pointer) {
		typ = elemOf(ft)
		ks = st.kinds(typ)
	}
	if ks.empty() || !ks.subset(kScalars) {
		return Set{}
	}
	for _, m := range []bool{false, true} {
		if it := an.customIface(m); it != nil {
			for _, t := range []*Term{ft, ptrTo(ft), typ, ptrTo(typ)} {
				if st.decide(an.implements(st, t, it)) == 1 {
					return Set{}
				}
			}
		}
	}
	var tags Set
	c := e.recs[0].codec
	if x, ok := c.(VCodec); ok {
		for _, s := range st.seenAs {
			if s.codec == x.key() {
				c = s.val
			}
		}
	}
	ks.each(func(k int) { tags = tags.or(setBytes(kindTags[reflect.Kind(k)])) })
	plain := func(t Set) Set {
		if t.and(setBytes("N").not()).count() > 1 {
			return tags // handed on to the codec of the type
		}
		return t
	}
	switch x := c.(type) {
	case VCodec:
		return tags
	case VFunc:
		return plain(an.runTags(&Root{kind: rkEncode, side: sideEncode, name: fnShort(x.fn) + " for a field", fn: x.fn, bind: x.bind, st: st, typ: typ}, VTuple{x.bind}, ks))
	case VIface:
		m := an.prog.LookupMethod(x.typ, an.decIface.Method(0).Pkg(), an.decIface.Method(0).Name())
		if m == nil {
			return Set{}
		}
		return plain(an.runTags(&Root{kind: rkDecode, side: sideDecode, name: fnShort(m) + " for a field", fn: m, recv: x.v, st: st, typ: ft, nested: true}, x.v, ks))
	}
	return Set{}
}

// runTags analyses a codec on the side for the type letters it handles.
func (an *Analysis) runTags(x *Root, parts Val, ks Set) Set {
	tmpl := x.st.template(nil, parts, func(y Sym) bool { return symtab[y].term == nil }, func(o *Obj) bool { return o.global == "" && !o.input })
	key := stableKey(x.fn.String() + "|" + x.typ.key + "|" + tmpl.ckey + "|" + kindNames(ks))
	if t, ok := an.fieldLetters[key]; ok {
		return t
	}
	root, max, undec := an.root, maxSteps, len(an.undec)
	an.push()
	if x.kind == rkEncode {
		an.runEncodeRoot(x)
	} else {
		an.runDecodeRoot(x)
	}
	an.drop()
	an.root, maxSteps = root, max
	if len(an.undec) > undec {
		an.undec = an.undec[:undec]
		x.tags = Set{}
	}
	if an.fieldLetters == nil {
		an.fieldLetters = map[string]Set{}
	}
	an.fieldLetters[key] = x.tags
	return x.tags
}

// parsedField adds what holds of every result of a function of a struct field: parts that are the
// field itself, and texts that are never empty.
func (an *Analysis) parsedField(st *State, fn *ssa.Function, v Val, f *Term) {
	p, ok := v.(VPtr)
	if !ok || p.path != "" {
		return
	}
	o := st.heap[p.obj]
	s := structOf(deref(fn.Signature.Results().At(0).Type()))
	if o == nil || s == nil {
		return
	}
	sum, ok := an.parsed[fn]
	if !ok {
		sum = an.parseSum(fn, s)
		if an.parsed == nil {
			an.parsed = map[*ssa.Function]map[int]int{}
		}
		an.parsed[fn] = sum
	}
	for i := 0; i < s.NumFields(); i++ {
		path := fmt.Sprintf(".%d", i)
		switch sum[i] {
		case 1:
			st.mut(o.id).cells[path] = VOpaque{f}
		case 2:
			x, ok := st.loadCells(st.heap[o.id], path, s.Field(i).Type()).(VStr)
			if ok {
				st.mut(o.id).cells[path] = x
				st.addLE(x.len.neg().addK(1))
			}
		}
	}
}

// parseSum: 1 for parts that are the argument, 2 for texts that are not empty.
func (an *Analysis) parseSum(fn *ssa.Function, s *types.Struct) map[int]int {
	sum := map[int]int{}
	arg := Tstr("parsearg", "")
	root, depth := an.root, len(an.stack)
	defer func() {
		an.root = root
		if x := recover(); x != nil {
			if _, ok := x.(undecided); !ok {
				panic(x)
			}
			for len(an.stack) > depth {
				an.drop()
			}
			sum = map[int]int{}
		}
	}()
	an.push()
	an.root = &Root{kind: rkPure, side: sideCompile, name: fnShort(fn), fn: fn}
	first := true
	for _, e := range an.execFn(an.start(nil), fn, []Val{VOpaque{arg}}, nil, nil, nil) {
		if e.panic || e.st.dead || !e.st.feasible() {
			continue
		}
		p, ok := e.rets[0].(VPtr)
		o := e.st.heap[p.obj]
		for i := 0; i < s.NumFields(); i++ {
			k := 0
			if ok && o != nil && p.path == "" {
				switch x := e.st.loadCells(o, fmt.Sprintf(".%d", i), s.Field(i).Type()).(type) {
				case VOpaque:
					if x.t == arg {
						k = 1
					}
				case VStr:
					if e.st.entailsLE(x.len.neg().addK(1)) {
						k = 2
					}
				}
			}
			if !first && sum[i] != k {
				k = 0
			}
			sum[i] = k
		}
		first = false
	}
	an.drop()
	if debugFields {
		fmt.Fprintln(os.Stderr, "PARSED", fn, sum)
	}
	return sum
}
