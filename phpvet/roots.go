package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type rootKind int8

const (
	rkInit rootKind = iota
	rkAPI
	rkDecode
	rkEncode
	rkScan
	rkCompile
	rkDigest
	rkDigits
	rkPure
	rkFields
)

const (
	sideNone int8 = iota
	sideDecode
	sideEncode
	sideAPI
	sideCompile
)

// Root is a function analysed on its own, for all arguments its contract allows.
type Root struct {
	kind   rootKind
	side   int8
	name   string
	key    string
	fn     *ssa.Function
	st     *State // facts inherited from the place that built the codec
	recv   Val
	bind   []Val
	typ    *Term // type the codec is for
	role   string
	typing string

	n0     *Lin
	c0     Sym
	d0     Sym
	input  ObjID
	dst    *Term
	ctx    ObjID
	inline bool
	nested bool // reached from another codec only, which may have looked at the type letter

	exits   int
	paths   int
	tags    Set
	enc     *encRoot
	notes   map[string]bool
	sawErr  bool
	elapsed int
	kept    map[*Term]bool // reflect values the codec captured
}

func (r *Root) decodes() bool {
	return r.kind == rkDecode || r.kind == rkScan || r.kind == rkAPI && theAnalysis.decoding
}

type decTarget struct {
	fn   *ssa.Function
	recv Val
}

var debugRoots = os.Getenv("PV_ROOTS") != ""

// enqueue adds a root unless it is known.
func (an *Analysis) enqueue(r *Root) {
	if an.rootKeys[r.key] {
		return
	}
	an.rootKeys[r.key] = true
	an.queue = append(an.queue, r)
}

// runRoot analyses a root, turning engine limits into reports.
func (an *Analysis) runRoot(r *Root, f func()) {
	an.root = r
	start, t0 := steps, time.Now()
	depth := len(an.stack)
	lim := 3000000
	maxSteps = steps + lim
	defer func() {
		r.elapsed = steps - start
		an.root = nil
		if x := recover(); x != nil {
			for len(an.stack) > depth {
				an.drop()
			}
			why := ""
			switch e := x.(type) {
			case undecided:
				why = e.why
			case budgetExceeded:
				why = e.why
			default:
				if os.Getenv("PV_PANIC") != "" {
					panic(x)
				}
				why = fmt.Sprintf("internal error: %v", x)
				fmt.Fprintf(os.Stderr, "%s: %s\n%s\n", r.name, why, debug.Stack())
			}
			an.undec = append(an.undec, r.name+": "+why)
			if debugRoots {
				fmt.Fprintln(os.Stderr, "UNDECIDED", why)
			}
			for _, p := range r.props() {
				an.obAt(p, "the analysis decides every path", r.fnName(), an.rootPos(r), false, func() string { return "undecided: " + why + " [" + r.name + "]" })
			}
		}
		if debugRoots {
			fmt.Fprintf(os.Stderr, "%sroot %-60s exits %d steps %d fm %d undec %d %.1fs\n", an.shardName(), r.name, r.exits, r.elapsed, statFM, len(an.undec), time.Since(t0).Seconds())
		}
	}()
	an.push()
	f()
	an.keep()
	for _, p := range r.props() {
		an.obAt(p, "the analysis decides every path", r.fnName(), an.rootPos(r), true, nil)
	}
}

func (r *Root) fnName() string {
	if r.fn != nil {
		return r.fn.String()
	}
	return r.name
}
func (an *Analysis) rootPos(r *Root) string {
	if r.fn != nil {
		return an.fnPos(r.fn)
	}
	return ""
}

// props lists the properties whose verdict depends on a root.
func (r *Root) props() []string {
	switch r.kind {
	case rkDecode:
		return []string{"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C15", "C17", "C19", "C21", "C25"}
	case rkScan:
		return []string{"C01", "C02", "C03", "C05", "C07"}
	case rkDigest:
		return []string{"C01", "C08"}
	case rkDigits:
		return []string{"C14"}
	case rkEncode:
		return []string{"C06", "C10", "C13", "C14", "C15", "C16", "C18", "C20", "C21", "C26", "C27"}
	case rkPure:
		return []string{"C11"}
	case rkFields:
		return []string{"C22"}
	case rkCompile:
		return []string{"C11", "C12", "C15", "C21", "C22"}
	case rkAPI:
		if theAnalysis.decoding {
			return []string{"C02", "C05", "C09", "C11", "C20", "C21", "C23"}
		}
		return []string{"C06", "C10", "C11", "C20", "C21"}
	}
	return []string{"C11", "C21"}
}

// ---- package initialisation ----

func (an *Analysis) runInits() error {
	an.inInit = true
	defer func() { an.inInit = false }()
	st := newState()
	var fail error
	done := map[*ssa.Package]bool{}
	var order []*ssa.Package
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		for _, imp := range p.Pkg.Imports() {
			for _, q := range an.pkgs {
				if q.Pkg == imp {
					visit(q)
				}
			}
		}
		order = append(order, p)
	}
	for _, p := range an.pkgs {
		visit(p)
	}
	for _, p := range order {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		r := &Root{kind: rkInit, name: "init of " + p.Pkg.Path(), fn: fn}
		an.runRoot(r, func() {
			// the guard variable is false on first entry
			exits := an.execFn(st, fn, nil, nil, nil, nil)
			var live []Exit
			for _, e := range exits {
				if !e.st.dead && !e.panic {
					live = append(live, e)
				}
			}
			if len(live) != 1 {
				fail = fmt.Errorf("initialisation of %s has %d outcomes", p.Pkg.Path(), len(live))
				return
			}
			st = live[0].st
		})
		if fail != nil {
			return fail
		}
	}
	st.pending, st.lossy, st.effects = "", "", nil
	an.labelShared(st)
	an.base = st
	return nil
}

// start makes the state a root begins with.
func (an *Analysis) start(from *State) *State {
	var st *State
	if from == nil {
		st = an.base.clone()
	} else {
		st = from.clone()
		st.effects, st.pending, st.lossy, st.trace = nil, "", "", nil
		st.bytes, st.ranges, st.spans, st.seqs, st.ne = nil, nil, nil, nil, nil
		st.digest = map[Sym]Digest{}
		st.ver = map[string]int{}
		for y := range st.dom {
			if t := symtab[y].term; t == nil || !typeFact(t) {
				delete(st.dom, y)
			}
		}
		keep := func(ls []Lin) []Lin {
			var out []Lin
			for _, l := range ls {
				ok := true
				for _, m := range l.m {
					if t := symtab[m.s].term; t == nil || !typeFact(t) {
						ok = false
					}
				}
				if ok {
					out = append(out, l)
				}
			}
			return out
		}
		st.le, st.eq = keep(st.le), keep(st.eq)
		for g, id := range an.globals {
			if o := an.base.heap[id]; o != nil {
				st.heap[id] = o
			}
			_ = g
		}
		for id, o := range an.base.heap {
			if o.shared != "" {
				st.heap[id] = o
			}
		}
		st.locks = nil
	}
	return st
}

func typeFact(t *Term) bool {
	if t.hasFresh() {
		return false
	}
	switch t.op {
	case "fld":
		return len(t.args) == 1 && typeFact(t.args[0])
	case "kind", "impl", "teq", "nmeth", "fanon", "fexp", "numfield", "alen", "size", "tnumfield":
		return true
	}
	return strings.HasPrefix(t.op, "sf")
}

func typeFacts(st *State) string { return typeFactsOf(st, false) }

// typeFactsOf lists what is known about types; lasting leaves out what is said of the passes
// of one run of a loop.
func typeFactsOf(st *State, lasting bool) string {
	var ks []string
	for y, d := range st.dom {
		if t := symtab[y].term; t != nil && d != symtab[y].dom && typeFact(t) && !(lasting && t.transient()) {
			ks = append(ks, fmt.Sprintf("%s=%x", t.key, d))
		}
	}
	for a, b := range st.alias {
		ks = append(ks, a.key+"=="+b.key)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// ---- decode roots ----

// registerDecode queues the analysis of a decoder with a given receiver for a type.
func (an *Analysis) registerDecode(st *State, fn *ssa.Function, recv Val, typ *Term, why string, nested bool) {
	typ = st.rt(typ)
	tmpl := st.template(nil, recv, func(y Sym) bool { return symtab[y].term == nil }, func(o *Obj) bool { return o.global == "" && !o.input })
	key := stableKey("dec|" + fn.String() + "|" + typ.key + "|" + tmpl.ckey + "|" + typeFacts(st))
	base := st.clone()
	an.register(func() {
		if an.rootKeys[key] {
			if !nested {
				for _, r := range append(append([]*Root{}, an.queue...), an.done...) {
					if r.key == key {
						r.nested = false
					}
				}
			}
			return
		}
		ks := kindNames(base.kinds(typ))
		if len(ks) > 40 {
			ks = "many kinds"
		}
		an.enqueue(&Root{kind: rkDecode, side: sideDecode, name: fmt.Sprintf("%s for %s (%s)", fnShort(fn), typ, ks), key: key, fn: fn, recv: recv, st: base, typ: typ, role: why, nested: nested})
	})
}

func fnShort(fn *ssa.Function) string {
	s := fn.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return strings.Trim(s, "()*")
}

func (an *Analysis) newInput(st *State, r *Root) VSlice {
	o := st.newObj(oBytes, types.Typ[types.Uint8], "input")
	o.fresh = false
	o.input = true
	r.input = o.id
	n0 := lsym(newSym("n", n0, maxLenN))
	r.n0 = &n0
	r.c0 = newSym("c", minI64, maxI64)
	st.addLE(lsym(r.c0).neg())
	if an.weak(r) {
		st.addLE(lsym(r.c0).sub(n0))
	} else {
		st.addLE(lsym(r.c0).sub(n0).addK(1))
	}
	cp := newSym("cap", n0.k, maxLenN)
	st.addLE(n0.sub(lsym(cp)))
	return VSlice{obj: o.id, len: n0, cap: lsym(cp)}
}

func (an *Analysis) weak(r *Root) bool {
	switch r.kind {
	case rkDecode:
		return an.weakDec
	case rkScan:
		return an.weakScan
	}
	return false
}

const maxDepth = 100000

func (an *Analysis) runDecodeRoot(r *Root) {
	an.runRoot(r, func() {
		st := an.start(r.st)
		for _, id := range st.reach([]Val{r.recv}, func(o *Obj) bool { return true }) {
			if o := st.heap[id]; o.global == "" {
				m := st.mut(id)
				m.published = true
				m.fresh = false
				m.wm, m.wmObj = Sym(len(symtab)), nextObj
			}
		}
		if os.Getenv("PV_DUMP") != "" {
			fmt.Fprintln(os.Stderr, "DUMP", r.name)
			st.dumpReach(r.recv)
		}
		r.kept = st.sharedValues([]Val{r.recv})
		roles, _ := decodeSig(r.fn.Signature)
		in := an.newInput(st, r)
		ps := r.fn.Signature.Params()
		ct := deref(ps.At(roles.ctx).Type())
		co := st.newObj(oCells, ct, "decoding context")
		co.ext, co.fresh, co.tid = true, false, Tstr("ctx", "")
		co.cells[fmt.Sprintf(".%d", ctxBufField(ps.At(roles.ctx).Type()))] = in
		r.ctx = co.id
		r.d0 = newSym("depth", n0, n(maxDepth+1))
		r.dst = Tstr("dst", "")
		args := make([]Val, ps.Len())
		args[roles.ctx] = VPtr{obj: co.id}
		args[roles.cursor] = VInt{lsym(r.c0)}
		args[roles.depth] = VInt{lsym(r.d0)}
		args[roles.rv] = VRV{typ: r.typ, id: r.dst, set: true}
		all := args
		if r.fn.Signature.Recv() != nil {
			all = append([]Val{r.recv}, args...)
		}
		exits := an.execFn(st, r.fn, all, r.bind, nil, nil)
		for i := range exits {
			an.decodeExit(r, &exits[i])
		}
		an.decodeTags(r)
	})
}

// quotable: the type of a struct field, for which the string option may hold.
func quotable(st *State, t *Term) bool {
	t = st.rt(t)
	for t.op == "elem" {
		t = st.rt(t.args[0])
	}
	if r := theAnalysis.root; t.op == "dyn" && r != nil && r.kind == rkEncode && r.typ != nil && st.rt(r.typ) != t {
		// what an interface in the field holds
		return quotable(st, r.typ)
	}
	return t.op == "ftype"
}

func (an *Analysis) rootOb(r *Root, prop, rule string, ok bool, detail func() string) {
	an.obAt(prop, rule, r.fnName(), an.rootPos(r), ok, func() string { return detail() + " [" + r.name + "]" })
}

func (an *Analysis) decodeExit(r *Root, e *Exit) {
	if e.panic || e.st.dead || !e.st.feasible() {
		return
	}
	r.exits++
	st := e.st
	an.checkLocks(r, st)
	switch an.errState(st, e.rets[1]) {
	case 1:
		r.sawErr = true
		return
	case -1:
		st = st.clone()
		c, ok := an.isNil(st, e.rets[1])
		if ok && !st.assume(c) {
			return
		}
	}
	end, ok := e.rets[0].(VInt)
	if !ok {
		panic(undecided{fmt.Sprintf("end position %s of %s", vkey(e.rets[0]), r.fn)})
	}
	c0 := lsym(r.c0)
	an.rootOb(r, "C05", "a failure on the way is returned", st.pending == "", func() string {
		return "success is returned although " + st.pending + " failed"
	})
	an.rootOb(r, "C02", "a value consumes at least one byte and ends inside the input", st.entailsLE(c0.sub(end.l).addK(1)) && st.entailsLE(end.l.sub(*r.n0)), func() string {
		return fmt.Sprintf("end position %s is not known to lie in (start, length]: %s", end.l, st.explain(end.l.sub(*r.n0)))
	})
	hi, why := st.recog(r.input, c0)
	if why == "" && !st.entailsEQ(hi.sub(end.l)) {
		why = fmt.Sprintf("the value ends at %s but the returned position is %s", hi, end.l)
		an.rootOb(r, "C02", "the returned position is the end of the value", false, func() string { return why })
	}
	if r.role == "string" {
		an.stringRole(r, st, end.l)
	}
	an.rootOb(r, "C03", "an accepted value is well formed", why == "", func() string { return why })
	an.rootOb(r, "C08", "no number is truncated on the way", st.lossy == "", func() string {
		return "success although a conversion or operation at " + st.lossy + " can lose information"
	})
	if r.kind != rkDecode {
		return
	}
	tag := st.byteSet(r.input, c0)
	delegated := an.delegated(r, st)
	an.tagCheck(r, st, tag, delegated)
	an.nullCheck(r, st, tag, delegated, end.l)
	an.coercionCheck(r, st, tag)
	an.unmarshalerCheck(r, st, tag, end.l)
}

// delegated: the whole value was decoded by another decoder into the same destination or into
// memory behind it.
func (an *Analysis) delegated(r *Root, st *State) bool {
	c0 := lsym(r.c0)
	for _, e := range st.effects {
		if e.kind == "Delegate" {
			if v, ok := e.arg.(VInt); ok && v.l.eq(c0) {
				return true
			}
		}
	}
	return false
}

var kindTags = map[reflect.Kind]string{
	reflect.Bool: "b", reflect.String: "s", reflect.Float32: "d", reflect.Float64: "d",
	reflect.Slice: "a", reflect.Array: "a", reflect.Map: "aO", reflect.Struct: "aO",
	reflect.Interface: "bidsaO",
	reflect.Int:       "i", reflect.Int8: "i", reflect.Int16: "i", reflect.Int32: "i", reflect.Int64: "i",
	reflect.Uint: "i", reflect.Uint8: "i", reflect.Uint16: "i", reflect.Uint32: "i", reflect.Uint64: "i", reflect.Uintptr: "i",
}

// allowedTags is the wire types a destination of type t may accept.
func (an *Analysis) allowedTags(r *Root, st *State) (may, must Set) {
	t := st.rt(r.typ)
	all := setBytes("NbidsaO")
	if im := an.unmarshalerCond(st, t); st.decide(im) == 1 {
		return all, all
	}
	may, must = Set{}, all
	ks := st.kinds(t)
	ks.each(func(k int) {
		tags := setBytes("N" + kindTags[reflect.Kind(k)])
		if reflect.Kind(k) == reflect.Slice {
			el := st.kinds(elemOf(t))
			if el == kset(reflect.Uint8) {
				tags = setBytes("Nas")
			} else if el.has(int(reflect.Uint8)) {
				may = may.or(setBytes("s"))
			}
		}
		if reflect.Kind(k) == reflect.Pointer {
			tags = setBytes("N")
		}
		may = may.or(tags)
		must = must.and(tags)
	})
	if r.role == "key" {
		must = Set{}
	}
	return
}

func (an *Analysis) tagCheck(r *Root, st *State, tag Set, delegated bool) {
	if r.role == "" && !delegated && tag == setBytes("s") && quotable(st, r.typ) && st.kinds(r.typ).and(kset(reflect.String, reflect.Slice, reflect.Interface)).empty() {
		r.role = "string"
	}
	if r.role == "string" {
		ok := tag.subset(setBytes("Ns"))
		an.rootOb(r, "C04", "a quoted scalar accepts strings and null only", ok, func() string { return fmt.Sprintf("accepts %q", tag.bytesString()) })
		r.tags = r.tags.or(tag)
		return
	}
	r.tags = r.tags.or(tag)
	if delegated {
		return
	}
	may, _ := an.allowedTags(r, st)
	an.rootOb(r, "C04", "a destination accepts only its wire types", tag.subset(may), func() string {
		return fmt.Sprintf("a destination of kind %s accepts type letters %q", kindNames(st.kinds(r.typ)), tag.and(may.not()).bytesString())
	})
}

var tagKinds = map[byte]Set{
	'b': kset(reflect.Bool), 'i': kInts.or(kUints), 'd': kFloats, 's': kset(reflect.String),
	'a': kset(reflect.Map, reflect.Slice, reflect.Array, reflect.Struct),
	'O': kset(reflect.Map, reflect.Slice, reflect.Array, reflect.Struct),
}

// coercionCheck: what a dynamically typed destination receives has the kind of the wire type.
func (an *Analysis) coercionCheck(r *Root, st *State, tag Set) {
	if !st.kinds(r.typ).subset(kset(reflect.Interface)) {
		return
	}
	for _, e := range st.effects {
		x, ok := e.arg.(VRV)
		if e.kind != "Set" || e.rv != r.dst || !ok {
			continue
		}
		ks := st.kinds(x.typ)
		var may Set
		tag.each(func(b int) {
			may = may.or(tagKinds[byte(b)])
		})
		if !ks.and(kset(reflect.Interface, reflect.Pointer)).empty() {
			continue
		}
		an.rootOb(r, "C04", "a dynamically typed destination receives a value of the wire type", ks.subset(may), func() string {
			return fmt.Sprintf("type letter %q is stored as a value of kind %s at %s", tag.bytesString(), kindNames(ks), e.pos)
		})
	}
}

// decodeTags: the wire types a destination must accept are all accepted by some path.
func (an *Analysis) decodeTags(r *Root) {
	if r.role == "string" {
		an.rootOb(r, "C04", "a destination accepts all of its wire types", setBytes("Ns").subset(r.tags), func() string { return "quoted scalar does not accept strings and null" })
		return
	}
	st := an.start(r.st)
	if r.nested || r.exitsNone() {
		return // a decoder that always fails: unsupported type
	}
	_, must := an.allowedTags(r, st)
	an.rootOb(r, "C04", "a destination accepts all of its wire types", must.subset(r.tags), func() string {
		return fmt.Sprintf("a destination of kind %s never accepts type letters %q", kindNames(st.kinds(r.typ)), must.and(r.tags.not()).bytesString())
	})
}

func (r *Root) exitsNone() bool { return r.tags.empty() }

// nullCheck: the effect of decoding N.
func (an *Analysis) nullCheck(r *Root, st *State, tag Set, delegated bool, end Lin) {
	if !tag.has('N') || delegated {
		return
	}
	if tag != setBytes("N") {
		an.rootOb(r, "C19", "null is told apart from other values", false, func() string {
			return fmt.Sprintf("one path handles null together with %q", tag.bytesString())
		})
		return
	}
	an.rootOb(r, "C19", "null consumes two bytes", st.entailsEQ(end.sub(lsym(r.c0)).addK(-2)), func() string {
		return fmt.Sprintf("null ends at %s", end)
	})
	t := st.rt(r.typ)
	ks := st.kinds(t)
	im := st.decide(an.unmarshalerCond(st, t))
	var set, other []string
	for _, e := range st.effects {
		if e.rv != r.dst && !e.rv.mentions(r.dst) {
			continue
		}
		if e.kind == "SetZero" && e.rv == r.dst {
			set = append(set, e.pos)
		} else {
			other = append(other, e.kind+" at "+e.pos)
		}
	}
	zero := kset(reflect.Pointer, reflect.Interface, reflect.Slice, reflect.Map)
	an.rootOb(r, "C19", "null has no other effect on the destination", len(other) == 0, func() string {
		return "decoding null also does " + strings.Join(other, ", ")
	})
	if im == 1 || ks.subset(zero) {
		an.rootOb(r, "C19", "null resets the destination", len(set) > 0, func() string {
			return "decoding null leaves a " + kindNames(ks) + " destination unchanged"
		})
	}
	if im == 0 && ks.and(zero).empty() {
		an.rootOb(r, "C19", "null leaves the destination unchanged", len(set) == 0, func() string {
			return "decoding null resets a " + kindNames(ks) + " destination"
		})
	}
}

// unmarshalerCond: the destination's pointer type implements the custom interface.
func (an *Analysis) unmarshalerCond(st *State, t *Term) Cond {
	it := an.customIface(false)
	if it == nil {
		return cbool(false)
	}
	return an.implements(st, ptrTo(st.rt(t)), it)
}

// customIface finds the Unmarshaler (false) or Marshaler (true) interface of the API package.
func (an *Analysis) customIface(marshal bool) types.Type {
	sc := an.api.Pkg.Scope()
	for _, nm := range sc.Names() {
		tn, ok := sc.Lookup(nm).(*types.TypeName)
		if !ok {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() != 1 {
			continue
		}
		sig := it.Method(0).Type().(*types.Signature)
		if marshal && sig.Params().Len() == 0 && sig.Results().Len() == 2 && isByteSlice(sig.Results().At(0).Type()) {
			return canonIface(it)
		}
		if !marshal && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 1 {
			return canonIface(it)
		}
	}
	return nil
}

var ifaceCanon = map[string]types.Type{}

// canonIface: interfaces with the same methods are interchangeable for Implements.
func canonIface(t types.Type) types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return t
	}
	k := ""
	for i := 0; i < it.NumMethods(); i++ {
		k += it.Method(i).Name() + types.TypeString(it.Method(i).Type(), nil) + ";"
	}
	if c, ok := ifaceCanon[k]; ok {
		return c
	}
	ifaceCanon[k] = it
	return it
}

func (an *Analysis) unmarshalerCheck(r *Root, st *State, tag Set, end Lin) {
	if r.role == "string" || r.role == "key" && false {
		return
	}
	t := st.rt(r.typ)
	im := st.decide(an.unmarshalerCond(st, t))
	var calls []Effect
	var native []string
	delegate := false
	for _, e := range st.effects {
		switch {
		case strings.HasPrefix(e.kind, "Call"):
			calls = append(calls, e)
		case e.kind == "Delegate":
			if e.rv == r.dst {
				delegate = true
			} else if e.rv.mentions(r.dst) {
				native = append(native, e.kind+" at "+e.pos)
			}
		case e.kind == "Set" && an.fromCallRecv(st, e):
		case e.kind == "SetZero":
		case e.rv == r.dst:
			native = append(native, e.kind+" at "+e.pos)
		}
	}
	if im != 1 {
		an.rootOb(r, "C17", "a type with a custom unmarshaler is not decoded natively", im == 0 || len(native) == 0, func() string {
			return fmt.Sprintf("a destination of type %s whose pointer may implement the custom unmarshaler is decoded natively: %s", t, strings.Join(native, ", "))
		})
		return
	}
	if delegate {
		return
	}
	an.rootOb(r, "C17", "a type with a custom unmarshaler is not decoded natively", len(native) == 0, func() string {
		return fmt.Sprintf("a destination of type %s with a custom unmarshaler is decoded natively: %s", t, strings.Join(native, ", "))
	})
	if tag == setBytes("N") {
		an.rootOb(r, "C17", "null resets a custom-unmarshaled destination", len(calls) == 0, func() string { return "the custom unmarshaler is called for null" })
		return
	}
	an.rootOb(r, "C17", "the custom unmarshaler is called exactly once", len(calls) == 1, func() string {
		return fmt.Sprintf("the custom unmarshaler is called %d times on a successful path", len(calls))
	})
	if len(calls) != 1 {
		return
	}
	c := calls[0]
	tv, ok := c.arg.(VTuple)
	if !ok {
		an.rootOb(r, "C17", "the custom unmarshaler is called exactly once", false, func() string { return "the custom unmarshaler is called in a loop" })
		return
	}
	sl, ok := tv.v[1].(VSlice)
	why := ""
	switch {
	case !ok:
		why = "its argument is not a byte slice of the input"
	case !an.sameBytes(st, r, sl, lsym(r.c0), end):
		why = fmt.Sprintf("it receives bytes [%s, %s+%s) instead of the value at [%s, %s)", sl.off, sl.off, sl.len, symName(r.c0), end)
	}
	an.rootOb(r, "C17", "the custom unmarshaler receives exactly the bytes of the value", why == "", func() string { return why })
	recv := an.callsDst(st, r, tv.v[0])
	an.rootOb(r, "C17", "the custom unmarshaler writes the destination", recv, func() string {
		return "the receiver of the call is neither the destination nor stored in it"
	})
}

// sameBytes: the slice holds exactly the input bytes [lo,hi).
func (an *Analysis) sameBytes(st *State, r *Root, s VSlice, lo, hi Lin) bool {
	if o := st.heap[s.obj]; o != nil {
		if c, ok := o.cells["$copyof"].(VSlice); ok && s.off.isConst() && s.off.k.sign() == 0 && st.entailsEQ(s.len.sub(c.len)) {
			return an.sameBytes(st, r, c, lo, hi)
		}
	}
	return s.obj == r.input && st.entailsEQ(s.off.sub(lo)) && st.entailsEQ(s.off.add(s.len).sub(hi))
}

// callsDst: the receiver refers to the destination itself, or to a fresh value stored there afterwards.
func (an *Analysis) callsDst(st *State, r *Root, recv Val) bool {
	d, ok := recv.(VDyn)
	if !ok {
		return false
	}
	_, id := an.dynType(d)
	if id.mentions(r.dst) {
		return true
	}
	for _, e := range st.effects {
		if e.kind == "Set" && e.rv == r.dst {
			if v, ok := e.arg.(VRV); ok {
				if v.id == id || v.id.mentions(id) || len(v.id.args) > 0 && v.id.args[0] == id {
					return true
				}
			}
		}
	}
	return false
}

func (an *Analysis) fromCallRecv(st *State, e Effect) bool {
	v, ok := e.arg.(VRV)
	if !ok {
		return false
	}
	for _, c := range st.effects {
		if !strings.HasPrefix(c.kind, "Call") {
			continue
		}
		tv, ok := c.arg.(VTuple)
		if !ok {
			continue
		}
		if d, ok := tv.v[0].(VDyn); ok {
			_, id := an.dynType(d)
			if v.id == id || v.id.mentions(id) {
				return true
			}
		}
	}
	return false
}

// stringRole: decoders of fields with the string option.
func (an *Analysis) stringRole(r *Root, st *State, end Lin) {}

// ---- scan roots ----

func (an *Analysis) scanRoles(fn *ssa.Function) (buf, cur, depth int) {
	buf, cur, depth = -1, -1, -1
	for i, p := range fn.Params {
		t := p.Type()
		switch {
		case isByteSlice(t):
			buf = i
		case isWideInt(t) && cur < 0:
			cur = i
		case isWideInt(t) && depth < 0:
			depth = i
		}
	}
	return
}

func (an *Analysis) runScanRoot(r *Root) {
	an.runRoot(r, func() {
		st := an.start(nil)
		in := an.newInput(st, r)
		bi, ci, di := an.scanRoles(r.fn)
		args := make([]Val, len(r.fn.Params))
		for i, p := range r.fn.Params {
			args[i] = an.unknownOf(st, p.Type(), Tstr("param", p.Name()))
		}
		args[bi], args[ci] = in, VInt{lsym(r.c0)}
		if di >= 0 {
			r.d0 = newSym("depth", n0, n(maxDepth+1))
			args[di] = VInt{lsym(r.d0)}
		}
		exits := an.execFn(st, r.fn, args, nil, nil, nil)
		for i := range exits {
			an.decodeExit(r, &exits[i])
		}
	})
}
