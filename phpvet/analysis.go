package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Ob is one obligation: a rule applied to one construct.
type Ob struct {
	prop, rule, fn, pos string
	n, bad              int
	detail              string
}

func (o *Ob) key() string { return o.prop + "|" + o.rule + "|" + o.fn + "|" + o.pos }

// journal collects what a tentative run finds, so that it can be dropped.
type journal struct {
	obs  map[string]*Ob
	regs []func()
}

func newJournal() *journal { return &journal{obs: map[string]*Ob{}} }

type Analysis struct {
	fieldLetters map[string]Set
	parsed       map[*ssa.Function]map[int]int
	sides        int // 1 decoding, 2 encoding
	prog         *ssa.Program
	dir          string
	module       string
	own          map[*types.Package]bool
	pkgs         []*ssa.Package
	api          *ssa.Package
	funcs        []*ssa.Function
	loops        map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	covered      map[*ssa.Function]bool

	inInit   bool
	decoding bool
	base     *State
	globals  map[*ssa.Global]ObjID

	j     *journal
	stack []*journal
	root  *Root

	scc      map[*ssa.Function]int
	sccSize  map[int]int
	selfRec  map[*ssa.Function]bool
	callees  map[*ssa.Function][]*ssa.Function
	callers  map[*ssa.Function][]*ssa.Function
	role     map[*ssa.Function]fnRole
	decIface *types.Interface // the decoder interface
	decNamed types.Type

	queue    []*Root
	rootKeys map[string]bool
	done     []*Root
	comp     map[string]*CompSum
	compList []*CompSum
	cacheRel map[string]string
	relWhy   map[string]string
	undec    []string
	round    int
	digests  map[*ssa.Function]bool
	ilens    map[*ssa.Function]bool

	shard             *shard
	rootLines         []string
	weakDec, weakScan bool
	sharedInput       [][2]string
	aliasing          []string
	errCtor           map[*ssa.Function]bool
	poolBad           map[string]bool
	unstable          bool
	hops              []hop
	vhops             []vhop
	accesses          map[string]access
	sharedMut         map[string]bool
}

var theAnalysis *Analysis

// ownFiles reports the packages of the module that are analysed.
func load(dir string) (*Analysis, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: loadEnv()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	an := &Analysis{
		dir: dir, own: map[*types.Package]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		covered: map[*ssa.Function]bool{}, globals: map[*ssa.Global]ObjID{}, rootKeys: map[string]bool{},
		comp: map[string]*CompSum{}, cacheRel: map[string]string{}, relWhy: map[string]string{}, digests: map[*ssa.Function]bool{}, ilens: map[*ssa.Function]bool{},
	}
	an.errCtor, an.poolBad = map[*ssa.Function]bool{}, map[string]bool{}
	an.accesses, an.sharedMut = map[string]access{}, map[string]bool{}
	an.j = newJournal()
	theAnalysis = an
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the source does not load: %s", strings.Join(errs, "; "))
	}
	prog, sps := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	an.prog = prog
	for i, sp := range sps {
		if sp == nil {
			continue
		}
		if ps[i].Module == nil || !ps[i].Module.Main || sp.Pkg.Name() == "main" {
			continue
		}
		an.module = ps[i].Module.Path
		if strings.Contains(sp.Pkg.Path(), "/tests") || strings.Contains(sp.Pkg.Path(), "/bench") {
			continue
		}
		an.own[sp.Pkg] = true
		an.pkgs = append(an.pkgs, sp)
		if sp.Pkg.Path() == ps[i].Module.Path {
			an.api = sp
		}
	}
	if an.api == nil {
		return nil, fmt.Errorf("the root package was not found")
	}
	an.prepare()
	return an, nil
}

func (an *Analysis) isOwn(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return an.own[fn.Pkg.Pkg]
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return an.own[o.Pkg()]
	}
	if fn.Parent() != nil {
		return an.isOwn(fn.Parent())
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return an.isOwn(fn.Origin())
	}
	return false
}

// prepare lists functions, the static call graph and its strongly connected components.
func (an *Analysis) prepare() {
	all := ssautil.AllFunctions(an.prog)
	for fn := range all {
		if an.isOwn(fn) && len(fn.Blocks) > 0 {
			an.funcs = append(an.funcs, fn)
		}
	}
	sort.Slice(an.funcs, func(i, j int) bool { return an.funcs[i].String() < an.funcs[j].String() })
	an.findDecoderInterface()
	an.callees = map[*ssa.Function][]*ssa.Function{}
	an.callers = map[*ssa.Function][]*ssa.Function{}
	own := map[*ssa.Function]bool{}
	for _, fn := range an.funcs {
		own[fn] = true
	}
	for _, fn := range an.funcs {
		seen := map[*ssa.Function]bool{}
		add := func(g *ssa.Function) {
			if own[g] && !seen[g] {
				seen[g] = true
				an.callees[fn] = append(an.callees[fn], g)
				an.callers[g] = append(an.callers[g], fn)
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var buf [12]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						add(g)
					}
					if mc, ok := (*op).(*ssa.MakeClosure); ok {
						add(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	an.tarjan()
	an.classify()
}

func (an *Analysis) tarjan() {
	an.scc = map[*ssa.Function]int{}
	an.sccSize = map[int]int{}
	an.selfRec = map[*ssa.Function]bool{}
	index := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	cnt, comp := 0, 0
	// direct calls only: a function value that is stored is run later
	own := map[*ssa.Function]bool{}
	for _, f := range an.funcs {
		own[f] = true
	}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range an.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && own[g] {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		cnt++
		index[f], low[f] = cnt, cnt
		stack = append(stack, f)
		on[f] = true
		for _, g := range calls[f] {
			if g == f {
				an.selfRec[f] = true
			}
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			comp++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				an.scc[g] = comp
				an.sccSize[comp]++
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range an.funcs {
		if index[f] == 0 {
			visit(f)
		}
	}
}

func (an *Analysis) recursive(fn *ssa.Function) bool {
	return an.selfRec[fn] || an.sccSize[an.scc[fn]] > 1
}

// reaches reports that pred holds for fn or something it calls statically.
func (an *Analysis) reaches(fn *ssa.Function, pred func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if pred(f) {
			return true
		}
		for _, g := range an.callees[f] {
			if walk(g) {
				return true
			}
		}
		return false
	}
	return walk(fn)
}

func isIntegerType(t types.Type) bool { return isInt(t) }

func isWideInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Uint8 && b.Kind() != types.Int32
}

// ctxBufField finds the []byte field of a context structure.
func ctxBufField(t types.Type) int {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	st := structOf(p.Elem())
	if st == nil || opaqueStruct(p.Elem()) {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if isByteSlice(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// decodeSig finds the roles of the parameters of a Decode-shaped signature.
type decRoles struct{ ctx, cursor, depth, rv int }

func decodeSig(sig *types.Signature) (decRoles, bool) {
	r := decRoles{-1, -1, -1, -1}
	ps := sig.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		switch {
		case isReflectValue(t):
			r.rv = i
		case isInt(t) && r.cursor < 0:
			r.cursor = i
		case isInt(t) && r.depth < 0:
			r.depth = i
		case ctxBufField(t) >= 0:
			r.ctx = i
		}
	}
	rs := sig.Results()
	ok := r.ctx >= 0 && r.cursor >= 0 && r.depth >= 0 && r.rv >= 0 && ps.Len() == 4 &&
		rs.Len() == 2 && isInt(rs.At(0).Type()) && isErrorType(rs.At(1).Type())
	return r, ok
}

func (an *Analysis) findDecoderInterface() {
	for _, p := range an.pkgs {
		names := p.Pkg.Scope().Names()
		for _, nm := range names {
			tn, ok := p.Pkg.Scope().Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok || it.NumMethods() != 1 {
				continue
			}
			if _, ok := decodeSig(it.Method(0).Type().(*types.Signature)); ok {
				an.decIface = it
				an.decNamed = tn.Type()
			}
		}
	}
}

func isEncoderSig(sig *types.Signature) bool {
	rs := sig.Results()
	if rs.Len() != 2 || !isByteSlice(rs.At(0).Type()) || !isErrorType(rs.At(1).Type()) {
		return false
	}
	rv, buf := false, false
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if isReflectValue(t) {
			rv = true
		}
		if isByteSlice(t) {
			buf = true
		}
	}
	return rv && buf
}

// codecSort: 1 for the decoder interface, 2 for encoder functions.
func codecSort(t types.Type) int {
	an := theAnalysis
	if it, ok := t.Underlying().(*types.Interface); ok {
		if an.decIface != nil && it.NumMethods() == 1 && types.Identical(it, an.decIface) {
			return 1
		}
		return 0
	}
	if sig, ok := t.Underlying().(*types.Signature); ok && isEncoderSig(sig) {
		return 2
	}
	return 0
}

type fnRole int8

const (
	roleInline  fnRole = iota
	roleScan           // recognises one serialized value, recursively
	roleDecode         // Decode method that calls other decoders
	roleCompile        // builds codecs, recursive over types
	roleDigest         // number computed from one byte slice
	roleDigits         // number of digits of an integer
	roleEncode         // encoder function that recurses
)

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func (an *Analysis) classify() {
	an.role = map[*ssa.Function]fnRole{}
	for _, fn := range an.funcs {
		sig := fn.Signature
		ps, rs := sig.Params(), sig.Results()
		nres := rs.Len()
		errLast := nres > 0 && isErrorType(rs.At(nres-1).Type())
		// Decode methods
		if recv := sig.Recv(); recv != nil && an.decIface != nil && types.Implements(recv.Type(), an.decIface) && fn.Name() == an.decIface.Method(0).Name() && len(fn.FreeVars) == 0 && fn.Synthetic == "" {
			if an.reaches(fn, an.invokesDecoder) {
				an.role[fn] = roleDecode
			}
			continue
		}
		if an.recursive(fn) {
			external := false
			for _, c := range an.callers[fn] {
				if an.scc[c] != an.scc[fn] {
					external = true
				}
			}
			ints, bufs, rtypes, codecs := 0, 0, 0, 0
			for i := 0; i < ps.Len(); i++ {
				t := ps.At(i).Type()
				switch {
				case isByteSlice(t):
					bufs++
				case isWideInt(t):
					ints++
				case isReflectType(t):
					rtypes++
				case codecSort(t) != 0:
					codecs++ // wraps a codec, descends into it
				}
			}
			switch {
			case external && bufs == 1 && ints >= 1 && nres == 2 && isWideInt(rs.At(0).Type()) && errLast:
				an.role[fn] = roleScan
			case external && rtypes >= 1 && codecs == 0 && nres >= 1 && codecSort(rs.At(0).Type()) != 0:
				an.role[fn] = roleCompile
			}
			continue
		}
		if !hasLoop(fn) || sig.Recv() != nil && sig.Recv().Name() == "\x00" {
			continue
		}
		if nres == 2 && errLast && isWideInt(rs.At(0).Type()) && ps.Len() == 1 && (isByteSlice(ps.At(0).Type()) || isString(ps.At(0).Type())) && !an.reaches(fn, func(g *ssa.Function) bool { return g != fn && an.recursive(g) }) {
			an.role[fn] = roleDigest
		}
		if nres == 1 && ps.Len() == 1 && sig.Recv() == nil && isWideInt(rs.At(0).Type()) && isWideInt(ps.At(0).Type()) {
			an.role[fn] = roleDigits
		}
	}
}

// invokesDecoder: the body of fn calls Decode through the interface or on another decoder that does.
func (an *Analysis) invokesDecoder(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			if cc.IsInvoke() && codecSort(cc.Value.Type()) == 1 {
				return true
			}
		}
	}
	return false
}

// ---- obligations ----

func (an *Analysis) ob(prop, rule string, fr *Frame, in ssa.Instruction, ok bool, detail func() string) {
	name, pos := "", ""
	if in != nil {
		name, pos = in.Parent().String(), an.pos(in)
	} else if fr != nil {
		name = fr.fn.String()
		pos = an.fnPos(fr.fn)
	}
	an.obAt(prop, rule, name, pos, ok, func() string {
		d := ""
		if detail != nil {
			d = detail()
		}
		if an.root != nil {
			d += " [while analysing " + an.root.name + an.chain(fr) + "]"
		}
		return d
	})
}

func (an *Analysis) chain(fr *Frame) string {
	var p []string
	for f := fr; f != nil; f = f.caller {
		p = append([]string{f.fn.Name()}, p...)
	}
	if len(p) < 2 {
		return ""
	}
	return ": " + strings.Join(p, " -> ")
}

func (an *Analysis) obAt(prop, rule, fn, pos string, ok bool, detail func() string) {
	o := &Ob{prop: prop, rule: rule, fn: fn, pos: pos}
	k := o.key()
	if e, exists := an.j.obs[k]; exists {
		o = e
	} else {
		an.j.obs[k] = o
	}
	o.n++
	if !ok {
		o.bad++
		if o.detail == "" && detail != nil {
			o.detail = detail()
		}
	}
}

func (an *Analysis) fnPos(fn *ssa.Function) string {
	q := an.prog.Fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, an.dir+"/"), q.Line)
}

// push starts a tentative run; drop and keep end it.
func (an *Analysis) push() { an.stack = append(an.stack, an.j); an.j = newJournal() }
func (an *Analysis) drop() {
	an.j = an.stack[len(an.stack)-1]
	an.stack = an.stack[:len(an.stack)-1]
}
func (an *Analysis) keep() {
	j := an.j
	an.drop()
	for k, o := range j.obs {
		if e, ok := an.j.obs[k]; ok {
			e.n += o.n
			e.bad += o.bad
			if e.detail == "" {
				e.detail = o.detail
			}
		} else {
			an.j.obs[k] = o
		}
	}
	an.j.regs = append(an.j.regs, j.regs...)
	if len(an.stack) == 0 {
		regs := an.j.regs
		an.j.regs = nil
		for _, f := range regs {
			f()
		}
	}
}

// register runs f when the current run is kept.
func (an *Analysis) register(f func()) { an.j.regs = append(an.j.regs, f) }

func (an *Analysis) panicProp() string {
	if an.root != nil && an.root.side == sideEncode {
		return "C15"
	}
	return "C01"
}
func (an *Analysis) nilProp() string {
	if an.root != nil && an.root.side == sideAPI {
		return "C23"
	}
	return "C15"
}
func (an *Analysis) typeProp() string { return an.nilProp() }

func (an *Analysis) onPanic(fr *Frame, st *State, in *ssa.Panic) {
	an.ob(an.nilProp(), "no explicit panic is reachable", fr, in, false, func() string { return "panic is reachable" })
}

func (an *Analysis) arith(fr *Frame, in ssa.Instruction, st *State, rs []sv, exact Lin) {
	for _, r := range rs {
		if v, ok := r.val.(VInt); ok && !v.l.eq(exact) && r.st.lossy == "" {
			r.st.lossy = an.pos(in)
		}
	}
}
func (an *Analysis) arithOK(fr *Frame, in ssa.Instruction) {}
func (an *Analysis) arithBad(fr *Frame, in ssa.Instruction, st *State) {
	if st.lossy == "" {
		st.lossy = an.pos(in)
	}
}

// ---- globals ----

func (an *Analysis) globalObj(st *State, g *ssa.Global) ObjID {
	if id, ok := an.globals[g]; ok {
		if st.heap[id] != nil {
			return id
		}
		o := &Obj{id: id, kind: oCells, typ: deref(g.Type()), name: g.String(), cells: map[string]Val{}, global: g.String(), tid: Tstr("global", g.String())}
		o.ext = !an.own[g.Pkg.Pkg]
		st.heap[id] = o
		if !o.ext {
			st.storeCells(o, "", o.typ, st.zeroVal(o.typ))
		}
		return id
	}
	nextObj++
	an.globals[g] = nextObj
	return an.globalObj(st, g)
}
