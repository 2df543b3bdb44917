package main

import (
	"fmt"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// run analyses everything, in rounds, until no round changes what the next one assumes.
func (an *Analysis) run() {
	for an.round = 1; ; an.round++ {
		an.unstable = false
		before := an.facts()
		an.j = newJournal()
		an.queue, an.rootKeys, an.done, an.undec, an.hops = nil, map[string]bool{}, nil, nil, nil
		an.sharedInput, an.aliasing, an.vhops = nil, nil, nil
		an.accesses = map[string]access{}
		an.oneRound()
		again := an.unstable || before != an.facts()
		if an.shard != nil {
			again = an.shard.sync(an, again)
		}
		if again {
			if debugRoots {
				fmt.Fprintln(os.Stderr, "another round", an.unstable)
			}
			if an.round < 8 && os.Getenv("PV_ROUND1") == "" {
				continue
			}
			an.obAt("C21", "the analysis stabilises", "", "", false, func() string { return "no fixed point" })
		}
		break
	}
	if an.shard == nil {
		an.checkHops()
		an.checkValueHops()
		an.checkAccesses()
		an.checkSharing()
	}
}

func (an *Analysis) checkSharing() {
	sort.Strings(an.aliasing)
	for _, s := range an.sharedInput {
		an.obAt("C09", "decoding works on a private copy of the input", s[0], s[1], len(an.aliasing) == 0, func() string {
			return "the buffer handed to the decoders belongs to the caller, and decoded values share its memory: " + an.aliasing[0]
		})
	}
}

// cost estimates how long the analysis of a codec takes.
func (an *Analysis) cost(r *Root) int {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) int
	walk = func(f *ssa.Function) int {
		if f == nil || seen[f] || f.Pkg != nil && !an.own[f.Pkg.Pkg] {
			return 0
		}
		seen[f] = true
		n := 0
		for _, b := range f.Blocks {
			n += len(b.Instrs)
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					n += walk(c.Common().StaticCallee())
				}
			}
		}
		return n
	}
	n := walk(r.fn)
	for _, v := range r.bind {
		if f, ok := v.(VFunc); ok {
			n += walk(f.fn)
		}
	}
	return n
}

// heavy roots are spread over the shards.
func (r *Root) heavy() bool { return r.weight() >= 10000 }

func (r *Root) weight() int {
	switch r.kind {
	case rkCompile, rkAPI, rkInit, rkPure:
		return 0
	}
	n := 1
	if r.fn != nil {
		for _, b := range r.fn.Blocks {
			n += len(b.Instrs)
		}
	}
	if r.kind == rkScan || r.kind == rkDigest {
		return n
	}
	return n + 10000
}

// facts is what the analysis of one root may assume about the others.
func (an *Analysis) facts() string {
	return fmt.Sprint(an.cacheRel, an.weakDec, an.weakScan, len(an.poolBad), len(an.sharedMut)) + an.sumKeys()
}

func (an *Analysis) sumKeys() string {
	var b strings.Builder
	for _, fn := range an.funcs {
		if s := an.comp[fn.String()]; s != nil {
			b.WriteString(s.key)
		}
	}
	return b.String()
}

func (an *Analysis) oneRound() {
	an.base = nil
	an.globals = map[*ssa.Global]ObjID{}
	if err := an.runInits(); err != nil {
		panic(err)
	}
	an.apiRoots()
	before := an.facts()
	for len(an.queue) > 0 {
		// codec construction first: what it publishes decides which codecs there are
		// then small functions, so that a contract that turns out weaker is found early
		i := 0
		for j, r := range an.queue {
			a, b := r.weight(), an.queue[i].weight()
			if an.shard != nil && r.heavy() && an.queue[i].heavy() {
				a, b = an.cost(an.queue[i]), an.cost(r) // the long ones first
			}
			if a < b {
				i = j
			}
		}
		r := an.queue[i]
		if r.kind != rkCompile && r.kind != rkPure && r.kind != rkAPI && an.round < 7 && (an.unstable || an.facts() != before) {
			return // the next round starts from the new facts
		}
		if an.shard != nil && r.heavy() && an.shard.abort.Load() {
			return
		}
		an.queue = append(append([]*Root{}, an.queue[:i]...), an.queue[i+1:]...)
		if an.shard != nil && r.heavy() && !an.shard.claim(r.key) {
			continue
		}
		if only := os.Getenv("PV_ONLY"); only != "" && (r.kind == rkDecode || r.kind == rkScan || r.kind == rkDigest || r.kind == rkEncode) && !onlyMatch(r.name, only) {
			continue
		}
		switch r.kind {
		case rkAPI:
			an.runAPIRoot(r)
		case rkCompile:
			an.runCompileRoot(r)
		case rkDecode:
			an.runDecodeRoot(r)
		case rkScan:
			an.runScanRoot(r)
		case rkDigest:
			an.runDigestRoot(r)
		case rkEncode:
			an.runEncodeRoot(r)
		case rkDigits:
			an.runDigitsRoot(r)
		case rkPure:
			an.runPureRoot(r)
		case rkFields:
			an.runFieldsRoot(r)
		}
		an.done = append(an.done, r)
	}
}

// apiRoots queues the exported functions of the API package.
func (an *Analysis) apiRoots() {
	if an.sides == 3 {
		an.enqueue(&Root{kind: rkFields, side: sideCompile, name: "fields of structs", key: "fields"})
	}
	sc := an.api.Pkg.Scope()
	for _, nm := range sc.Names() {
		f, ok := sc.Lookup(nm).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		fn := an.prog.FuncValue(f)
		if fn == nil || fn.Signature.TypeParams() != nil {
			continue
		}
		an.enqueue(&Root{kind: rkAPI, side: sideAPI, name: nm, key: "api|" + nm, fn: fn, notes: map[string]bool{}})
	}
}

// runPureRoot looks at a function that is uninterpreted elsewhere for what it does to shared memory.
func (an *Analysis) runPureRoot(r *Root) {
	an.runRoot(r, func() {
		st := an.start(nil)
		args := make([]Val, len(r.fn.Params))
		for i, p := range r.fn.Params {
			args[i] = an.unknownOf(st, p.Type(), Tstr("arg", p.Name()))
		}
		for _, e := range an.execFn(st, r.fn, args, nil, nil, nil) {
			if e.panic || e.st.dead || !e.st.feasible() {
				continue
			}
			r.exits++
			an.checkLocks(r, e.st)
		}
	})
}

func (an *Analysis) runAPIRoot(r *Root) {
	dec := -1
	for i := 0; i < r.fn.Signature.Params().Len(); i++ {
		if isByteSlice(r.fn.Signature.Params().At(i).Type()) {
			dec = i
		}
	}
	an.decoding = dec >= 0
	if !an.decoding {
		rs := r.fn.Signature.Results()
		if an.sides&2 != 0 && rs.Len() == 2 && isByteSlice(rs.At(0).Type()) && isErrorType(rs.At(1).Type()) {
			an.runAPIEncode(r)
		}
		return
	}
	if an.sides&1 == 0 {
		return
	}
	an.runRoot(r, func() {
		st := an.start(nil)
		args := make([]Val, len(r.fn.Params))
		in := an.newInput(st, r)
		_ = in
		st.le = nil
		n := lsym(newSym("n", n0, maxLenN))
		cp := lsym(newSym("cap", n0, maxLenN))
		st.addLE(n.sub(cp))
		r.n0 = &n
		st.addEQ(lsym(r.c0))
		z := newFin("datanil", boolSet)
		for i, p := range r.fn.Params {
			switch {
			case i == dec:
				args[i] = VSlice{obj: r.input, len: n, cap: cp, nilness: 2, nilSym: z}
			default:
				args[i] = an.unknownOf(st, p.Type(), Tstr("arg", p.Name()))
			}
		}
		for _, e := range an.execFn(st, r.fn, args, nil, nil, nil) {
			an.apiDecodeExit(r, e, args)
		}
	})
}

// runAPIEncode analyses an exported function that returns an encoding.
func (an *Analysis) runAPIEncode(r *Root) {
	an.runRoot(r, func() {
		st := an.start(nil)
		args := make([]Val, len(r.fn.Params))
		for i, p := range r.fn.Params {
			args[i] = an.unknownOf(st, p.Type(), Tstr("arg", p.Name()))
		}
		for _, e := range an.execFn(st, r.fn, args, nil, nil, nil) {
			an.apiEncodeExit(r, e)
		}
	})
}

func (an *Analysis) apiEncodeExit(r *Root, e Exit) {
	if e.panic || e.st.dead || !e.st.feasible() || len(e.rets) != 2 {
		return
	}
	r.exits++
	st := e.st
	an.checkLocks(r, st)
	noOutput := func(st *State) {
		_, isNil := e.rets[0].(VNil)
		if s, ok := e.rets[0].(VSlice); ok {
			isNil = s.obj == 0 || st.entailsEQ(s.len) || s.nilness == 2 && st.domOf(s.nilSym) == setOf(1)
		}
		an.rootOb(r, "C06", "no output is returned with an error", isNil, func() string { return "bytes are returned together with an error" })
	}
	switch an.errState(st, e.rets[1]) {
	case 1:
		r.sawErr = true
		noOutput(st)
		return
	case -1:
		c, ok := an.isNil(st, e.rets[1])
		if ok {
			bad := st.clone()
			if bad.assume(c.neg()) {
				noOutput(bad)
			}
			st = st.clone()
			if !st.assume(c) {
				return
			}
		}
	}
	an.rootOb(r, "C06", "a failure on the way is returned", st.pending == "", func() string {
		return "success is returned although " + st.pending + " failed"
	})
	b, ok := e.rets[0].(VSlice)
	if !ok || b.obj == 0 {
		an.rootOb(r, "C06", "success returns the output", false, func() string { return "no output is returned with a nil error" })
		return
	}
	o := st.heap[b.obj]
	an.rootOb(r, "C10", "output is not scratch memory", !o.pooled && !o.released && o.global == "", func() string {
		return "the bytes returned are memory of " + o.name + ", which a later call reuses"
	})
	an.rootOb(r, "C10", "output is private to the caller", !o.argMem && !o.input, func() string {
		return "the bytes returned are memory of the encoded value or its marshaler"
	})
	em := b.em
	if em == nil {
		if s, ok := o.cells["$copyof"].(VSlice); ok && st.entailsEQ(s.len.sub(b.len)) && st.entailsEQ(b.off) {
			em = s.em
		}
	}
	good := em != nil && len(em.items) == 1 && em.items[0].k == 'V'
	an.rootOb(r, "C14", "the output is one complete value", good, func() string {
		if em == nil {
			return "the bytes returned are not the whole output"
		}
		return "returned: " + em.String()
	})
}

// apiDecodeExit checks an exit of the exported decoding function.
func (an *Analysis) apiDecodeExit(r *Root, e Exit, args []Val) {
	if e.panic || e.st.dead || !e.st.feasible() || len(e.rets) == 0 {
		return
	}
	r.exits++
	st := e.st
	an.checkLocks(r, st)
	switch an.errState(st, e.rets[len(e.rets)-1]) {
	case 1:
		r.sawErr = true
		return
	case -1:
		st = st.clone()
		c, ok := an.isNil(st, e.rets[len(e.rets)-1])
		if ok && !st.assume(c) {
			return
		}
	}
	an.rootOb(r, "C05", "a failure on the way is returned", st.pending == "", func() string {
		return "nil is returned although " + st.pending + " failed"
	})
	var bufs []VSlice
	for _, f := range st.effects {
		if f.kind == "Top" {
			bufs = append(bufs, f.arg.(VSlice))
		}
	}
	an.rootOb(r, "C23", "success means that a value was decoded", len(bufs) > 0, func() string {
		return "nil is returned for arguments for which nothing is decoded"
	})
	for _, a := range args {
		d, ok := a.(VDyn)
		if !ok {
			continue
		}
		ty, id := an.dynType(d)
		good := st.kinds(st.rt(ty)).subset(kset(reflect.Pointer)) && st.domOf(st.rvNil(id)) == setOf(0)
		an.rootOb(r, "C23", "a destination that is accepted is a pointer and not nil", good, func() string {
			return "nil is returned for a destination that need not be a pointer to something: " + kindNames(st.kinds(st.rt(ty)))
		})
	}
	if len(bufs) == 0 {
		return
	}
	an.rootOb(r, "C02", "one top-level value is decoded", len(bufs) == 1, func() string { return "several top-level values are decoded" })
	ok := false
	b := bufs[0]
	for _, f := range st.spans {
		if f.obj == b.obj && st.entailsEQ(f.lo) && st.entailsEQ(f.hi.sub(*r.n0)) {
			ok = true
		}
	}
	an.rootOb(r, "C02", "success means that the value ends where the input ends", ok, func() string {
		return "nil is returned although the decoded value may end before the end of the input"
	})
}

func onlyMatch(name, only string) bool {
	for _, o := range strings.Split(only, ",") {
		if strings.Contains(name, o) {
			return true
		}
	}
	return false
}
