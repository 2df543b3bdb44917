package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env map[ssa.Value]Val

func (e Env) clone() Env {
	c := make(Env, len(e)+4)
	for k, v := range e {
		c[k] = v
	}
	return c
}

type Exit struct {
	st    *State
	rets  []Val
	panic bool
}

type deferred struct {
	call *ssa.Defer
	fn   Val
	args []Val
}

type Frame struct {
	fn     *ssa.Function
	caller *Frame
	site   ssa.Instruction
	args   []Val
	peeled map[*ssa.BasicBlock]bool
}

// flow is one abstract path inside a function.
type flow struct {
	st     *State
	env    Env
	defers []deferred
}

func (f *flow) clone() *flow {
	return &flow{f.st.clone(), f.env.clone(), f.defers[:len(f.defers):len(f.defers)]}
}

const (
	outExit int8 = iota
	outBack
	outLeave
)

type outcome struct {
	kind  int8
	fl    *flow
	blk   *ssa.BasicBlock
	pred  *ssa.BasicBlock
	rets  []Val
	panic bool
}

type sv struct {
	st  *State
	val Val
}

type budgetExceeded struct{ why string }

var steps, maxSteps int

func (an *Analysis) tick() {
	steps++
	if steps&63 == 0 && abortRun.Load() && an.root != nil && an.root.heavy() {
		panic(budgetExceeded{"round given up"})
	}
	if steps > maxSteps {
		panic(budgetExceeded{"step budget exceeded"})
	}
}

// execFn runs a function on abstract arguments and returns its exits.
func (an *Analysis) execFn(st *State, fn *ssa.Function, args, binds []Val, caller *Frame, site ssa.Instruction) []Exit {
	if len(fn.Blocks) == 0 {
		panic(undecided{fmt.Sprintf("call of %s has no source", fn)})
	}
	if len(args) != len(fn.Params) {
		panic(undecided{fmt.Sprintf("argument mismatch for %s", fn)})
	}
	fr := &Frame{fn, caller, site, args, nil}
	depth := 0
	for f := fr; f != nil; f = f.caller {
		depth++
	}
	if depth > 60 {
		panic(undecided{"call depth exceeded in " + fn.String()})
	}
	an.covered[fn] = true
	env := Env{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = binds[i]
	}
	outs := an.goTo(fr, fn.Blocks[0], nil, &flow{st: st, env: env}, nil)
	var exits []Exit
	for _, o := range outs {
		if o.kind != outExit {
			panic(undecided{"irreducible control flow in " + fn.String()})
		}
		exits = append(exits, Exit{o.fl.st, o.rets, o.panic})
	}
	return exits
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

func (an *Analysis) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := an.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			li := res[h]
			if li == nil {
				li = &loopInfo{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				res[h] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if li.blocks[x] {
					continue
				}
				li.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	an.loops[fn] = res
	return res
}

// goTo transfers control to blk inside the region of loop (nil for the whole function).
func (an *Analysis) goTo(fr *Frame, blk, pred *ssa.BasicBlock, fl *flow, loop *loopInfo) []outcome {
	if loop != nil {
		if blk == loop.header {
			fl.st.views = nil
			return []outcome{{kind: outBack, fl: fl, blk: blk, pred: pred}}
		}
		if !loop.blocks[blk] {
			return []outcome{{kind: outLeave, fl: fl, blk: blk, pred: pred}}
		}
	}
	if li := an.loopsOf(fr.fn)[blk]; li != nil {
		fl.st.views = nil
		outs := an.runLoop(fr, li, pred, fl)
		var res []outcome
		for _, o := range an.mergeLeaves(fr, outs) {
			if o.kind == outLeave {
				res = append(res, an.goTo(fr, o.blk, o.pred, o.fl, loop)...)
			} else {
				res = append(res, o)
			}
		}
		return res
	}
	an.phis(blk, pred, fl)
	return an.runBlock(fr, blk, fl, 0, loop)
}

func (an *Analysis) phis(blk, pred *ssa.BasicBlock, fl *flow) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range blk.Preds {
		if p == pred {
			pi = i
		}
	}
	var vals []Val
	var ins []*ssa.Phi
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ins = append(ins, ph)
		vals = append(vals, an.val(fl, ph.Edges[pi]))
	}
	for i, ph := range ins {
		fl.env[ph] = vals[i]
	}
}

// runBlock executes the instructions of blk from index i on.
func (an *Analysis) runBlock(fr *Frame, blk *ssa.BasicBlock, fl *flow, i int, loop *loopInfo) []outcome {
	for ; i < len(blk.Instrs); i++ {
		an.tick()
		if fl.st.dead {
			return nil
		}
		switch in := blk.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			return an.goTo(fr, blk.Succs[0], blk, fl, loop)
		case *ssa.If:
			c := an.condOf(fl, in.Cond)
			switch fl.st.decide(c) {
			case 1:
				return an.goTo(fr, blk.Succs[0], blk, fl, loop)
			case 0:
				return an.goTo(fr, blk.Succs[1], blk, fl, loop)
			}
			var res []outcome
			t := fl.clone()
			if t.st.assume(c) {
				res = append(res, an.goTo(fr, blk.Succs[0], blk, t, loop)...)
			}
			if fl.st.assume(c.neg()) {
				res = append(res, an.goTo(fr, blk.Succs[1], blk, fl, loop)...)
			}
			return res
		case *ssa.Return:
			var rets []Val
			for _, r := range in.Results {
				rets = append(rets, an.val(fl, r))
			}
			return []outcome{{kind: outExit, fl: fl, rets: rets}}
		case *ssa.Panic:
			an.onPanic(fr, fl.st, in)
			return nil
		case *ssa.RunDefers:
			flows := []*flow{fl}
			for d := len(fl.defers) - 1; d >= 0; d-- {
				df := fl.defers[d]
				var next []*flow
				for _, f := range flows {
					rs := an.callValue(fr, f.st, df.call, &df.call.Call, df.fn, df.args)
					for k, r := range rs {
						nf := f
						if len(rs) > 1 {
							nf = &flow{r.st, f.env.clone(), f.defers}
						}
						_ = k
						nf.st = r.st
						next = append(next, nf)
					}
				}
				flows = next
			}
			if len(flows) == 1 {
				fl = flows[0]
				fl.defers = nil
				continue
			}
			var res []outcome
			for _, f := range flows {
				f.defers = nil
				res = append(res, an.runBlock(fr, blk, f, i+1, loop)...)
			}
			return res
		case *ssa.Defer:
			df := deferred{call: in}
			df.fn, df.args = an.callArgs(fl, &in.Call)
			fl.defers = append(fl.defers, df)
		case *ssa.Go, *ssa.Send, *ssa.Select:
			panic(undecided{fmt.Sprintf("unsupported instruction %s in %s", in, fr.fn)})
		case *ssa.Store:
			an.store(fr, fl.st, in, an.val(fl, in.Addr), an.val(fl, in.Val), in.Val.Type())
		case *ssa.MapUpdate:
			an.mapUpdate(fr, fl.st, in, an.val(fl, in.Map), an.val(fl, in.Key), an.val(fl, in.Value))
		case ssa.Value:
			rs := an.eval(fr, fl, in)
			if len(rs) == 1 {
				fl.st = rs[0].st
				fl.env[in] = rs[0].val
				continue
			}
			var res []outcome
			for _, r := range rs {
				if r.st.dead {
					continue
				}
				nf := &flow{r.st, fl.env.clone(), fl.defers[:len(fl.defers):len(fl.defers)]}
				nf.env[in] = r.val
				res = append(res, an.runBlock(fr, blk, nf, i+1, loop)...)
			}
			return res
		default:
			panic(undecided{fmt.Sprintf("unsupported instruction %T in %s", in, fr.fn)})
		}
	}
	panic("block without terminator")
}

func (an *Analysis) condOf(fl *flow, v ssa.Value) Cond {
	x := an.val(fl, v)
	b, ok := x.(VBool)
	if !ok {
		panic(undecided{fmt.Sprintf("condition %s has no boolean value (%T)", v.Name(), x)})
	}
	return b.c
}

// val is the abstract value of an SSA operand.
func (an *Analysis) val(fl *flow, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return an.constVal(fl.st, x)
	case *ssa.Global:
		return VPtr{obj: an.globalObj(fl.st, x)}
	case *ssa.Function:
		return VFunc{fn: x}
	case *ssa.Builtin:
		return VBuiltin{x}
	}
	r, ok := fl.env[v]
	if !ok {
		panic(undecided{fmt.Sprintf("no value for %s in %s", v.Name(), v.Parent())})
	}
	return r
}

func (an *Analysis) constVal(st *State, c *ssa.Const) Val {
	if c.Value == nil {
		return st.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{cbool(constant.BoolVal(c.Value))}
	case constant.String:
		return constStr(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return VOpaque{Tstr("fconst", c.Value.ExactString())}
		}
		bi, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			break
		}
		v, _ := fromBig(bi)
		return VInt{lnum(v)}
	case constant.Float:
		return VOpaque{Tstr("fconst", c.Value.ExactString())}
	}
	return VOpaque{Tstr("const", c.Value.ExactString())}
}

func one(st *State, v Val) []sv { return []sv{{st, v}} }

func intRange(t types.Type) (N, N, uint) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return minI64, maxI64, 64
	}
	switch b.Kind() {
	case types.Int8:
		return n(-128), n(127), 8
	case types.Int16:
		return n(-1 << 15), n(1<<15 - 1), 16
	case types.Int32:
		return n(-1 << 31), n(1<<31 - 1), 32
	case types.Uint8:
		return n0, n(255), 8
	case types.Uint16:
		return n0, n(1<<16 - 1), 16
	case types.Uint32:
		return n0, n(1<<32 - 1), 32
	case types.Uint, types.Uint64, types.Uintptr:
		return n0, maxU64, 64
	}
	return minI64, maxI64, 64
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// inRange reports whether l certainly lies in [lo,hi].
func (s *State) inRange(l Lin, lo, hi N) bool {
	return s.entailsLE(l.addN(hi.neg())) && s.entailsLE(l.neg().addN(lo))
}

func twoPow(w uint) N {
	v, _ := fromBig(new(big.Int).Lsh(big.NewInt(1), w))
	return v
}

// wrap reduces the exact result l of an operation to the range of typ, splitting on overflow.
func (an *Analysis) wrap(st *State, l Lin, typ types.Type) []sv {
	lo, hi, w := intRange(typ)
	loOK := st.entailsLE(l.neg().addN(lo))
	hiOK := st.entailsLE(l.addN(hi.neg()))
	if loOK && hiOK {
		return one(st, VInt{l})
	}
	var res []sv
	if !hiOK {
		a := st.clone()
		if a.addLE(lnum(hi).addK(1).sub(l)) {
			r := l.addN(twoPow(w).neg())
			if a.addLE(r.addN(hi.neg())) && a.addLE(r.neg().addN(lo)) {
				a.note("overflow")
				res = append(res, sv{a, VInt{r}})
			}
		}
	}
	if !loOK {
		a := st.clone()
		if a.addLE(l.addK(1).addN(lo.neg())) {
			r := l.addN(twoPow(w))
			if a.addLE(r.addN(hi.neg())) && a.addLE(r.neg().addN(lo)) {
				a.note("underflow")
				res = append(res, sv{a, VInt{r}})
			}
		}
	}
	// past the range by more than its size
	for i, ok := range []bool{hiOK, loOK} {
		if ok {
			continue
		}
		var far Lin
		if i == 0 {
			far = lnum(hi).addN(twoPow(w)).addK(1).sub(l)
		} else {
			far = l.addK(1).addN(lo.neg()).addN(twoPow(w))
		}
		if a := st.clone(); a.addLE(far) && a.feasible() {
			a.note("overflow")
			res = append(res, sv{a, VInt{lsym(newSym("wrapped", lo, hi))}})
		}
	}
	if st.addLE(l.addN(hi.neg())) && st.addLE(l.neg().addN(lo)) {
		res = append([]sv{{st, VInt{l}}}, res...)
	}
	return res
}

func (s *State) note(m string) {
	if len(s.trace) < 60 {
		s.trace = append(s.trace, m)
	}
}

// bound returns interval bounds of l.
func (s *State) bound(l Lin) (N, N, bool) {
	lo, hi := l.k, l.k
	for _, m := range l.m {
		a, b := s.bounds(m.s)
		if m.c < 0 {
			a, b = b, a
		}
		p, ok1 := a.mulInt(m.c)
		q, ok2 := b.mulInt(m.c)
		if !ok1 || !ok2 {
			return lo, hi, false
		}
		lo, hi = lo.add(p), hi.add(q)
	}
	return lo, hi, true
}

// tightBound improves interval bounds by entailment of simple thresholds.
func (s *State) tightBound(l Lin) (N, N) {
	lo, hi, _ := s.bound(l)
	for _, c := range append(append([]Lin(nil), s.le...), s.eq...) {
		for _, sg := range []int64{1, -1} {
			d, ok := c.addScaled(l, -sg)
			if ok && d.isConst() { // c = sg*l + k <= 0
				if sg == 1 && d.k.neg().cmp(hi) < 0 {
					hi = d.k.neg()
				}
				if sg == -1 && d.k.cmp(lo) > 0 {
					lo = d.k
				}
			}
		}
	}
	for _, c := range s.eq {
		for _, sg := range []int64{1, -1} {
			d, ok := c.addScaled(l, -sg)
			if ok && d.isConst() {
				v := d.k
				if sg == 1 {
					v = v.neg()
				}
				lo, hi = v, v
			}
		}
	}
	return lo, hi
}

func mulN(a, b N) (N, bool) { return fromBig(new(big.Int).Mul(a.big(), b.big())) }

func (an *Analysis) binop(fr *Frame, fl *flow, in *ssa.BinOp) []sv {
	st := fl.st
	x, y := an.val(fl, in.X), an.val(fl, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		return an.equal(st, in, x, y)
	}
	if isString(in.X.Type()) {
		a, ok1 := x.(VStr)
		b, ok2 := y.(VStr)
		if in.Op == token.ADD {
			if ok1 && ok2 && a.konst && b.konst {
				return one(st, constStr(a.s+b.s))
			}
			if ok1 && ok2 && an.root != nil && an.root.side == sideEncode {
				if r, ok := textOf(append(append([]Item(nil), an.textItems(st, a)...), an.textItems(st, b)...)); ok {
					return one(st, r)
				}
			}
			return one(st, VStr{t: T("concat", strTerm(x), strTerm(y)), len: strLen(x).add(strLen(y))})
		}
		return one(st, VBool{csym(finForTerm(Tstr("scmp", in.Op.String(), strTerm(x), strTerm(y)), boolSet))})
	}
	xi, ok1 := x.(VInt)
	yi, ok2 := y.(VInt)
	if !ok1 || !ok2 {
		tx, ty := valTerm(x), valTerm(y)
		switch in.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if isFloat(in.X.Type()) {
				if r, ok := an.floatCompare(st, in.Op, x, y); ok {
					return r
				}
			}
			return one(st, VBool{csym(finForTerm(Tstr("cmp", in.Op.String(), tx, ty), boolSet))})
		}
		return one(st, VOpaque{Tstr("op", in.Op.String(), tx, ty)})
	}
	a, b := xi.l, yi.l
	switch in.Op {
	case token.LSS:
		return one(st, VBool{an.cmp(st, a.sub(b).addK(1), cLE)})
	case token.LEQ:
		return one(st, VBool{an.cmp(st, a.sub(b), cLE)})
	case token.GTR:
		return one(st, VBool{an.cmp(st, b.sub(a).addK(1), cLE)})
	case token.GEQ:
		return one(st, VBool{an.cmp(st, b.sub(a), cLE)})
	case token.ADD:
		r := an.wrap(st, a.add(b), in.Type())
		an.arith(fr, in, st, r, a.add(b))
		return r
	case token.SUB:
		r := an.wrap(st, a.sub(b), in.Type())
		an.arith(fr, in, st, r, a.sub(b))
		return r
	case token.MUL:
		if v, ok := st.constOf(b); ok {
			b = lconst(v)
		} else if v, ok := st.constOf(a); ok {
			a, b = b, lconst(v)
		}
		if b.isConst() {
			if v, ok := b.constVal(); ok && v <= 1<<30 && v >= -(1<<30) {
				if r, ok := (Lin{}).addScaled(a, v); ok {
					rs := an.wrap(st, r, in.Type())
					an.arith(fr, in, st, rs, r)
					return rs
				}
			}
		}
		alo, ahi := st.tightBound(a)
		blo, bhi := st.tightBound(b)
		var lo, hi N
		good := true
		for i, p := range [][2]N{{alo, blo}, {alo, bhi}, {ahi, blo}, {ahi, bhi}} {
			v, ok := mulN(p[0], p[1])
			if !ok {
				good = false
				break
			}
			if i == 0 || v.cmp(lo) < 0 {
				lo = v
			}
			if i == 0 || v.cmp(hi) > 0 {
				hi = v
			}
		}
		tlo, thi, _ := intRange(in.Type())
		if good && lo.cmp(tlo) >= 0 && hi.cmp(thi) <= 0 {
			y := symForTerm(T("mul", linTerm(a), linTerm(b)), lo, hi)
			r := st.boundedSym("mul", lo, hi)
			_ = y
			an.arithOK(fr, in)
			return one(st, VInt{lsym(r)})
		}
		an.arithBad(fr, in, st)
		return one(st, VInt{lsym(newSym("mulwrap", tlo, thi))})
	case token.QUO, token.REM:
		return an.divide(fr, st, in, a, b)
	}
	// bit operations
	lo, hi, w := intRange(in.Type())
	ca, oka := st.constOf(a)
	cb, okb := st.constOf(b)
	if !oka && a.isConst() && a.k.sign() > 0 {
		ca, oka = int64(a.k.lo), true
	}
	unsigned := lo.sign() == 0
	if oka && okb {
		var r uint64
		ua, ub := uint64(ca), uint64(cb)
		switch in.Op {
		case token.AND:
			r = ua & ub
		case token.OR:
			r = ua | ub
		case token.XOR:
			r = ua ^ ub
		case token.AND_NOT:
			r = ua &^ ub
		case token.SHL:
			r = ua << ub
		case token.SHR:
			if unsigned {
				r = ua >> ub
			} else {
				r = uint64(ca >> ub)
			}
		}
		if unsigned {
			if w < 64 {
				r &= 1<<w - 1
			}
			return one(st, VInt{lnum(nu(r))})
		}
		return one(st, intv(int64(r)))
	}
	switch {
	case in.Op == token.SHR && okb && unsigned && cb < 63:
		return an.divide(fr, st, in, a, lconst(1<<uint(cb)))
	case in.Op == token.SHL && okb && cb < 30:
		r := Lin{}.exactly(a, 1<<uint(cb))
		rs := an.wrap(st, r, in.Type())
		an.arith(fr, in, st, rs, r)
		return rs
	case in.Op == token.AND && okb && cb >= 0:
		hi = n(cb)
		lo = n0
	case in.Op == token.AND && oka && ca >= 0:
		hi = n(ca)
		lo = n0
	}
	return one(st, VInt{lsym(newSym("bits", lo, hi))})
}

func (s *State) boundedSym(name string, lo, hi N) Sym { return newSym(name, lo, hi) }

// cmp builds a condition, turning comparisons of one finite symbol into set membership.
func (an *Analysis) cmp(st *State, l Lin, op int8) Cond {
	if l.isConst() {
		switch op {
		case cLE:
			return cbool(l.k.sign() <= 0)
		case cEQ:
			return cbool(l.k.sign() == 0)
		default:
			return cbool(l.k.sign() != 0)
		}
	}
	if y, ok := l.finSingle(); ok {
		var set Set
		for v := 0; v < 256; v++ {
			x := l.at(y, v).sign()
			if (op == cLE && x <= 0) || (op == cEQ && x == 0) || (op == cNE && x != 0) {
				set[v>>6] |= 1 << (v & 63)
			}
		}
		return cin(y, set)
	}
	return Cond{op: op, l: l}
}

func (an *Analysis) divide(fr *Frame, st *State, in *ssa.BinOp, a, b Lin) []sv {
	lo, hi, _ := intRange(in.Type())
	rem := in.Op == token.REM
	ok := st.entailsLE(b.neg().addK(1)) || st.entailsLE(b.addK(1))
	if !ok {
		z := st.clone()
		if !z.addEQ(b) {
			ok = true
		}
	}
	an.ob("C01", "divisor is not zero", fr, in, ok, func() string { return "divisor may be zero: " + st.explain(b) })
	if !ok && !st.addNE(b) {
		return nil
	}
	if k, isK := st.constOf(b); isK && k > 0 {
		alo, ahi := st.tightBound(a)
		if alo == ahi {
			q := alo.floorDiv(k)
			if alo.sign() < 0 {
				q = alo.neg().floorDiv(k).neg()
			}
			if rem {
				p, _ := q.mulInt(k)
				return one(st, VInt{lnum(alo.sub(p))})
			}
			return one(st, VInt{lnum(q)})
		}
		tdiv := func(v N) N {
			if v.sign() < 0 {
				return v.neg().floorDiv(k).neg()
			}
			return v.floorDiv(k)
		}
		qlo, qhi := tdiv(alo), tdiv(ahi)
		if rem {
			rlo, rhi := n(-(k - 1)), n(k-1)
			if alo.sign() >= 0 {
				rlo = n0
			}
			if ahi.sign() <= 0 {
				rhi = n0
			}
			return one(st, VInt{lsym(newSym("rem", rlo, rhi))})
		}
		q := newSym("quo", qlo, qhi)
		if alo.sign() >= 0 && k <= 1<<20 {
			kq := Lin{}.exactly(lsym(q), k)
			st.le = append(st.le, kq.sub(a), a.sub(kq).addK(-(k - 1)))
		} else if k <= 1<<20 {
			kq := Lin{}.exactly(lsym(q), k)
			lo := k - 1
			if ahi.sign() <= 0 {
				lo = 0
			}
			st.le = append(st.le, a.sub(kq).addK(-lo), kq.sub(a).addK(-(k - 1)))
		}
		return one(st, VInt{lsym(q)})
	}
	alo, ahi := st.tightBound(a)
	blo, _ := st.tightBound(b)
	if !rem && alo.sign() >= 0 && blo.sign() > 0 {
		q := symForTerm(T("div", linTerm(a), linTerm(b)), n0, ahi)
		st.addLE(lsym(q).sub(a))
		return one(st, VInt{lsym(q)})
	}
	if rem && blo.sign() > 0 {
		y := newSym("rem", lo, hi)
		st.addLE(lsym(y).sub(b).addK(1))
		if alo.sign() >= 0 {
			st.addLE(lsym(y).neg())
		}
		return one(st, VInt{lsym(y)})
	}
	return one(st, VInt{lsym(newSym("quo", lo, hi))})
}

func linTerm(l Lin) *Term { return Tlin("lin", l) }

// valTerm is a term standing for an arbitrary value.
func valTerm(v Val) *Term {
	switch x := v.(type) {
	case VOpaque:
		return x.t
	case VInt:
		return linTerm(x.l)
	case VStr:
		return strTerm(x)
	case VType:
		return x.t
	case VRV:
		if x.inv {
			return Tstr("rv", "invalid")
		}
		return x.id
	case VDyn:
		return x.t
	case VBool:
		switch x.c.op {
		case cTrue:
			return Tstr("bool", "true")
		case cFalse:
			return Tstr("bool", "false")
		}
		return Tstr("bool", x.c.key())
	case VIface:
		return valTerm(x.v)
	case VStruct:
		var a []*Term
		for _, f := range x.f {
			a = append(a, valTerm(f))
		}
		return T("struct", a...)
	}
	return Tstr("val", vkey(v))
}

func strTerm(v Val) *Term {
	s, ok := v.(VStr)
	if !ok {
		return Tstr("val", vkey(v))
	}
	if s.konst {
		return Tstr("str", s.s)
	}
	if s.t != nil {
		return s.t
	}
	return T("text", Tstr("obj", fmt.Sprint(s.obj)), linTerm(s.off), linTerm(s.len))
}

func strLen(v Val) Lin {
	if s, ok := v.(VStr); ok {
		return s.len
	}
	return lsym(newSym("strlen", n0, maxLenN))
}

// equal evaluates x == y or x != y.
func (an *Analysis) equal(st *State, in *ssa.BinOp, x, y Val) []sv {
	neg := in.Op == token.NEQ
	ret := func(c Cond) []sv {
		if neg {
			c = c.neg()
		}
		return one(st, VBool{c})
	}
	if xi, ok := x.(VInt); ok {
		if yi, ok := y.(VInt); ok {
			return ret(an.cmp(st, xi.l.sub(yi.l), cEQ))
		}
	}
	if xb, ok := x.(VBool); ok {
		if yb, ok := y.(VBool); ok {
			switch {
			case yb.c.op == cTrue:
				return ret(xb.c)
			case yb.c.op == cFalse:
				return ret(xb.c.neg())
			case xb.c.op == cTrue:
				return ret(yb.c)
			case xb.c.op == cFalse:
				return ret(yb.c.neg())
			}
		}
	}
	if _, ok := y.(VNil); ok {
		if c, ok := an.isNil(st, x); ok {
			return ret(c)
		}
	}
	if _, ok := x.(VNil); ok {
		if c, ok := an.isNil(st, y); ok {
			return ret(c)
		}
	}
	if xs, ok := x.(VStr); ok {
		if ys, ok := y.(VStr); ok {
			if xs.konst {
				xs, ys = ys, xs
			}
			if v, ok := an.inputView(st, xs); ok && ys.konst && len(ys.s) <= 16 && (an.root == nil || an.root.kind != rkDigest) {
				var res []sv
				for _, r := range an.inputIs(st, v, ys.s) {
					c := r.val.(VBool).c
					if neg {
						c = c.neg()
					}
					res = append(res, sv{r.st, VBool{c}})
				}
				return res
			}
			return ret(an.strEq(st, xs, ys))
		}
	}
	if xt, ok := x.(VType); ok {
		if yt, ok := y.(VType); ok {
			return ret(an.typeEq(st, xt.t, yt.t))
		}
	}
	if xp, ok := x.(VPtr); ok {
		if yp, ok := y.(VPtr); ok {
			if xp.key() == yp.key() {
				return ret(cbool(true))
			}
			if !(st.heap[xp.obj].ext && st.heap[yp.obj].ext) {
				return ret(cbool(false))
			}
		}
	}
	if isFloat(in.X.Type()) {
		if r, ok := an.floatCompare(st, in.Op, x, y); ok {
			return r
		}
	} else if vkey(x) == vkey(y) {
		return ret(cbool(true))
	}
	a, b := valTerm(x), valTerm(y)
	if a.key > b.key {
		a, b = b, a
	}
	return ret(csym(finForTerm(T("eq", a, b), boolSet)))
}

func (an *Analysis) strEq(st *State, a, b VStr) Cond {
	if a.konst && b.konst {
		return cbool(a.s == b.s)
	}
	if a.konst {
		a, b = b, a
	}
	if b.konst {
		if b.s == "" {
			return an.cmp(st, a.len, cEQ)
		}
		if d := a.len.addK(-int64(len(b.s))); d.isConst() && d.k.sign() != 0 {
			return cbool(false)
		}
	}
	ta, tb := strTerm(a), strTerm(b)
	if ta == tb {
		return cbool(true)
	}
	if ta.key > tb.key {
		ta, tb = tb, ta
	}
	return csym(finForTerm(T("streq", ta, tb), boolSet))
}

// isNil is the condition that v is nil.
func (an *Analysis) isNil(st *State, v Val) (Cond, bool) {
	switch x := v.(type) {
	case VNil:
		return cbool(true), true
	case VPtr, VFunc, VCodec, VMap, VIface, VBuiltin:
		return cbool(false), true
	case VType:
		if x.nilOf != nil {
			return csym(nilSym(x.nilOf)), true
		}
		return cbool(false), true
	case VDyn:
		if x.nonnl {
			return cbool(false), true
		}
		return csym(nilSym(x.t)), true
	case VSlice:
		if x.nilness == 2 {
			return csym(x.nilSym), true
		}
		return cbool(false), true
	}
	return Cond{}, false
}

func nilSym(t *Term) Sym { return finForTerm(T("nil", t), boolSet) }

// pos helpers

func (an *Analysis) pos(in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		// find the nearest positioned instruction of the block
		for _, x := range in.Block().Instrs {
			if x.Pos() != token.NoPos {
				p = x.Pos()
				break
			}
		}
	}
	if p == token.NoPos {
		p = in.Parent().Pos()
	}
	q := an.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, an.dir+"/"), q.Line)
}

func (s *State) explain(l Lin) string {
	le, eq := s.relevant([]Lin{l})
	var p []string
	for _, e := range eq {
		p = append(p, e.String()+"=0")
	}
	for _, e := range le {
		if len(p) > 14 {
			break
		}
		p = append(p, e.String()+"<=0")
	}
	sort.Strings(p)
	return l.String() + " given " + strings.Join(p, ", ")
}
