package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Memory that outlives a call: package variables and what initialisation put behind them.
// Every access at run time is recorded with the locks held there. Where any of them writes,
// all of them need a lock in common, which the writer holds exclusively.

type access struct {
	Label, Path string
	Write       bool
	Locks       []string
	Fn, Pos     string
}

func (a access) key() string {
	return fmt.Sprint(a.Label, "|", a.Path, "|", a.Write, a.Locks, a.Fn, a.Pos)
}

// labelShared names everything reachable from package variables after initialisation.
func (an *Analysis) labelShared(st *State) {
	var gs []*ssa.Global
	for g := range an.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		o := st.heap[an.globals[g]]
		if o == nil {
			continue
		}
		n := 0
		for _, id := range st.reach([]Val{VPtr{obj: o.id}}, func(x *Obj) bool { return true }) {
			x := st.heap[id]
			if x.global != "" || x.shared != "" {
				continue
			}
			n++
			m := st.mut(id)
			m.shared = fmt.Sprintf("%s (part %d)", g, n)
			m.published = true
			if an.sharedMut[m.shared] {
				m.closed = false
				m.codecRel = an.cacheRel["map "+m.shared]
			}
		}
	}
}

func sharedLabel(o *Obj) string {
	if o.global != "" {
		return o.global
	}
	return o.shared
}

// access records a use of shared memory; it reports whether the memory is shared.
func (an *Analysis) access(fr *Frame, st *State, in ssa.Instruction, o *Obj, path string, write bool) bool {
	l := sharedLabel(o)
	if l == "" {
		if o.ctxPath != "" && write && an.root != nil {
			a := access{Label: o.ctxPath, Write: true, Fn: fr.fn.String(), Pos: an.pos(in)}
			an.accesses[a.key()] = a
		}
		return false
	}
	if an.inInit || an.root == nil {
		return true
	}
	if write {
		k := l + path
		if !an.sharedMut[k] {
			an.sharedMut[k] = true
		}
	}
	a := access{Label: l, Path: path, Write: write, Locks: st.locks, Fn: fr.fn.String(), Pos: an.pos(in)}
	an.accesses[a.key()] = a
	return true
}

// mutable: the cell is written after initialisation.
func (an *Analysis) mutable(o *Obj, path string) bool {
	l := sharedLabel(o)
	if l == "" || an.inInit || len(an.sharedMut) == 0 {
		return false
	}
	for i := len(path); i >= 0; i-- {
		if (i == len(path) || path[i] == '.' || path[i] == '[') && an.sharedMut[l+path[:i]] {
			return true
		}
	}
	for k := range an.sharedMut {
		if strings.HasPrefix(k, l+path) && len(k) > len(l+path) && strings.ContainsRune(".[", rune(k[len(l+path)])) {
			return true
		}
	}
	return false
}

// writesPublished: the write is to memory other goroutines can read.
func (an *Analysis) writesPublished(fr *Frame, st *State, in ssa.Instruction, o *Obj, path, rule, what string) {
	if an.inInit || an.root == nil || an.root.kind == rkInit {
		return
	}
	if an.access(fr, st, in, o, path, true) {
		return
	}
	if !o.published {
		return
	}
	for _, l := range st.locks {
		if l[0] == 'w' {
			return
		}
	}
	an.ob("C11", rule, fr, in, false, func() string { return what + " " + o.name + ", which other goroutines can read" })
}

func overlap(a, b string) bool {
	if len(a) > len(b) {
		a, b = b, a
	}
	return a == b || strings.HasPrefix(b, a) && (a == "" || strings.ContainsRune(".[", rune(b[len(a)])))
}

// checkAccesses decides what was recorded.
func (an *Analysis) checkAccesses() {
	var as []access
	for _, a := range an.accesses {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].key() < as[j].key() })
	common := func(w, x access) bool {
		for _, l := range w.Locks {
			if l[0] != 'w' {
				continue
			}
			for _, m := range x.Locks {
				if m[1:] == l[1:] && (m[0] == 'w' || !x.Write) {
					return true
				}
			}
		}
		return false
	}
	for _, w := range as {
		if strings.HasPrefix(w.Label, "ctx ") {
			// state of one call that is kept in memory all calls share
			if !w.Write {
				continue
			}
			for _, x := range as {
				if !x.Write && x.Label == w.Label {
					an.obAt("C11", "a call's state is memory of its own", x.Fn, x.Pos, false, func() string {
						return "the context refers to " + x.Path + ", which is written at " + w.Pos
					})
				}
			}
			an.obAt("C11", "a call's state is memory of its own", w.Fn, w.Pos, true, nil)
			continue
		}
		if !w.Write {
			continue
		}
		ok := common(w, w)
		an.obAt("C11", "shared memory is written under an exclusive lock or not at all", w.Fn, w.Pos, ok, func() string {
			return "write to " + w.Label + " without a lock that excludes other goroutines"
		})
		if !ok {
			continue
		}
		for _, x := range as {
			if x.Label != w.Label || !overlap(x.Path, w.Path) {
				continue
			}
			an.obAt("C11", "shared memory that is written is only used under its lock", x.Fn, x.Pos, common(w, x), func() string {
				return "use of " + x.Label + " without the lock that is held for the write at " + w.Pos
			})
		}
	}
}

// ---- locks ----

func (an *Analysis) lockKey(st *State, v Val) string {
	p, ok := v.(VPtr)
	if !ok {
		panic(undecided{"a lock that is not known"})
	}
	if o := st.heap[p.obj]; o != nil {
		if l := sharedLabel(o); l != "" {
			return l + p.path
		}
	}
	return fmt.Sprintf("obj%d%s", p.obj, p.path)
}

func withLock(ls []string, l string) []string {
	n := append(append([]string(nil), ls...), l)
	sort.Strings(n)
	return n
}

func withoutLock(ls []string, l string) ([]string, bool) {
	for i, x := range ls {
		if x == l {
			return append(append([]string(nil), ls[:i]...), ls[i+1:]...), true
		}
	}
	return ls, false
}

func (an *Analysis) lockCall(fr *Frame, st *State, in ssa.Instruction, name string, args []Val) []sv {
	k := an.lockKey(st, args[0])
	held := func(m string) bool {
		for _, x := range st.locks {
			if x == m+k {
				return true
			}
		}
		return false
	}
	mode := "w"
	if strings.Contains(name, "R") && name != "Lock" && name != "Unlock" {
		mode = "r"
	}
	switch name {
	case "Lock", "RLock":
		dead := held("w") || name == "Lock" && held("r")
		an.ob("C11", "a lock is not acquired while it is held", fr, in, !dead, func() string { return "the goroutine waits for a lock it holds itself" })
		if dead {
			st.dead = true
			return nil
		}
		st.locks = withLock(st.locks, mode+k)
		return one(st, VNil{})
	case "Unlock", "RUnlock":
		ls, ok := withoutLock(st.locks, mode+k)
		an.ob("C11", "a lock that is released is held", fr, in, ok, func() string { return "release of a lock that is not held" })
		if !ok {
			st.dead = true
			return nil
		}
		st.locks = ls
		return one(st, VNil{})
	case "TryLock", "TryRLock":
		n := st.clone()
		if !held("w") && !(mode == "w" && held("r")) {
			st.locks = withLock(st.locks, mode+k)
			return []sv{{st, VBool{cbool(true)}}, {n, VBool{cbool(false)}}}
		}
		return one(n, VBool{cbool(false)})
	}
	panic(undecided{"lock operation " + name})
}

// checkLocks: no lock is held when a root returns.
func (an *Analysis) checkLocks(r *Root, st *State) {
	an.rootOb(r, "C11", "no lock is held at the end", len(st.locks) == 0, func() string {
		return "still held at the end: " + strings.Join(st.locks, ", ")
	})
}

// onceDo: what the function wrote is visible to everything after Do.
func (an *Analysis) onceDo(fr *Frame, st *State, in ssa.Instruction, args []Val) []sv {
	f, ok := args[1].(VFunc)
	if !ok {
		panic(undecided{"sync.Once.Do of an unknown function"})
	}
	k := an.lockKey(st, args[0])
	a := st.clone()
	a.locks = withLock(a.locks, "wonce "+k)
	res := an.callFunc(fr, a, in, f.fn, nil, f.bind)
	for i := range res {
		res[i].val = VNil{}
		ls, _ := withoutLock(res[i].st.locks, "wonce "+k)
		res[i].st.locks = ls
	}
	res = append(res, sv{st, VNil{}})
	for i := range res {
		if _, has := withoutLock(res[i].st.locks, "ronce "+k); !has {
			res[i].st.locks = withLock(res[i].st.locks, "ronce "+k)
		}
	}
	return res
}

// sharedValues collects the reflect values kept in memory that a codec captured.
func (st *State) sharedValues(vals []Val) map[*Term]bool {
	out := map[*Term]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case VRV:
			if x.id != nil {
				out[x.id] = true
			}
		case VStruct:
			for _, f := range x.f {
				walk(f)
			}
		case VTuple:
			for _, f := range x.v {
				walk(f)
			}
		case VIface:
			walk(x.v)
		case VFunc:
			for _, f := range x.bind {
				walk(f)
			}
		}
	}
	for _, v := range vals {
		walk(v)
	}
	for _, id := range st.reach(vals, func(o *Obj) bool { return true }) {
		for _, v := range st.heap[id].cells {
			walk(v)
		}
	}
	return out
}

// sharedWrite: a reflect value that a codec keeps is not written through.
func (an *Analysis) sharedWrite(st *State, rv VRV, kind, pos string) {
	r := an.root
	if r == nil || len(r.kept) == 0 || rv.id == nil {
		return
	}
	for k := range r.kept {
		if rv.id == k || rv.id.mentions(k) {
			an.obAt("C11", "a published codec is never written", r.fnName(), pos, false, func() string {
				return kind + " through a reflect.Value that the codec keeps and all calls share"
			})
			return
		}
	}
}

// ctxAliases records which fields of a context refer to memory that all calls share.
func (an *Analysis) ctxAliases(fr *Frame, st *State, in ssa.Instruction, o *Obj) {
	for _, p := range sortedCells(o) {
		for _, id := range st.reach([]Val{o.cells[p]}, func(*Obj) bool { return true }) {
			x := st.heap[id]
			if l := sharedLabel(x); l != "" && (x.kind == oMap || x.kind == oBytes || x.kind == oCells) {
				a := access{Label: "ctx " + typeKey(o.typ) + p, Path: l, Fn: fr.fn.String(), Pos: an.pos(in)}
				an.accesses[a.key()] = a
				break
			}
		}
	}
}
