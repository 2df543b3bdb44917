package main

import (
	"fmt"
	"os"
	"strings"
)

func (st *State) dangling(what string, v Val) {
	if v == nil {
		return
	}
	objsIn(v, func(id ObjID) {
		if id != 0 && st.heap[id] == nil {
			fmt.Fprintln(os.Stderr, "DANGLING", what, vkey(v), id)
		}
	})
}

func diffLines(a, b string) {
	in := map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		in[l] = true
	}
	for _, l := range strings.Split(b, "\n") {
		if !in[l] {
			fmt.Fprintln(os.Stderr, "NEW", l)
		}
		delete(in, l)
	}
	for l := range in {
		fmt.Fprintln(os.Stderr, "OLD", l)
	}
}

func (s *State) dbgRanges() string {
	if !debugLoop {
		return ""
	}
	out := ""
	for _, r := range s.ranges {
		out += fmt.Sprintf(" range %d [%s,%s) %s", r.obj, r.lo, r.hi, r.set.bytesString())
	}
	for _, b := range s.bytes {
		out += fmt.Sprintf(" byte %d [%s] %s", b.obj, b.pos, s.domOf(b.s).bytesString())
	}
	for _, l := range s.eq {
		out += " eq " + l.String()
	}
	for _, l := range s.le {
		out += " le " + l.String()
	}
	return out
}

func (st *State) dumpReach(v Val) {
	for _, id := range st.reach([]Val{v}, func(o *Obj) bool { return o.global == "" }) {
		o := st.heap[id]
		fmt.Fprintf(os.Stderr, "OBJ %d %s\n", id, o.name)
		for _, k := range sortedCells(o) {
			fmt.Fprintf(os.Stderr, "   %s = %s\n", k, vkey(o.cells[k]))
		}
		for _, a := range o.alts {
			fmt.Fprintf(os.Stderr, "   ALT %s\n", a.ckey)
			for y, d := range a.dom {
				fmt.Fprintf(os.Stderr, "       dom %s %s\n", symName(y), kindNames(d))
			}
			for _, l := range a.le {
				fmt.Fprintf(os.Stderr, "       le %s\n", l)
			}
		}
	}
}
