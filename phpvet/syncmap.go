package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// syncMap models sync.Map: what a key holds is what some goroutine stored for an equal key.
func (an *Analysis) syncMap(fr *Frame, st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature) []sv {
	p, ok := args[0].(VPtr)
	if !ok || st.heap[p.obj] == nil || st.heap[p.obj].global == "" {
		panic(undecided{"sync.Map outside a package variable in " + fr.fn.String()})
	}
	if an.inInit {
		panic(undecided{"sync.Map used during initialisation in " + fr.fn.String()})
	}
	key := "sync " + st.heap[p.obj].global + p.path
	pair := func(s *State, v Val, ok bool) sv {
		return sv{s, VTuple{[]Val{v, VBool{cbool(ok)}}}}
	}
	load := func() []sv {
		out := []sv{pair(st.clone(), VNil{}, false)}
		if v, ok := an.syncLoad(st, key, args[1]); ok {
			out = append(out, pair(st, v, true))
		}
		return out
	}
	switch name {
	case "Load", "LoadAndDelete":
		return load()
	case "Store":
		an.syncStore(fr, st, in, key, args[1], args[2])
		return one(st, VNil{})
	case "LoadOrStore":
		n := st.clone()
		an.syncStore(fr, n, in, key, args[1], args[2])
		out := []sv{pair(n, args[2], false)}
		if v, ok := an.syncLoad(st, key, args[1]); ok {
			out = append(out, pair(st, v, true))
		}
		return out
	case "Delete", "Clear":
		return one(st, VNil{})
	}
	panic(undecided{"sync.Map." + name + " in " + fr.fn.String()})
}

// keyType is the type a cache key consists of, alone or as one part of a composite key.
func keyType(k Val) (VType, bool) {
	switch x := k.(type) {
	case VType:
		return x, true
	case VIface:
		return keyType(x.v)
	case VStruct:
		n, t := 0, VType{}
		for _, f := range x.f {
			if y, ok := f.(VType); ok {
				t = y
				n++
			}
		}
		return t, n == 1
	}
	return VType{}, false
}

func (an *Analysis) syncLoad(st *State, key string, k Val) (Val, bool) {
	rel := an.cacheRel[key]
	kt, ok := keyType(k)
	switch rel {
	case "self enc", "self dec", "elem enc", "elem dec":
		if !ok {
			return nil, false
		}
		t := kt.t
		if rel[:4] == "elem" {
			t = elemOf(st.rt(t))
		}
		return VCodec{typ: t, enc: rel[5:] == "enc"}, true
	case "data":
		return VDyn{t: freshTerm("cached"), nonnl: true}, true
	}
	return nil, false
}

func (an *Analysis) syncStore(fr *Frame, st *State, in ssa.Instruction, key string, k, v Val) {
	an.publish(fr, st, in, key, v)
	side := ""
	switch x := v.(type) {
	case VCodec:
		side = "dec"
		if x.enc {
			side = "enc"
		}
	case VFunc:
		side = "enc"
	case VIface:
		if f, ok := x.v.(VFunc); ok {
			v, side = f, "enc"
		} else if an.decIface != nil && types.Implements(x.typ, an.decIface) {
			side = "dec"
		}
	}
	if side == "" {
		if an.cacheRel[key] == "" {
			an.cacheRel[key] = "data"
		}
		return
	}
	kt, ok := keyType(k)
	if !ok {
		if x, isI := k.(VIface); isI {
			if b, isB := x.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
				an.ob("C21", "a cache key identifies the type", fr, in, false, func() string {
					return fmt.Sprintf("a codec is stored under a key of type %s; different types can have the same text", x.typ)
				})
				return
			}
		}
		panic(undecided{fmt.Sprintf("a codec is stored under a key that is not a type in %s", fr.fn)})
	}
	rel, t := "self", st.rt(kt.t)
	if c, isC := v.(VCodec); isC {
		switch ct := st.rt(c.typ); {
		case ct == t:
		case ct == st.rt(elemOf(t)):
			rel = "elem"
		default:
			an.ob("C21", "a cache entry is a codec for its key", fr, in, false, func() string {
				return fmt.Sprintf("a codec for type %s is stored under type %s", ct, t)
			})
			return
		}
	} else if !an.registerCodec(st, v, t, "") {
		panic(undecided{"the value stored in a sync.Map in " + fr.fn.String() + " is not a codec for a known type"})
	}
	rel += " " + side
	if an.cacheRel[key] == "" {
		an.cacheRel[key] = rel
	}
	an.ob("C21", "a cache entry is a codec for its key", fr, in, an.cacheRel[key] == rel, func() string {
		return fmt.Sprintf("the entry is related to its key as %q, others as %q", rel, an.cacheRel[key])
	})
}
