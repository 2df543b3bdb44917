package main

import (
	"fmt"
	"sort"
	"strings"
)

// Item is one piece of produced output.
type Item struct {
	k    byte   // 'X' what was there before, 'B' literal bytes, 'I' decimal integer, 'F' float text, 'R' copied text, 'V' one complete value, 'O' an opened container with n pairs, 'Q' cnt complete values in sequence, '?' unknown
	s    string // literal
	l    Lin    // I: the integer; R: number of bytes; O: declared pairs; Q: number of values
	t    *Term  // identity of text or value
	tags Set    // V: possible type letters
	keys bool   // Q: every value at an even position is an integer or a string
	key1 bool   // Q: the next value must be a key
	fmt  string // F: how it was formatted
	len  Lin
	src  *Term // the reflect value this was read from
	site string
}

type Emit struct{ items []Item }

func (i Item) key() string {
	s := string(i.k)
	switch i.k {
	case 'B':
		return "B" + i.s
	case 'V':
		if i.t != nil {
			return s + i.tags.bytesString() + i.t.key
		}
		return s + i.tags.bytesString()
	case 'Q':
		return fmt.Sprintf("Q%s%v%v", i.l.key(), i.keys, i.key1)
	case 'O', 'I':
		return s + i.l.key()
	}
	if i.t != nil {
		s += i.t.key
	}
	return s + i.fmt + i.l.key()
}

func (e *Emit) key() string {
	var p []string
	for _, i := range e.items {
		p = append(p, i.key())
	}
	return strings.Join(p, "~")
}

func (e *Emit) String() string {
	var p []string
	for _, i := range e.items {
		switch i.k {
		case 'X':
			p = append(p, "…")
		case 'B':
			p = append(p, fmt.Sprintf("%q", i.s))
		case 'I':
			p = append(p, "int("+i.l.String()+")")
		case 'F':
			p = append(p, "float("+i.fmt+")")
		case 'R':
			p = append(p, "text["+i.l.String()+"]")
		case 'V':
			p = append(p, "value{"+i.tags.bytesString()+"}")
		case 'O':
			p = append(p, "open("+i.l.String()+")")
		case 'Q':
			p = append(p, "values("+i.l.String()+")")
		default:
			p = append(p, "unknown")
		}
	}
	return strings.Join(p, " ")
}

func (e *Emit) rename(r *renamer) *Emit {
	n := &Emit{}
	for _, i := range e.items {
		i.l, i.len = r.lin(i.l), r.lin(i.len)
		i.t, i.src = r.term(i.t), r.term(i.src)
		n.items = append(n.items, i)
	}
	return n
}

func strItem(s VStr) Item {
	if s.konst {
		return Item{k: 'B', s: s.s, len: lconst(int64(len(s.s)))}
	}
	return Item{k: 'R', l: s.len, len: s.len, t: strTerm(s)}
}

// textTerm is the identity of a text made of pieces, nil where a piece cannot be told.
func textTerm(items []Item) *Term {
	var parts []*Term
	for _, i := range items {
		switch {
		case i.k == 'B':
			parts = append(parts, Tstr("str", i.s))
		case i.k == 'I':
			parts = append(parts, Tlin("itxt", i.l))
		case i.k == 'F' && i.t != nil:
			parts = append(parts, Tlin("ftxt", i.len, Tstr("fmt", i.fmt), i.t))
		case i.k == 'R' && i.t != nil:
			parts = append(parts, Tlin("rtxt", i.len, i.t))
		default:
			return nil
		}
	}
	return T("cat", parts...)
}

// catItems are the pieces of a text named by textTerm.
func catItems(t *Term) ([]Item, bool) {
	if t == nil || t.op != "cat" {
		return nil, false
	}
	var out []Item
	for _, a := range t.args {
		switch a.op {
		case "str":
			out = append(out, litItem(a.str))
		case "itxt":
			out = append(out, Item{k: 'I', l: *a.lin, len: declen(*a.lin, 10)})
		case "ftxt":
			out = append(out, Item{k: 'F', l: *a.lin, len: *a.lin, fmt: a.args[0].str, t: a.args[1]})
		case "rtxt":
			out = append(out, Item{k: 'R', l: *a.lin, len: *a.lin, t: a.args[0]})
		default:
			return nil, false
		}
	}
	return out, true
}

// textItems are the pieces a string is made of.
func (an *Analysis) textItems(st *State, s VStr) []Item {
	if s.konst {
		if s.s == "" {
			return nil
		}
		return []Item{litItem(s.s)}
	}
	if it, ok := catItems(s.t); ok {
		return it
	}
	if o := st.heap[s.obj]; s.t == nil && s.obj != 0 && o != nil && o.tid != nil && s.off.isConst() && s.off.k.sign() == 0 && st.entailsEQ(s.len.sub(an.fullLen(st, o))) {
		return []Item{{k: 'R', l: s.len, len: s.len, t: o.tid}}
	}
	return []Item{strItem(s)}
}

// textOf is a string made of pieces.
func textOf(items []Item) (VStr, bool) {
	e := (&Emit{}).add(items...)
	if len(e.items) == 0 {
		return constStr("").(VStr), true
	}
	if len(e.items) == 1 && e.items[0].k == 'B' {
		return constStr(e.items[0].s).(VStr), true
	}
	if len(e.items) == 1 && e.items[0].k == 'R' && e.items[0].t != nil {
		return VStr{t: e.items[0].t, len: e.items[0].len}, true
	}
	t := textTerm(e.items)
	return VStr{t: t, len: e.length()}, t != nil
}

func litItem(b string) Item { return Item{k: 'B', s: b, len: lconst(int64(len(b)))} }

var valueTags = setBytes("NbidsaO")
var keyTags = setBytes("is")

// add appends items without reducing.
func (e *Emit) add(items ...Item) *Emit {
	n := &Emit{items: append([]Item(nil), e.items...)}
	for _, i := range items {
		if i.k == 'B' {
			if i.s == "" {
				continue
			}
			if l := len(n.items); l > 0 && n.items[l-1].k == 'B' {
				j := n.items[l-1]
				j.s += i.s
				j.len = lconst(int64(len(j.s)))
				n.items[l-1] = j
				continue
			}
		}
		n.items = append(n.items, i)
	}
	return n
}

func (e *Emit) length() Lin {
	l := lconst(0)
	for _, i := range e.items {
		l = l.add(i.len)
	}
	return l
}

// tokenizer over items: literal bytes are consumed one at a time.
type etok struct {
	items []Item
	i, b  int
}

func (t *etok) lit() (byte, bool) {
	if t.i < len(t.items) && t.items[t.i].k == 'B' {
		return t.items[t.i].s[t.b], true
	}
	return 0, false
}
func (t *etok) eat(s string) bool {
	sv := *t
	for i := 0; i < len(s); i++ {
		c, ok := t.lit()
		if !ok || c != s[i] {
			*t = sv
			return false
		}
		t.b++
		if t.b == len(t.items[t.i].s) {
			t.i, t.b = t.i+1, 0
		}
	}
	return true
}
func (t *etok) item(k byte) (Item, bool) {
	if t.b == 0 && t.i < len(t.items) && t.items[t.i].k == k {
		it := t.items[t.i]
		t.i++
		return it, true
	}
	return Item{}, false
}
func (t *etok) end() bool { return t.i >= len(t.items) }

// number reads a decimal integer, literal or computed.
func (t *etok) number() (Lin, bool) {
	if it, ok := t.item('I'); ok {
		return it.l, true
	}
	v, any := int64(0), false
	for {
		c, ok := t.lit()
		if !ok || c < '0' || c > '9' || v > 1<<40 {
			break
		}
		t.eat(string(c))
		v, any = v*10+int64(c-'0'), true
	}
	return lconst(v), any
}

// scalar parses one complete scalar value at the start of t.
func (t *etok) scalar(st *State) (Item, bool) {
	sv := *t
	val := func(tag string, t *Term) (Item, bool) { return Item{k: 'V', tags: setBytes(tag), t: t}, true }
	switch {
	case t.eat("N;"):
		return val("N", Tstr("nullval", ""))
	case t.eat("b:0;"):
		return val("b", Tstr("bval", "0"))
	case t.eat("b:1;"):
		return val("b", Tstr("bval", "1"))
	case t.eat("i:"):
		neg := t.eat("-")
		if l, ok := t.number(); ok && t.eat(";") {
			if neg {
				l = l.neg()
			}
			return val("i", Tlin("ival", l))
		}
	case t.eat("d:"):
		if it, ok := t.item('F'); ok && it.t != nil && t.eat(";") && finite(st, it.t.args[0]) {
			return val("d", it.t)
		}
		for _, c := range []string{"NAN", "INF", "-INF"} {
			if t.eat(c + ";") {
				return val("d", Tstr("dval", c))
			}
		}
		if it, ok := t.item('I'); ok && t.eat(";") {
			return val("d", Tlin("ival", it.l))
		}
	case t.eat("s:"):
		n, ok := t.number()
		if ok && t.eat(":\"") {
			// the content runs until the declared number of bytes is reached
			l := lconst(0)
			var parts []*Term
			litp := ""
			flush := func() {
				if litp != "" {
					parts = append(parts, Tstr("lit", litp))
					litp = ""
				}
			}
			for steps := 0; steps < 64; steps++ {
				if st.entailsEQ(l.sub(n)) {
					c := *t
					if c.eat("\";") {
						*t = c
						flush()
						return val("s", T("sval", parts...))
					}
				}
				if t.end() {
					break
				}
				if c, ok := t.lit(); ok {
					t.eat(string(c))
					litp += string(c)
					l = l.addK(1)
					continue
				}
				it := t.items[t.i]
				t.i++
				l = l.add(it.len)
				flush()
				switch {
				case it.k == 'I':
					parts = append(parts, Tlin("ival", it.l))
				case it.t != nil:
					if !st.entailsEQ(it.len) {
						parts = append(parts, it.t)
					}
				default:
					parts = append(parts, freshTerm("part"))
				}
			}
		}
	}
	*t = sv
	return Item{}, false
}

// reduce folds complete values and containers.
func (e *Emit) reduce(st *State) *Emit {
	items := e.items
	for {
		// the current token starts after the last structural item
		start := 0
		for i := len(items) - 1; i >= 0; i-- {
			k := items[i].k
			if k == 'V' || k == 'Q' || k == 'O' || k == 'X' || k == '?' {
				start = i + 1
				break
			}
		}
		head := append([]Item(nil), items[:start]...)
		t := &etok{items: items[start:]}
		changed := false
		if !t.end() {
			if v, ok := t.scalar(st); ok {
				v.len = lsym(newSym("vlen", n(2), maxLenN))
				head = append(head, v)
				changed = true
			} else {
				c := *t
				if c.eat("a:") {
					if n, ok := c.number(); ok && c.eat(":{") {
						*t = c
						head = append(head, Item{k: 'O', l: n, len: lconst(0)}, Item{k: 'Q', keys: true, key1: true})
						changed = true
					}
				} else if c := *t; c.eat("}") {
					// close the innermost container
					q := len(head) - 1
					if q >= 1 && head[q].k == 'Q' && head[q-1].k == 'O' {
						two, _ := Lin{}.addScaled(head[q-1].l, 2)
						if head[q].keys && head[q].key1 && st.entailsEQ(head[q].l.sub(two)) {
							*t = c
							head = append(head[:q-1], Item{k: 'V', tags: setBytes("a"), len: lsym(newSym("vlen", n(6), maxLenN))})
							changed = true
						}
					}
				}
			}
		}
		// fold values into the sequence of an open container
		for i := 1; i < len(head); i++ {
			if head[i].k == 'V' && head[i-1].k == 'Q' {
				q := head[i-1]
				v := head[i]
				if q.key1 && !v.tags.subset(keyTags) {
					q.keys = false
				}
				q.l = q.l.addK(1)
				q.key1 = !q.key1
				head = append(head[:i-1], append([]Item{q}, head[i+1:]...)...)
				i--
				changed = true
				continue
			}
			if head[i].k == 'Q' && head[i-1].k == 'Q' && head[i-1].key1 {
				q := head[i-1]
				q.l = q.l.add(head[i].l)
				q.keys = q.keys && head[i].keys
				q.key1 = head[i].key1
				head = append(head[:i-1], append([]Item{q}, head[i+1:]...)...)
				i--
				changed = true
			}
		}
		if t.i < len(t.items) {
			rest := append([]Item(nil), t.items[t.i:]...)
			if t.b > 0 {
				rest[0].s = rest[0].s[t.b:]
				rest[0].len = lconst(int64(len(rest[0].s)))
			}
			head = append(head, rest...)
		}
		items = head
		if !changed {
			return &Emit{items: items}
		}
	}
}

// asSeq turns the start of a scratch buffer into a sequence, so that a loop can extend it.
func (e *Emit) asSeq() *Emit {
	if len(e.items) == 0 {
		return &Emit{items: []Item{{k: 'Q', keys: true, key1: true}}}
	}
	return e
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
