package main

import "fmt"

// The grammar of serialized values, recognised over the facts a path has established about
// the bytes of the input.

var (
	digitSet = setRange('0', '9')
)

// recog returns the position after the complete value at p, or why none is established.
func (s *State) recog(obj ObjID, p Lin) (Lin, string) {
	for i := len(s.spans) - 1; i >= 0; i-- {
		f := s.spans[i]
		if f.obj == obj && (f.lo.eq(p) || s.entailsEQ(f.lo.sub(p))) {
			return f.hi, ""
		}
	}
	return s.recogHere(obj, p)
}

func (s *State) is(obj ObjID, p Lin, lit string) bool {
	for i := 0; i < len(lit); i++ {
		if s.byteSet(obj, p.addK(int64(i))) != setOf(int(lit[i])) {
			return false
		}
	}
	return true
}

func (s *State) want(obj ObjID, p Lin, lit, what string) string {
	for i := 0; i < len(lit); i++ {
		if d := s.byteSet(obj, p.addK(int64(i))); d != setOf(int(lit[i])) {
			return fmt.Sprintf("%s: the byte at %s is not known to be %q (it can be %q)", what, p.addK(int64(i)), lit[i], d.bytesString())
		}
	}
	return ""
}

func (s *State) recogHere(obj ObjID, p Lin) (Lin, string) {
	tag := s.byteSet(obj, p)
	if tag.count() != 1 {
		return Lin{}, fmt.Sprintf("the type letter at %s can be any of %q", p, tag.bytesString())
	}
	switch byte(tag.min()) {
	case 'N':
		if w := s.want(obj, p.addK(1), ";", "null"); w != "" {
			return Lin{}, w
		}
		return p.addK(2), ""
	case 'b':
		if w := s.want(obj, p.addK(1), ":", "bool"); w != "" {
			return Lin{}, w
		}
		if !s.byteSet(obj, p.addK(2)).subset(setBytes("01")) {
			return Lin{}, "bool: the value is not known to be 0 or 1"
		}
		if w := s.want(obj, p.addK(3), ";", "bool"); w != "" {
			return Lin{}, w
		}
		return p.addK(4), ""
	case 'i':
		if w := s.want(obj, p.addK(1), ":", "integer"); w != "" {
			return Lin{}, w
		}
		q := p.addK(2)
		if s.byteSet(obj, q) == setBytes("-") {
			q = q.addK(1)
		}
		e, w := s.digits(obj, q)
		if w != "" {
			return Lin{}, "integer: " + w
		}
		if w := s.want(obj, e, ";", "integer"); w != "" {
			return Lin{}, w
		}
		return e.addK(1), ""
	case 'd':
		if w := s.want(obj, p.addK(1), ":", "float"); w != "" {
			return Lin{}, w
		}
		q := p.addK(2)
		e := q
		notSemi := setBytes(";").not()
		for i := 0; ; i++ {
			d := s.byteSet(obj, e)
			if d == setBytes(";") && (i > 0 || true) {
				break
			}
			n, ok := s.runStep(obj, e, notSemi)
			if !ok || i > 12 {
				return Lin{}, fmt.Sprintf("float: the text is not known to end with ';' at %s%s", e, s.dbgRanges())
			}
			e = n
		}
		if !s.entailsLE(q.sub(e).addK(1)) {
			return Lin{}, "float: the text may be empty"
		}
		return e.addK(1), ""
	case 's':
		_, _, e, w := s.recogStr(obj, p.addK(1), "string")
		if w != "" {
			return Lin{}, w
		}
		if w := s.want(obj, e, ";", "string"); w != "" {
			return Lin{}, w
		}
		return e.addK(1), ""
	case 'O':
		_, _, e, w := s.recogStr(obj, p.addK(1), "class name")
		if w != "" {
			return Lin{}, w
		}
		return s.recogBody(obj, e)
	case 'a':
		return s.recogBody(obj, p.addK(1))
	}
	return Lin{}, fmt.Sprintf("%q is not a type letter", tag.bytesString())
}

// recogStr recognises :len:"content" and returns the content range and the end.
func (s *State) recogStr(obj ObjID, p Lin, what string) (Lin, Lin, Lin, string) {
	z := Lin{}
	if w := s.want(obj, p, ":", what); w != "" {
		return z, z, z, w
	}
	q, w := s.digits(obj, p.addK(1))
	if w != "" {
		return z, z, z, what + " length: " + w
	}
	if w := s.want(obj, q, ":\"", what); w != "" {
		return z, z, z, w
	}
	start := q.addK(2)
	found := false
	var why string
	for y, d := range s.digest {
		if d.obj != obj || d.arg != nil || !s.entailsEQ(d.lo.sub(p.addK(1))) || !s.entailsEQ(d.hi.sub(q)) {
			continue
		}
		found = true
		end := start.add(lsym(y))
		if s.is(obj, end, "\"") {
			if !s.entailsLE(lsym(y).neg()) {
				return z, z, z, what + ": the length may be negative"
			}
			return start, end, end.addK(1), ""
		}
		why = s.want(obj, end, "\"", what+" content of the declared length")
	}
	if !found {
		why = what + ": the length is not computed from the digits"
	}
	return z, z, z, why
}

// recogBody recognises :count:{ values }.
func (s *State) recogBody(obj ObjID, p Lin) (Lin, string) {
	if w := s.want(obj, p, ":", "array"); w != "" {
		return Lin{}, w
	}
	q, w := s.digits(obj, p.addK(1))
	if w != "" {
		return Lin{}, "array count: " + w
	}
	if w := s.want(obj, q, ":{", "array"); w != "" {
		return Lin{}, w
	}
	e := q.addK(2)
	par := 0
	for i := 0; ; i++ {
		if i > 40 {
			return Lin{}, "array: too many elements"
		}
		if s.is(obj, e, "}") {
			break
		}
		n, np, w := s.seqStep(obj, e, par)
		if w != "" {
			return Lin{}, "array element: " + w
		}
		e, par = n, np
	}
	if par != 0 {
		return Lin{}, "array: a key without a value"
	}
	return e.addK(1), ""
}

// seqStep moves over one value or a sequence of values.
func (s *State) seqStep(obj ObjID, p Lin, par int) (Lin, int, string) {
	for i := len(s.seqs) - 1; i >= 0; i-- {
		f := s.seqs[i]
		if f.obj == obj && !f.hi.eq(p) && (f.lo.eq(p) || s.entailsEQ(f.lo.sub(p))) {
			if s.entailsEQ(f.hi.sub(p)) {
				continue
			}
			return f.hi, (par + f.par) % 2, ""
		}
	}
	e, w := s.recog(obj, p)
	return e, (par + 1) % 2, w
}

// seqPath follows complete values from one position to another.
func (s *State) seqPath(obj ObjID, from, to Lin, par int) (int, bool) {
	if obj == 0 {
		return 0, false
	}
	p := from
	for i := 0; i < 40; i++ {
		if p.eq(to) || s.entailsEQ(to.sub(p)) {
			return par, true
		}
		n, np, w := s.seqStep(obj, p, par)
		if w != "" {
			return 0, false
		}
		p, par = n, np
	}
	return 0, false
}

// runStep advances over bytes in set from p.
func (s *State) runStep(obj ObjID, p Lin, set Set) (Lin, bool) {
	for i := len(s.ranges) - 1; i >= 0; i-- {
		r := s.ranges[i]
		if r.obj != obj || !r.set.subset(set) || r.hi.eq(p) {
			continue
		}
		if (r.lo.eq(p) || s.entailsEQ(r.lo.sub(p))) && !s.entailsEQ(r.hi.sub(p)) {
			return r.hi, true
		}
	}
	if d := s.byteSet(obj, p); d.subset(set) && !d.empty() {
		return p.addK(1), true
	}
	return Lin{}, false
}

// digits returns the end of the non-empty run of decimal digits at p.
func (s *State) digits(obj ObjID, p Lin) (Lin, string) {
	e := p
	for i := 0; ; i++ {
		if s.byteSet(obj, e).and(digitSet).empty() {
			break
		}
		n, ok := s.runStep(obj, e, digitSet)
		if !ok || i > 30 {
			return Lin{}, fmt.Sprintf("the bytes at %s are not known to be digits", e)
		}
		e = n
	}
	if !s.entailsLE(p.sub(e).addK(1)) {
		return Lin{}, fmt.Sprintf("there may be no digit at %s", p)
	}
	return e, ""
}
