package main

import (
	"math/big"
	"math/bits"
)

// N is a signed 128-bit integer (two's complement), enough for sums of 64-bit quantities.
type N struct {
	hi int64
	lo uint64
}

func n(v int64) N   { return N{v >> 63, uint64(v)} }
func nu(v uint64) N { return N{0, v} }

func (a N) add(b N) N {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return N{a.hi + b.hi + int64(c), lo}
}
func (a N) neg() N {
	lo, c := bits.Add64(^a.lo, 1, 0)
	return N{^a.hi + int64(c), lo}
}
func (a N) sub(b N) N { return a.add(b.neg()) }
func (a N) cmp(b N) int {
	if a.hi != b.hi {
		if a.hi < b.hi {
			return -1
		}
		return 1
	}
	if a.lo != b.lo {
		if a.lo < b.lo {
			return -1
		}
		return 1
	}
	return 0
}
func (a N) sign() int {
	if a.hi < 0 {
		return -1
	}
	if a.hi == 0 && a.lo == 0 {
		return 0
	}
	return 1
}
func (a N) isInt64() bool { return (a.hi == 0 && a.lo < 1<<63) || (a.hi == -1 && a.lo >= 1<<63) }
func (a N) int64() int64  { return int64(a.lo) }
func (a N) big() *big.Int {
	r := big.NewInt(a.hi)
	r.Lsh(r, 64)
	return r.Add(r, new(big.Int).SetUint64(a.lo))
}
func fromBig(b *big.Int) (N, bool) {
	if b.BitLen() > 120 {
		return N{}, false
	}
	var lo, hi big.Int
	mask := new(big.Int).SetUint64(^uint64(0))
	lo.And(b, mask)
	hi.Rsh(b, 64)
	return N{hi.Int64(), lo.Uint64()}, true
}
func (a N) mulInt(k int64) (N, bool) {
	if k == 1 {
		return a, true
	}
	if k == -1 {
		return a.neg(), true
	}
	if k == 0 || a.sign() == 0 {
		return N{}, true
	}
	return fromBig(new(big.Int).Mul(a.big(), big.NewInt(k)))
}

// floorDiv divides by a positive integer, rounding down.
func (a N) floorDiv(k int64) N {
	if k == 1 {
		return a
	}
	q, m := new(big.Int).DivMod(a.big(), big.NewInt(k), new(big.Int))
	_ = m // Euclidean: m >= 0, so q is the floor for k > 0
	r, _ := fromBig(q)
	return r
}
func (a N) String() string { return a.big().String() }

var (
	n0      = n(0)
	n1      = n(1)
	two64   = N{1, 0}
	maxI64  = n(1<<63 - 1)
	minI64  = n(-1 << 63)
	maxU64  = N{0, ^uint64(0)}
	maxLenN = n(1 << 56) // assumption: no slice or string is longer than 2^56
)
