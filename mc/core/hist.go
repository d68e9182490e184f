package main

import (
	"fmt"
	"math"
)

// histProblem checks an exponential histogram point against the values it
// claims to hold: bucket counts add up to the count, and every value is in
// the bucket that the scale prescribes (base = 2^(2^-scale), bucket i covers
// (base^i, base^(i+1)]); values so close to a boundary that floating point
// cannot tell may be in either neighbour.
func histProblem(p Point, vals []float64) string {
	var tot uint64
	for _, c := range p.Pos {
		tot += c
	}
	for _, c := range p.Neg {
		tot += c
	}
	if tot+p.Zero != p.Count {
		return fmt.Sprintf("bucket counts add up to %d+%d, count is %d", tot, p.Zero, p.Count)
	}
	if uint64(len(vals)) != p.Count {
		return fmt.Sprintf("count is %d for %d measurements", p.Count, len(vals))
	}
	pos, neg := map[int32]int64{}, map[int32]int64{}
	for i, c := range p.Pos {
		pos[p.PosOff+int32(i)] += int64(c)
	}
	for i, c := range p.Neg {
		neg[p.NegOff+int32(i)] += int64(c)
	}
	var zero uint64
	// Exact values first, then those on a boundary.
	type amb struct {
		m    map[int32]int64
		a, b int32
	}
	var ambs []amb
	for _, v := range vals {
		if v == 0 {
			zero++
			continue
		}
		m := pos
		if v < 0 {
			m = neg
			v = -v
		}
		lo, hi := indexRange(v, p.Scale)
		if lo == hi {
			m[lo]--
		} else {
			ambs = append(ambs, amb{m, lo, hi})
		}
	}
	for _, a := range ambs {
		if a.m[a.a] > 0 {
			a.m[a.a]--
		} else {
			a.m[a.b]--
		}
	}
	if zero != p.Zero {
		return fmt.Sprintf("zero count %d for %d zero values", p.Zero, zero)
	}
	for _, m := range []map[int32]int64{pos, neg} {
		for i, d := range m {
			if d != 0 {
				return fmt.Sprintf("bucket %d off by %d at scale %d for values %v", i, d, p.Scale, vals)
			}
		}
	}
	return ""
}

// indexRange returns the bucket of v, or two candidates near a boundary.
func indexRange(v float64, scale int32) (int32, int32) {
	// The data model lets subnormal values be counted as the smallest
	// normal one.
	v = math.Max(v, 0x1p-1022)
	frac, exp := math.Frexp(v)
	if scale <= 0 {
		// Exact: (2^(k*2^-scale), 2^((k+1)*2^-scale)].
		e := exp - 1
		if frac == 0.5 {
			e--
		}
		i := int32(e >> uint(-scale))
		return i, i
	}
	if frac == 0.5 {
		// Power of two: exact.
		i := int32((exp-1)<<uint(scale)) - 1
		return i, i
	}
	x := math.Ldexp(math.Log2(frac), int(scale)) + math.Ldexp(float64(exp), int(scale))
	c := math.Ceil(x) - 1
	eps := 1e-6
	lo := math.Ceil(x-eps) - 1
	hi := math.Ceil(x+eps) - 1
	if lo == hi {
		return int32(c), int32(c)
	}
	return int32(lo), int32(hi)
}
