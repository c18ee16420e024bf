package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// C13: operations on piecewise polynomials, on all sequences of a few small pieces.

type polySpace struct {
	coeffs [][]float64 // alphabet of pieces
	gaps   []float64
	pieces int
	x0     float64
}

func coeffAlphabet(values []float64, maxDegree int) [][]float64 {
	var out [][]float64
	for d := 0; d <= maxDegree; d++ {
		for k := 0; k < pow(len(values), d+1); k++ {
			c := make([]float64, d+1)
			for j, i := range seqOf(k, len(values), d+1) {
				c[j] = values[i]
			}
			out = append(out, c)
		}
	}
	return out
}

func (s *polySpace) size() int { return pow(len(s.coeffs), s.pieces) * pow(len(s.gaps), s.pieces-1) }

func (s *polySpace) sequence(k int) deflect.PolySequence {
	n := pow(len(s.coeffs), s.pieces)
	cs := seqOf(k%n, len(s.coeffs), s.pieces)
	gs := seqOf(k/n, len(s.gaps), s.pieces-1)
	at := s.x0
	var out deflect.PolySequence
	for i, c := range cs {
		if i > 0 {
			at += s.gaps[gs[i-1]]
		}
		end := at + 1.5
		if i%2 == 1 {
			end = at + 0.75
		}
		out = append(out, deflect.PolyPiece{X0: at, XE: end, Coeff: append([]float64(nil), s.coeffs[c]...)})
		at = end
	}
	return out
}

// undecided tells whether a gap may be bridged, since the tolerance is an absolute and a relative one.
func (s *polySpace) undecided(tol float64) bool {
	for _, g := range s.gaps {
		if g > tol && g < 2*tol*(10+math.Abs(s.x0)) {
			return true
		}
	}
	return false
}

func samples(p deflect.PolyPiece) []float64 {
	return []float64{p.X0, p.X0 + 0.3*(p.XE-p.X0), (p.X0 + p.XE) / 2, p.XE}
}

func growth(n int, x float64) float64 {
	g, p := 0.0, 1.0
	for i := 0; i < n; i++ {
		g += p
		p *= math.Max(1, math.Abs(x))
	}
	return g
}

// checkTrim verifies the documented effect of trimming.
func checkTrim(before, after deflect.PolySequence, tol float64) string {
	if len(before) != len(after) {
		return "number of pieces changed"
	}
	for i := range before {
		b, a := before[i], after[i]
		if a.X0 != b.X0 || a.XE != b.XE {
			return "domain changed"
		}
		n := len(a.Coeff)
		if n == 0 || n > len(b.Coeff) {
			return fmt.Sprintf("%v coefficients, before %v", n, len(b.Coeff))
		}
		if n > 1 && math.Abs(a.Coeff[n-1]) <= tol {
			return fmt.Sprintf("trailing coefficient %v left", a.Coeff[n-1])
		}
		if n == 1 && math.Abs(a.Coeff[0]) <= tol && a.Coeff[0] != 0 {
			return fmt.Sprintf("constant %v left", a.Coeff[0])
		}
		for k, c := range b.Coeff {
			switch {
			case k >= n && math.Abs(c) > tol:
				return fmt.Sprintf("lost the coefficient %v", c)
			case k < n && a.Coeff[k] != c && !(k == 0 && a.Coeff[k] == 0 && math.Abs(c) <= tol):
				return fmt.Sprintf("coefficient %v of degree %v became %v", c, k, a.Coeff[k])
			}
		}
		if a.Degree() != n-1 {
			return fmt.Sprintf("degree %v of %v", a.Degree(), a.Coeff)
		}
	}
	return ""
}

func sameCoeffs(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(a[i]-b[i]) > tol {
			return false
		}
	}
	return true
}

// checkCompact verifies that equal neighbours have been merged, and nothing else.
func checkCompact(before, after deflect.PolySequence, tol float64) string {
	touch := func(l, r deflect.PolyPiece) bool { return math.Abs(l.XE-r.X0) <= math.Max(tol, 1e-12) }
	j := 0
	for i := 0; i < len(before); {
		end := i
		for end+1 < len(before) && touch(before[end], before[end+1]) && sameCoeffs(before[end].Coeff, before[end+1].Coeff, tol) {
			end++
		}
		if j >= len(after) {
			return fmt.Sprintf("only %v pieces left", len(after))
		}
		a := after[j]
		if a.X0 != before[i].X0 || a.XE != before[end].XE {
			return fmt.Sprintf("piece [%v, %v], expected [%v, %v]", a.X0, a.XE, before[i].X0, before[end].XE)
		}
		if !sameCoeffs(a.Coeff, before[i].Coeff, tol) {
			return fmt.Sprintf("coefficients %v, expected %v", a.Coeff, before[i].Coeff)
		}
		i = end + 1
		j++
	}
	if j != len(after) {
		return fmt.Sprintf("%v pieces, expected %v", len(after), j)
	}
	return ""
}

// checkEval verifies evaluation in, at the boundary of and outside the domain.
func checkEval(ps deflect.PolySequence) string {
	for i := range ps {
		p := ps[i]
		l := p.XE - p.X0
		for _, x := range append(samples(p), p.X0-1e-12, p.XE+1e-12) {
			v, err := p.Eval(x)
			if err != nil {
				return fmt.Sprintf("no value at %v in [%v, %v]: %v", x, p.X0, p.XE, err)
			}
			scale := 0.0
			for k, c := range p.Coeff {
				scale += math.Abs(c) * math.Pow(math.Abs(x), float64(k))
			}
			if bad(v, PolyAt(p.Coeff, x), 1e-13*scale) {
				return fmt.Sprintf("%v at %v is %v, exact value %v", p.Coeff, x, v, PolyAt(p.Coeff, x))
			}
		}
		for _, x := range []float64{p.X0 - 1e-6, p.X0 - 1e-8*(1+math.Abs(p.X0)), p.X0 - 0.4*l, p.X0 - 100, p.XE + 1e-6, p.XE + 1e-8*(1+math.Abs(p.XE)), p.XE + 0.4*l, p.XE + 100, math.Inf(1), math.Inf(-1)} {
			if v, err := p.Eval(x); err == nil {
				return fmt.Sprintf("value %v at %v outside of [%v, %v]", v, x, p.X0, p.XE)
			}
		}
		if p.Degree() != len(p.Coeff)-1 {
			return fmt.Sprintf("degree of %v is %v", p.Coeff, p.Degree())
		}
	}
	return ""
}

// checkInterval verifies the search for a piece by its domain.
func checkInterval(ps deflect.PolySequence) string {
	var cuts []float64
	for _, p := range ps {
		cuts = append(cuts, p.X0, p.XE, (p.X0+p.XE)/2, p.X0-1e-8*(1+math.Abs(p.X0)), p.XE+1e-8*(1+math.Abs(p.XE)), p.X0+1e-12, p.XE-1e-12)
	}
	for _, x0 := range cuts {
		for _, xE := range cuts {
			want := -1
			for i, p := range ps {
				if math.Abs(p.X0-x0) < 2e-9*(1+math.Abs(p.X0)) && math.Abs(p.XE-xE) < 2e-9*(1+math.Abs(p.XE)) {
					want = i
					break
				}
			}
			if got := ps.IntervalIndex(x0, xE); got != want {
				return fmt.Sprintf("index of [%v, %v] is %v, expected %v", x0, xE, got, want)
			}
		}
	}
	return ""
}

func init() {
	checks["C13"] = func(r *Run) {
		x := NewSpace(r)
		tols := []float64{0, 1e-9, 1e-4}
		spaces := []polySpace{
			{coeffAlphabet([]float64{0, 1, -2.5, 1e-12}, 3), nil, 1, 0},
			{coeffAlphabet([]float64{0, 1e-12, 3, 1e-6}, 2), []float64{0, 0.5}, 2, 0},
			{coeffAlphabet([]float64{0, 3, 1e-12}, 1), []float64{0, 0.5}, 3, 0},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 1e-13, 0.5}, 4, 0},
			{coeffAlphabet([]float64{0, 4}, 0), []float64{0}, 8, 0},
			{coeffAlphabet([]float64{0, 1, -2.5, 1e-12}, 2), []float64{0}, 2, 3.2},
			{coeffAlphabet([]float64{0, 1, -2.5, 1e-12}, 2), []float64{0}, 2, 5000},
			{coeffAlphabet([]float64{0, 1, -2.5}, 2), []float64{0}, 2, -5000},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0}, 3, 5000},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 1e-6}, 3, 0},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 1e-3}, 3, 0},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 1e-5}, 3, 1000},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 1e-3}, 3, 1000},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 0.5}, 3, 1000},
			{coeffAlphabet([]float64{0, 7}, 1), []float64{0, 0.5}, 3, -1000},
		}
		if !r.Quick() {
			spaces = append(spaces,
				polySpace{coeffAlphabet([]float64{0, 1e-12, 3, 1e-6}, 1), []float64{0, 0.5}, 4, 0},
				polySpace{coeffAlphabet([]float64{0, 1e-12, 3}, 2), []float64{0, 0.5}, 3, 1},
				polySpace{coeffAlphabet([]float64{0, 4}, 1), []float64{0, 0.5}, 5, 0},
				polySpace{coeffAlphabet([]float64{0, 4, 1e-12}, 0), []float64{0}, 12, 0},
				polySpace{coeffAlphabet([]float64{0, 1, -2.5, 1e-12}, 5), nil, 1, -2})
		}
		for si := range spaces {
			s := &spaces[si]
			x.Each(fmt.Sprintf("%v pieces of %v kinds, gaps %v from %v", s.pieces, len(s.coeffs), s.gaps, s.x0), s.size(), func(k int) (string, map[string]any) {
				orig := s.sequence(k)
				fail := func(what, m string, now deflect.PolySequence) (string, map[string]any) {
					return what + ": " + m, map[string]any{"before": fmt.Sprint(orig), "after": fmt.Sprint(now)}
				}
				if m := checkEval(orig); m != "" {
					return fail("evaluation", m, orig)
				}
				if s.pieces <= 3 && (len(s.coeffs) < 30 || s.pieces == 1) {
					if m := checkInterval(orig); m != "" {
						return fail("search", m, orig)
					}
				}
				var n int64
				for _, tol := range tols {
					if tol == 0 && len(s.gaps) > 2 {
						continue // neighbours that touch up to round-off
					}
					if s.undecided(tol) {
						continue
					}
					t := copyPoly(orig)
					t.TrimTrailingZeros(tol)
					if m := checkTrim(orig, t, tol); m != "" {
						return fail(fmt.Sprintf("trimming with %v", tol), m, t)
					}
					again := copyPoly(t)
					again.TrimTrailingZeros(tol)
					if fmt.Sprint(again) != fmt.Sprint(t) {
						return fail(fmt.Sprintf("trimming twice with %v", tol), "changes the result again", again)
					}
					for _, src := range []deflect.PolySequence{orig, t} {
						c := copyPoly(src).CompactIdentical(tol)
						if m := checkCompact(src, c, tol); m != "" {
							return fail(fmt.Sprintf("merging %v with %v", src, tol), m, c)
						}
						if m := checkCompact(c, copyPoly(c).CompactIdentical(tol), tol); m != "" {
							return fail(fmt.Sprintf("merging twice with %v", tol), m, c)
						}
						n += 2
					}
					// any order of both operations represents the same function
					u := copyPoly(orig).CompactIdentical(tol)
					u.TrimTrailingZeros(tol)
					for _, f := range []deflect.PolySequence{t, copyPoly(t).CompactIdentical(tol), u} {
						if m := sameFunction(orig, f, 2*tol); m != "" {
							return fail(fmt.Sprintf("simplifying with %v", tol), m, f)
						}
					}
					n += 3
				}
				x.Count(1, n, n)
				if k%9973 == 11 {
					return "", map[string]any{"sequence": fmt.Sprint(orig)}
				}
				return "", nil
			})
		}
		x.Finish()
	}
}

// sameFunction compares two piecewise polynomials point by point through the API.
func sameFunction(a, b deflect.PolySequence, tol float64) string {
	for i := range a {
		for _, f := range []float64{0.01, 0.37, 0.5, 0.93} {
			x := a[i].X0 + f*(a[i].XE-a[i].X0)
			want := PolyAt(a[i].Coeff, x)
			found := 0
			for j := range b {
				if x < b[j].X0 || x > b[j].XE {
					continue
				}
				found++
				v, err := b[j].Eval(x)
				if err != nil || bad(v, want, tol*growth(len(a[i].Coeff), x)+1e-12*(1+math.Abs(want))) {
					return fmt.Sprintf("value at %v is %v (%v), before %v", x, v, err, want)
				}
			}
			if found != 1 {
				return fmt.Sprintf("%v pieces contain %v", found, x)
			}
		}
	}
	return ""
}
