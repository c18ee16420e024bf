package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/lubgr/deflect/deflect"
)

type tols struct{ u, phi, f, m float64 }

func (r *RefResult) tol() tols {
	const rel = 1e-7
	t := tols{u: rel * r.ScaleU, phi: rel * r.ScalePhi, f: rel * r.ScaleF, m: rel * r.ScaleM}
	// cancellation when inner forces are recovered from displacements
	cancel := math.Max(1e-13, 1e-15/r.ratio)
	for i := range r.elems {
		re := &r.elems[i]
		t.f = math.Max(t.f, cancel*re.ea/re.l*r.ScaleU)
		if len(re.t) == 6 {
			t.f = math.Max(t.f, cancel*12*re.ei/(re.l*re.l*re.l)*r.ScaleU)
			t.m = math.Max(t.m, cancel*6*re.ei/(re.l*re.l)*r.ScaleU)
		}
		t.m = math.Max(t.m, t.f*re.l)
	}
	return t
}

func (t tols) times(f float64) tols { return tols{u: f * t.u, phi: f * t.phi, f: f * t.f, m: f * t.m} }

func (t tols) prim(d Dof) float64 {
	if d >= Phiy {
		return t.phi
	}
	return t.u
}

func (t tols) force(d Dof) float64 {
	if d >= Phiy {
		return t.m
	}
	return t.f
}

func (t tols) fct(f deflect.Fct) float64 {
	switch f {
	case deflect.FctUx, deflect.FctUz:
		return t.u
	case deflect.FctPhiy:
		return t.phi
	case deflect.FctMy:
		return t.m
	}
	return t.f
}

func bad(a, b, tol float64) bool {
	return math.IsNaN(a) || math.IsInf(a, 0) || !(math.Abs(a-b) <= tol)
}

// constrainedDofs lists all dofs which can carry a reaction (members of supports, or either dof of
// an inclined support).
func (s *Spec) constrainedDofs() map[refKey]bool {
	c := map[refKey]bool{}
	for _, d := range s.Dirichlet {
		c[refKey{d.Node, d.Dof}] = true
	}
	for _, l := range s.Links {
		c[refKey{l.Node, l.From}] = true
		c[refKey{l.Node, l.To}] = true
	}
	return c
}

// CheckNodal compares primary values and reactions against the reference.
func CheckNodal(o *Outcome, r *RefResult) string {
	t := r.tol()
	if o.NPrim != len(r.dofs) || len(o.D) != len(r.dofs) {
		return fmt.Sprintf("%v primary values (%v distinct) for %v degrees of freedom", o.NPrim, len(o.D), len(r.dofs))
	}
	for _, k := range r.dofs {
		v, ok := o.D[r.s.index(k.node, k.dof)]
		if !ok {
			return fmt.Sprintf("no primary value for %v/%v", r.s.Nodes[k.node].ID, k.dof)
		}
		if bad(v, r.D[k], t.prim(k.dof)) {
			return fmt.Sprintf("primary %v/%v is %v, exact value %v", r.s.Nodes[k.node].ID, k.dof, v, r.D[k])
		}
	}
	for k := range r.s.constrainedDofs() {
		v, ok := o.R[r.s.index(k.node, k.dof)]
		if !ok {
			return fmt.Sprintf("no reaction for %v/%v", r.s.Nodes[k.node].ID, k.dof)
		}
		if bad(v, r.R[k], t.force(k.dof)) {
			return fmt.Sprintf("reaction %v/%v is %v, exact value %v", r.s.Nodes[k.node].ID, k.dof, v, r.R[k])
		}
	}
	return ""
}

func PolyAt(c []float64, x float64) float64 {
	y := 0.0
	for i := len(c) - 1; i >= 0; i-- {
		y = y*x + c[i]
	}
	return y
}

var frameFcts = []deflect.Fct{deflect.FctUx, deflect.FctUz, deflect.FctPhiy, deflect.FctNx, deflect.FctVz, deflect.FctMy}
var trussFcts = []deflect.Fct{deflect.FctUx, deflect.FctNx}

func fctsOf(kind string) []deflect.Fct {
	if kind == "frame2d" {
		return frameFcts
	}
	return trussFcts
}

// CheckTiling verifies that pieces cover [0, l] without gaps or overlaps.
func CheckTiling(ps deflect.PolySequence, l float64) string {
	if len(ps) == 0 {
		return "no pieces"
	}
	eps := 1e-9 * math.Max(1, l)
	at := 0.0
	for _, p := range ps {
		if math.Abs(p.X0-at) > eps {
			return fmt.Sprintf("piece starts at %v, expected %v", p.X0, at)
		}
		if !(p.XE > p.X0) {
			return fmt.Sprintf("empty or reversed piece [%v, %v]", p.X0, p.XE)
		}
		if len(p.Coeff) == 0 {
			return "piece without coefficients"
		}
		at = p.XE
	}
	if math.Abs(at-l) > eps {
		return fmt.Sprintf("pieces end at %v, element length is %v", at, l)
	}
	return ""
}

// CheckInterpolations compares all interpolated functions pointwise against the reference.
func CheckInterpolations(o *Outcome, r *RefResult) string {
	got := map[string]map[deflect.Fct]deflect.PolySequence{}
	for _, ip := range o.Interp {
		m := got[ip.Element]
		if m == nil {
			m = map[deflect.Fct]deflect.PolySequence{}
			got[ip.Element] = m
		}
		if _, dup := m[ip.Quantity]; dup {
			return fmt.Sprintf("%v/%v interpolated twice", ip.Element, ip.Quantity)
		}
		m[ip.Quantity] = ip.Piecewise
	}
	t := r.tol()
	for ei := range r.s.Elems {
		e := &r.s.Elems[ei]
		m := got[e.ID]
		want := fctsOf(e.Kind)
		if len(m) != len(want) {
			return fmt.Sprintf("element %v has %v interpolated functions, expected %v", e.ID, len(m), len(want))
		}
		l := r.s.Length(ei)
		for _, f := range want {
			ps, ok := m[f]
			if !ok {
				return fmt.Sprintf("element %v has no %v", e.ID, f)
			}
			if msg := CheckTiling(ps, l); msg != "" {
				return fmt.Sprintf("%v/%v: %v", e.ID, f, msg)
			}
			at := func(p deflect.PolyPiece, x float64, side int) string {
				exp, tol := fieldOf(f, r.Field(ei, x, side), t)
				if v := PolyAt(p.Coeff, x); bad(v, exp, tol) {
					return fmt.Sprintf("%v/%v at x=%v (piece [%v, %v]) is %v, exact value %v", e.ID, f, x, p.X0, p.XE, v, exp)
				}
				return ""
			}
			for _, p := range ps {
				for i := 0; i <= 6; i++ {
					x := p.X0 + (p.XE-p.X0)*float64(i)/6
					side := 1
					if i == 6 {
						side = -1
					}
					// avoid evaluating exactly on a load position that differs by rounding
					if i == 0 {
						x += 1e-9 * l
					} else if i == 6 {
						x -= 1e-9 * l
					}
					if m := at(p, x, side); m != "" {
						return m
					}
				}
			}
			// between any two loads, also if the implementation has no piece of its own there
			xs := e.breaks(l)
			for i := 0; i+1 < len(xs); i++ {
				if xs[i+1]-xs[i] < 1e-6*l {
					continue
				}
				for _, x := range []float64{xs[i] + 1e-3*(xs[i+1]-xs[i]), (xs[i] + xs[i+1]) / 2, xs[i+1] - 1e-3*(xs[i+1]-xs[i])} {
					for _, p := range ps {
						if p.X0 <= x && x <= p.XE {
							if m := at(p, x, 1); m != "" {
								return m
							}
						}
					}
				}
			}
		}
	}
	return ""
}

// breaks lists the positions of concentrated loads, and both ends, in ascending order.
func (e *Elem) breaks(l float64) []float64 {
	xs := []float64{0, l}
	for _, x := range e.Loads {
		if x.Deg == "dirac" && x.Pos > 0 && x.Pos < l {
			xs = append(xs, x.Pos)
		}
	}
	slices.Sort(xs)
	return xs
}

func fieldOf(f deflect.Fct, rf RefField, t tols) (exp, tol float64) {
	switch f {
	case deflect.FctUx:
		return rf.U, t.u
	case deflect.FctUz:
		return rf.W, t.u
	case deflect.FctPhiy:
		return rf.Phi, t.phi
	case deflect.FctNx:
		return rf.N, t.f
	case deflect.FctVz:
		return rf.V, t.f
	}
	return rf.M, t.m
}

// CheckZeroTol: a zero tolerance only drops coefficients below it, and merges pieces that agree
// within it.
func CheckZeroTol(o *Outcome) string {
	for _, tol := range []float64{1e-8, 1e-3} {
		got := map[string]deflect.PolySequence{}
		for _, ip := range o.Res.InterpolateAll(tol) {
			got[fmt.Sprint(ip.Element, "/", ip.Quantity)] = ip.Piecewise
		}
		if len(got) != len(o.Interp) {
			return fmt.Sprintf("%v functions with a zero tolerance, %v without", len(got), len(o.Interp))
		}
		for _, ip := range o.Interp {
			name := fmt.Sprint(ip.Element, "/", ip.Quantity)
			ps, ok := got[name]
			if !ok || len(ps) == 0 || len(ip.Piecewise) == 0 {
				return fmt.Sprintf("no %v with zero tolerance %v", name, tol)
			}
			if msg := CheckTiling(ps, ip.Piecewise[len(ip.Piecewise)-1].XE); msg != "" {
				return fmt.Sprintf("%v with zero tolerance %v: %v", name, tol, msg)
			}
			for _, p := range ps {
				n := len(p.Coeff)
				if n > 1 && math.Abs(p.Coeff[n-1]) < 0.999*tol || n > 0 && p.Coeff[0] != 0 && math.Abs(p.Coeff[0]) < 0.999*tol {
					return fmt.Sprintf("%v with zero tolerance %v has coefficients %v", name, tol, p.Coeff)
				}
			}
			if len(ps) > 1 && allSame(ip.Piecewise, tol) {
				return fmt.Sprintf("%v with zero tolerance %v has %v pieces, all of which are equal: %v", name, tol, len(ps), ps)
			}
			for _, p := range ip.Piecewise {
				for _, x := range []float64{p.X0, 0.75*p.X0 + 0.25*p.XE, (p.X0 + p.XE) / 2, 0.4*p.X0 + 0.6*p.XE, p.XE} {
					exp, mag, limit, xk := 0.0, 0.0, 0.0, 1.0 // the tolerance is absolute or relative
					for k := 0; k < 7; k++ {
						if k < len(p.Coeff) {
							exp += p.Coeff[k] * xk
							mag += math.Abs(p.Coeff[k] * xk)
							limit += math.Max(0, math.Abs(p.Coeff[k])-1) * xk
						}
						limit += xk
						xk *= x
					}
					limit = 1.01*tol*limit*float64(1+len(ip.Piecewise)) + 1e-12*mag
					fits := false
					for _, q := range ps {
						if q.X0 <= x+1e-9 && x <= q.XE+1e-9 && !bad(PolyAt(q.Coeff, x), exp, limit) {
							fits = true
						}
					}
					if !fits {
						return fmt.Sprintf("%v with zero tolerance %v at %v isn't %v within %v", name, tol, x, exp, limit)
					}
				}
			}
		}
	}
	return ""
}

// allSame is true if all pieces are the same clearly within tol.
func allSame(ps deflect.PolySequence, tol float64) bool {
	at := func(p deflect.PolyPiece, k int) float64 {
		if k < len(p.Coeff) {
			return p.Coeff[k]
		}
		return 0
	}
	for _, p := range ps {
		for k := 0; k < 7; k++ {
			a, b := at(p, k), at(ps[0], k)
			if c := math.Abs(a); math.Abs(a-b) > 0.4*tol || c > 0.5*tol && c < 2*tol {
				return false
			}
		}
	}
	return true
}
