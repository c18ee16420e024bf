package main

import (
	"errors"
	"math"
)

// Reference model: an independent implementation of linear-elastic bar and Euler-Bernoulli beam
// theory. It shares nothing with the code under test:
//   - element matrices and consistent loads come from numerical (exact-degree Gauss) integration of
//     shape functions instead of closed formulae,
//   - a hinge is an additional, element-private degree of freedom instead of static condensation,
//   - supports (plain and inclined) are constraint rows of a saddle point system solved with full
//     pivoting instead of partitioning/rotating the system,
//   - inner forces follow from cutting the element and evaluating Macaulay brackets at a point
//     instead of piecewise polynomials.

var errSingular = errors.New("reference: kinematically unstable")
var errAmbiguous = errors.New("reference: verdict numerically ambiguous")
var errConstraints = errors.New("reference: constraints not independent")

type refKey struct {
	node int
	dof  Dof
}

type refElem struct {
	l       float64
	kind    string
	rot     [6][6]float64 // local = rot * global for (x, y|-, z, phi) slots; see gdofs
	gdofs   []refKey      // global dofs per element, in order
	t       [][]float64   // local dof i = sum t[i][j] * gdofs[j]
	k       [][]float64
	f       []float64
	release []int     // global unknown number of private dof, or -1
	end     []float64 // local end forces (k d - f), after solution
	dl      []float64 // local end displacements, after solution
	ea, ei  float64
	loads   []Load
}

type RefResult struct {
	s     *Spec
	dofs  []refKey
	num   map[refKey]int
	D     map[refKey]float64
	R     map[refKey]float64
	elems []refElem
	// magnitudes used for tolerances
	ScaleU, ScalePhi, ScaleF, ScaleM float64
	ratio                            float64 // smallest/largest pivot with unit stiffnesses
}

// shape functions in local coordinates. u linear, w cubic Hermite with w' = -phi.
func axialN(x, l float64) [2]float64 { return [2]float64{1 - x/l, x / l} }

func beamN(x, l float64) [4]float64 { // w = N·(w0, phi0, w1, phi1)
	t := x / l
	return [4]float64{
		(1 - t) * (1 - t) * (1 + 2*t),
		-x * (1 - t) * (1 - t),
		t * t * (3 - 2*t),
		x * t * (1 - t),
	}
}

func beamdN(x, l float64) [4]float64 { // dw/dx
	t := x / l
	return [4]float64{
		6 * (t*t - t) / l,
		-(1 - t) * (1 - 3*t),
		6 * (t - t*t) / l,
		t * (2 - 3*t),
	}
}

func beamddN(x, l float64) [4]float64 { // d2w/dx2
	t := x / l
	return [4]float64{
		(12*t - 6) / (l * l),
		(4 - 6*t) / l,
		(6 - 12*t) / (l * l),
		(2 - 6*t) / l,
	}
}

var gauss3x = [3]float64{0.5 * (1 - math.Sqrt(0.6)), 0.5, 0.5 * (1 + math.Sqrt(0.6))}
var gauss3w = [3]float64{5.0 / 18, 8.0 / 18, 5.0 / 18}

func newMatrix(n, m int) [][]float64 {
	b := make([]float64, n*m)
	r := make([][]float64, n)
	for i := range r {
		r[i] = b[i*m : (i+1)*m]
	}
	return r
}

// refElement forms local stiffness and load vector. Local dofs are (u0, u1) for trusses and
// (u0, w0, phi0, u1, w1, phi1) for frames.
func refElement(s *Spec, ei int, unit bool) refElem {
	e := &s.Elems[ei]
	a, b := s.Nodes[e.A], s.Nodes[e.B]
	l := s.Length(ei)
	re := refElem{l: l, kind: e.Kind, ea: e.Mat.EA(), ei: e.Mat.EI(), loads: e.Loads}
	if unit {
		re.ea, re.ei = 1, 1
	}
	cx, cy, cz := (b.X-a.X)/l, (b.Y-a.Y)/l, (b.Z-a.Z)/l

	switch e.Kind {
	case "truss2d":
		re.gdofs = []refKey{{e.A, Ux}, {e.A, Uz}, {e.B, Ux}, {e.B, Uz}}
		re.t = [][]float64{{cx, cz, 0, 0}, {0, 0, cx, cz}}
	case "truss3d":
		re.gdofs = []refKey{{e.A, Ux}, {e.A, Uy}, {e.A, Uz}, {e.B, Ux}, {e.B, Uy}, {e.B, Uz}}
		re.t = [][]float64{{cx, cy, cz, 0, 0, 0}, {0, 0, 0, cx, cy, cz}}
	case "frame2d":
		re.gdofs = []refKey{{e.A, Ux}, {e.A, Uz}, {e.A, Phiy}, {e.B, Ux}, {e.B, Uz}, {e.B, Phiy}}
		// docs/decisions/001: local z points downwards for an element from left to right
		re.t = [][]float64{
			{cx, cz, 0, 0, 0, 0},
			{cz, -cx, 0, 0, 0, 0},
			{0, 0, -1, 0, 0, 0},
			{0, 0, 0, cx, cz, 0},
			{0, 0, 0, cz, -cx, 0},
			{0, 0, 0, 0, 0, -1},
		}
	}

	n := len(re.t)
	re.k = newMatrix(n, n)
	re.f = make([]float64, n)
	re.release = make([]int, n)
	for i := range re.release {
		re.release[i] = -1
	}
	re.dl, re.end = make([]float64, n), make([]float64, n)
	axial, bend := []int{0, 1}, []int(nil)
	if n == 6 {
		axial, bend = []int{0, 3}, []int{1, 2, 4, 5}
	}
	for g := range gauss3x {
		x, w := gauss3x[g]*l, gauss3w[g]*l
		dn := [2]float64{-1 / l, 1 / l}
		for i := range axial {
			for j := range axial {
				re.k[axial[i]][axial[j]] += w * re.ea * dn[i] * dn[j]
			}
		}
		if bend != nil {
			ddn := beamddN(x, l)
			for i := range bend {
				for j := range bend {
					re.k[bend[i]][bend[j]] += w * re.ei * ddn[i] * ddn[j]
				}
			}
		}
	}
	for _, ld := range e.Loads {
		switch ld.Deg {
		case "dirac":
			switch ld.Kind {
			case Ux:
				n := axialN(ld.Pos, l)
				for i := range axial {
					re.f[axial[i]] += n[i] * ld.V0
				}
			case Uz:
				n := beamN(ld.Pos, l)
				for i := range bend {
					re.f[bend[i]] += n[i] * ld.V0
				}
			case Phiy:
				n := beamdN(ld.Pos, l)
				for i := range bend {
					re.f[bend[i]] -= n[i] * ld.V0
				}
			}
		default:
			q0, q1 := ld.V0, ld.V1
			if ld.Deg == "constant" {
				q1 = q0
			}
			for g := range gauss3x {
				x, w := gauss3x[g]*l, gauss3w[g]*l
				q := q0 + (q1-q0)*x/l
				if ld.Kind == Ux {
					n := axialN(x, l)
					for i := range axial {
						re.f[axial[i]] += w * q * n[i]
					}
				} else {
					n := beamN(x, l)
					for i := range bend {
						re.f[bend[i]] += w * q * n[i]
					}
				}
			}
		}
	}
	return re
}

func localSlot(kind string, h Hinge) int {
	if kind == "frame2d" {
		base := 3 * h.End
		switch h.Dof {
		case Ux:
			return base
		case Uz:
			return base + 1
		case Phiy:
			return base + 2
		}
		return -1
	}
	if h.Dof == Ux {
		return h.End
	}
	return -1
}

// RefSolve solves the spec with the reference model.
func RefSolve(s *Spec) (*RefResult, error) {
	r := &RefResult{s: s}
	if err := r.stability(); err != nil {
		return nil, err
	}
	return r, r.solve(false)
}

// RefVerdict only decides stability (independent of stiffness values): nil, errSingular or errAmbiguous.
func RefVerdict(s *Spec) error {
	r := &RefResult{s: s}
	return r.stability()
}

func (r *RefResult) stability() error { return r.solve(true) }

func (r *RefResult) solve(unit bool) error {
	s := r.s
	r.num = map[refKey]int{}
	r.dofs = r.dofs[:0]
	r.elems = make([]refElem, len(s.Elems))
	add := func(k refKey) int {
		i, ok := r.num[k]
		if !ok {
			i = len(r.dofs)
			r.num[k] = i
			r.dofs = append(r.dofs, k)
		}
		return i
	}
	for i := range s.Elems {
		r.elems[i] = refElement(s, i, unit)
		for _, g := range r.elems[i].gdofs {
			add(g)
		}
	}
	n := len(r.dofs)
	for i := range s.Elems {
		for _, h := range s.Elems[i].Hinges {
			slot := localSlot(s.Elems[i].Kind, h)
			if slot >= 0 && r.elems[i].release[slot] < 0 {
				r.elems[i].release[slot] = n
				n++
			}
		}
	}

	// Constraint rows over global dofs
	type row struct {
		c map[int]float64
		v float64
	}
	var rows []row
	for _, d := range s.Dirichlet {
		i, ok := r.num[refKey{d.Node, d.Dof}]
		if !ok {
			return errors.New("reference: support on unconnected dof")
		}
		rows = append(rows, row{map[int]float64{i: 1}, d.Val})
	}
	for li, l := range s.Links {
		// d' = Tᵀd over all links of this node in order, the link's To component vanishes. Only the
		// links of the same node interact.
		row0 := map[int]float64{}
		for _, g := range []Dof{Ux, Uy, Uz} {
			gi, ok := r.num[refKey{l.Node, g}]
			if !ok {
				continue
			}
			v := map[Dof]float64{g: 1}
			for _, m := range s.Links {
				if m.Node != l.Node {
					continue
				}
				c, sn := math.Cos(m.Angle), math.Sin(m.Angle)
				f, t := v[m.From], v[m.To]
				v[m.From], v[m.To] = c*f+sn*t, -sn*f+c*t
			}
			row0[gi] += v[l.To]
		}
		_ = li
		rows = append(rows, row{row0, 0})
	}

	m := n + len(rows)
	a := newMatrix(m, m+1)
	maxK := 0.0
	b := make([][]float64, len(r.elems))
	for i := range r.elems {
		re := &r.elems[i]
		nl := len(re.t)
		_ = b
		// row selector of every local dof over all unknowns
		type term struct {
			i int
			v float64
		}
		sel := make([][]term, nl)
		for p := 0; p < nl; p++ {
			if re.release[p] >= 0 {
				sel[p] = []term{{re.release[p], 1}}
				continue
			}
			for q, g := range re.gdofs {
				if re.t[p][q] != 0 {
					sel[p] = append(sel[p], term{r.num[g], re.t[p][q]})
				}
			}
		}
		for p := 0; p < nl; p++ {
			for _, tp := range sel[p] {
				a[tp.i][m] += tp.v * re.f[p]
				for q := 0; q < nl; q++ {
					for _, tq := range sel[q] {
						a[tp.i][tq.i] += tp.v * re.k[p][q] * tq.v
					}
				}
			}
		}
	}
	for _, f := range s.Neumann {
		i, ok := r.num[refKey{f.Node, f.Dof}]
		if !ok {
			return errors.New("reference: load on unconnected dof")
		}
		a[i][m] += f.Val
	}
	for i := 0; i < n; i++ {
		maxK = math.Max(maxK, math.Abs(a[i][i]))
	}
	if maxK == 0 {
		maxK = 1
	}
	kfull := newMatrix(n, n+1)
	for i := 0; i < n; i++ {
		copy(kfull[i][:n], a[i][:n])
		kfull[i][n] = a[i][m]
		for j := range a[i] {
			a[i][j] /= maxK
		}
	}
	for i, c := range rows {
		for j, v := range c.c {
			a[n+i][j] += v
			a[j][n+i] += v
		}
		a[n+i][m] = c.v
	}
	x, lo, hi := gaussFullPivot(a)
	if unit {
		ratio := lo / hi
		r.ratio = ratio
		switch {
		case ratio < 1e-11:
			rank := make([][]float64, 0, m)
			longest := 0.0
			for i := range r.elems {
				longest = math.Max(longest, r.elems[i].l)
			}
			for i := range r.elems {
				rank = append(rank, r.deformations(i, n, longest)...)
			}
			for _, c := range rows {
				v := make([]float64, n)
				for j := range c.c {
					v[j] = c.c[j]
				}
				rank = append(rank, v)
			}
			if rankOf(rank, n, 1e-10) == n {
				// Stable, but the stiffness depends on small differences
				return errAmbiguous
			}
			return errSingular
		case ratio < 1e-6:
			return errAmbiguous
		}
		return nil
	}
	if lo == 0 {
		return errAmbiguous
	}

	r.D, r.R = map[refKey]float64{}, map[refKey]float64{}
	for i, k := range r.dofs {
		r.D[k] = x[i]
		sum := -kfull[i][n]
		for j := 0; j < n; j++ {
			sum += kfull[i][j] * x[j]
		}
		r.R[k] = sum
	}
	for i := range r.elems {
		re := &r.elems[i]
		for p := range re.t {
			if re.release[p] >= 0 {
				re.dl[p] = x[re.release[p]]
				continue
			}
			re.dl[p] = 0
			for q, g := range re.gdofs {
				re.dl[p] += re.t[p][q] * r.D[g]
			}
		}
		for p := range re.t {
			re.end[p] = -re.f[p]
			for q := range re.t {
				re.end[p] += re.k[p][q] * re.dl[q]
			}
		}
	}
	r.scales()
	return nil
}

// spread is the ratio of the largest to the smallest stiffness.
func (r *RefResult) spread() float64 {
	lo, hi := math.Inf(1), 0.0
	for i := range r.elems {
		for p := range r.elems[i].k {
			lo, hi = math.Min(lo, r.elems[i].k[p][p]), math.Max(hi, r.elems[i].k[p][p])
		}
	}
	return hi / lo
}

func (r *RefResult) scales() {
	up := func(p *float64, v float64) { *p = math.Max(*p, math.Abs(v)) }
	lmax := 0.0
	for i := range r.elems {
		re := &r.elems[i]
		up(&lmax, re.l)
		// Magnitudes of the inner forces of this element, which also determine the magnitude of its
		// deformation, even if its nodes don't move.
		var axial, shear, moment float64
		frame := len(re.t) == 6
		for p := range re.t {
			dst := &axial
			if frame && p%3 == 2 {
				dst = &moment
				up(&r.ScalePhi, re.dl[p])
			} else {
				if frame && p%3 == 1 {
					dst = &shear
				}
				up(&r.ScaleU, re.dl[p])
			}
			up(dst, re.end[p])
			up(dst, re.f[p])
		}
		for _, l := range re.loads {
			dst, f := &axial, 1.0
			if l.Kind == Uz {
				dst = &shear
			} else if l.Kind == Phiy {
				dst = &moment
			}
			if l.Deg != "dirac" {
				f = re.l
			}
			up(dst, f*l.V0)
			up(dst, f*l.V1)
		}
		up(&r.ScaleF, axial)
		up(&r.ScaleF, shear)
		up(&r.ScaleM, moment)
		up(&r.ScaleU, axial*re.l/re.ea)
		if frame {
			up(&moment, shear*re.l)
			up(&r.ScaleU, 0.1*moment*re.l*re.l/re.ei)
			up(&r.ScalePhi, 0.1*moment*re.l/re.ei)
		}
	}
	for k, v := range r.D {
		if k.dof >= Phiy {
			up(&r.ScalePhi, v)
		} else {
			up(&r.ScaleU, v)
		}
	}
	for k, v := range r.R {
		if k.dof >= Phiy {
			up(&r.ScaleM, v)
		} else {
			up(&r.ScaleF, v)
		}
	}
	for _, d := range r.s.Neumann {
		if d.Dof >= Phiy {
			up(&r.ScaleM, d.Val)
		} else {
			up(&r.ScaleF, d.Val)
		}
	}
	up(&r.ScaleM, r.ScaleF*lmax)
	up(&r.ScaleF, r.ScaleM/lmax)
	for i := range r.elems { // noise floor: elongation of a member under the largest force
		up(&r.ScaleU, r.ScaleF*r.elems[i].l/r.elems[i].ea)
	}
	up(&r.ScaleU, r.ScalePhi*lmax)
	up(&r.ScalePhi, r.ScaleU/lmax)
}

// Field values of element e at x. side < 0 is the left limit (a concentrated load exactly at x is
// not yet passed), side > 0 the right limit.
type RefField struct{ N, V, M, U, W, Phi float64 }

func (r *RefResult) Field(e int, x float64, side int) RefField {
	re := &r.elems[e]
	passed := func(a float64) bool {
		if side < 0 {
			return x > a
		}
		return x >= a
	}
	var f RefField
	frame := len(re.t) == 6
	n0, u0 := -re.end[0], re.dl[0]
	f.N = n0
	f.U = u0 + n0*x/re.ea
	if frame {
		v0, m0 := -re.end[1], -re.end[2]
		f.V, f.M = v0, m0+v0*x
		f.Phi = re.dl[2] + (m0*x+v0*x*x/2)/re.ei
		f.W = re.dl[1] - re.dl[2]*x - (m0*x*x/2+v0*x*x*x/6)/re.ei
	}
	for _, l := range re.loads {
		switch l.Deg {
		case "dirac":
			if !passed(l.Pos) {
				continue
			}
			y := x - l.Pos
			switch l.Kind {
			case Ux:
				f.N -= l.V0
				f.U -= l.V0 * y / re.ea
			case Uz:
				f.V -= l.V0
				f.M -= l.V0 * y
				f.Phi -= l.V0 * y * y / 2 / re.ei
				f.W += l.V0 * y * y * y / 6 / re.ei
			case Phiy:
				f.M -= l.V0
				f.Phi -= l.V0 * y / re.ei
				f.W += l.V0 * y * y / 2 / re.ei
			}
		default:
			q0, q1 := l.V0, l.V1
			if l.Deg == "constant" {
				q1 = q0
			}
			sl := (q1 - q0) / re.l
			if l.Kind == Ux {
				f.N -= q0*x + sl*x*x/2
				f.U -= (q0*x*x/2 + sl*x*x*x/6) / re.ea
			} else {
				f.V -= q0*x + sl*x*x/2
				f.M -= q0*x*x/2 + sl*x*x*x/6
				f.Phi -= (q0*x*x*x/6 + sl*x*x*x*x/24) / re.ei
				f.W += (q0*x*x*x*x/24 + sl*x*x*x*x*x/120) / re.ei
			}
		}
	}
	return f
}

// deformations returns the linear maps from all unknowns to the deformations of an element, in length units.
// Rotations are taken in units of 1/unit, so that the rank doesn't depend on units of length.
func (r *RefResult) deformations(ei, n int, unit float64) [][]float64 {
	re := &r.elems[ei]
	row := func(local map[int]float64) []float64 {
		v := make([]float64, n)
		for p, f := range local {
			if re.release[p] >= 0 {
				v[re.release[p]] += f
				continue
			}
			for q, g := range re.gdofs {
				v[r.num[g]] += f * re.t[p][q]
			}
		}
		return v
	}
	if len(re.t) == 2 {
		return [][]float64{row(map[int]float64{0: -1, 1: 1})}
	}
	return [][]float64{
		row(map[int]float64{0: -1, 3: 1}),
		row(map[int]float64{1: -1, 4: 1, 2: re.l / unit}),
		row(map[int]float64{1: -1, 4: 1, 5: re.l / unit}),
	}
}

// rankOf counts the pivots above tol, relative to the largest one.
func rankOf(a [][]float64, n int, tol float64) int {
	hi := 0.0
	for k := 0; k < n; k++ {
		pi, pj, best := k, k, 0.0
		for i := k; i < len(a); i++ {
			for j := k; j < n; j++ {
				if v := math.Abs(a[i][j]); v > best {
					pi, pj, best = i, j, v
				}
			}
		}
		hi = math.Max(hi, best)
		if best <= tol*hi {
			return k
		}
		a[k], a[pi] = a[pi], a[k]
		for i := range a {
			a[i][k], a[i][pj] = a[i][pj], a[i][k]
		}
		for i := k + 1; i < len(a); i++ {
			if f := a[i][k] / a[k][k]; f != 0 {
				for j := k; j < n; j++ {
					a[i][j] -= f * a[k][j]
				}
			}
		}
	}
	return n
}

// gaussFullPivot solves the augmented system in place and returns smallest and largest pivot.
func gaussFullPivot(a [][]float64) (x []float64, lo, hi float64) {
	n := len(a)
	perm := make([]int, n)
	for i := range perm {
		perm[i] = i
	}
	lo = math.Inf(1)
	for k := 0; k < n; k++ {
		pi, pj, best := k, k, -1.0
		for i := k; i < n; i++ {
			for j := k; j < n; j++ {
				if v := math.Abs(a[i][j]); v > best {
					pi, pj, best = i, j, v
				}
			}
		}
		hi = math.Max(hi, best)
		lo = math.Min(lo, best)
		if best == 0 {
			return nil, 0, math.Max(hi, 1)
		}
		a[k], a[pi] = a[pi], a[k]
		if pj != k {
			for i := range a {
				a[i][k], a[i][pj] = a[i][pj], a[i][k]
			}
			perm[k], perm[pj] = perm[pj], perm[k]
		}
		for i := k + 1; i < n; i++ {
			if a[i][k] == 0 {
				continue
			}
			f := a[i][k] / a[k][k]
			for j := k; j <= n; j++ {
				a[i][j] -= f * a[k][j]
			}
		}
	}
	y := make([]float64, n)
	for k := n - 1; k >= 0; k-- {
		s := a[k][n]
		for j := k + 1; j < n; j++ {
			s -= a[k][j] * y[j]
		}
		y[k] = s / a[k][k]
	}
	x = make([]float64, n)
	for k := range y {
		x[perm[k]] = y[k]
	}
	return x, lo, hi
}
