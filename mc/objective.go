package main

import (
	"errors"
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// C17: the same structure in another frame of reference, another direction of elements, or other
// units.

// A transform leads to another description of the same structure, or nil if it has none, and back
// from its outcome to the outcome of the original.
type transform struct {
	name  string
	apply func(s *Spec) *Spec
	back  func(s *Spec, o *Outcome)
}

// rotateSpec rotates the plane x-z by a, together with loads and supports.
func rotateSpec(s *Spec, a float64) *Spec {
	t := s.Clone()
	rotate2d(t, a)
	c, sn := math.Cos(a), math.Sin(a)
	t.Dirichlet, t.Neumann, t.Links = nil, nil, nil
	for n := range s.Nodes {
		x, z := hasBC(s.Dirichlet, n, Ux), hasBC(s.Dirichlet, n, Uz)
		links := 0
		for _, l := range s.Links {
			if l.Node != n {
				continue
			}
			links++
			switch {
			case l.From == Ux && l.To == Uz:
				l.Angle += a
			case l.From == Uz && l.To == Ux:
				l.Angle -= a
			default:
				return nil
			}
			t.Links = append(t.Links, l)
		}
		if links > 1 || links == 1 && (x >= 0 || z >= 0) {
			return nil
		}
		switch {
		case x >= 0 && z >= 0:
			vx, vz := s.Dirichlet[x].Val, s.Dirichlet[z].Val
			t.Dirichlet = append(t.Dirichlet, BC{n, Ux, c*vx - sn*vz}, BC{n, Uz, sn*vx + c*vz})
		case x >= 0:
			if s.Dirichlet[x].Val != 0 {
				return nil
			}
			t.Links = append(t.Links, Link{n, Ux, Uz, a - math.Pi/2})
		case z >= 0:
			if s.Dirichlet[z].Val != 0 {
				return nil
			}
			t.Links = append(t.Links, Link{n, Ux, Uz, a})
		}
	}
	for _, d := range s.Dirichlet {
		if d.Dof != Ux && d.Dof != Uz {
			t.Dirichlet = append(t.Dirichlet, d)
		}
	}
	for _, f := range s.Neumann {
		switch f.Dof {
		case Ux:
			t.Neumann = append(t.Neumann, BC{f.Node, Ux, c * f.Val}, BC{f.Node, Uz, sn * f.Val})
		case Uz:
			t.Neumann = append(t.Neumann, BC{f.Node, Ux, -sn * f.Val}, BC{f.Node, Uz, c * f.Val})
		default:
			t.Neumann = append(t.Neumann, f)
		}
	}
	return t
}

func rotateBack(s *Spec, v map[deflect.Index]float64, a float64) {
	c, sn := math.Cos(a), math.Sin(a)
	for n := range s.Nodes {
		i, j := s.index(n, Ux), s.index(n, Uz)
		x, okx := v[i]
		z, okz := v[j]
		if okx && okz {
			v[i], v[j] = c*x+sn*z, -sn*x+c*z
		}
	}
}

func rotation(degrees float64) transform {
	a := degrees * deg
	return transform{fmt.Sprintf("rotated by %v", degrees),
		func(s *Spec) *Spec { return rotateSpec(s, a) },
		func(s *Spec, o *Outcome) {
			rotateBack(s, o.D, a)
			rotateBack(s, o.R, a)
		}}
}

func is3d(s *Spec) bool {
	for i := range s.Elems {
		if s.Elems[i].Kind == "truss3d" {
			return true
		}
	}
	return false
}

// mapFct replaces a function of x by factor times the function, for some of the functions.
func mapFct(o *Outcome, factor func(f deflect.Fct) float64) {
	for _, ip := range o.Interp {
		k := factor(ip.Quantity)
		for _, p := range ip.Piecewise {
			for i := range p.Coeff {
				p.Coeff[i] *= k
			}
		}
	}
}

func mapValues(v map[deflect.Index]float64, factor func(d Dof) float64) {
	for k := range v {
		v[k] *= factor(k.Dof)
	}
}

// reflection negates one axis. In the plane, this also changes the sense of rotation and of the
// local lateral axis.
func reflection(axis Dof) transform {
	lateral := func(d Dof) float64 {
		if d == Uz || d == Phiy {
			return -1
		}
		return 1
	}
	global := func(d Dof) float64 {
		if d == axis || d == Phiy {
			return -1
		}
		return 1
	}
	return transform{fmt.Sprintf("%v reversed", axis),
		func(s *Spec) *Spec {
			t := s.Clone()
			for i := range t.Nodes {
				n := &t.Nodes[i]
				switch axis {
				case Ux:
					n.X = -n.X
				case Uy:
					n.Y = -n.Y
				case Uz:
					n.Z = -n.Z
				}
			}
			for _, l := range [][]BC{t.Dirichlet, t.Neumann} {
				for i := range l {
					l[i].Val *= global(l[i].Dof)
				}
			}
			for i := range t.Links {
				t.Links[i].Angle *= global(t.Links[i].From) * global(t.Links[i].To)
			}
			for e := range t.Elems {
				for i := range t.Elems[e].Loads {
					l := &t.Elems[e].Loads[i]
					l.V0, l.V1 = l.V0*lateral(l.Kind), l.V1*lateral(l.Kind)
				}
			}
			return t
		},
		func(s *Spec, o *Outcome) {
			mapValues(o.D, global)
			mapValues(o.R, global)
			mapFct(o, func(f deflect.Fct) float64 {
				switch f {
				case deflect.FctUz, deflect.FctPhiy, deflect.FctVz, deflect.FctMy:
					return -1
				}
				return 1
			})
		}}
}

// permutation of axes of space trusses: to[i] takes the place of axis i.
func axesPermutation(to [3]Dof) transform {
	axes := [3]Dof{Ux, Uy, Uz}
	forth, back := map[Dof]Dof{}, map[Dof]Dof{}
	for i, d := range axes {
		forth[d], back[to[i]] = to[i], d
	}
	return transform{fmt.Sprintf("axes permuted %v", to),
		func(s *Spec) *Spec {
			for i := range s.Elems {
				if s.Elems[i].Kind != "truss3d" {
					return nil
				}
			}
			t := s.Clone()
			for i, n := range s.Nodes {
				old := map[Dof]float64{Ux: n.X, Uy: n.Y, Uz: n.Z}
				m := &t.Nodes[i]
				m.X, m.Y, m.Z = old[back[Ux]], old[back[Uy]], old[back[Uz]]
			}
			for _, l := range [][]BC{t.Dirichlet, t.Neumann} {
				for i := range l {
					l[i].Dof = forth[l[i].Dof]
				}
			}
			for i := range t.Links {
				t.Links[i].From, t.Links[i].To = forth[t.Links[i].From], forth[t.Links[i].To]
			}
			return t
		},
		func(s *Spec, o *Outcome) {
			for _, v := range []*map[deflect.Index]float64{&o.D, &o.R} {
				w := map[deflect.Index]float64{}
				for k, x := range *v {
					k.Dof = back[k.Dof]
					w[k] = x
				}
				*v = w
			}
		}}
}

// swapped x and z, for structures in the plane: a reflection
func swapped() transform {
	swap := func(d Dof) Dof {
		switch d {
		case Ux:
			return Uz
		case Uz:
			return Ux
		}
		return d
	}
	mirror := reflection(Phiy) // no axis: sense of rotation only
	return transform{"x and z swapped",
		func(s *Spec) *Spec {
			if is3d(s) {
				return nil
			}
			t := s.Clone()
			for i := range t.Nodes {
				t.Nodes[i].X, t.Nodes[i].Z = t.Nodes[i].Z, t.Nodes[i].X
			}
			for _, l := range [][]BC{t.Dirichlet, t.Neumann} {
				for i := range l {
					l[i].Dof = swap(l[i].Dof)
				}
			}
			for i := range t.Links {
				t.Links[i].From, t.Links[i].To = swap(t.Links[i].From), swap(t.Links[i].To)
			}
			return mirror.apply(t)
		},
		func(s *Spec, o *Outcome) {
			mirror.back(s, o)
			for _, v := range []*map[deflect.Index]float64{&o.D, &o.R} {
				w := map[deflect.Index]float64{}
				for k, x := range *v {
					k.Dof = swap(k.Dof)
					w[k] = x
				}
				*v = w
			}
		}}
}

// mirrored returns the polynomial p(l-x).
func mirrored(p []float64, l float64) []float64 {
	out := []float64{}
	for i := len(p) - 1; i >= 0; i-- { // Horner: out = out*(l-x) + p[i]
		next := make([]float64, len(out)+1)
		for k, c := range out {
			next[k] += c * l
			next[k+1] -= c
		}
		next[0] += p[i]
		out = next
	}
	return out
}

// reversal changes the direction of the elements that are selected.
func reversal(name string, which func(e int) bool) transform {
	return transform{name,
		func(s *Spec) *Spec {
			t := s.Clone()
			for i := range t.Elems {
				if !which(i) {
					continue
				}
				e, l := &t.Elems[i], s.Length(i)
				e.A, e.B = e.B, e.A
				for j := range e.Hinges {
					e.Hinges[j].End = 1 - e.Hinges[j].End
				}
				for j := range e.Loads {
					x := &e.Loads[j]
					sign := -1.0
					if x.Kind == Phiy {
						sign = 1
					}
					switch x.Deg {
					case "dirac":
						x.V0, x.Pos = sign*x.V0, math.Max(0, l-x.Pos)
					case "constant":
						x.V0 *= sign
					default:
						x.V0, x.V1 = sign*x.V1, sign*x.V0
					}
				}
			}
			return t
		},
		func(s *Spec, o *Outcome) {
			length := map[string]float64{}
			for i := range s.Elems {
				if which(i) {
					length[s.Elems[i].ID] = s.Length(i)
				}
			}
			for k := range o.Interp {
				ip := &o.Interp[k]
				l, ok := length[ip.Element]
				if !ok {
					continue
				}
				sign := 1.0
				switch ip.Quantity {
				case deflect.FctUx, deflect.FctUz, deflect.FctMy:
					sign = -1
				}
				var ps deflect.PolySequence
				for j := len(ip.Piecewise) - 1; j >= 0; j-- {
					p := ip.Piecewise[j]
					c := mirrored(p.Coeff, l)
					for i := range c {
						c[i] *= sign
					}
					ps = append(ps, deflect.PolyPiece{X0: l - p.XE, XE: l - p.X0, Coeff: c})
				}
				ip.Piecewise = ps
			}
		}}
}

func translation(x, y, z float64) transform {
	return transform{fmt.Sprintf("moved by %v %v %v", x, y, z),
		func(s *Spec) *Spec {
			t := s.Clone()
			for i := range t.Nodes {
				t.Nodes[i].X += x
				t.Nodes[i].Z += z
				if is3d(s) {
					t.Nodes[i].Y += y
				}
			}
			return t
		}, func(*Spec, *Outcome) {}}
}

// farAway moves the structure as far away from the origin as coordinates in geodetic systems are.
func farAway() transform {
	return transform{"far from the origin",
		func(s *Spec) *Spec {
			t := s.Clone()
			if !moveExactly(t, 0x1p19, 0x1p17, -0x1p20) {
				return nil
			}
			return t
		}, func(*Spec, *Outcome) {}}
}

// units of length and force: a length is lambda times larger, a force mu times.
func units(lambda, mu float64) transform {
	return transform{fmt.Sprintf("units of length %v and force %v", lambda, mu),
		func(s *Spec) *Spec {
			t := s.Clone()
			for i := range t.Nodes {
				n := &t.Nodes[i]
				n.X, n.Y, n.Z = n.X*lambda, n.Y*lambda, n.Z*lambda
			}
			for i := range t.Dirichlet {
				if t.Dirichlet[i].Dof < Phiy {
					t.Dirichlet[i].Val *= lambda
				}
			}
			for i := range t.Neumann {
				t.Neumann[i].Val *= mu
				if t.Neumann[i].Dof >= Phiy {
					t.Neumann[i].Val *= lambda
				}
			}
			for i := range t.Elems {
				m := &t.Elems[i].Mat
				m.E *= mu / (lambda * lambda)
				m.A *= lambda * lambda
				m.Iyy *= lambda * lambda * lambda * lambda
				m.B *= lambda
				m.H *= lambda
				for j := range t.Elems[i].Loads {
					l := &t.Elems[i].Loads[j]
					f := mu
					if l.Deg != "dirac" {
						f /= lambda
					}
					if l.Kind == Phiy {
						f *= lambda
					}
					l.V0, l.V1, l.Pos = l.V0*f, l.V1*f, l.Pos*lambda
				}
			}
			return t
		},
		func(s *Spec, o *Outcome) {
			mapValues(o.D, func(d Dof) float64 {
				if d < Phiy {
					return 1 / lambda
				}
				return 1
			})
			mapValues(o.R, func(d Dof) float64 {
				if d < Phiy {
					return 1 / mu
				}
				return 1 / mu / lambda
			})
			for _, ip := range o.Interp {
				f := 1.0
				switch ip.Quantity {
				case deflect.FctUx, deflect.FctUz:
					f = 1 / lambda
				case deflect.FctNx, deflect.FctVz:
					f = 1 / mu
				case deflect.FctMy:
					f = 1 / mu / lambda
				}
				for j := range ip.Piecewise {
					p := &ip.Piecewise[j]
					p.X0, p.XE = p.X0/lambda, p.XE/lambda
					k := f
					for i := range p.Coeff {
						p.Coeff[i] *= k
						k *= lambda
					}
				}
			}
		}}
}

// rightAngles replaces supports by inclined ones whose angle is a multiple of a right angle.
func rightAngles(ax, az float64, zFirst bool) transform {
	return transform{fmt.Sprintf("supports inclined by %.3g, %.3g", ax, az),
		func(s *Spec) *Spec {
			t := s.Clone()
			t.Dirichlet = nil
			changed := false
			for _, d := range s.Dirichlet {
				other := Dof(Ux)
				if d.Dof == Ux {
					other = Uz
				}
				single := d.Dof < Phiy && d.Val == 0 && hasBC(s.Dirichlet, d.Node, other) < 0 && !linkedAt(s, d.Node, d.Dof) && !linkedAt(s, d.Node, other)
				switch {
				case single && d.Dof == Ux:
					t.Links = append(t.Links, Link{d.Node, Ux, Uz, ax})
					if zFirst {
						t.Links[len(t.Links)-1] = Link{d.Node, Uz, Ux, az}
					}
				case single && d.Dof == Uz:
					t.Links = append(t.Links, Link{d.Node, Ux, Uz, az})
					if zFirst {
						t.Links[len(t.Links)-1] = Link{d.Node, Uz, Ux, ax}
					}
				default:
					t.Dirichlet = append(t.Dirichlet, d)
					continue
				}
				changed = true
			}
			if !changed {
				return nil
			}
			return t
		}, func(*Spec, *Outcome) {}}
}

func allTransforms(quick bool) []transform {
	out := []transform{
		rotation(90), rotation(-37), rotation(141), rotation(90.02), rotation(0.0003),
		reflection(Ux), reflection(Uz), swapped(),
		axesPermutation([3]Dof{Uy, Uz, Ux}), axesPermutation([3]Dof{Uy, Ux, Uz}),
		reversal("all elements reversed", func(int) bool { return true }),
		reversal("first element reversed", func(e int) bool { return e == 0 }),
		reversal("every other element reversed", func(e int) bool { return e%2 == 1 }),
		translation(-17, 3, 29), farAway(),
		units(10, 1000), units(0.5, 0.1),
		rightAngles(math.Pi/2, math.Pi, false), rightAngles(-math.Pi/2, 0, true),
	}
	if !quick {
		out = append(out, rotation(180), rotation(-90), rotation(179.99), rotation(-89.9998), rotation(19), rotation(250), reflection(Uy),
			axesPermutation([3]Dof{Uz, Ux, Uy}), axesPermutation([3]Dof{Uz, Uy, Ux}), axesPermutation([3]Dof{Ux, Uz, Uy}),
			translation(0.3, -80, 0), units(2, 1e-3), rightAngles(-math.Pi/2, 2*math.Pi, true), rightAngles(3*math.Pi/2, -math.Pi, false))
	}
	return out
}

func runObjective(r *Run) {
	trs := allTransforms(r.Quick())
	o := fullMenu()
	o.Rotate, o.Relabel = false, false
	modelSpace(r, allTemplates(), menuOf(o), r.depth(5e4, 1.5e6, 4), 1.5e4, func(s *Spec) Verdict {
		if !s.hingesSupported() || s.allConstrained() {
			return Verdict{Class: "nothing to compare", Trivial: true}
		}
		ref, err := RefSolve(s)
		if err != nil && !errors.Is(err, errSingular) {
			return Verdict{Class: err.Error(), Trivial: true}
		}
		var t tols
		if err == nil {
			t = ref.tol()
			t.add(t) // either one may deviate from the exact solution
		}
		base := s.Run()
		for _, tr := range trs {
			s2 := tr.apply(s)
			if s2 == nil {
				continue
			}
			o := s2.Run()
			if !o.Failed() {
				tr.back(s, &o)
			}
			if m := nearWithin(&o, &base, 1e-9, t); m != "" {
				return Verdict{Class: "compared", Msg: tr.name + ": " + m + ", originally"}
			}
		}
		if base.Failed() {
			return Verdict{Class: "refused in every frame"}
		}
		return Verdict{Class: "compared in every frame"}
	})
	r.Coverage["transformations"] = len(trs)
}

func init() { checks["C17"] = runObjective }
