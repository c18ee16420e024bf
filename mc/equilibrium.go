package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

type curves map[string]map[deflect.Fct]deflect.PolySequence

func (o *Outcome) curves() curves {
	c := curves{}
	for _, ip := range o.Interp {
		if c[ip.Element] == nil {
			c[ip.Element] = map[deflect.Fct]deflect.PolySequence{}
		}
		c[ip.Element][ip.Quantity] = ip.Piecewise
	}
	return c
}

// first and last values of a piecewise polynomial, without using the API under test.
func startOf(ps deflect.PolySequence) float64 {
	if len(ps) == 0 {
		return math.NaN()
	}
	return PolyAt(ps[0].Coeff, ps[0].X0)
}

func endOf(ps deflect.PolySequence) float64 {
	if len(ps) == 0 {
		return math.NaN()
	}
	p := ps[len(ps)-1]
	return PolyAt(p.Coeff, p.XE)
}

// at evaluates the sequence at x; side < 0 prefers the piece on the left of a boundary.
func at(ps deflect.PolySequence, x float64, side int) float64 {
	const eps = 1e-9
	for i := range ps {
		p := ps[i]
		if side < 0 && x > p.X0+eps && x <= p.XE+eps || side >= 0 && x >= p.X0-eps && x < p.XE-eps {
			return PolyAt(p.Coeff, x)
		}
	}
	if len(ps) > 0 && math.Abs(x-ps[len(ps)-1].XE) < eps {
		return endOf(ps)
	}
	if len(ps) > 0 && math.Abs(x-ps[0].X0) < eps {
		return startOf(ps)
	}
	return math.NaN()
}

// sumLoads returns the sum of concentrated loads of kind k at x.
func sumDirac(loads []Load, k Dof, x float64) float64 {
	s := 0.0
	for _, l := range loads {
		if l.Deg == "dirac" && l.Kind == k && math.Abs(l.Pos-x) < 1e-9 {
			s += l.V0
		}
	}
	return s
}

// CheckEquilibrium uses only outputs (inner forces, reactions) and the given loads.
func CheckEquilibrium(s *Spec, o *Outcome, t tols) string {
	c := o.curves()
	type vec = map[refKey]float64
	sum := vec{} // forces of nodes on elements
	// (1) every element on its own
	for ei := range s.Elems {
		e := &s.Elems[ei]
		l := s.Length(ei)
		a, b := s.Nodes[e.A], s.Nodes[e.B]
		cx, cy, cz := (b.X-a.X)/l, (b.Y-a.Y)/l, (b.Z-a.Z)/l
		type tri struct{ f, m float64 } // resultant and first moment about the element start
		res := func(k Dof) (r tri) {
			for _, ld := range e.Loads {
				if ld.Kind != k {
					continue
				}
				switch ld.Deg {
				case "dirac":
					r.f += ld.V0
					r.m += ld.V0 * ld.Pos
				case "constant":
					r.f += ld.V0 * l
					r.m += ld.V0 * l * l / 2
				default:
					r.f += (ld.V0 + ld.V1) / 2 * l
					r.m += (ld.V0/6 + ld.V1/3) * l * l
				}
			}
			return r
		}
		n := c[e.ID][deflect.FctNx]
		p0 := -startOf(n) - sumDirac(e.Loads, Ux, 0)
		p1 := endOf(n) - sumDirac(e.Loads, Ux, l)
		if q := res(Ux); bad(p0+p1+q.f, 0, t.f) {
			return fmt.Sprintf("element %v: axial end forces %v and %v don't balance the axial load %v", e.ID, p0, p1, q.f)
		}
		if e.Kind == "truss3d" {
			sum[refKey{e.A, Uy}] += cy * p0
			sum[refKey{e.B, Uy}] += cy * p1
		}
		sum[refKey{e.A, Ux}] += cx * p0
		sum[refKey{e.A, Uz}] += cz * p0
		sum[refKey{e.B, Ux}] += cx * p1
		sum[refKey{e.B, Uz}] += cz * p1
		if e.Kind != "frame2d" {
			continue
		}
		v, m := c[e.ID][deflect.FctVz], c[e.ID][deflect.FctMy]
		v0 := -startOf(v) - sumDirac(e.Loads, Uz, 0)
		v1 := endOf(v) - sumDirac(e.Loads, Uz, l)
		m0 := -startOf(m) - sumDirac(e.Loads, Phiy, 0)
		m1 := endOf(m) - sumDirac(e.Loads, Phiy, l)
		q, mq := res(Uz), 0.0
		for _, ld := range e.Loads {
			if ld.Kind == Phiy {
				mq += ld.V0
			}
		}
		if bad(v0+v1+q.f, 0, t.f) {
			return fmt.Sprintf("element %v: lateral end forces %v and %v don't balance the lateral load %v", e.ID, v0, v1, q.f)
		}
		// moments about the element start: phi is positive for w' < 0
		if bad(m0+m1-l*v1-q.m+mq, 0, t.m) {
			return fmt.Sprintf("element %v: end moments %v and %v don't balance shear and loads", e.ID, m0, m1)
		}
		for i, nd := range []int{e.A, e.B} {
			vv, mm := []float64{v0, v1}[i], []float64{m0, m1}[i]
			sum[refKey{nd, Ux}] += cz * vv
			sum[refKey{nd, Uz}] -= cx * vv
			sum[refKey{nd, Phiy}] -= mm
		}
	}
	// (2) every node: applied loads + reactions = forces passed on to elements
	conn := s.connected()
	applied := vec{}
	for _, f := range s.Neumann {
		applied[refKey{f.Node, f.Dof}] += f.Val
	}
	for k := range conn {
		r := o.R[s.index(k.node, k.dof)]
		if bad(applied[k]+r, sum[k], t.force(k.dof)) {
			return fmt.Sprintf("node %v/%v: load %v and reaction %v don't balance the element end forces %v", s.Nodes[k.node].ID, k.dof, applied[k], r, sum[k])
		}
	}
	// (3) the entire structure: loads and reactions alone
	var fx, fy, fz, mx, my, mz float64
	span := 1.0
	addForce := func(x, y, z, px, py, pz float64) {
		fx += px
		fy += py
		fz += pz
		my += z*px - x*pz
		mx += y*pz - z*py
		mz += x*py - y*px
		span = math.Max(span, math.Max(math.Abs(x), math.Max(math.Abs(y), math.Abs(z))))
	}
	for k := range conn {
		n := s.Nodes[k.node]
		v := applied[k] + o.R[s.index(k.node, k.dof)]
		switch k.dof {
		case Ux:
			addForce(n.X, n.Y, n.Z, v, 0, 0)
		case Uy:
			addForce(n.X, n.Y, n.Z, 0, v, 0)
		case Uz:
			addForce(n.X, n.Y, n.Z, 0, 0, v)
		case Phiy:
			my += v
		}
	}
	for ei := range s.Elems {
		e := &s.Elems[ei]
		l := s.Length(ei)
		a, b := s.Nodes[e.A], s.Nodes[e.B]
		cx, cy, cz := (b.X-a.X)/l, (b.Y-a.Y)/l, (b.Z-a.Z)/l
		for _, ld := range e.Loads {
			var f, x float64
			switch ld.Deg {
			case "dirac":
				f, x = ld.V0, ld.Pos
			case "constant":
				f, x = ld.V0*l, l/2
			default:
				f = (ld.V0 + ld.V1) / 2 * l
				if ld.V0+ld.V1 != 0 {
					x = l / 3 * (ld.V0 + 2*ld.V1) / (ld.V0 + ld.V1)
				} else if ld.Kind == Uz { // pure couple
					my += (ld.V0/6 + ld.V1/3) * l * l
					continue
				} else {
					continue
				}
			}
			px, py, pz := a.X+cx*x, a.Y+cy*x, a.Z+cz*x
			switch ld.Kind {
			case Ux:
				addForce(px, py, pz, cx*f, cy*f, cz*f)
			case Uz:
				addForce(px, py, pz, cz*f, 0, -cx*f)
			case Phiy:
				my -= f
			}
		}
	}
	n := 4 * float64(len(conn))
	tf, tm := t.f*n, (t.m+t.f*span)*n
	if bad(fx, 0, tf) || bad(fy, 0, tf) || bad(fz, 0, tf) {
		return fmt.Sprintf("resultant of loads and reactions is (%v, %v, %v)", fx, fy, fz)
	}
	if bad(my, 0, tm) || bad(mx, 0, tm) || bad(mz, 0, tm) {
		return fmt.Sprintf("resultant moment of loads and reactions is (%v, %v, %v)", mx, my, mz)
	}
	return ""
}
