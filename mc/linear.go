package main

import (
	"fmt"
	"math"
	"slices"

	"github.com/lubgr/deflect/deflect"
)

// C18: relations between analyses of the same structure under different causes.

// causes counts loads and prescribed values that aren't zero.
func (s *Spec) causes() int {
	n := len(s.Neumann)
	for i := range s.Elems {
		n += len(s.Elems[i].Loads)
	}
	for _, d := range s.Dirichlet {
		if d.Val != 0 {
			n++
		}
	}
	return n
}

// only returns the structure with those causes for which keep is true.
func (s *Spec) only(keep func(i int) bool) *Spec {
	t := s.Clone()
	k := 0
	next := func() bool { k++; return keep(k - 1) }
	t.Neumann = nil
	for _, f := range s.Neumann {
		if next() {
			t.Neumann = append(t.Neumann, f)
		}
	}
	for i := range t.Elems {
		t.Elems[i].Loads = nil
		for _, l := range s.Elems[i].Loads {
			if next() {
				t.Elems[i].Loads = append(t.Elems[i].Loads, l)
			}
		}
	}
	for i := range t.Dirichlet {
		if t.Dirichlet[i].Val != 0 && !next() {
			t.Dirichlet[i].Val = 0
		}
	}
	return t
}

func (t *tols) add(u tols) {
	t.u, t.phi, t.f, t.m = t.u+u.u, t.phi+u.phi, t.f+u.f, t.m+u.m
}

// sumOf compares an outcome with the sum of others.
func sumOf(total *Outcome, parts []*Outcome, t tols) string {
	cmp := func(what string, of func(*Outcome) map[deflect.Index]float64, tol func(Dof) float64) string {
		for k, v := range of(total) {
			sum := 0.0
			for _, p := range parts {
				sum += of(p)[k]
			}
			if bad(sum, v, tol(k.Dof)) {
				return fmt.Sprintf("%v %v/%v is %v, but the sum of single cases is %v", what, k.NodalID, k.Dof, v, sum)
			}
		}
		return ""
	}
	if m := cmp("primary", func(o *Outcome) map[deflect.Index]float64 { return o.D }, t.prim); m != "" {
		return m
	}
	if m := cmp("reaction", func(o *Outcome) map[deflect.Index]float64 { return o.R }, t.force); m != "" {
		return m
	}
	all := make([]curves, len(parts))
	for i, p := range parts {
		all[i] = p.curves()
	}
	for _, ip := range total.Interp {
		for _, p := range ip.Piecewise {
			for _, f := range []float64{0.02, 0.4, 0.98} {
				x := p.X0 + f*(p.XE-p.X0)
				sum := 0.0
				for i := range parts {
					sum += at(all[i][ip.Element][ip.Quantity], x, 1)
				}
				if v := PolyAt(p.Coeff, x); bad(sum, v, t.fct(ip.Quantity)) {
					return fmt.Sprintf("%v of %v at %v is %v, but the sum of single cases is %v", ip.Quantity, ip.Element, x, v, sum)
				}
			}
		}
	}
	return ""
}

var gaussX = []float64{-0.9061798459386640, -0.5384693101056831, 0, 0.5384693101056831, 0.9061798459386640}
var gaussW = []float64{0.2369268850561891, 0.4786286704993665, 0.5688888888888889, 0.4786286704993665, 0.2369268850561891}

// integral of f(x), a polynomial of up to degree 9 between the given positions.
func integral(xs []float64, f func(x float64) float64) (sum float64) {
	for i := 0; i+1 < len(xs); i++ {
		a, b := xs[i], xs[i+1]
		if b <= a {
			continue
		}
		for k, g := range gaussX {
			sum += gaussW[k] * (b - a) / 2 * f((a+b)/2+g*(b-a)/2)
		}
	}
	return sum
}

func breaksOf(all ...deflect.PolySequence) (xs []float64) {
	for _, ps := range all {
		for _, p := range ps {
			xs = append(xs, p.X0, p.XE)
		}
	}
	slices.Sort(xs)
	return xs
}

// work of the forces of s (analysed: f) along the displacements d of the same structure, and the
// magnitude that limits its precision.
func work(s *Spec, f, d *Outcome, ft, dt tols) (w, tol float64) {
	add := func(force, disp float64, tf, td float64) {
		w += force * disp
		tol += 1e-9*math.Abs(force*disp) + math.Abs(force)*td + math.Abs(disp)*tf
	}
	for k, r := range f.R {
		add(r, d.D[k], ft.force(k.Dof), dt.prim(k.Dof))
	}
	for _, n := range s.Neumann {
		add(n.Val, d.D[s.index(n.Node, n.Dof)], 0, dt.prim(n.Dof))
	}
	c := d.curves()
	for i := range s.Elems {
		e := &s.Elems[i]
		l := s.Length(i)
		for _, q := range e.Loads {
			fct, td := deflect.FctUx, dt.u
			switch q.Kind {
			case Uz:
				fct = deflect.FctUz
			case Phiy:
				fct, td = deflect.FctPhiy, dt.phi
			}
			ps := c[e.ID][fct]
			switch q.Deg {
			case "dirac":
				side := 1
				if q.Pos > l/2 {
					side = -1
				}
				add(q.V0, at(ps, q.Pos, side), 0, td)
			case "constant":
				add(q.V0, integral(breaksOf(ps), func(x float64) float64 { return at(ps, x, 1) }), 0, td*l)
			default:
				big := math.Max(math.Abs(q.V0), math.Abs(q.V1))
				w += integral(breaksOf(ps), func(x float64) float64 { return (q.V0 + (q.V1-q.V0)*x/l) * at(ps, x, 1) })
				scale := integral(breaksOf(ps), func(x float64) float64 { return math.Abs(at(ps, x, 1)) })
				tol += big * (1e-9*scale + td*l)
			}
		}
	}
	return w, tol
}

// strainEnergy of the inner forces.
func strainEnergy(s *Spec, o *Outcome, t tols) (u, tol float64) {
	c := o.curves()
	for i := range s.Elems {
		e := &s.Elems[i]
		add := func(f deflect.Fct, stiffness, tf float64) {
			ps := c[e.ID][f]
			u += integral(breaksOf(ps), func(x float64) float64 { v := at(ps, x, 1); return v * v / 2 / stiffness })
			tol += integral(breaksOf(ps), func(x float64) float64 {
				v := math.Abs(at(ps, x, 1))
				return (v*tf + tf*tf + 1e-9*v*v) / stiffness
			})
		}
		add(deflect.FctNx, e.Mat.EA(), t.f)
		if e.Kind == "frame2d" {
			add(deflect.FctMy, e.Mat.EI(), t.m)
		}
	}
	return u, tol
}

func evalLinear(s *Spec) Verdict {
	if !s.hingesSupported() || s.allConstrained() {
		return Verdict{Class: "nothing to compare", Trivial: true}
	}
	n := s.causes()
	if n == 0 {
		return Verdict{Class: "no loads", Trivial: true}
	}
	analyse := func(t *Spec) (o Outcome, tl tols, class string) {
		ref, err := RefSolve(t)
		if err != nil {
			return o, tl, "not stable"
		}
		return t.Run(), ref.tol(), ""
	}
	base, tb, class := analyse(s)
	if class != "" {
		return Verdict{Class: class, Trivial: true}
	}
	v := Verdict{Class: "compared"}
	if base.Failed() {
		v.Msg = "stable structure not solved: " + base.Describe()
		return v
	}
	for _, f := range []float64{-2.5, 1e-7} {
		t := s.Clone()
		scaleLoads(t, f)
		o := t.Run()
		if !o.Failed() {
			back := func(float64) float64 { return 1 / f }
			mapValues(o.D, func(Dof) float64 { return back(0) })
			mapValues(o.R, func(Dof) float64 { return back(0) })
			mapFct(&o, func(deflect.Fct) float64 { return back(0) })
		}
		if m := nearWithin(&o, &base, 1e-9, tb); m != "" {
			v.Msg = fmt.Sprintf("%v times the loads: scaled back %v", f, m)
			return v
		}
	}
	balance := func(s *Spec, o *Outcome, t tols) string {
		w, wt := work(s, o, o, t, t)
		u, ut := strainEnergy(s, o, t)
		if bad(u, w/2, wt+ut) {
			return fmt.Sprintf("strain energy %v, external work %v", u, w/2)
		}
		return ""
	}
	if v.Msg = balance(s, &base, tb); v.Msg != "" || n == 1 {
		return v
	}
	parts := make([]*Outcome, n)
	specs := make([]*Spec, n)
	ts := make([]tols, n)
	sum := tb
	for i := range parts {
		specs[i] = s.only(func(k int) bool { return k == i })
		o, t, class := analyse(specs[i])
		if class != "" || o.Failed() {
			v.Msg = fmt.Sprintf("solved, but not for the single case %v: %v", i, o.Describe())
			return v
		}
		parts[i], ts[i] = &o, t
		sum.add(t)
		if v.Msg = balance(specs[i], &o, t); v.Msg != "" {
			v.Msg = fmt.Sprintf("case %v: %v", i, v.Msg)
			return v
		}
	}
	if v.Msg = sumOf(&base, parts, sum); v.Msg != "" {
		return v
	}
	for i := range parts {
		for k := 0; k < i; k++ {
			w1, t1 := work(specs[i], parts[i], parts[k], ts[i], ts[k])
			w2, t2 := work(specs[k], parts[k], parts[i], ts[k], ts[i])
			if bad(w1, w2, t1+t2) {
				v.Msg = fmt.Sprintf("work of case %v along case %v is %v, but the reverse %v", i, k, w1, w2)
				return v
			}
		}
	}
	v.Class = "decomposed"
	return v
}

func init() {
	checks["C18"] = func(r *Run) {
		o := fullMenu()
		o.Relabel = false
		modelSpace(r, allTemplates(), menuOf(o), r.depth(5e4, 2e6, 4), 1.5e4, evalLinear)
	}
}
