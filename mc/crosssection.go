package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
)

// C16: geometric properties of cross sections, on grids of dimensions and of parameter sets.

// torsion computes the torsional constant of a rectangle by Saint-Venant's series.
func torsion(b, h float64) float64 {
	a, c := math.Max(b, h), math.Min(b, h)
	sum := 0.0
	for n := 1; n < 60; n += 2 {
		sum += math.Tanh(float64(n)*math.Pi*a/(2*c)) / math.Pow(float64(n), 5)
	}
	return a * c * c * c / 3 * (1 - 192/math.Pow(math.Pi, 5)*c/a*sum)
}

// documented is the formula the implementation refers to (Roark's Formulas for Stress and Strain). It
// deviates from the series by half a percent at most.
func documented(b, h float64) float64 {
	a, c := math.Max(b, h), math.Min(b, h)
	r := c / a
	return a * c * c * c * (1.0/3 - 0.21*r*(1-r*r*r*r/12))
}

func relBad(a, b, rel float64) bool { return bad(a, b, rel*math.Abs(b)) }

func relDiff(a, b float64) float64 { return math.Abs(a-b) / math.Abs(b) }

func checkRectangle(b, h, roll float64) (string, string) {
	cs, err := deflect.NewRectangularCrossSection(b, h, roll)
	if b <= 0 || h <= 0 || roll < 0 {
		if err == nil {
			return "", fmt.Sprintf("rectangle %v x %v, rolled by %v, accepted", b, h, roll)
		}
		return "refused", ""
	}
	if err != nil {
		return "", fmt.Sprintf("rectangle %v x %v, rolled by %v: %v", b, h, roll, err)
	}
	// second moments by summation over thin strips with exact integration of each strip
	const n = 64
	var area, iyy, izz float64
	for i := 0; i < n; i++ {
		z0, z1 := -h/2+h*float64(i)/n, -h/2+h*float64(i+1)/n
		y0, y1 := -b/2+b*float64(i)/n, -b/2+b*float64(i+1)/n
		area += b * (z1 - z0)
		iyy += b * (z1*z1*z1 - z0*z0*z0) / 3
		izz += h * (y1*y1*y1 - y0*y0*y0) / 3
	}
	for _, v := range []struct {
		name      string
		got, want float64
		rel       float64
	}{{"area", cs.Area(), area, 1e-12}, {"Iyy", cs.Iyy(), iyy, 1e-11}, {"Izz", cs.Izz(), izz, 1e-11}, {"Ixx", cs.Ixx(), torsion(b, h), relDiff(documented(b, h), torsion(b, h)) + 1e-9}} {
		if relBad(v.got, v.want, v.rel) {
			return "", fmt.Sprintf("%v of a %v x %v rectangle is %v, expected %v", v.name, b, h, v.got, v.want)
		}
	}
	if cs.RollAngle() != roll {
		return "", fmt.Sprintf("roll angle %v, expected %v", cs.RollAngle(), roll)
	}
	// independent of which side is called width, and homogeneous of degree four
	if t, err := deflect.NewRectangularCrossSection(h, b, roll); err != nil || relBad(t.Ixx(), cs.Ixx(), 1e-12) || relBad(t.Iyy(), cs.Izz(), 1e-12) || relBad(t.Izz(), cs.Iyy(), 1e-12) || relBad(t.Area(), cs.Area(), 1e-12) {
		return "", fmt.Sprintf("%v x %v rectangle and its transpose don't match", b, h)
	}
	if t, err := deflect.NewRectangularCrossSection(3*b, 3*h, 0); err != nil || relBad(t.Ixx(), 81*cs.Ixx(), 1e-12) {
		return "", fmt.Sprintf("Ixx of %v x %v rectangle doesn't scale with the fourth power", b, h)
	}
	return "properties compared", ""
}

var csKeys = []string{"A", "Iyy", "Izz", "Ixx", "roll"}

// checkConstants decides one set of parameters; NaN stands for a missing one.
func checkConstants(v []float64) (string, string) {
	m := map[string]float64{}
	ok := true
	for i, k := range csKeys {
		if !math.IsNaN(v[i]) {
			m[k] = v[i]
		}
		if i < 3 && !(v[i] > 0) || i >= 3 && v[i] < 0 {
			ok = false
		}
	}
	before := fmt.Sprint(m)
	cs, err := deflect.NewConstantsCrossSections(m)
	if fmt.Sprint(m) != before {
		return "", "parameters modified"
	}
	if !ok {
		if err == nil {
			return "", fmt.Sprintf("%v accepted", m)
		}
		return "refused", ""
	}
	if err != nil {
		return "", fmt.Sprintf("%v: %v", m, err)
	}
	clear(m) // a cross section doesn't depend on what happens to the parameters later
	for i, got := range []float64{cs.Area(), cs.Iyy(), cs.Izz(), cs.Ixx(), cs.RollAngle()} {
		want := v[i]
		if math.IsNaN(want) {
			want = 0
		}
		if got != want {
			return "", fmt.Sprintf("%v is %v, expected %v", csKeys[i], got, want)
		}
	}
	return "properties compared", ""
}

// checkUse verifies that an analysis uses area and Iyy of a cross section, and nothing else.
type spyCS struct {
	a, iyy, izz, ixx, roll float64
}

func (c spyCS) Area() float64      { return c.a }
func (c spyCS) Iyy() float64       { return c.iyy }
func (c spyCS) Izz() float64       { return c.izz }
func (c spyCS) Ixx() float64       { return c.ixx }
func (c spyCS) RollAngle() float64 { return c.roll }

func checkUse(kind string, c spyCS, le deflect.LinearElastic, angle float64) string {
	l := 2.5
	n := []deflect.Node{{ID: "A"}, {ID: "B", X: l * math.Cos(angle), Z: l * math.Sin(angle)}}
	m := &deflect.Material{CrossSection: c, LinearElastic: le}
	var e deflect.Element
	var err error
	fixed := []deflect.NodalValue{}
	dofs := []deflect.Dof{Ux, Uz}
	switch kind {
	case "truss2d":
		e, err = deflect.NewTruss2d("AB", &n[0], &n[1], m, nil)
	case "truss3d":
		n[1].Y, n[1].X = n[1].X*0.6, n[1].X*0.8
		e, err = deflect.NewTruss3d("AB", &n[0], &n[1], m, nil)
		dofs = append(dofs, Uy)
	default:
		e, err = deflect.NewFrame2d("AB", &n[0], &n[1], m, nil)
		dofs = append(dofs, Phiy)
	}
	if err != nil {
		return err.Error()
	}
	for _, d := range dofs {
		fixed = append(fixed, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
		if kind != "frame2d" && d != Ux {
			fixed = append(fixed, deflect.NodalValue{Index: deflect.Index{NodalID: "B", Dof: d}})
		}
	}
	p := &deflect.Problem{Nodes: n, Elements: []deflect.Element{e}, Dirichlet: fixed,
		Neumann: []deflect.NodalValue{{Index: deflect.Index{NodalID: "B", Dof: Ux}, Value: 7}}}
	o := Analyse(p, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
	if o.Failed() {
		return o.Describe()
	}
	cx := n[1].X / l
	want := 7 * l / (le.YoungsModulus * c.a) / (cx * cx)
	if kind == "frame2d" {
		cz := n[1].Z / l
		want = 7*cx*l/(le.YoungsModulus*c.a)*cx + 7*cz*l*l*l/(3*le.YoungsModulus*c.iyy)*cz
	}
	if got := o.D[deflect.Index{NodalID: "B", Dof: Ux}]; relBad(got, want, 1e-9) {
		return fmt.Sprintf("%v with E = %v and %+v is displaced by %v, expected %v", kind, le.YoungsModulus, c, got, want)
	}
	return ""
}

// checkInDocument verifies that a document describes the same cross section and material. NaN stands
// for a missing parameter.
func checkInDocument(rectangular bool, v []float64, e, nu, rho float64) string {
	keys, kind := csKeys, "constants"
	if rectangular {
		keys, kind = []string{"b", "h", "roll"}, "rectangle"
	}
	param := jobj()
	for i, k := range keys {
		if !math.IsNaN(v[i]) {
			param.put(k, jnum(v[i]))
		}
	}
	a, iyy := v[0], v[1]
	if rectangular {
		a, iyy = v[0]*v[1], v[0]*v[1]*v[1]*v[1]/12
	}
	const l = 2.5
	at := func(x float64) *jv { return jarr(jnum(x), jnum(0), jnum(0)) }
	doc := jobj().put("nodes", jobj().put("A", at(0)).put("B", at(l))).
		put("material", jobj().put("m", jobj().put("kind", jstr("linelast")).put("parameter", jobj().put("E", jnum(e)).put("nu", jnum(nu)).put("rho", jnum(rho))))).
		put("crosssection", jobj().put("c", jobj().put("kind", jstr(kind)).put("parameter", param))).
		put("elements", jobj().put("AB", jobj().put("kind", jstr("frame2d")).put("nodes", jarr(jstr("A"), jstr("B"))).put("material", jstr("m")).put("cs", jstr("c")))).
		put("dirichlet", jobj().put("A", jarr(jobj().put("Ux", jnum(0)).put("Uz", jnum(0)).put("Phiy", jnum(0))))).
		put("neumann", jobj().put("B", jarr(jobj().put("Fx", jnum(7)), jobj().put("Fz", jnum(3)))))
	o := RunJSONDoc([]byte(doc.String()))
	if o.Failed() {
		return o.Describe() + " for " + doc.String()
	}
	for _, w := range []struct {
		dof  deflect.Dof
		want float64
	}{{Ux, 7 * l / (e * a)}, {Uz, 3 * l * l * l / (3 * e * iyy)}} {
		if got := o.D[deflect.Index{NodalID: "B", Dof: w.dof}]; relBad(got, w.want, 1e-9) {
			return fmt.Sprintf("%v is %v, expected %v for %v", w.dof, got, w.want, doc.String())
		}
	}
	return ""
}

func init() {
	checks["C16"] = func(r *Run) {
		x := NewSpace(r)
		nan := math.NaN()
		dims := []float64{-3, -1e-9, 0, 1e-6, 0.01, 0.3, 0.999, 1, 1.001, 2.5, 100, 1e6}
		rolls := []float64{-1, -1e-12, 0, 0.5, 7}
		for i := -4; i <= 4; i++ {
			dims = append(dims, 1.7*math.Pow(1.37, float64(i)))
		}
		if !r.Quick() {
			for i := -60; i <= 60; i++ {
				dims = append(dims, 0.9*math.Pow(1.19, float64(i)))
			}
		}
		n := len(dims)
		x.Each("rectangles", n*n*len(rolls), func(k int) (string, map[string]any) {
			b, h, roll := dims[k%n], dims[k/n%n], rolls[k/n/n]
			c, m := checkRectangle(b, h, roll)
			x.Count(1, 1, 1)
			x.Class("rectangle: " + c)
			if k%997 == 3 || m != "" {
				return m, map[string]any{"b": b, "h": h, "roll": roll}
			}
			return "", nil
		})
		vals := []float64{nan, -2, -1e-300, 0, 1e-300, 0.7, 3, 1e12}
		x.Each("constants", pow(len(vals), 5), func(k int) (string, map[string]any) {
			v := make([]float64, 5)
			for i, j := range seqOf(k, len(vals), 5) {
				v[i] = vals[j]
				if i > 0 && v[i] == 3 {
					v[i] += float64(i) // all different, so that they can't be mixed up
				}
			}
			c, m := checkConstants(v)
			x.Count(1, 1, 1)
			x.Class("constants: " + c)
			if m != "" {
				return m, map[string]any{"parameters": fmt.Sprint(v)}
			}
			return "", nil
		})
		// what a document makes of it
		one := func(m, class string) (string, map[string]any) {
			x.Count(1, 1, 1)
			x.Class(class)
			return m, nil
		}
		dim := []float64{0.01, 0.2, 0.3, 1, 2.5, 40}
		turned := []float64{nan, 0, 0.5, 3.5, 45, 90, 180, 360, 1e4}
		moduli, nus, rhos := []float64{0.5, 210e3, 3e10}, []float64{0.001, 0.3, 0.49}, []float64{1e-6, 1, 7850}
		x.Each("rectangles in documents", len(dim)*len(dim)*len(turned)*27, func(k int) (string, map[string]any) {
			s := k / 27
			return one(checkInDocument(true, []float64{dim[s%6], dim[s/6%6], turned[s/36]}, moduli[k%3], nus[k/3%3], rhos[k/9%3]), "document: rectangle")
		})
		consts := []float64{1e-4, 0.5, 3, 200}
		more := []float64{nan, 0, 0.7, 50, 270}
		x.Each("constants in documents", pow(len(consts), 3)*len(more)*len(more)*27, func(k int) (string, map[string]any) {
			s := seqOf(k/27, len(consts), 3)
			v := []float64{consts[s[0]], consts[s[1]] * 1.25, consts[s[2]] * 1.75}
			r := k / 27 / pow(len(consts), 3)
			return one(checkInDocument(false, append(v, more[r%5], more[r/5]), moduli[k%3], nus[k/3%3], rhos[k/9%3]), "document: constants")
		})
		// what an analysis makes of it
		alt := []float64{0.5, 2}
		x.Each("use of a cross section", 3*5*pow(2, 8), func(k int) (string, map[string]any) {
			kind := []string{"truss2d", "truss3d", "frame2d"}[k%3]
			angle := []float64{0, 0.7, 2.5, 3.9, -0.4}[k/3%5]
			s := seqOf(k/15, 2, 8)
			c := spyCS{a: 0.8 * alt[s[0]], iyy: 0.3 * alt[s[1]], izz: 0.2 * alt[s[2]], ixx: 0.1 * alt[s[3]], roll: 0.4 * alt[s[4]]}
			le := deflect.LinearElastic{YoungsModulus: 900 * alt[s[5]], PoissonsRatio: 0.2 * alt[s[6]], Density: 5 * alt[s[7]]}
			m := checkUse(kind, c, le, angle)
			x.Count(1, 1, 1)
			x.Class("use: " + kind)
			if m != "" {
				return m, map[string]any{"kind": kind, "angle": angle}
			}
			return "", nil
		})
		x.Finish()
	}
}
