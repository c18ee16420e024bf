import runpy
HEAD = runpy.run_path("/verif/tools/seeds/first.py")["HEAD"]
INTEGR = '''package integr_test

import (
	"testing"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
)

'''
SEEDS = [
dict(id="c12-kept-factorisation", property="C12",
 needs="two calls of one equation solver with the same matrix object, whose entries change in between",
 breaks="the factorisation is kept for as long as the same matrix object is passed, although its entries may have changed",
 edits=[("deflect/cholesky.go", "type cholesky struct{}\n", "type cholesky struct {\n	ch   mat.Cholesky\n	last mat.Symmetric\n}\n"),
        ("deflect/cholesky.go", "	var ch mat.Cholesky\n\n	if ok := ch.Factorize(a); !ok {\n		det := ch.Det()\n		return",
         "	ch := &c.ch\n\n	// No need to factorise again if only the right-hand side differs\n	if a == c.last {\n		return ch.SolveVecTo(x, b)\n	}\n\n	c.last = nil\n\n	if ok := ch.Factorize(a); !ok {\n		det := ch.Det()\n		return"),
        ("deflect/cholesky.go", "	if err := ch.SolveVecTo(x, b); err != nil {\n", "	c.last = a\n\n	if err := ch.SolveVecTo(x, b); err != nil {\n")],
 test=HEAD.replace("import (", "import (\n	\"gonum.org/v1/gonum/mat\"") + '''
func TestPlantedDemo(t *testing.T) {
	a := mat.NewSymDense(2, []float64{2, 1, 1, 3})
	b, x := mat.NewVecDense(2, []float64{4, 0}), mat.NewVecDense(2, nil)
	s := deflect.NewCholeskySolver()
	if err := s.SolveLinearSystem(a, b, x); err != nil {
		t.Fatal(err)
	}
	a.SetSym(0, 1, 0)
	if err := s.SolveLinearSystem(a, b, x); err != nil {
		t.Fatal(err)
	}
	if !near(x.AtVec(0), 2) || !near(x.AtVec(1), 0) {
		t.Errorf("solution %v of 2 x = 4, 3 y = 0", x)
	}
	_, _ = demoSolve, demoMaterial
}
'''),
dict(id="c14-lazy-inertia", property="C14",
 needs="two concurrent analyses that share a rectangular cross section, the second switched in while the first is about to compute the second moment of area",
 breaks="the second moment of area is cached in the cross section, and marked as available before it is",
 edits=[("deflect/cross_sections.go", "type rectangular struct {\n	b, h, roll float64\n}", "type rectangular struct {\n	b, h, roll float64\n	iyy        float64\n	computed   bool\n}"),
        ("deflect/cross_sections.go", "	return r.b * r.h * r.h * r.h / 12.0\n", "	if !r.computed {\n		r.computed = true\n		r.iyy = r.b * r.h * r.h * r.h / 12.0\n	}\n\n	return r.iyy\n")],
 test=HEAD.replace("import (", "import (\n	\"sync\"\n	\"sync/atomic\"") + '''
func TestPlantedDemo(t *testing.T) {
	const workers = 4
	var wrong atomic.Int64
	for i := 0; i < 200000 && wrong.Load() == 0; i++ {
		cs, _ := deflect.NewRectangularCrossSection(0.2, 0.3, 0)
		var ready, done sync.WaitGroup
		var start atomic.Bool
		ready.Add(workers)
		done.Add(workers)
		for w := 0; w < workers; w++ {
			go func() {
				defer done.Done()
				ready.Done()
				for !start.Load() {
				}
				if v := cs.Iyy(); !near(v, 0.2*0.3*0.3*0.3/12) {
					wrong.Add(1)
				}
			}()
		}
		ready.Wait()
		start.Store(true)
		done.Wait()
	}
	if n := wrong.Load(); n > 0 {
		t.Errorf("%v wrong moments of area of a shared cross section", n)
	}
	_, _ = demoSolve, demoMaterial
}
'''),
dict(id="c16-torsion-default", property="C16",
 needs="a cross section from constants without a torsion constant",
 breaks="the torsion constant defaults to the polar moment of area instead of zero",
 edits=[("deflect/cross_sections.go", "	cs.ixx = param[\"Ixx\"]\n", "	if cs.ixx = param[\"Ixx\"]; cs.ixx == 0 {\n		cs.ixx = cs.iyy + cs.izz // Polar moment of area\n	}\n\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	cs, err := deflect.NewConstantsCrossSections(map[string]float64{"A": 1, "Iyy": 2, "Izz": 3})
	if err != nil || cs.Ixx() != 0 {
		t.Errorf("torsion constant %v of a cross section without any (%v)", cs.Ixx(), err)
	}
	_, _, _ = demoSolve, demoMaterial, near
}
'''),
dict(id="c17-snapped-direction", property="C17",
 needs="an element that is nearly but not exactly vertical",
 breaks="directions close to vertical are snapped to vertical, the element has another direction then",
 edits=[("deflect/geometry.go", "	sin = r3.Cos(line, r3.Vec{X: 0, Y: 0, Z: 1})\n\n	return sin, cos", "	sin = r3.Cos(line, r3.Vec{X: 0, Y: 0, Z: 1})\n\n	if math.Abs(cos) < 1e-4 {\n		// Clean up round-off of vertical elements\n		return math.Copysign(1, sin), 0\n	}\n\n	return sin, cos"),
        ("deflect/geometry.go", "import (\n", "import (\n	\"math\"\n\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	const eps = 5e-5
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 4 * eps, Z: 4}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	p.Neumann = []deflect.NodalValue{{Index: deflect.Index{NodalID: "B", Dof: deflect.Uz}, Value: 1000}}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	if r, _ := res.Reaction(deflect.Index{NodalID: "A", Dof: deflect.Phiy}); !near(math.Abs(r.Value), 1000*4*eps) {
		t.Errorf("reaction moment %v with an eccentricity of %v", r.Value, 4*eps)
	}
}
'''),
dict(id="c18-small-loads", property="C18",
 needs="small loads on elements, next to larger ones",
 breaks="element loads below an absolute threshold are ignored along the element",
 edits=[("deflect/beam2d.go", "					p = PolyPiece{X0: 0, XE: l, Coeff: []float64{0, 0, -0.5 * q0, -(qE - q0) / (6 * l)}}",
         "					p = PolyPiece{X0: 0, XE: l, Coeff: []float64{0, 0, -0.5 * q0, 0}}\n					// Keep the degree low for a trapezoid that is almost constant\n					if cubic := (qE - q0) / (6 * l); cubic < -1e-6 || cubic > 1e-6 {\n						p.Coeff[3] = -cubic\n					}")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	e.AddLoad(deflect.NewElementLinearLoad(deflect.Uz, 0, 9e-6))
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	v, err := res.Interpolate("AB", deflect.FctVz, 0)
	if err != nil {
		t.Fatal(err)
	}
	last := v.Piecewise[len(v.Piecewise)-1]
	if y, err := last.Eval(3); err != nil || math.Abs(y) > 1e-12 {
		t.Errorf("shear force %v at a free end, loads in total %v", y, 9e-6*3/2)
	}
	_ = near
}
'''),
dict(id="c20-second-boundary", property="C20",
 needs="two boundary values that are expected, of which only the second one deviates",
 breaks="the second boundary value is compared at the start of an explicit range",
 edits=[("integr/expectations.go", "			[]float64{p.X0, expect.boundary[0]}, []float64{p.XE, expect.boundary[1]})",
         "			[]float64{p.X0, expect.boundary[0]})\n\n		if len(expect.fctRange) == 0 {\n			expect.eval = append(expect.eval, []float64{p.XE, expect.boundary[1]})\n		}")],
 pkg="integr",
 test=INTEGR + '''
type fixed struct{ deflect.ProblemResult }

func (fixed) Interpolate(e string, f deflect.Fct, _ float64) (deflect.Interpolation, error) {
	return deflect.Interpolation{Element: e, Quantity: f, Piecewise: deflect.PolySequence{{X0: 0, XE: 2, Coeff: []float64{0, 3}}}}, nil
}

func TestPlantedDemo(t *testing.T) {
	exps, err := integr.ExpectationsFromJSON([]byte(`{"expected": {"interpolation": {"AB": [{"kind": "Vz", "degree": 1, "range": [0, 2], "boundary": [0, 7]}]}}}`))
	if err != nil {
		t.Fatal(err)
	}
	passed := testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "inner", F: func(t *testing.T) {
		for _, e := range exps {
			e.Interpolated(fixed{}, t)
		}
	}}})
	if passed {
		t.Error("6 at the end of the range accepted instead of 7")
	}
}
'''),
dict(id="c10-angle-unit", property="C10",
 needs="a document with an inclined support whose angle is more than a full turn",
 breaks="large angles in documents are taken for degrees",
 edits=[("deflect/problem_from_json.go", "NewInclinedSupport(fromIndex, toIndex, desc.Angle)", "NewInclinedSupport(fromIndex, toIndex, radians(desc.Angle))"),
        ("deflect/problem_from_json.go", "type dofLookup struct {", "// radians converts angles that can't be meant as radians.\nfunc radians(angle float64) float64 {\n	if math.Abs(angle) > 2*math.Pi {\n		return angle * math.Pi / 180\n	}\n	return angle\n}\n\ntype dofLookup struct {"),
        ("deflect/problem_from_json.go", '	"fmt"\n', '	"fmt"\n	"math"\n')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	const doc = `{"nodes": {"A": [0,0,0], "B": [4,0,0]}, "material": {"m": {"parameter": {"E": 3e7, "nu": 0.3, "rho": 1}}},
		"crosssection": {"c": {"kind": "rectangle", "parameter": {"b": 0.1, "h": 0.2}}}, "elements": {"AB": {"kind": "frame2d"}},
		"dirichlet": {"A": [{"Ux": 0, "Uz": 0}]}, "links": {"B": [{"from": "Ux", "to": "Uz", "angle": ANGLE}]},
		"neumann": {"AB": [{"kind": "qz", "degree": "constant", "values": [5]}], "B": [{"Fx": 3}]}}`
	var u [2]float64
	for i, angle := range []string{"0.8", "7.083185307179586"} {
		p, err := deflect.ProblemFromJSON([]byte(strings.Replace(doc, "ANGLE", angle, 1)))
		if err != nil {
			t.Fatal(err)
		}
		v, _ := demoSolve(t, deflect.NewLinearProblemSolver(), &p).Primary(deflect.Index{NodalID: "B", Dof: deflect.Ux})
		u[i] = v.Value
	}
	if !near(u[0]*1e6, u[1]*1e6) {
		t.Errorf("displacements %v differ after a full turn", u)
	}
	_ = demoMaterial
}
'''.replace("", "")),
dict(id="c06-ignored-hinge", property="C06",
 needs="a truss element without normal force at its second node, which leaves a mechanism",
 breaks="a release at the second end of a truss is only looked for if there is none of another kind",
 edits=[("deflect/static_condensation.go", "	case single(2, 1):\n		c = &preComputedHinge2x1{}", "	case single(2, 1) && len(hinged) == 1:\n		c = &preComputedHinge2x1{}\n	case single(2, 1):\n		c = &noHinge{}")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	h := map[deflect.Index]struct{}{{NodalID: "B", Dof: deflect.Ux}: {}, {NodalID: "A", Dof: deflect.Phiy}: {}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), h)
	if err != nil {
		return
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Index{{NodalID: "A", Dof: deflect.Ux}, {NodalID: "A", Dof: deflect.Uz}, {NodalID: "A", Dof: deflect.Phiy}, {NodalID: "B", Dof: deflect.Uz}} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: d})
	}
	p.Neumann = []deflect.NodalValue{{Index: deflect.Index{NodalID: "B", Dof: deflect.Ux}, Value: 1}}
	idx, err := deflect.NewEqLayout(p)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := deflect.NewLinearProblemSolver().Solve(p, idx, deflect.NewCholeskySolver()); err == nil {
		t.Error("a structure that can move along the element is accepted")
	}
	_, _ = near, demoSolve
}
'''),
]
for s in SEEDS:
    if s["id"] == "c10-angle-unit":
        s["test"] = s["test"].replace('"math"\n', '"math"\n	"strings"\n', 1)
