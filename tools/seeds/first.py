HEAD = '''package deflect_test

import (
	"math"
	"testing"

	"github.com/lubgr/deflect/deflect"
)

func demoMaterial(t *testing.T) *deflect.Material {
	cs, err := deflect.NewRectangularCrossSection(0.2, 0.3, 0)
	if err != nil {
		t.Fatal(err)
	}
	return &deflect.Material{CrossSection: cs, LinearElastic: deflect.LinearElastic{YoungsModulus: 3e7, PoissonsRatio: 0.3, Density: 1}}
}

func demoSolve(t *testing.T, s deflect.ProblemSolver, p *deflect.Problem) deflect.ProblemResult {
	idx, err := deflect.NewEqLayout(p)
	if err != nil {
		t.Fatal(err)
	}
	res, err := s.Solve(p, idx, deflect.NewCholeskySolver())
	if err != nil {
		t.Fatal(err)
	}
	return res
}

func near(a, b float64) bool { return math.Abs(a-b) <= 1e-7*math.Max(1e-3, math.Max(math.Abs(a), math.Abs(b))) }

'''
SEEDS = [
dict(id="c08-stale-displacements", property="C08",
 needs="two analyses of equal size on one solver; the second has an inclined support and no non-zero prescribed value",
 breaks="buffers of equal size are only cleared where the assembly adds to them; the displacement vector keeps the previous result, the inclined support rotates it into the supported direction",
 edits=[("deflect/linear_bvp_solver.go", '''	for _, matrix := range []mat.Reseter{eqn.k, eqn.r, eqn.d, eqn.k12, eqn.scratch} {
		matrix.Reset()
	}

	eqn.k.ReuseAsSym(dim)
	eqn.r.ReuseAsVec(dim)
	eqn.d.ReuseAsVec(dim)
''', '''	reshape := []mat.Reseter{eqn.k, eqn.r, eqn.k12, eqn.scratch}

	// Every entry of d is either prescribed or solved for, no need to clear it when the size fits
	if eqn.d.Len() != dim {
		eqn.d.Reset()
		eqn.d.ReuseAsVec(dim)
	}

	for _, matrix := range reshape {
		matrix.Reset()
	}

	eqn.k.ReuseAsSym(dim)
	eqn.r.ReuseAsVec(dim)
''')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}, {ID: "C", X: 6}}
	build := func() *deflect.Problem {
		p := &deflect.Problem{Nodes: nodes}
		for i, id := range []string{"AB", "BC"} {
			e, err := deflect.NewFrame2d(id, &nodes[i], &nodes[i+1], demoMaterial(t), nil)
			if err != nil {
				t.Fatal(err)
			}
			p.Elements = append(p.Elements, e)
		}
		tr, bc := deflect.NewInclinedSupport(deflect.Index{NodalID: "C", Dof: deflect.Ux}, deflect.Index{NodalID: "C", Dof: deflect.Uz}, 0.4)
		p.EqTransforms = []deflect.Transformer{tr}
		p.Dirichlet = []deflect.NodalValue{bc, {Index: deflect.Index{NodalID: "A", Dof: deflect.Ux}}, {Index: deflect.Index{NodalID: "A", Dof: deflect.Uz}}}
		p.Neumann = []deflect.NodalValue{{Index: deflect.Index{NodalID: "B", Dof: deflect.Uz}, Value: 10}}
		return p
	}
	want := demoSolve(t, deflect.NewLinearProblemSolver(), build())
	s := deflect.NewLinearProblemSolver()
	demoSolve(t, s, build())
	got := demoSolve(t, s, build())
	for i, w := range want.PrimaryAll() {
		if !near(got.PrimaryAll()[i].Value, w.Value) {
			t.Errorf("second analysis: %v instead of %v", got.PrimaryAll()[i], w)
		}
	}
}
'''),
dict(id="c07-remove-equal-loads", property="C07",
 needs="two distinct loads with equal values on one element, one of which is removed",
 breaks="loads are removed by value, so that another load with equal values disappears too",
 edits=[("deflect/one_dim_element.go", "i := slices.Index(e.loads, bc)", "i := slices.IndexFunc(e.loads, func(l NeumannElementBC) bool { return reflect.DeepEqual(l, bc) })"),
        ("deflect/one_dim_element.go", '	"fmt"\n', '	"fmt"\n	"reflect"\n')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	l0, l1 := deflect.NewElementConstantLoad(deflect.Uz, 4), deflect.NewElementConstantLoad(deflect.Uz, 4)
	e.AddLoad(l0)
	e.AddLoad(l1)
	e.RemoveLoad(l0)
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	if r, _ := res.Reaction(deflect.Index{NodalID: "A", Dof: deflect.Uz}); !near(math.Abs(r.Value), 12) {
		t.Errorf("reaction %v with one load of 4 left on 3 m", r.Value)
	}
}
'''),
dict(id="c03-close-loads", property="C03",
 needs="two concentrated loads on one element a small distance apart, far from its start",
 breaks="ends of pieces are matched with a relative tolerance, so that the piece between two close loads vanishes",
 edits=[("deflect/polynomial.go", "approxEq := func(a, b float64) bool { return scalar.EqualWithinAbs(a, b, 1e-10) }", "approxEq := func(a, b float64) bool { return scalar.EqualWithinAbsOrRel(a, b, 1e-10, 1e-3) }")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	for _, x := range []float64{2, 2.001} {
		l, err := deflect.NewElementConcentratedLoad(deflect.Uz, x, 10)
		if err != nil || !e.AddLoad(l) {
			t.Fatal(err)
		}
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	v, err := res.Interpolate("AB", deflect.FctVz, 1e-10)
	if err != nil || len(v.Piecewise) != 3 {
		t.Fatalf("shear force: %v %v", v, err)
	}
	if y, err := v.Piecewise[1].Eval(2.0005); err != nil || !near(y, 10) {
		t.Errorf("shear force between both loads: %v, %v", y, err)
	}
}
'''),
dict(id="c05-triple-release", property="C05",
 needs="three or more releases on the beam part of one frame element, the first two of which form a supported pair",
 breaks="further releases are silently ignored instead of refused",
 edits=[("deflect/static_condensation.go", "return len(all) == size && len(indices) == 2 && indices[0] == h0 && indices[1] == h1", "return len(all) == size && len(indices) >= 2 && indices[0] == h0 && indices[1] == h1")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	h := map[deflect.Index]struct{}{{NodalID: "A", Dof: deflect.Phiy}: {}, {NodalID: "B", Dof: deflect.Uz}: {}, {NodalID: "B", Dof: deflect.Phiy}: {}}
	if _, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), h); err == nil {
		t.Error("unsupported set of three releases has been accepted")
	}
}
'''),


dict(id="c13-interval-at-zero", property="C13",
 needs="a search for an interval whose start or end is zero up to round-off",
 breaks="intervals are compared with a relative tolerance only",
 edits=[("deflect/polynomial.go", "equalX0 := scalar.EqualWithinAbsOrRel(x0, p.X0, absTol, relTol)", "equalX0 := x0 == p.X0 || scalar.EqualWithinRel(x0, p.X0, relTol)"),
        ("deflect/polynomial.go", "equalXE := scalar.EqualWithinAbsOrRel(xE, p.XE, absTol, relTol)", "equalXE := xE == p.XE || scalar.EqualWithinRel(xE, p.XE, relTol)"),
        ("deflect/polynomial.go", "	absTol, relTol := 1e-10, 1e-10\n", "	const relTol = 1e-10\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	ps := deflect.PolySequence{{X0: 0, XE: 1, Coeff: []float64{1}}, {X0: 1, XE: 2, Coeff: []float64{2}}}
	if i := ps.IntervalIndex(1e-14, 1); i != 0 {
		t.Errorf("interval [1e-14, 1] found at %v", i)
	}
	_ = near
	_ = demoSolve
	_ = demoMaterial
}
'''),
dict(id="c11-one-end-listed", property="C11",
 needs="an element that lists one node only and whose ID consists of the names of two nodes",
 breaks="a list of one node is ignored, both are inferred from the ID of the element, instead of refusing the document",
 edits=[("deflect/problem_from_json.go", "} else if len(nodeIDs) > 0 {", "} else if len(nodeIDs) > 2 {")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	_, err := deflect.ProblemFromJSON([]byte(`{"nodes": {"A": [0,0,0], "B": [1,0,0], "C": [2,0,0]},
		"material": {"m": {"kind": "linelast", "parameter": {"E": 1e6, "nu": 0.3, "rho": 1}}},
		"crosssection": {"c": {"kind": "rectangle", "parameter": {"b": 0.1, "h": 0.1}}},
		"elements": {"AB": {"kind": "frame2d", "nodes": ["C"]}},
		"dirichlet": {"A": [{"Ux": 0, "Uz": 0, "Phiy": 0}]}}`))
	if err == nil {
		t.Error("accepted an element with one node")
	}
	_, _, _ = near, demoSolve, demoMaterial
}
'''),
dict(id="c01-nodal-loads-twice", property="C01",
 needs="two nodal loads at one degree of freedom, with a load on an element at that node",
 breaks="nodal loads at the same degree of freedom replace each other",
 edits=[("deflect/linear_bvp_solver.go", '''	for _, bc := range p.Neumann {
		i := indices.mapOne(bc.Index)
		ri := r.AtVec(i)
		r.SetVec(i, ri+bc.Value)
	}
''', '''	nodal := make(map[int]float64, len(p.Neumann))

	for _, bc := range p.Neumann {
		nodal[indices.mapOne(bc.Index)] = bc.Value
	}

	for i, value := range nodal {
		r.SetVec(i, r.AtVec(i)+value)
	}
''')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	tip := deflect.Index{NodalID: "B", Dof: deflect.Uz}
	p.Neumann = []deflect.NodalValue{{Index: tip, Value: 10}, {Index: tip, Value: 5}}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	if r, _ := res.Reaction(deflect.Index{NodalID: "A", Dof: deflect.Uz}); !near(r.Value, -15) {
		t.Errorf("reaction %v to loads of 10 and 5", r.Value)
	}
}
'''),
dict(id="c04-settlement-with-reaction", property="C04",
 needs="prescribed displacements at two or more supports whose sum vanishes",
 breaks="prescribed values are ignored if they cancel out",
 edits=[("deflect/linear_bvp_solver.go", "	var hasNonZeroDirichlet bool\n", "	var sum float64\n"),
        ("deflect/linear_bvp_solver.go", "		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0\n", "		sum += bc.Value\n"),
        ("deflect/linear_bvp_solver.go", "	if hasNonZeroDirichlet {\n", "	if sum != 0 {\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}, {ID: "C", X: 6}}
	p := &deflect.Problem{Nodes: nodes}
	for i, id := range []string{"AB", "BC"} {
		e, err := deflect.NewFrame2d(id, &nodes[i], &nodes[i+1], demoMaterial(t), nil)
		if err != nil {
			t.Fatal(err)
		}
		p.Elements = append(p.Elements, e)
	}
	p.Dirichlet = []deflect.NodalValue{{Index: deflect.Index{NodalID: "A", Dof: deflect.Ux}},
		{Index: deflect.Index{NodalID: "A", Dof: deflect.Uz}, Value: 0.01}, {Index: deflect.Index{NodalID: "C", Dof: deflect.Uz}, Value: -0.01}}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	if v, _ := res.Primary(deflect.Index{NodalID: "A", Dof: deflect.Phiy}); !near(math.Abs(v.Value), 0.02/6) {
		t.Errorf("rotation %v of a rigid body motion by 0.02 on 6 m", v.Value)
	}
}
'''),
dict(id="c15-poisoned-queries", property="C15",
 needs="a query for a reaction that doesn't exist, followed by any other query on the same result",
 breaks="a failed query for a reaction makes all later queries fail",
 edits=[("deflect/solver_result.go", "	return NodalValue{Index: i, Value: sr.r.AtVec(plain)}, sr.indices.flushFailure()", "	return NodalValue{Index: i, Value: sr.r.AtVec(plain)}, sr.indices.failure()")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), p)
	if _, err := res.Reaction(deflect.Index{NodalID: "Z", Dof: deflect.Ux}); err == nil {
		t.Error("found a reaction at an unknown node")
	}
	if _, err := res.Primary(deflect.Index{NodalID: "B", Dof: deflect.Ux}); err != nil {
		t.Errorf("known index after an unknown one: %v", err)
	}
}
'''),
dict(id="c19-strategy-error", property="C19",
 needs="an equation solver that fails with an error of its own, which the caller looks for",
 breaks="the error of the equation solver is turned into text and can't be retrieved",
 edits=[("deflect/linear_bvp_solver.go", 'return nil, fmt.Errorf("failed to solve assembled linear system: %w", errSolve)', 'return nil, fmt.Errorf("failed to solve assembled linear system: %v", errSolve)')],
 test=HEAD.replace("import (", "import (\n	\"errors\"\n	\"gonum.org/v1/gonum/mat\"") + '''
var errDemo = errors.New("no convergence")

type failingDemo struct{}

func (failingDemo) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error { return errDemo }

func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 3}}
	e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
	for _, d := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
	}
	idx, _ := deflect.NewEqLayout(p)
	_, err = deflect.NewLinearProblemSolver().Solve(p, idx, failingDemo{})
	if !errors.Is(err, errDemo) {
		t.Errorf("error %v doesn't wrap the one of the equation solver", err)
	}
	_, _ = near, demoSolve
}
'''),
]
