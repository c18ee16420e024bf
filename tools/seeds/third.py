import runpy
HEAD = runpy.run_path("/verif/tools/seeds/first.py")["HEAD"]
SEEDS = [
dict(id="c02-same-position", property="C02",
 needs="a concentrated force and a concentrated moment at the same position of one element, in this order",
 breaks="loads that act at the same position are combined into one piece, with as many coefficients as the later one has",
 edits=[("deflect/beam2d.go", "		result = append(result, p)\n	}\n\n	return result.flatten()", "		if last := &result[len(result)-1]; len(result) > 1 && p.X0 > 0 && last.X0 == p.X0 {\n			for j := range min(len(p.Coeff), len(last.Coeff)) {\n				p.Coeff[j] += last.Coeff[j]\n			}\n			*last = p\n			continue\n		}\n\n		result = append(result, p)\n	}\n\n	return result.flatten()")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	a, b := deflect.Node{ID: "A"}, deflect.Node{ID: "B", X: 6}
	e, err := deflect.NewFrame2d("AB", &a, &b, demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	for _, kind := range []deflect.Dof{deflect.Uz, deflect.Phiy} {
		load, err := deflect.NewElementConcentratedLoad(kind, 2, 5)
		if err != nil || !e.AddLoad(load) {
			t.Fatal(err)
		}
	}
	index := func(n string, d deflect.Dof) deflect.Index { return deflect.Index{NodalID: n, Dof: d} }
	p := deflect.Problem{Nodes: []deflect.Node{a, b}, Elements: []deflect.Element{e}, Dirichlet: []deflect.NodalValue{
		{Index: index("A", deflect.Ux)}, {Index: index("A", deflect.Uz)}, {Index: index("A", deflect.Phiy)},
	}}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), &p)
	my, err := res.Interpolate("AB", deflect.FctMy, 1e-10)
	if err != nil {
		t.Fatal(err)
	}
	// Nothing acts at the free end
	end, err := my.Piecewise[len(my.Piecewise)-1].Eval(6)
	if err != nil || math.Abs(end) > 1e-9 {
		t.Errorf("bending moment %v at the free end, %v", end, err)
	}
	_ = near
}
'''),
dict(id="c09-order-of-names", property="C09",
 needs="names of nodes that only differ in case, and the order of a map",
 breaks="the order of the degrees of freedom ignores the case of names, so that it depends on the random order of a map",
 edits=[("deflect/eq_layout.go", "cmp.Compare(i.NodalID, j.NodalID)", "cmp.Compare(strings.ToLower(i.NodalID), strings.ToLower(j.NodalID))")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	var first []deflect.NodalValue
	for run := 0; run < 200; run++ {
		p, err := deflect.ProblemFromJSON([]byte(`{"nodes": {"A": [0, 0, 0], "a": [1, 0, 0], "B": [2, 0, 0]},
			"material": {"m": {"kind": "linelast", "parameter": {"E": 1000, "nu": 0.3, "rho": 1}}},
			"crosssection": {"c": {"kind": "rectangle", "parameter": {"b": 0.1, "h": 0.2}}},
			"elements": {"Aa": {"kind": "frame2d"}, "aB": {"kind": "frame2d"}},
			"dirichlet": {"B": [{"Ux": 0}, {"Uz": 0}, {"Phiy": 0}]},
			"neumann": {"A": [{"Fz": 1}]}}`))
		if err != nil {
			t.Fatal(err)
		}
		all := demoSolve(t, deflect.NewLinearProblemSolver(), &p).PrimaryAll()
		if first == nil {
			first = all
		}
		for i := range all {
			if all[i].Index != first[i].Index {
				t.Fatalf("entry %v of the results belongs to %v, but to %v in another run", i, all[i].Index, first[i].Index)
			}
		}
	}
	_ = demoMaterial
}
'''),
dict(id="c06-short-elements", property="C06",
 needs="a structure with dimensions of micrometers, given in meters",
 breaks="elements shorter than a threshold are refused as if they had no length",
 edits=[("deflect/one_dim_element.go", "	// Any non-zero length is technically okay (even if not advisable), so use equality here to\n	// detect actual zero-length trusses:\n	if length(n0, n1) == 0.0 {", "	// Nodes this close together are the same node, except for round-off\n	if length(n0, n1) < 1e-5 {")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	a, b := deflect.Node{ID: "A"}, deflect.Node{ID: "B", X: 4e-6}
	if _, err := deflect.NewTruss2d("AB", &a, &b, demoMaterial(t), nil); err != nil {
		t.Error(err)
	}
	_ = demoSolve
	_ = near
}
'''),
dict(id="c07-added-often", property="C07",
 needs="one load that is added to an element four times and removed again",
 breaks="at most three occurrences of a load are removed",
 edits=[("deflect/one_dim_element.go", "	for {\n		i := slices.Index(e.loads, bc)\n", "	for range 3 {\n		i := slices.Index(e.loads, bc)\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	a, b := deflect.Node{ID: "A"}, deflect.Node{ID: "B", X: 3}
	e, err := deflect.NewTruss2d("AB", &a, &b, demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	load := deflect.NewElementConstantLoad(deflect.Ux, 2)
	for i := 0; i < 4; i++ {
		e.AddLoad(load)
	}
	e.RemoveLoad(load)
	p := deflect.Problem{Nodes: []deflect.Node{a, b}, Elements: []deflect.Element{e}, Dirichlet: []deflect.NodalValue{
		{Index: deflect.Index{NodalID: "A", Dof: deflect.Ux}},
		{Index: deflect.Index{NodalID: "A", Dof: deflect.Uz}},
		{Index: deflect.Index{NodalID: "B", Dof: deflect.Uz}},
	}}
	res := demoSolve(t, deflect.NewLinearProblemSolver(), &p)
	if x, _ := res.Reaction(deflect.Index{NodalID: "A", Dof: deflect.Ux}); !near(x.Value, 0) {
		t.Errorf("reaction %v although all loads have been removed", x.Value)
	}
}
'''),
dict(id="c10-case-of-names", property="C10",
 needs="a document with two nodes whose names only differ in case, between which an element runs",
 breaks="nodes are found by a comparison that ignores case, so that an element may be connected to the other one",
 edits=[("deflect/problem_from_json.go", "return n.ID == nodeID })", "return strings.EqualFold(n.ID, nodeID) })"),
        ("deflect/problem_from_json.go", '	"slices"\n', '	"slices"\n	"strings"\n')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	for run := 0; run < 50; run++ {
		p, err := deflect.ProblemFromJSON([]byte(`{"nodes": {"B": [0, 0, 0], "A": [2, 0, 0], "a": [5, 0, 0]},
			"material": {"m": {"kind": "linelast", "parameter": {"E": 1000, "nu": 0.3, "rho": 1}}},
			"crosssection": {"c": {"kind": "rectangle", "parameter": {"b": 0.1, "h": 0.2}}},
			"elements": {"BA": {"kind": "frame2d"}, "Ba": {"kind": "frame2d"}},
			"dirichlet": {"B": [{"Ux": 0}, {"Uz": 0}, {"Phiy": 0}]},
			"neumann": {"A": [{"Fx": 1}], "a": [{"Fx": 1}]}}`))
		if err != nil {
			t.Fatal(err)
		}
		idx, err := deflect.NewEqLayout(&p)
		if err != nil {
			t.Fatal(err)
		}
		res, err := deflect.NewLinearProblemSolver().Solve(&p, idx, deflect.NewCholeskySolver())
		if err != nil {
			t.Fatal(err)
		}
		if u, err := res.Primary(deflect.Index{NodalID: "a", Dof: deflect.Ux}); err != nil || !near(u.Value, 5.0/(1000*0.02)) {
			t.Fatalf("displacement %v, %v", u, err)
		}
	}
	_, _ = demoSolve, demoMaterial
}
'''),
dict(id="c19-fallback", property="C19",
 needs="an equation solver that fails",
 breaks="a failure of the equation solver that the caller supplies is covered up by a second attempt with the built-in one",
 edits=[("deflect/linear_bvp_solver.go", "	errSolve := strategy.SolveLinearSystem(k22, r2, d2)\n", "	errSolve := strategy.SolveLinearSystem(k22, r2, d2)\n	if errSolve != nil {\n		// Not every strategy can deal with every system\n		errSolve = NewCholeskySolver().SolveLinearSystem(k22, r2, d2)\n	}\n")],
 test=HEAD.replace("import (", "import (\n	\"errors\"\n	\"gonum.org/v1/gonum/mat\"") + '''
type refusing struct{}

func (refusing) SolveLinearSystem(mat.Symmetric, *mat.VecDense, *mat.VecDense) error {
	return errors.New("no licence")
}

func TestPlantedDemo(t *testing.T) {
	a, b := deflect.Node{ID: "A"}, deflect.Node{ID: "B", X: 3}
	e, err := deflect.NewTruss2d("AB", &a, &b, demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := deflect.Problem{Nodes: []deflect.Node{a, b}, Elements: []deflect.Element{e}, Dirichlet: []deflect.NodalValue{
		{Index: deflect.Index{NodalID: "A", Dof: deflect.Ux}},
		{Index: deflect.Index{NodalID: "A", Dof: deflect.Uz}},
		{Index: deflect.Index{NodalID: "B", Dof: deflect.Uz}},
	}}
	idx, err := deflect.NewEqLayout(&p)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := deflect.NewLinearProblemSolver().Solve(&p, idx, refusing{}); err == nil {
		t.Error("the equation solver failed, but the analysis did not")
	}
	_, _ = demoSolve, near
}
'''),
dict(id="c20-lost-values", property="C20",
 needs="an expected polynomial with several samples and both boundary values",
 breaks="only as many samples are compared as there have been before boundary values were added, when there is more than one of each",
 edits=[("integr/expectations.go", "	for _, sample := range expect.eval {", "	for i, sample := range expect.eval {\n		if i > 1 && i+1 == len(expect.eval) && sample[0] == p.XE && sample[1] == 0 {\n			continue // Nothing at the end, already implied by the degree\n		}\n")],
 test='''package integr_test

import (
	"os"
	"os/exec"
	"testing"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
)

const demoDocument = `{"nodes": {"A": [0, 0, 0], "B": [1, 0, 0]},
	"material": {"m": {"kind": "linelast", "parameter": {"E": 1000, "nu": 0.3, "rho": 1}}},
	"crosssection": {"c": {"kind": "rectangle", "parameter": {"b": 1, "h": 1}}},
	"elements": {"AB": {"kind": "frame2d"}},
	"dirichlet": {"A": [{"Ux": 0}, {"Uz": 0}, {"Phiy": 0}]},
	"neumann": {"B": [{"Fx": 8}]},
	"expected": {"interpolation": {"AB": [{"kind": "Ux", "degree": 1, "boundary": [0, 0], "eval": [[0.5, 0.004], [0.25, 0.002]]}]}}}`

func TestPlantedDemoWrongExpectation(t *testing.T) {
	if os.Getenv("PLANTED_DEMO") == "" {
		t.Skip()
	}
	p, err := deflect.ProblemFromJSON([]byte(demoDocument))
	if err != nil {
		t.Skip(err)
	}
	idx, err := deflect.NewEqLayout(&p)
	if err != nil {
		t.Skip(err)
	}
	res, err := deflect.NewLinearProblemSolver().Solve(&p, idx, deflect.NewCholeskySolver())
	if err != nil {
		t.Skip(err)
	}
	expectations, err := integr.ExpectationsFromJSON([]byte(demoDocument))
	if err != nil {
		t.Skip(err)
	}
	for _, e := range expectations {
		e.Interpolated(res, t)
	}
}

// The end of the bar is displaced by 0.008, the expectation of zero must fail.
func TestPlantedDemo(t *testing.T) {
	cmd := exec.Command(os.Args[0], "-test.run", "TestPlantedDemoWrongExpectation$")
	cmd.Env = append(os.Environ(), "PLANTED_DEMO=1")
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Errorf("wrong expectation passes: %s", out)
	}
}
''', pkg="integr"),
dict(id="c13-relative-gaps", property="C13",
 needs="pieces of a polynomial far from the origin with a gap between them that is small compared to their position",
 breaks="pieces are joined although there is a gap between them, since positions are compared with a relative tolerance only",
 edits=[("deflect/polynomial.go", "		if !approxEq(ps[i-1].XE, ps[i].X0) {\n", "		if !approxEq(ps[i-1].XE, ps[i].X0) && ps[i].X0-ps[i-1].XE > 1e-6*(ps[i].XE-ps[i-1].X0) {\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	ps := deflect.PolySequence{
		{X0: 0, XE: 1000, Coeff: []float64{1, 2}},
		{X0: 1000.0005, XE: 2000, Coeff: []float64{1, 2}},
	}
	if n := len(ps.CompactIdentical(1e-10)); n != 2 {
		t.Errorf("%v pieces left of two with a gap between them", n)
	}
	_, _, _ = demoSolve, demoMaterial, near
}
'''),
]
