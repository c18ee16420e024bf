import runpy
HEAD = runpy.run_path("/verif/tools/seeds/first.py")["HEAD"]
USE = '''
	_, _ = demoMaterial, demoSolve
	_ = near
}
'''
BAR = '''
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 2}}
	frame, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{frame}}
	for _, dof := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: dof}})
	}
'''
SEEDS = [
dict(id="c08-merged-loads", property="C08",
 needs="two loads on one degree of freedom, one after the other in the list of nodal loads, of which one is changed between two analyses",
 breaks="nodal loads on the same degree of freedom are united in the problem itself",
 edits=[("deflect/linear_bvp_solver.go", '''	for _, bc := range p.Neumann {
		i := indices.mapOne(bc.Index)
''', '''	for n := range p.Neumann {
		if n > 0 && p.Neumann[n].Index == p.Neumann[n-1].Index {
			// Look up and add several values for the same index only once
			p.Neumann[n].Value += p.Neumann[n-1].Value
			p.Neumann[n-1].Value = 0
		}
	}

	for _, bc := range p.Neumann {
		if bc.Value == 0 {
			indices.mapOne(bc.Index)
			continue
		}

		i := indices.mapOne(bc.Index)
''')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
''' + BAR + '''
	tip := deflect.Index{NodalID: "B", Dof: deflect.Uz}
	p.Neumann = []deflect.NodalValue{{Index: tip, Value: 1000}, {Index: tip, Value: 500}}
	solver := deflect.NewLinearProblemSolver()
	before, err1 := demoSolve(t, solver, p).Primary(tip)
	p.Neumann[1].Value = 0
	after, err2 := demoSolve(t, solver, p).Primary(tip)
	if err1 != nil || err2 != nil || !near(before.Value, 1.5*after.Value) {
		t.Errorf("deflections %v and %v with loads of 1500 and 1000", before.Value, after.Value)
	}
''' + USE),
dict(id="c19-ignored-condition", property="C19",
 needs="an equation solver that fails with the kind of error gonum uses for ill-conditioned matrices",
 breaks="the failure is taken for a warning, and its values for a solution",
 edits=[("deflect/linear_bvp_solver.go", '''	if errSolve != nil {
''', '''	// Gonum reports ill-conditioned matrices, but computes a solution nevertheless
	var condition mat.Condition

	if errSolve != nil && !errors.As(errSolve, &condition) {
''')],
 test=HEAD.replace('	"github.com/lubgr/deflect/deflect"\n', '	"github.com/lubgr/deflect/deflect"\n	"gonum.org/v1/gonum/mat"\n') + '''
type inaccurate struct{}

func (inaccurate) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	return mat.Condition(1e18)
}

func TestPlantedDemo(t *testing.T) {
''' + BAR + '''
	layout, err := deflect.NewEqLayout(p)
	if err != nil {
		t.Fatal(err)
	}
	if res, err := deflect.NewLinearProblemSolver().Solve(p, layout, inaccurate{}); err == nil {
		t.Errorf("the equation solver failed, but the analysis yields %v", res.PrimaryAll())
	}
''' + USE),
]
