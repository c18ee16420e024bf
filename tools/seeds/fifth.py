import runpy
HEAD = runpy.run_path("/verif/tools/seeds/first.py")["HEAD"]
USE = '''
	_, _ = demoMaterial, demoSolve
	_ = near
}
'''
SEEDS = [
dict(id="c08-cached-layout", property="C08",
 needs="an element that is replaced by one with other degrees of freedom between two analyses of one problem, with the same supports",
 breaks="the layout of the problem before is used again if the problem has as many elements and the same supports as it had",
 edits=[("deflect/eq_layout.go", "	indices, err := createIndexMap(p.Elements, p.Dirichlet)\n", '''	size := len(p.Elements)

	latest.Lock()
	defer latest.Unlock()

	// Only loads differ in most sequences of analyses
	if p == latest.problem && size == latest.size && slices.Equal(p.Dirichlet, latest.dirichlet) {
		return newEqLayoutDirect(latest.indices), nil
	}

	indices, err := createIndexMap(p.Elements, p.Dirichlet)

	if err == nil {
		latest.problem, latest.size = p, size
		latest.dirichlet, latest.indices = slices.Clone(p.Dirichlet), indices
	}
'''),
  ("deflect/eq_layout.go", "// NewEqLayout creates", '''var latest struct {
	sync.Mutex
	problem   *Problem
	size      int
	dirichlet []NodalValue
	indices   map[Index]int
}

// NewEqLayout creates'''),
  ("deflect/eq_layout.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 2}, {ID: "C", X: 3, Z: 1}}
	frame, err1 := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	truss, err2 := deflect.NewTruss2d("BC", &nodes[1], &nodes[2], demoMaterial(t), nil)
	other, err3 := deflect.NewFrame2d("BC", &nodes[1], &nodes[2], demoMaterial(t), nil)
	if err1 != nil || err2 != nil || err3 != nil {
		t.Fatal(err1, err2, err3)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{frame, other}}
	for _, dof := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: dof}})
	}
	p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "C", Dof: deflect.Uz}})
	p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "C", Dof: deflect.Ux}})
	p.Neumann = []deflect.NodalValue{{Index: deflect.Index{NodalID: "B", Dof: deflect.Uz}, Value: 3}}
	solver := deflect.NewLinearProblemSolver()
	if n := len(demoSolve(t, solver, p).PrimaryAll()); n != 9 {
		t.Fatalf("%v displacements of the frames", n)
	}
	p.Elements[1] = truss
	if n := len(demoSolve(t, solver, p).PrimaryAll()); n != 8 {
		t.Fatalf("%v displacements of frame and truss", n)
	}
''' + USE),
dict(id="c06-jitter", property="C06",
 needs="an unstable structure in inclined position, whose stiffness matrix is singular but has no zeros on the diagonal",
 breaks="the diagonal is increased slightly if the factorisation fails, which makes mechanisms seem stable",
 edits=[("deflect/cholesky.go", "	if ok := ch.Factorize(a); !ok {\n", '''	ok := ch.Factorize(a)

	if !ok {
		// Round-off can turn small eigenvalues negative
		shifted := mat.NewSymDense(a.SymmetricDim(), nil)
		shifted.CopySym(a)
		for i := range a.SymmetricDim() {
			shifted.SetSym(i, i, a.At(i, i)*(1+1e-11))
		}
		ok = ch.Factorize(shifted)
	}

	if !ok {
''')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 1, Z: 1}}
	bar, err := deflect.NewTruss2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{bar}}
	for _, dof := range []deflect.Dof{deflect.Ux, deflect.Uz} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: dof}})
	}
	p.Neumann = []deflect.NodalValue{{Index: deflect.Index{NodalID: "B", Dof: deflect.Ux}, Value: 1}}
	layout, err := deflect.NewEqLayout(p)
	if err != nil {
		t.Fatal(err)
	}
	if res, err := deflect.NewLinearProblemSolver().Solve(p, layout, deflect.NewCholeskySolver()); err == nil {
		t.Errorf("a bar that can rotate yields %v", res.PrimaryAll())
	}
''' + USE),
dict(id="c08-copied-nodes", property="C08",
 needs="a node that is moved between two analyses",
 breaks="elements keep the coordinates of the time when they were created",
 edits=[("deflect/one_dim_element.go", "	return oneDimElement{id: id, n0: n0, n1: n1, material: material}, nil\n", '''	start, end := *n0, *n1

	return oneDimElement{id: id, n0: &start, n1: &end, material: material}, nil
''')],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 1}}
	frame, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{frame}}
	for _, dof := range []deflect.Dof{deflect.Ux, deflect.Uz, deflect.Phiy} {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: dof}})
	}
	tip := deflect.Index{NodalID: "B", Dof: deflect.Uz}
	p.Neumann = []deflect.NodalValue{{Index: tip, Value: 1000}}
	solver := deflect.NewLinearProblemSolver()
	before, err1 := demoSolve(t, solver, p).Primary(tip)
	nodes[1].X = 2
	after, err2 := demoSolve(t, solver, p).Primary(tip)
	if err1 != nil || err2 != nil || !near(after.Value, 8*before.Value) {
		t.Errorf("deflection %v of a beam that is twice as long as the one with %v", after.Value, before.Value)
	}
''' + USE),
]
