import runpy
HEAD = runpy.run_path("/verif/tools/seeds/first.py")["HEAD"]
USE = '''
	_, _ = demoMaterial, demoSolve
	_ = near
}
'''
SEEDS = [
dict(id="c21-last-layout", property="C21",
 needs="an inclined support that is transformed for two layouts before the results of the first one are",
 breaks="the inclined support remembers the positions of its degrees of freedom from the latest transformation",
 edits=[("deflect/inclined_support.go", "	irow, jrow *mat.VecDense\n", "	irow, jrow *mat.VecDense\n	i, j       int\n"),
  ("deflect/inclined_support.go", "	i, j := indices.mapTwo(l.from, l.to)\n\n	l.transformTangent(i, j, k)", "	l.i, l.j = indices.mapTwo(l.from, l.to)\n	i, j := l.i, l.j\n\n	l.transformTangent(i, j, k)"),
  ("deflect/inclined_support.go", "	// before l.Post, and l.Pre would initialise them.\n	i, j := indices.mapTwo(l.from, l.to)\n", "	// before l.Post, and l.Pre would initialise them. The same holds for the matrix indices.\n	i, j := l.i, l.j\n")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	a, b, c := deflect.Node{ID: "A"}, deflect.Node{ID: "B", X: 1}, deflect.Node{ID: "C", X: 2}
	ab, err1 := deflect.NewTruss2d("AB", &a, &b, demoMaterial(t), nil)
	bc, err2 := deflect.NewTruss2d("BC", &b, &c, demoMaterial(t), nil)
	if err1 != nil || err2 != nil {
		t.Fatal(err1, err2)
	}
	large, err1 := deflect.NewEqLayout(&deflect.Problem{Elements: []deflect.Element{ab, bc}})
	small, err2 := deflect.NewEqLayout(&deflect.Problem{Elements: []deflect.Element{bc}})
	if err1 != nil || err2 != nil {
		t.Fatal(err1, err2)
	}
	tr, _ := deflect.NewInclinedSupport(deflect.Index{NodalID: "C", Dof: deflect.Ux}, deflect.Index{NodalID: "C", Dof: deflect.Uz}, 0.6)
	vec := func(n int) *mat.VecDense {
		v := mat.NewVecDense(n, nil)
		for i := range n {
			v.SetVec(i, float64(i+1))
		}
		return v
	}
	r6, d6, r4, d4 := vec(6), vec(6), vec(4), vec(4)
	tr.Pre(large, mat.NewSymDense(6, nil), r6, d6)
	tr.Pre(small, mat.NewSymDense(4, nil), r4, d4)
	tr.Post(large, r6, d6)
	for i := range 6 {
		if math.Abs(r6.AtVec(i)-float64(i+1)) > 1e-9 || math.Abs(d6.AtVec(i)-float64(i+1)) > 1e-9 {
			t.Errorf("entry %v is %v and %v after the transformation has been undone", i, r6.AtVec(i), d6.AtVec(i))
		}
	}
''' + USE),
dict(id="c21-current-state", property="C21",
 needs="assembly with primary values that aren't zero",
 breaks="the residual of a truss depends on the primary values, from which only non-linear elements read",
 edits=[("deflect/truss2d.go", "	t.hinges.reduce(kl, rl)\n\n	kAdd(ux0, ux0, c2*kl.At(0, 0))", "	t.hinges.reduce(kl, rl)\n\n	// What is left of the loads in the current state\n	state := mat.NewVecDense(2, []float64{\n		c*d.AtVec(ux0) + s*d.AtVec(uz0),\n		c*d.AtVec(ux1) + s*d.AtVec(uz1),\n	})\n	state.MulVec(kl, state)\n	rl.SubVec(rl, state)\n\n	kAdd(ux0, ux0, c2*kl.At(0, 0))")],
 test=HEAD + '''
func TestPlantedDemo(t *testing.T) {
	a, b := deflect.Node{ID: "A"}, deflect.Node{ID: "B", X: 1}
	ab, err := deflect.NewTruss2d("AB", &a, &b, demoMaterial(t), nil)
	if err != nil {
		t.Fatal(err)
	}
	layout, err := deflect.NewEqLayout(&deflect.Problem{Elements: []deflect.Element{ab}})
	if err != nil {
		t.Fatal(err)
	}
	k, r, d := mat.NewSymDense(4, nil), mat.NewVecDense(4, nil), mat.NewVecDense(4, []float64{1, 2, 4, 8})
	ab.Assemble(layout, k, r, d)
	for i := range 4 {
		if v := math.Abs(r.AtVec(i)); v > 1e-9 {
			t.Errorf("an element without loads adds %v to the residual", v)
		}
	}
''' + USE),
]
for s in SEEDS:
    s["test"] = s["test"].replace('deflect/deflect"\n', 'deflect/deflect"\n	"gonum.org/v1/gonum/mat"\n', 1)
