package main

import (
	"fmt"
	"math"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// C21: elements, layouts and inclined supports do what their interfaces say, whichever solver calls
// them. The explorer takes the place of the solver here.

// plainIndices finds the matrix indices of a layout: an inclined support of 90 degrees swaps two entries
// of a vector and turns the sign of one of them.
func plainIndices(layout deflect.EqLayout, dofs []deflect.Index) (map[deflect.Index]int, string) {
	n := len(dofs)
	out := map[deflect.Index]int{}
	k, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil)
	for _, to := range dofs[1:] {
		tr, _ := deflect.NewInclinedSupport(dofs[0], to, math.Pi/2)
		r := mat.NewVecDense(n, nil)
		for i := range n {
			r.SetVec(i, float64(i+1))
		}
		tr.Pre(layout, k, r, d)
		i, j := -1, -1
		for p := range n {
			if v := r.AtVec(p); v < 0 {
				i, j = int(math.Round(-v))-1, p
			}
		}
		if i < 0 || i == j || i >= n || math.Abs(r.AtVec(i)-float64(j+1)) > 1e-9 {
			return nil, fmt.Sprintf("inclined support of 90 degrees from %v to %v turns the numbers from 1 into %v", dofs[0], to, r.RawVector().Data)
		}
		if p, ok := out[dofs[0]]; ok && p != i {
			return nil, fmt.Sprintf("%v is at %v as well as at %v in one layout", dofs[0], p, i)
		}
		out[dofs[0]], out[to] = i, j
	}
	at := map[int]deflect.Index{}
	for d, p := range out {
		if o, ok := at[p]; ok {
			return nil, fmt.Sprintf("%v and %v share one position of the layout", o, d)
		}
		at[p] = d
	}
	return out, ""
}

type placed struct {
	name   string
	layout deflect.EqLayout
	at     map[deflect.Index]int
	n      int
	values *mat.VecDense // the same vector for all nodal values
}

func place(name string, p *deflect.Problem, dofs []deflect.Index) (placed, string) {
	l, err := deflect.NewEqLayout(p)
	if err != nil {
		return placed{}, fmt.Sprintf("%v: %v", name, err)
	}
	at, msg := plainIndices(l, dofs)
	if msg != "" {
		return placed{}, name + ": " + msg
	}
	return placed{name, l, at, len(dofs), mat.NewVecDense(len(dofs), nil)}, ""
}

func (s *Spec) indicesOf(ei int) []deflect.Index {
	re := refElement(s, ei, true)
	out := make([]deflect.Index, len(re.gdofs))
	for i, g := range re.gdofs {
		out[i] = s.index(g.node, g.dof)
	}
	return out
}

func (s *Spec) allIndices() []deflect.Index {
	var out []deflect.Index
	seen := map[deflect.Index]bool{}
	for ei := range s.Elems {
		for _, i := range s.indicesOf(ei) {
			if !seen[i] {
				seen[i] = true
				out = append(out, i)
			}
		}
	}
	return out
}

// condensed eliminates released ends. The factors recover them: dr = rec * (local d, 1).
type condensed struct {
	refElem
	kg       [][]float64 // global, order of gdofs
	fg       []float64
	magK     []float64 // global diagonal without releases
	released []int
	rec      [][]float64
}

func condense(s *Spec, ei int) (c condensed, ok bool) {
	c.refElem = refElement(s, ei, false)
	n := len(c.t)
	isR := make([]bool, n)
	for _, h := range s.Elems[ei].Hinges {
		if p := localSlot(s.Elems[ei].Kind, h); p >= 0 && !isR[p] {
			isR[p] = true
			c.released = append(c.released, p)
		}
	}
	kl, fl := newMatrix(n, n), make([]float64, n)
	for p := range n {
		copy(kl[p], c.k[p])
		fl[p] = c.f[p]
	}
	nr := len(c.released)
	c.rec = newMatrix(nr, n+1)
	for col := 0; col <= n && nr > 0; col++ { // one right hand side after another
		a := newMatrix(nr, nr+1)
		for i, p := range c.released {
			for j, q := range c.released {
				a[i][j] = c.k[p][q]
			}
			switch {
			case col == n:
				a[i][nr] = c.f[p]
			case !isR[col]:
				a[i][nr] = -c.k[p][col]
			}
		}
		// rotations and translations have different units
		for i, p := range c.released {
			for j, q := range c.released {
				a[i][j] /= math.Sqrt(c.k[p][p] * c.k[q][q])
			}
			a[i][nr] /= math.Sqrt(c.k[p][p])
		}
		x, lo, hi := gaussFullPivot(a)
		if x == nil || lo < 1e-9*hi {
			return c, false
		}
		for i, p := range c.released {
			c.rec[i][col] = x[i] / math.Sqrt(c.k[p][p])
		}
	}
	for p := range n {
		for i, r := range c.released {
			for q := range n {
				kl[p][q] += c.k[p][r] * c.rec[i][q]
			}
			fl[p] -= c.k[p][r] * c.rec[i][n]
		}
	}
	for p := range n {
		for q := range n {
			if isR[p] || isR[q] {
				kl[p][q] = 0
			}
		}
		if isR[p] {
			fl[p] = 0
		}
	}
	m := len(c.gdofs)
	c.kg, c.fg, c.magK = newMatrix(m, m), make([]float64, m), make([]float64, m)
	for i := range m {
		for p := range n {
			c.fg[i] += c.t[p][i] * fl[p]
			for q := range n {
				c.magK[i] += c.t[p][i] * c.k[p][q] * c.t[q][i]
				for j := range m {
					c.kg[i][j] += c.t[p][i] * kl[p][q] * c.t[q][j]
				}
			}
		}
	}
	return c, true
}

// some is a fixed sequence of numbers in ±1 without any pattern.
func some(i int) float64 {
	v := math.Sin(float64(i)*12.9898+78.233) * 43758.5453
	return 2*(v-math.Floor(v)) - 1
}

func (c *condensed) checkAssemble(el deflect.Element, s *Spec, l placed, prior float64, d *mat.VecDense) string {
	kmax, force, moment := 0.0, 0.0, 0.0
	for _, k := range c.magK {
		kmax = math.Max(kmax, math.Abs(k))
	}
	for _, ld := range c.loads {
		f := 1.0
		if ld.Deg != "dirac" {
			f = c.l
		}
		if ld.Kind == Phiy {
			moment += math.Abs(ld.V0)
		} else {
			force += f * math.Max(math.Abs(ld.V0), math.Abs(ld.V1))
		}
	}
	force += moment / c.l
	moment += force * c.l
	n := l.n
	k, r := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil)
	k0, r0, d0 := newMatrix(n, n), make([]float64, n), make([]float64, n)
	for i := range n {
		for j := i; j < n; j++ {
			k0[i][j] = prior * kmax * some(i*n+j)
			k0[j][i] = k0[i][j]
			k.SetSym(i, j, k0[i][j])
		}
		r0[i] = prior * (force + 1) * some(i+5)
		r.SetVec(i, r0[i])
		d0[i] = d.AtVec(i)
	}
	el.Assemble(l.layout, k, r, d)
	slot := make([]int, n)
	for i := range slot {
		slot[i] = -1
	}
	for i, g := range c.gdofs {
		slot[l.at[s.index(g.node, g.dof)]] = i
	}
	for i := range n {
		if d.AtVec(i) != d0[i] {
			return "assembly changes primary values"
		}
		gi := slot[i]
		exp, tol := r0[i], 0.0
		if gi >= 0 {
			exp += c.fg[gi]
			tol = 1e-9*force + 1e-13*math.Abs(r0[i])
			if c.gdofs[gi].dof >= Phiy {
				tol = 1e-9*moment + 1e-13*math.Abs(r0[i])
			}
		}
		if v := r.AtVec(i); bad(v, exp, tol) {
			return fmt.Sprintf("assembly turns %v of the residual at %v into %v, expected %v", r0[i], c.where(s, l, i), v, exp)
		}
		for j := range n {
			gj := slot[j]
			exp, tol := k0[i][j], 0.0
			if gi >= 0 && gj >= 0 {
				exp += c.kg[gi][gj]
				tol = 1e-9*math.Sqrt(math.Abs(c.magK[gi]*c.magK[gj])) + 1e-14*kmax
			}
			if v := k.At(i, j); bad(v, exp, tol) {
				return fmt.Sprintf("assembly turns %v of the stiffness at %v, %v into %v, expected %v", k0[i][j], c.where(s, l, i), c.where(s, l, j), v, exp)
			}
		}
	}
	return ""
}

func (c *condensed) where(s *Spec, l placed, i int) string {
	for d, p := range l.at {
		if p == i {
			return fmt.Sprintf("%v/%v", d.NodalID, d.Dof)
		}
	}
	return fmt.Sprint(i)
}

// solution completes the reference for given nodal values of one element.
func (c *condensed) solution(s *Spec, ei int, dg []float64) *RefResult {
	re := c.refElem
	n := len(re.t)
	re.dl, re.end = make([]float64, n), make([]float64, n)
	for p := range n {
		for q := range dg {
			re.dl[p] += re.t[p][q] * dg[q]
		}
	}
	released := make([]float64, len(c.released))
	for i := range c.released {
		released[i] = c.rec[i][n]
		for q := range n {
			released[i] += c.rec[i][q] * re.dl[q]
		}
	}
	for i, p := range c.released {
		re.dl[p] = released[i]
	}
	for p := range n {
		re.end[p] = -re.f[p]
		for q := range n {
			re.end[p] += re.k[p][q] * re.dl[q]
		}
	}
	one := s.Clone()
	one.Elems = one.Elems[ei : ei+1]
	one.Dirichlet, one.Neumann, one.Links = nil, nil, nil
	r := &RefResult{s: one, elems: []refElem{re}, D: map[refKey]float64{}, ratio: 1}
	for i, g := range re.gdofs {
		r.D[g] = dg[i]
	}
	r.scales()
	return r
}

func (c *condensed) checkInterpolate(el deflect.Element, s *Spec, ei int, l placed, dg []float64) string {
	d := l.values
	for i := range l.n {
		d.SetVec(i, some(i+99)) // none of this element's business
	}
	for i, g := range c.gdofs {
		d.SetVec(l.at[s.index(g.node, g.dof)], dg[i])
	}
	before := append([]float64(nil), d.RawVector().Data...)
	ref := c.solution(s, ei, dg)
	var o Outcome
	for _, f := range allFcts {
		ps := el.Interpolate(l.layout, f, d)
		for i, v := range before {
			if d.AtVec(i) != v {
				return fmt.Sprintf("interpolation of %v changes primary values", f)
			}
		}
		known := false
		for _, k := range fctsOf(c.kind) {
			known = known || k == f
		}
		if !known {
			if len(ps) != 0 {
				return fmt.Sprintf("element interpolates %v: %v", f, ps)
			}
			continue
		}
		was := copyPoly(ps)
		for i := range ps { // the result is the caller's
			ps[i].X0, ps[i].XE = 3, 2
			for j := range ps[i].Coeff {
				ps[i].Coeff[j] = 12345
			}
		}
		if now := el.Interpolate(l.layout, f, d); !samePoly(was, now) {
			return fmt.Sprintf("%v is %v, but %v when asked for again", f, was, now)
		}
		o.Interp = append(o.Interp, deflect.Interpolation{Element: el.ID(), Quantity: f, Piecewise: was})
	}
	return CheckInterpolations(&o, ref)
}

// nodalStates are nodal values of an element that concern its parts separately.
func (c *condensed) nodalStates() (out [][]float64) {
	m := len(c.gdofs)
	generic, axial, bending, shift := make([]float64, m), make([]float64, m), make([]float64, m), make([]float64, m)
	for i, g := range c.gdofs {
		generic[i], shift[i] = c.l*some(i+30), c.l*some(int(g.dof)+60)
		if g.dof >= Phiy {
			generic[i], shift[i] = some(i+40), 0
		}
		for p := range c.t {
			switch {
			case len(c.t) == 2 || p%3 == 0:
				axial[i] += c.t[p][i] * 0.01 * c.l * some(p+50)
			case p%3 == 1:
				bending[i] += c.t[p][i] * 0.01 * c.l * some(p+50)
			default:
				bending[i] += c.t[p][i] * 0.01 * some(p+50)
			}
		}
	}
	return [][]float64{make([]float64, m), axial, bending, generic, shift}
}

func checkElement(el deflect.Element, s *Spec, ei int, c *condensed, l placed, states []int) string {
	e := &s.Elems[ei]
	own := s.indicesOf(ei)
	if el.NumNodes() != 2 || el.ID() != e.ID {
		return fmt.Sprintf("it has %v nodes and the id %v", el.NumNodes(), el.ID())
	}
	set := map[deflect.Index]struct{}{{NodalID: "elsewhere", Dof: Phix}: {}, own[1]: {}}
	el.Indices(set)
	if _, ok := set[deflect.Index{NodalID: "elsewhere", Dof: Phix}]; !ok || len(set) != len(own)+1 {
		return fmt.Sprintf("degrees of freedom become %v, expected to add %v", set, own)
	}
	for _, i := range own {
		if _, ok := set[i]; !ok {
			return fmt.Sprintf("degrees of freedom become %v, expected to add %v", set, own)
		}
	}
	d := mat.NewVecDense(l.n, nil)
	if msg := c.checkAssemble(el, s, l, 0, d); msg != "" {
		return msg
	}
	for i := range l.n {
		d.SetVec(i, some(i+17))
	}
	if msg := c.checkAssemble(el, s, l, 1, d); msg != "" {
		return "on top of others, " + msg
	}
	all := c.nodalStates()
	for _, i := range states {
		if msg := c.checkInterpolate(el, s, ei, l, all[i]); msg != "" {
			return fmt.Sprintf("nodal values %v: %v", i, msg)
		}
	}
	return ""
}

// CheckContracts looks at each element on its own, in layouts of different problems.
func CheckContracts(s *Spec, p *deflect.Problem) string {
	all := s.allIndices()
	whole, msg := place("layout of the problem", p, all)
	if msg != "" {
		return msg
	}
	free, msg := place("layout without supports", &deflect.Problem{Nodes: p.Nodes, Elements: p.Elements}, all)
	if msg != "" {
		return msg
	}
	for ei, el := range p.Elements {
		c, ok := condense(s, ei)
		if !ok {
			continue
		}
		own := s.indicesOf(ei)
		one, msg := place("layout of one element", &deflect.Problem{Elements: []deflect.Element{el}, Dirichlet: []deflect.NodalValue{{Index: own[len(own)-1]}}}, own)
		if msg != "" {
			return msg
		}
		for i, l := range []placed{one, whole, free, one} {
			if msg := checkElement(el, s, ei, &c, l, [][]int{{0, 1, 2, 3, 4}, {3}, {0}, {2}}[i]); msg != "" {
				return fmt.Sprintf("element %v, %v: %v", el.ID(), l.name, msg)
			}
		}
		// assembled for one layout, asked for functions with another
		for _, l := range [][2]placed{{one, whole}, {whole, one}} {
			el.Assemble(l[0].layout, mat.NewSymDense(l[0].n, nil), mat.NewVecDense(l[0].n, nil), mat.NewVecDense(l[0].n, nil))
			if msg := c.checkInterpolate(el, s, ei, l[1], c.nodalStates()[3]); msg != "" {
				return fmt.Sprintf("element %v, %v after assembly with %v: %v", el.ID(), l[1].name, l[0].name, msg)
			}
		}
		if msg := checkLoading(el, s, ei, one); msg != "" {
			return fmt.Sprintf("element %v: %v", el.ID(), msg)
		}
	}
	return ""
}

// checkLoading: loads that come and go between assemblies count from then on.
func checkLoading(el deflect.Element, s *Spec, ei int, l placed) string {
	half := s.Length(ei) / 2
	changes := []Load{{"linear", Ux, 3, -2, 0}, {"dirac", Ux, -1.5, 0, half}}
	if s.Elems[ei].Kind == "frame2d" {
		changes = append(changes, Load{"dirac", Uz, 2.5, 0, half / 3}, Load{"dirac", Phiy, -2, 0, half}, Load{"constant", Uz, 4, 0, 0})
	}
	var last deflect.NeumannElementBC
	for i, load := range changes {
		bc, err := load.deflect()
		if err != nil || !el.AddLoad(bc) {
			return fmt.Sprintf("load %+v refused (error %v)", load, err)
		}
		if last != nil {
			el.RemoveLoad(last)
		}
		last = bc
		now := s.Clone()
		now.Elems[ei].Loads = append(now.Elems[ei].Loads, load)
		c, ok := condense(now, ei)
		if !ok {
			break
		}
		if msg := checkElement(el, now, ei, &c, l, []int{3}); msg != "" {
			return fmt.Sprintf("load %v in place of the one before: %v", i, msg)
		}
	}
	el.RemoveLoad(last)
	return ""
}

// solveWith is a solver made of the public interfaces alone.
func solveWith(s *Spec, p *deflect.Problem) (o Outcome, failure string) {
	l, msg := place("layout of the problem", p, s.allIndices())
	if msg != "" {
		return o, msg
	}
	n := l.n
	k, r, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	fixed := map[int]bool{}
	for _, bc := range p.Dirichlet {
		fixed[l.at[bc.Index]] = true
		d.SetVec(l.at[bc.Index], bc.Value)
	}
	for i := len(p.Elements) - 1; i >= 0; i-- {
		p.Elements[i].Assemble(l.layout, k, r, d)
	}
	for _, bc := range p.Neumann {
		i := l.at[bc.Index]
		r.SetVec(i, r.AtVec(i)+bc.Value)
	}
	for _, t := range p.EqTransforms {
		t.Pre(l.layout, k, r, d)
	}
	var rows []int
	for i := range n {
		if !fixed[i] {
			rows = append(rows, i)
		}
	}
	a := newMatrix(len(rows), len(rows)+1)
	for i, gi := range rows {
		for j, gj := range rows {
			a[i][j] = k.At(gi, gj)
		}
		a[i][len(rows)] = r.AtVec(gi)
		for gj := range n {
			if fixed[gj] {
				a[i][len(rows)] -= k.At(gi, gj) * d.AtVec(gj)
			}
		}
	}
	x, _, _ := gaussFullPivot(a)
	if x == nil {
		return o, "assembled stiffness of a stable structure is singular"
	}
	for i, gi := range rows {
		d.SetVec(gi, x[i])
	}
	reac := mat.NewVecDense(n, nil)
	for i := range n {
		if fixed[i] {
			v := -r.AtVec(i)
			for j := range n {
				v += k.At(i, j) * d.AtVec(j)
			}
			reac.SetVec(i, v)
		}
	}
	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
		p.EqTransforms[i].Post(l.layout, reac, d)
	}
	o.D, o.R = map[deflect.Index]float64{}, map[deflect.Index]float64{}
	o.NPrim, o.NRe = n, n
	for idx, i := range l.at {
		o.D[idx], o.R[idx] = d.AtVec(i), reac.AtVec(i)
	}
	for _, el := range p.Elements {
		for _, f := range allFcts {
			if ps := el.Interpolate(l.layout, f, d); len(ps) > 0 {
				o.Interp = append(o.Interp, deflect.Interpolation{Element: el.ID(), Quantity: f, Piecewise: copyPoly(ps)})
			}
		}
	}
	return o, ""
}

// A user's own element and transformation that hand over to the ones of the library.
type ownElement struct {
	deflect.Element
	assembled int
}

func (e *ownElement) Assemble(l deflect.EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
	e.assembled++
	e.Element.Assemble(l, k, r, d)
}

type ownTransformer struct{ deflect.Transformer }

// solveWrapped runs the solver of the library on types it doesn't know.
func solveWrapped(p *deflect.Problem) (Outcome, string) {
	q := deflect.Problem{Nodes: p.Nodes, Neumann: p.Neumann, Dirichlet: p.Dirichlet}
	for _, e := range p.Elements {
		q.Elements = append(q.Elements, &ownElement{Element: e})
	}
	for _, t := range p.EqTransforms {
		q.EqTransforms = append(q.EqTransforms, ownTransformer{t})
	}
	o := Analyse(&q, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
	if o.Failed() {
		return o, o.Describe()
	}
	for _, e := range q.Elements {
		if n := e.(*ownElement).assembled; n == 0 {
			return o, fmt.Sprintf("element %v isn't assembled", e.ID())
		}
	}
	return o, ""
}

func evalContracts(s *Spec) Verdict {
	if !s.hingesSupported() {
		return Verdict{Class: "unsupported release", Trivial: true}
	}
	p, err := s.Build()
	if err != nil {
		return Verdict{Class: "not accepted", Trivial: true}
	}
	if _, err := deflect.NewEqLayout(p); err != nil {
		return Verdict{Class: "no layout", Trivial: true}
	}
	if msg := CheckContracts(s, p); msg != "" {
		return Verdict{Class: "elements", Msg: msg}
	}
	if s.allConstrained() {
		return Verdict{Class: "elements"}
	}
	ref, err := RefSolve(s)
	if err != nil {
		return Verdict{Class: "elements"}
	}
	for _, way := range []string{"with a solver of its own, ", "with elements of its own, "} {
		var o Outcome
		var msg string
		if way[:13] == "with a solver" {
			o, msg = solveWith(s, p)
		} else {
			o, msg = solveWrapped(p)
		}
		if msg == "" {
			msg = CheckNodal(&o, ref)
		}
		if msg == "" {
			msg = CheckInterpolations(&o, ref)
		}
		if msg != "" {
			return Verdict{Class: "elements and solution", Msg: way + msg}
		}
	}
	return Verdict{Class: "elements and solution"}
}

// checkLink: the transformation of an inclined support, on its own.
func checkLink(tr deflect.Transformer, l placed, from, to deflect.Index, angle float64, salt int) string {
	n := l.n
	k, r, d := mat.NewSymDense(n, nil), mat.NewVecDense(n, nil), mat.NewVecDense(n, nil)
	k0, v0 := newMatrix(n, n), [2][]float64{make([]float64, n), make([]float64, n)}
	t := newMatrix(n, n)
	for i := range n {
		for j := i; j < n; j++ {
			k0[i][j] = some(salt + i*n + j)
			k0[j][i] = k0[i][j]
			k.SetSym(i, j, k0[i][j])
		}
		v0[0][i], v0[1][i] = some(salt+i+1000), some(salt+i+2000)
		r.SetVec(i, v0[0][i])
		d.SetVec(i, v0[1][i])
		t[i][i] = 1
	}
	i, j := l.at[from], l.at[to]
	c, sn := math.Cos(angle), math.Sin(angle)
	t[i][i], t[i][j], t[j][i], t[j][j] = c, -sn, sn, c
	tr.Pre(l.layout, k, r, d)
	affected := func(p int) bool { return p == i || p == j }
	for p := range n {
		for q := range n {
			exp := 0.0
			for a := range n {
				if t[a][p] == 0 {
					continue
				}
				for b := range n {
					exp += t[a][p] * k0[a][b] * t[b][q]
				}
			}
			tol := 0.0
			if affected(p) || affected(q) {
				tol = 1e-12
			}
			if v := k.At(p, q); bad(v, exp, tol) {
				return fmt.Sprintf("stiffness %v, %v becomes %v instead of %v", p, q, v, exp)
			}
		}
	}
	vecs := func(when string, exp func(v []float64, p int) float64) string {
		for w, v := range []*mat.VecDense{r, d} {
			for p := range n {
				tol := 0.0
				if affected(p) {
					tol = 1e-12
				}
				if x := exp(v0[w], p); bad(v.AtVec(p), x, tol) {
					return fmt.Sprintf("%v, entry %v of vector %v becomes %v instead of %v", when, p, w, v.AtVec(p), x)
				}
			}
		}
		return ""
	}
	if msg := vecs("before", func(v []float64, p int) (x float64) {
		for a := range n {
			x += t[a][p] * v[a]
		}
		return x
	}); msg != "" {
		return msg
	}
	tr.Post(l.layout, r, d)
	if msg := vecs("there and back", func(v []float64, p int) float64 { return v[p] }); msg != "" {
		return msg
	}
	for p := range n {
		v0[0][p], v0[1][p] = some(salt+p+3000), some(salt+p+4000)
		r.SetVec(p, v0[0][p])
		d.SetVec(p, v0[1][p])
	}
	tr.Post(l.layout, r, d)
	return vecs("afterwards", func(v []float64, p int) (x float64) {
		for a := range n {
			x += t[p][a] * v[a]
		}
		return x
	})
}

// checkInterleaved: both layouts are transformed before the results of the first one are.
func checkInterleaved(tr deflect.Transformer, first, second placed, from, to deflect.Index, angle float64) string {
	ls := [2]placed{first, second}
	var r, d [2]*mat.VecDense
	for w, l := range ls {
		r[w], d[w] = mat.NewVecDense(l.n, nil), mat.NewVecDense(l.n, nil)
		for p := range l.n {
			r[w].SetVec(p, some(p+10*w))
			d[w].SetVec(p, some(p+10*w+500))
		}
		tr.Pre(l.layout, mat.NewSymDense(l.n, nil), r[w], d[w])
	}
	for w, l := range ls {
		tr.Post(l.layout, r[w], d[w])
		for p := range l.n {
			if bad(r[w].AtVec(p), some(p+10*w), 1e-12) || bad(d[w].AtVec(p), some(p+10*w+500), 1e-12) {
				return fmt.Sprintf("transformed with %v and %v, entry %v doesn't return to what it was in the %v one", first.name, second.name, p, []string{"first", "second"}[w])
			}
		}
	}
	return ""
}

// exploreLinks: inclined supports between any two degrees of freedom, used with layouts of different
// sizes one after another.
func exploreLinks(x *Space, tpls []Template, angles []float64) {
	for _, t := range tpls {
		s := t.Spec.Clone()
		p, err := s.Build()
		if err != nil {
			continue
		}
		all := s.allIndices()
		n := len(all)
		x.Each("inclined supports in "+t.Name, n*(n-1), func(c int) (string, map[string]any) {
			i, j := c/(n-1), c%(n-1)
			if j >= i {
				j++
			}
			from, to := all[i], all[j]
			whole, msg := place("layout of the problem", p, all)
			if msg != "" {
				return msg, nil
			}
			free, msg := place("layout without supports", &deflect.Problem{Elements: p.Elements}, all)
			if msg != "" {
				return msg, nil
			}
			layouts := []placed{whole, free}
			for ei := range p.Elements { // smaller ones, as far as they have both
				own := s.indicesOf(ei)
				if l, msg := place("layout of one element", &deflect.Problem{Elements: p.Elements[ei : ei+1]}, own); msg == "" {
					_, a := l.at[from]
					_, b := l.at[to]
					if a && b {
						layouts = append(layouts, l)
					}
				}
			}
			layouts = append(layouts, whole)
			for _, angle := range angles {
				tr, bc := deflect.NewInclinedSupport(from, to, angle)
				if bc != (deflect.NodalValue{Index: to}) {
					return fmt.Sprintf("inclined support prescribes %v", bc), nil
				}
				for li, l := range layouts {
					x.Count(1, 3, 1)
					if msg := checkLink(tr, l, from, to, angle, 10000*li); msg != "" {
						return fmt.Sprintf("inclined support from %v to %v at %v, %v (number %v): %v", from, to, angle, l.name, li, msg), nil
					}
					if li > 0 {
						if msg := checkInterleaved(tr, layouts[li-1], l, from, to, angle); msg != "" {
							return fmt.Sprintf("inclined support from %v to %v at %v: %v", from, to, angle, msg), nil
						}
					}
				}
			}
			return "", nil
		})
	}
}

func init() {
	checks["C21"] = func(r *Run) {
		modelSpace(r, everyTemplate(), menuOf(fullMenu()), r.depth(2e4, 2e6, 5), 1e4, evalContracts)
		if r.violations == 0 {
			first := r.Coverage
			r.Coverage = map[string]any{}
			x := NewSpace(r)
			angles := []float64{1.1, -0.4, 2.6}
			large := largeTemplates()
			large = large[:min(2, len(large))]
			if r.Quick() {
				exploreLinks(x, large, angles[:1])
			} else {
				exploreLinks(x, large, angles)
			}
			exploreLinks(x, allTemplates(), append(angles, fineValues.angles...))
			x.Finish()
			r.mergeCoverage(first)
		}
		r.Assume = []string{"elements and inclined supports are called through their exported interfaces, with layouts of NewEqLayout"}
	}
}
