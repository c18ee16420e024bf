package main

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// C08: histories of analyses on one solver. Whatever was solved before, successfully or not, an
// analysis yields what it yields on its own, and results obtained earlier stay what they are.

type solveScene struct {
	name string
	spec *Spec
}

func solverScenes() []solveScene {
	get := func(n string) *Spec { return findTemplate(n).Clone() }
	small := get("bar")
	small.Neumann = []BC{{1, Ux, 2}, {1, Ux, 3}}
	cant := get("cantilever")
	cant.Neumann = []BC{{1, Uz, 3}}
	cant.Elems[0].Loads = []Load{{"constant", Uz, 2, 0, 0}, {"dirac", Ux, 3, 0, 0.5}}
	knee := get("knee")
	knee.Dirichlet = []BC{{0, Ux, 0.01}, {0, Uz, -0.02}, {0, Phiy, 0.03}, {2, Uz, 0.04}}
	knee.Elems[1].Loads = []Load{{"linear", Uz, 2, -4, 0}}
	incl := get("portal")
	incl.Dirichlet = []BC{{0, Ux, 0}, {0, Uz, 0.01}, {0, Phiy, 0}}
	incl.Links = []Link{{3, Ux, Uz, 0.6}}
	incl.Neumann = []BC{{1, Ux, 6}, {2, Uz, -3}, {1, Ux, 1}, {3, Ux, 2}, {3, Ux, -1}, {0, Uz, 0}}
	incl.Elems[1].Loads = []Load{{"dirac", Phiy, 2, 0, 1}}
	guided := get("tetrahedron")
	guided.Dirichlet = cat(sup(0, Ux, Uy, Uz), sup(1, Uy, Uz))
	guided.Links = []Link{{2, Ux, Uz, -0.7}}
	guided.Neumann = []BC{{3, Uz, -4}, {3, Ux, 2}, {3, Uy, 3}, {0, Ux, 1}}
	mech := get("knee")
	mech.Dirichlet = sup(0, Ux, Uz)
	mech.Neumann = []BC{{1, Ux, 1}}
	noload := get("portal")
	return []solveScene{{"bar", small}, {"cantilever", cant}, {"knee", knee}, {"inclined", incl}, {"guided", guided}, {"mechanism", mech}, {"unloaded", noload}}
}

type failing struct{ garbage bool }

var errInjected = errors.New("injected failure")

func (f failing) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	if f.garbage {
		for i := 0; i < x.Len(); i++ {
			x.SetVec(i, 1e9+float64(i))
		}
	}
	return errInjected
}

// near compares two outcomes of analyses that ought to be identical.
func near(a, b *Outcome, rel float64) string { return nearWithin(a, b, rel, tols{}) }

// nearWithin also accepts differences below absolute tolerances.
func nearWithin(a, b *Outcome, rel float64, t tols) string {
	if a.Failed() != b.Failed() {
		return fmt.Sprintf("%v, but %v", a.Describe(), b.Describe())
	}
	if a.Failed() {
		if a.Panic != "" {
			return "panic: " + a.Panic
		}
		return ""
	}
	if !slices.Equal(a.Notes, b.Notes) {
		return fmt.Sprintf("observed %q, but %q", a.Notes, b.Notes)
	}
	if a.Total != b.Total || a.Net != b.Net || a.NPrim != b.NPrim || a.NRe != b.NRe {
		return fmt.Sprintf("dimensions %v/%v/%v/%v, but %v/%v/%v/%v", a.Total, a.Net, a.NPrim, a.NRe, b.Total, b.Net, b.NPrim, b.NRe)
	}
	cmp := func(what string, x, y map[deflect.Index]float64, floor func(Dof) float64) string {
		scale := 0.0
		for _, v := range y {
			scale = math.Max(scale, math.Abs(v))
		}
		if len(x) != len(y) {
			return fmt.Sprintf("%v %v, but %v", len(x), what, len(y))
		}
		for k, v := range y {
			w, ok := x[k]
			if !ok || bad(w, v, math.Max(rel*scale, floor(k.Dof))) {
				return fmt.Sprintf("%v %v/%v is %v, but %v", what, k.NodalID, k.Dof, w, v)
			}
		}
		return ""
	}
	if m := cmp("primary", a.D, b.D, t.prim); m != "" {
		return m
	}
	if m := cmp("reaction", a.R, b.R, t.force); m != "" {
		return m
	}
	return nearInterp(a.Interp, b.Interp, rel, t)
}

// nearInterp compares by function values, pieces may be split differently.
func nearInterp(x, y []deflect.Interpolation, rel float64, t tols) string {
	type key struct {
		e string
		f deflect.Fct
	}
	m := map[key]deflect.PolySequence{}
	for _, ip := range x {
		m[key{ip.Element, ip.Quantity}] = ip.Piecewise
	}
	if len(x) != len(y) || len(m) != len(x) {
		return fmt.Sprintf("%v interpolations, but %v", len(x), len(y))
	}
	scale := map[deflect.Fct]float64{}
	for _, ip := range y {
		for _, p := range ip.Piecewise {
			for i, c := range p.Coeff {
				scale[ip.Quantity] = math.Max(scale[ip.Quantity], math.Abs(c)*math.Pow(math.Max(1, p.XE), float64(i)))
			}
		}
	}
	for _, ip := range y {
		ps, ok := m[key{ip.Element, ip.Quantity}]
		if !ok {
			return fmt.Sprintf("no %v of %v", ip.Quantity, ip.Element)
		}
		for _, p := range ip.Piecewise {
			for _, f := range []float64{0.02, 0.5, 0.98} {
				at1 := p.X0 + f*(p.XE-p.X0)
				if v, w := at(ps, at1, 1), PolyAt(p.Coeff, at1); bad(v, w, math.Max(rel*scale[ip.Quantity], t.fct(ip.Quantity))) {
					return fmt.Sprintf("%v of %v at %v is %v, but %v", ip.Quantity, ip.Element, at1, v, w)
				}
			}
		}
	}
	return ""
}

type histOp struct {
	name  string
	scene int
	what  string // fresh, live, failing, garbage, layoutOf, query
	other int
}

type histEnv struct {
	scenes []solveScene
	alone  []Outcome
	ops    []histOp
}

// shallow copies everything of a problem that is plain data.
func shallow(p *deflect.Problem) *deflect.Problem {
	return &deflect.Problem{
		Nodes:        append([]deflect.Node(nil), p.Nodes...),
		Elements:     append([]deflect.Element(nil), p.Elements...),
		Neumann:      append([]deflect.NodalValue(nil), p.Neumann...),
		Dirichlet:    append([]deflect.NodalValue(nil), p.Dirichlet...),
		EqTransforms: append([]deflect.Transformer(nil), p.EqTransforms...),
	}
}

func sameShallow(p, q *deflect.Problem) string {
	switch {
	case !slices.Equal(p.Nodes, q.Nodes):
		return fmt.Sprintf("nodes %v, before %v", p.Nodes, q.Nodes)
	case !slices.Equal(p.Elements, q.Elements):
		return "elements"
	case !slices.Equal(p.Neumann, q.Neumann):
		return fmt.Sprintf("nodal loads %v, before %v", p.Neumann, q.Neumann)
	case !slices.Equal(p.Dirichlet, q.Dirichlet):
		return fmt.Sprintf("supports %v, before %v", p.Dirichlet, q.Dirichlet)
	case !slices.Equal(p.EqTransforms, q.EqTransforms):
		return "transformers"
	}
	return ""
}

func newHistEnv() *histEnv {
	h := &histEnv{scenes: solverScenes()}
	for _, sc := range h.scenes {
		h.alone = append(h.alone, sc.spec.Run())
	}
	for i, sc := range h.scenes {
		h.ops = append(h.ops, histOp{"solve " + sc.name, i, "live", 0})
	}
	for i, sc := range h.scenes {
		if i%2 == 0 || i == 3 {
			h.ops = append(h.ops, histOp{"solve new " + sc.name, i, "fresh", 0})
		}
	}
	h.ops = append(h.ops,
		histOp{"solve cantilever with second solver", 1, "second", 0},
		histOp{"solve inclined with second solver", 3, "second", 0},
		histOp{"fail on knee", 2, "failing", 0},
		histOp{"fail with garbage on inclined", 3, "garbage", 0},
		histOp{"knee with layout of bar", 2, "layoutOf", 0},
		histOp{"bar with layout of knee", 0, "layoutOf", 2},
		histOp{"inclined with layout of unloaded", 3, "layoutOf", 6},
		histOp{"query results", 0, "query", 0},
	)
	return h
}

// sameResult compares a result, in all ways to ask for it, to what it has to be.
func sameResult(res deflect.ProblemResult, want *Outcome, rel float64) string {
	var o, p Outcome
	guard(&o, func() { o.CollectSingly(res, want) })
	if m := near(&o, want, rel); m != "" {
		return "asked one by one: " + m
	}
	guard(&p, func() { p.Collect(res) })
	return near(&p, want, rel)
}

func (h *histEnv) run(seq []int) (msg string) {
	const rel = 1e-9
	n := len(h.scenes)
	live := make([]*deflect.Problem, n)
	layouts := make([]*deflect.EqLayout, n)
	problem := func(i int, fresh bool) (*deflect.Problem, deflect.EqLayout, string) {
		if fresh {
			p, err := h.scenes[i].spec.Build()
			if err != nil {
				return nil, deflect.EqLayout{}, err.Error()
			}
			before := shallow(p)
			l, err := deflect.NewEqLayout(p)
			if err != nil {
				return nil, l, err.Error()
			}
			if m := sameShallow(p, before); m != "" {
				return nil, l, "the layout modifies the problem: " + m
			}
			return p, l, ""
		}
		if live[i] == nil {
			p, err := h.scenes[i].spec.Build()
			if err != nil {
				return nil, deflect.EqLayout{}, err.Error()
			}
			before := shallow(p)
			l, err := deflect.NewEqLayout(p)
			if err != nil {
				return nil, l, err.Error()
			}
			if m := sameShallow(p, before); m != "" {
				return nil, l, "the layout modifies the problem: " + m
			}
			live[i], layouts[i] = p, &l
		}
		return live[i], *layouts[i], ""
	}
	type kept struct {
		scene int
		res   deflect.ProblemResult
	}
	var results []kept
	verify := func(when string) string {
		for _, k := range results {
			if m := sameResult(k.res, &h.alone[k.scene], rel); m != "" {
				return fmt.Sprintf("%v: result of %v: %v", when, h.scenes[k.scene].name, m)
			}
		}
		return ""
	}
	solvers := []deflect.ProblemSolver{deflect.NewLinearProblemSolver(), deflect.NewLinearProblemSolver()}
	for _, k := range seq {
		op := h.ops[k]
		var o Outcome
		guard(&o, func() {
			switch op.what {
			case "query":
				for _, k := range results {
					if _, err := k.res.Primary(deflect.Index{NodalID: "?", Dof: Ux}); err == nil {
						msg = "query of an unknown primary value succeeds"
					}
					if _, err := k.res.Interpolate("?", deflect.FctNx, 0); err == nil {
						msg = "query of an unknown element succeeds"
					}
				}
				if msg == "" {
					msg = verify("queried")
				}
				return
			}
			p, l, bad := problem(op.scene, op.what == "fresh")
			if bad != "" {
				msg = bad
				return
			}
			var strat deflect.EquationSolver = deflect.NewCholeskySolver()
			switch op.what {
			case "failing":
				strat = failing{}
			case "garbage":
				strat = failing{true}
			case "layoutOf":
				_, l, _ = problem(op.other, false)
			}
			solver := solvers[0]
			if op.what == "second" {
				solver = solvers[1]
			}
			before := shallow(p)
			res, err := solver.Solve(p, l, strat)
			if m := sameShallow(p, before); m != "" {
				msg = op.name + " modifies the problem: " + m
				return
			}
			switch {
			case op.what == "failing" || op.what == "garbage":
				if err == nil {
					msg = "a failing equation solver leads to a result"
				}
			case op.what == "layoutOf":
				if err == nil {
					msg = "a layout of another problem is accepted"
				}
			case h.alone[op.scene].Failed():
				if err == nil {
					msg = "solved, but not on its own: " + h.alone[op.scene].Describe()
				}
			case err != nil:
				msg = "not solved, but on its own: " + err.Error()
			default:
				results = append(results, kept{op.scene, res})
				var now Outcome
				if len(results)%2 == 0 {
					now.Collect(res)
				} else { // lists of results are left for later
					now.CollectSingly(res, &h.alone[op.scene])
				}
				if m := near(&now, &h.alone[op.scene], rel); m != "" {
					msg = "result of " + op.name + " differs: " + m
				}
			}
		})
		if o.Panic != "" {
			return "panic in " + op.name + ": " + o.Panic
		}
		if msg != "" {
			return msg
		}
	}
	return verify("at the end")
}

func init() {
	checks["C08"] = func(r *Run) {
		x := NewSpace(r)
		h := newHistEnv()
		for i, sc := range h.scenes {
			ref, err := RefSolve(sc.spec)
			switch {
			case err == nil && h.alone[i].Failed():
				r.Violation("not solved on a new solver: "+h.alone[i].Describe(), map[string]any{"spec": sc.spec})
			case err == nil:
				if m := CheckNodal(&h.alone[i], ref); m != "" {
					r.Violation(m, map[string]any{"spec": sc.spec})
				}
			case !h.alone[i].Failed():
				r.Violation("solved a mechanism", map[string]any{"spec": sc.spec})
			}
		}
		if r.violations > 0 {
			x.stop.Store(true)
		}
		depth := 4
		if !r.Quick() {
			depth = 6
		}
		judge := func(seq []int) (string, map[string]any) {
			msg := h.run(seq)
			if msg == "" && len(seq) != 3 {
				return "", nil
			}
			names := make([]string, len(seq))
			for i, k := range seq {
				names[i] = h.ops[k].name
			}
			if msg != "" {
				msg = fmt.Sprintf("after [%v]: %v", strings.Join(names, ", "), msg)
			}
			return msg, map[string]any{"operations": names}
		}
		x.sequences("solver histories", len(h.ops), 0, depth, judge)
		x.longSequences("solver histories", len(h.ops), depth-2, 36, judge)
		changingHistories(x, depth)
		r.Coverage["operations"] = fmt.Sprintf("%+v", h.ops)
		x.Finish()
	}
}
