package main

import (
	"errors"
	"fmt"
	"math"
	"slices"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// C19: the equation solver is the user's.

// environment is an equation solver whose behaviour the explorer chooses.
type environment struct {
	behaviour string
	n         int    // expected dimension
	calls     int    // how often it has been called
	complaint string // what is wrong with the system it has been given
	kept      *mat.VecDense
	keptB     *mat.VecDense
}

type customError struct{ code int }

func (c *customError) Error() string { return fmt.Sprintf("code %v", c.code) }

var behaviours = []string{
	"gauss", "arbitrary", "overwritten later", "erased at first", "in place",
	"error", "error once", "typed error", "error after garbage", "error after solution", "error after nan",
	"error: condition", "error: condition after solution", "error: shape", "error: joined",
}

// injected returns the error that the behaviour fails with. Some have types that equation solvers based on
// gonum return, they are failures like others.
func (e *environment) injected() error {
	switch e.behaviour {
	case "error: condition", "error: condition after solution":
		return mat.Condition(1e17)
	case "error: shape":
		return mat.ErrShape
	case "error: joined":
		return errors.Join(errors.New("first"), &customError{42})
	case "typed error":
		return &customError{42}
	}
	return errInjected
}

// found tells whether the original error can be retrieved from err.
func (e *environment) found(err error) bool {
	switch original := e.injected().(type) {
	case mat.Condition:
		var c mat.Condition
		return errors.As(err, &c) && c == original
	case mat.Error:
		return errors.Is(err, original)
	}
	if e.behaviour == "typed error" || e.behaviour == "error: joined" {
		var typed *customError
		return errors.As(err, &typed) && typed.code == 42
	}
	return errors.Is(err, errInjected)
}

func arbitraryValue(i int) float64 { return float64(i%7+1)*1e-3 + float64(i)*1.7e-2 }

func (e *environment) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	e.calls++
	r, c := a.Dims()
	n := a.SymmetricDim()
	if e.complaint == "" && (r != n || c != n || n != e.n || b.Len() != n || x.Len() != n) {
		e.complaint = fmt.Sprintf("%vx%v system (%v) with right-hand side of %v and result of %v values, %v unsupported degrees of freedom", r, c, n, b.Len(), x.Len(), e.n)
	}
	for i := 0; i < n && e.complaint == ""; i++ {
		for j := 0; j < n; j++ {
			if v, w := a.At(i, j), a.At(j, i); v != w || math.IsNaN(v) || math.IsInf(v, 0) {
				e.complaint = fmt.Sprintf("entries %v/%v of the system are %v and %v", i, j, v, w)
			}
		}
		if v := b.AtVec(i); math.IsNaN(v) || math.IsInf(v, 0) {
			e.complaint = fmt.Sprintf("right-hand side has %v", v)
		}
	}
	switch e.behaviour {
	case "error", "typed error", "error: condition", "error: shape", "error: joined":
		return e.injected()
	case "error after garbage":
		return failing{true}.SolveLinearSystem(a, b, x)
	case "error after nan":
		for i := 0; i < x.Len(); i++ {
			x.SetVec(i, math.NaN())
		}
		return errInjected
	case "arbitrary":
		for i := 0; i < x.Len(); i++ {
			x.SetVec(i, arbitraryValue(i))
		}
		return nil
	}
	if e.behaviour == "error once" && e.calls == 1 {
		return errInjected
	}
	if e.behaviour == "erased at first" {
		for i := 0; i < x.Len(); i++ {
			x.SetVec(i, math.NaN())
		}
	}
	// Gauss-Jordan without pivoting: the matrix is positive definite. Scaled to a unit diagonal.
	m, scale := make([][]float64, n), make([]float64, n)
	for i := range m {
		scale[i] = math.Sqrt(a.At(i, i))
	}
	for i := range m {
		m[i] = make([]float64, n+1)
		for j := 0; j < n; j++ {
			m[i][j] = a.At(i, j) / scale[i] / scale[j]
		}
		m[i][n] = b.AtVec(i) / scale[i]
	}
	for p := 0; p < n; p++ {
		if !(m[p][p] > 0) {
			e.complaint = "the matrix isn't positive definite"
			return errInjected
		}
		for i := 0; i < n; i++ {
			f := m[i][p] / m[p][p]
			if i == p || f == 0 {
				continue
			}
			for j := p; j <= n; j++ {
				m[i][j] -= f * m[p][j]
			}
		}
	}
	for i := 0; i < n; i++ {
		x.SetVec(i, m[i][n]/m[i][i]/scale[i])
	}
	e.kept, e.keptB = x, b
	if e.behaviour == "in place" {
		b.CopyVec(x) // as algorithms do that overwrite the right-hand side with the solution
	}
	if e.behaviour == "error after solution" || e.behaviour == "error: condition after solution" {
		return e.injected()
	}
	return nil
}

func (e *environment) fails() bool {
	return len(e.behaviour) > 4 && (e.behaviour[:5] == "error" || e.behaviour[:5] == "typed")
}

func evalStrategy(s *Spec) Verdict {
	if !s.hingesSupported() || s.allConstrained() {
		return Verdict{Class: "nothing to solve", Trivial: true}
	}
	ref, err := RefSolve(s)
	if err != nil {
		return Verdict{Class: "not stable", Trivial: true}
	}
	t := ref.tol()
	t.add(t) // either one may deviate from the exact solution
	base := s.Run()
	v := Verdict{Class: "compared"}
	if base.Failed() {
		v.Msg = "stable structure not solved: " + base.Describe()
		return v
	}
	net := len(s.connected()) - len(s.Dirichlet) - len(s.Links)
	solver := deflect.NewLinearProblemSolver()
	for _, b := range behaviours {
		if m := useStrategy(s, b, net, solver, &base, t, true); m != "" {
			v.Msg = b + ": " + m
			return v
		}
	}
	return v
}

func useStrategy(s *Spec, behaviour string, net int, solver deflect.ProblemSolver, base *Outcome, t tols, retry bool) string {
	env := &environment{behaviour: behaviour, n: net}
	p, err := s.Build()
	if err != nil {
		return err.Error()
	}
	idx, err := deflect.NewEqLayout(p)
	if err != nil {
		return err.Error()
	}
	res, err := solver.Solve(p, idx, env)
	if env.calls == 0 {
		return "not called"
	}
	if env.complaint != "" {
		return env.complaint
	}
	if env.fails() {
		if err == nil || res != nil {
			return fmt.Sprintf("failed, but the analysis didn't (%v)", res)
		}
		if !env.found(err) {
			return fmt.Sprintf("original error can't be found in %q", err)
		}
		if !retry {
			return ""
		}
		p, err := s.Build()
		if err != nil {
			return err.Error()
		}
		again := Analyse(p, solver, &environment{behaviour: "gauss", n: net})
		if m := nearWithin(&again, base, 1e-9, t); m != "" {
			return "tried again: " + m
		}
		return ""
	}
	if err != nil {
		return err.Error()
	}
	var o Outcome
	if behaviour == "overwritten later" {
		for i := 0; i < env.kept.Len(); i++ {
			env.kept.SetVec(i, math.NaN())
			env.keptB.SetVec(i, 1e9)
		}
	}
	o.Collect(res)
	if behaviour != "arbitrary" {
		return nearWithin(&o, base, 1e-9, t)
	}
	// whatever has been computed is taken over
	var want, got []float64
	for i := 0; i < net; i++ {
		want = append(want, arbitraryValue(i))
	}
	constrained := s.constrainedDofs()
	for k := range s.connected() {
		if !constrained[k] {
			got = append(got, o.D[s.index(k.node, k.dof)])
		}
	}
	if len(s.Links) > 0 {
		for _, g := range got {
			if !slices.Contains(want, g) {
				return fmt.Sprintf("computed displacements %v, but the result has %v", want, g)
			}
		}
		return ""
	}
	slices.Sort(want)
	slices.Sort(got)
	if !slices.Equal(want, got) {
		return fmt.Sprintf("computed displacements %v, but the result has %v", want, got)
	}
	for _, d := range s.Dirichlet {
		if g := o.D[s.index(d.Node, d.Dof)]; g != d.Val {
			return fmt.Sprintf("prescribed %v, but the result has %v", d.Val, g)
		}
	}
	return ""
}

func init() {
	checks["C19"] = func(r *Run) {
		o := fullMenu()
		if r.Replay == nil || r.Replay.Spec != nil {
			modelSpace(r, allTemplates(), menuOf(o), r.depth(5e4, 2e6, 4), 1.5e4, evalStrategy)
		}
		if r.violations > 0 {
			return
		}
		first := r.Coverage
		r.Coverage = map[string]any{}
		strategyHistories(r)
		r.mergeCoverage(first)
		r.Coverage["behaviours"] = behaviours
	}
}

// strategyHistories: one problem solver that works with many equation solvers, one after another.
func strategyHistories(r *Run) {
	x := NewSpace(r)
	type scene struct {
		solveScene
		base Outcome
		t    tols
		net  int
	}
	var scenes []scene
	for _, sc := range solverScenes() {
		ref, err := RefSolve(sc.spec)
		if err != nil || sc.name == "unloaded" {
			continue
		}
		t := ref.tol()
		t.add(t)
		one := scene{sc, sc.spec.Run(), t, len(sc.spec.connected()) - len(sc.spec.Dirichlet) - len(sc.spec.Links)}
		if one.base.Failed() {
			r.Violation("stable structure not solved: "+one.base.Describe(), map[string]any{"spec": sc.spec})
			return
		}
		scenes = append(scenes, one)
	}
	judge := func(turn bool) func([]int) (string, map[string]any) {
		return func(seq []int) (string, map[string]any) {
			solver := deflect.NewLinearProblemSolver()
			for i, k := range seq {
				sc := &scenes[seq[0]%len(scenes)]
				if turn {
					sc = &scenes[(seq[0]+i)%len(scenes)]
				}
				if m := useStrategy(sc.spec, behaviours[k], sc.net, solver, &sc.base, sc.t, false); m != "" {
					var names []string
					for _, k := range seq[:i+1] {
						names = append(names, behaviours[k])
					}
					return fmt.Sprintf("%v, equation solvers %q: %v", sc.name, names, m), map[string]any{"structure": sc.name, "equation solvers": names}
				}
			}
			return "", nil
		}
	}
	depth := 4
	if !r.Quick() {
		depth = 5
	}
	for _, turn := range []bool{false, true} {
		name := map[bool]string{false: "equation solvers on one structure", true: "equation solvers, structures in turn"}[turn]
		x.sequences(name, len(behaviours), 2, depth, judge(turn))
		x.longSequences(name, len(behaviours), depth-2, 40, judge(turn))
	}
	x.Finish()
}
