package main

import (
	"fmt"
	"runtime/debug"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
)

// Outcome is everything a user can observe of one analysis, as plain data (deep copies).
type Outcome struct {
	Stage      string // "", "build", "layout", "solve": where an error was returned
	Err        error
	Panic      string
	D, R       map[deflect.Index]float64
	NPrim, NRe int
	Total, Net int
	Interp     []deflect.Interpolation
	Res        deflect.ProblemResult
	Notes      []string // further observations, compared literally
}

func (o *Outcome) Failed() bool { return o.Err != nil || o.Panic != "" }

func (o *Outcome) Describe() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Err != nil {
		return fmt.Sprintf("error in %v: %v", o.Stage, o.Err)
	}
	return "result"
}

func guard(o *Outcome, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			o.Panic = fmt.Sprintf("%v\n%v", r, st)
		}
	}()
	f()
}

const zeroTol = 0.0

// Analyse runs layout, solve and all result queries on a problem.
func Analyse(p *deflect.Problem, solver deflect.ProblemSolver, strat deflect.EquationSolver) (o Outcome) {
	guard(&o, func() {
		idx, err := deflect.NewEqLayout(p)
		if err != nil {
			o.Stage, o.Err = "layout", err
			return
		}
		res, err := solver.Solve(p, idx, strat)
		if err != nil {
			o.Stage, o.Err = "solve", err
			return
		}
		o.Collect(res)
	})
	return o
}

func CopyInterp(in []deflect.Interpolation) []deflect.Interpolation {
	out := make([]deflect.Interpolation, len(in))
	for i, ip := range in {
		out[i] = deflect.Interpolation{Element: ip.Element, Quantity: ip.Quantity, Piecewise: copyPoly(ip.Piecewise)}
	}
	return out
}

func copyPoly(ps deflect.PolySequence) deflect.PolySequence {
	out := make(deflect.PolySequence, len(ps))
	for j, p := range ps {
		out[j] = deflect.PolyPiece{X0: p.X0, XE: p.XE, Coeff: append([]float64(nil), p.Coeff...)}
	}
	return out
}

func (o *Outcome) Collect(res deflect.ProblemResult) {
	o.Res = res
	o.D, o.R = map[deflect.Index]float64{}, map[deflect.Index]float64{}
	prim, reac := res.PrimaryAll(), res.ReactionAll()
	o.NPrim, o.NRe = len(prim), len(reac)
	for _, v := range prim {
		o.D[v.Index] = v.Value
	}
	for _, v := range reac {
		o.R[v.Index] = v.Value
	}
	o.Total, o.Net = res.Dimension()
	o.Interp = CopyInterp(res.InterpolateAll(zeroTol))
}

// CollectSingly asks for the same as Collect, but one by one. The indices come from another outcome.
func (o *Outcome) CollectSingly(res deflect.ProblemResult, other *Outcome) {
	o.Res = res
	o.D, o.R = map[deflect.Index]float64{}, map[deflect.Index]float64{}
	o.NPrim, o.NRe = other.NPrim, other.NRe
	o.Total, o.Net = res.Dimension()
	collect := func(to map[deflect.Index]float64, indices map[deflect.Index]float64, query func(deflect.Index) (deflect.NodalValue, error)) {
		for i := range indices {
			v, err := query(i)
			if err != nil {
				o.Stage, o.Err = "query", err
			}
			to[v.Index] = v.Value
		}
	}
	collect(o.D, other.D, res.Primary)
	collect(o.R, other.R, res.Reaction)
	for _, w := range other.Interp {
		ip, err := res.Interpolate(w.Element, w.Quantity, zeroTol)
		if err != nil {
			o.Stage, o.Err = "query", err
		}
		o.Interp = append(o.Interp, CopyInterp([]deflect.Interpolation{ip})...)
	}
}

func (s *Spec) Run() Outcome {
	var o Outcome
	var p *deflect.Problem
	guard(&o, func() {
		var err error
		p, err = s.Build()
		if err != nil {
			o.Stage, o.Err = "build", err
		}
	})
	if o.Failed() {
		return o
	}
	return Analyse(p, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
}

func (s *Spec) RunJSON() Outcome {
	return RunJSONDoc([]byte(s.Render(s.Flags)))
}

// parseProblem and parseExpectations read a document from a buffer that is used for something else afterwards.
func parseProblem(doc string) (deflect.Problem, error) {
	buffer := []byte(doc)
	p, err := deflect.ProblemFromJSON(buffer)
	overwrite(buffer)
	return p, err
}

func parseExpectations(doc string) ([]integr.Expectation, error) {
	buffer := []byte(doc)
	e, err := integr.ExpectationsFromJSON(buffer)
	overwrite(buffer)
	return e, err
}

func overwrite(buffer []byte) {
	for i := range buffer {
		buffer[i] = '7'
	}
}

func RunJSONDoc(doc []byte) Outcome {
	var o Outcome
	var p deflect.Problem
	guard(&o, func() {
		var err error
		p, err = parseProblem(string(doc))
		if err != nil {
			o.Stage, o.Err = "build", err
		}
	})
	if o.Failed() {
		return o
	}
	return Analyse(&p, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
}
