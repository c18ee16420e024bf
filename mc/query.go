package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

// C15: layouts and queries of results.

var allDofs = []Dof{Ux, Uz, Uy, Phiy, Phiz, Phix}
var allFcts = []deflect.Fct{deflect.FctUnknown, deflect.FctUx, deflect.FctUz, deflect.FctUy, deflect.FctPhiy, deflect.FctPhiz, deflect.FctPhix,
	deflect.FctNx, deflect.FctVz, deflect.FctVy, deflect.FctMy, deflect.FctMz, deflect.FctMx, deflect.Fct(77)}

func samePoly(a, b deflect.PolySequence) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].X0 != b[i].X0 || a[i].XE != b[i].XE || len(a[i].Coeff) != len(b[i].Coeff) {
			return false
		}
		for j := range a[i].Coeff {
			if a[i].Coeff[j] != b[i].Coeff[j] {
				return false
			}
		}
	}
	return true
}

// CheckQueries asks a result everything there is to ask, twice, and mixes in questions that have no
// answer.
func CheckQueries(s *Spec, o *Outcome) string {
	conn := s.connected()
	supported := len(s.Dirichlet) + len(s.Links)
	if o.Total != len(conn) || o.Net != len(conn)-supported {
		return fmt.Sprintf("dimensions are %v/%v, the structure has %v degrees of freedom with %v supports", o.Total, o.Net, len(conn), supported)
	}
	if o.NPrim != len(conn) || o.NRe != len(conn) || len(o.D) != len(conn) || len(o.R) != len(conn) {
		return fmt.Sprintf("lists of %v/%v values (%v/%v distinct) for %v degrees of freedom", o.NPrim, o.NRe, len(o.D), len(o.R), len(conn))
	}
	type key struct {
		e string
		f deflect.Fct
	}
	fcts := map[key]deflect.PolySequence{}
	for _, ip := range o.Interp {
		if _, dup := fcts[key{ip.Element, ip.Quantity}]; dup {
			return fmt.Sprintf("%v of %v is listed twice", ip.Quantity, ip.Element)
		}
		fcts[key{ip.Element, ip.Quantity}] = ip.Piecewise
	}
	for pass := 0; pass < 2; pass++ {
		for n := range s.Nodes {
			for _, d := range allDofs {
				i := s.index(n, d)
				p, errP := o.Res.Primary(i)
				r, errR := o.Res.Reaction(i)
				if !conn[refKey{n, d}] {
					if errP == nil || errR == nil {
						return fmt.Sprintf("query of %v/%v, which isn't part of the structure, succeeds (%v, %v)", i.NodalID, d, p, r)
					}
					continue
				}
				if errP != nil || errR != nil {
					return fmt.Sprintf("query of %v/%v fails: %v, %v", i.NodalID, d, errP, errR)
				}
				if v, ok := o.D[i]; !ok || p.Index != i || p.Value != v {
					return fmt.Sprintf("primary value of %v/%v is %v, the list has %v", i.NodalID, d, p, v)
				}
				if v, ok := o.R[i]; !ok || r.Index != i || r.Value != v {
					return fmt.Sprintf("reaction of %v/%v is %v, the list has %v", i.NodalID, d, r, v)
				}
			}
		}
		for _, id := range []string{"", "?", s.Elems[0].ID} {
			if _, err := o.Res.Primary(deflect.Index{NodalID: id + "#", Dof: Ux}); err == nil {
				return "query of an unknown node succeeds"
			}
		}
		for e := range s.Elems {
			id := s.Elems[e].ID
			for _, f := range allFcts {
				want, listed := fcts[key{id, f}]
				got, err := o.Res.Interpolate(id, f, zeroTol)
				switch {
				case listed && err != nil:
					return fmt.Sprintf("%v of %v is listed, but its query fails: %v", f, id, err)
				case listed && (got.Element != id || got.Quantity != f || !samePoly(got.Piecewise, want)):
					return fmt.Sprintf("%v of %v is %v, the list has %v", f, id, got, want)
				case !listed && err == nil && len(got.Piecewise) > 0:
					return fmt.Sprintf("%v of %v is %v, but isn't listed", f, id, got)
				}
				for i := range got.Piecewise { // changes to what has been returned are local
					got.Piecewise[i].X0 = math.NaN()
					for j := range got.Piecewise[i].Coeff {
						got.Piecewise[i].Coeff[j] = math.NaN()
					}
				}
				if _, err := o.Res.Interpolate(id+"#", f, zeroTol); err == nil {
					return "query of an unknown element succeeds"
				}
			}
		}
		var again Outcome
		again.Collect(o.Res)
		if m := near(&again, o, 0); m != "" {
			return "lists change after queries: " + m
		}
		if len(again.Interp) != len(o.Interp) {
			return "list of functions changes after queries"
		}
		for _, ip := range again.Interp {
			if !samePoly(ip.Piecewise, fcts[key{ip.Element, ip.Quantity}]) {
				return fmt.Sprintf("%v of %v changes after queries", ip.Quantity, ip.Element)
			}
		}
	}
	return ""
}

// queryHistory executes a sequence of queries on one result and checks every answer.
func queryHistory(s *Spec, want *Outcome, seq []int) string {
	p, err := s.Build()
	if err != nil {
		return err.Error()
	}
	idx, err := deflect.NewEqLayout(p)
	if err != nil {
		return err.Error()
	}
	solver := deflect.NewLinearProblemSolver()
	res, err := solver.Solve(p, idx, deflect.NewCholeskySolver())
	if err != nil {
		return err.Error()
	}
	for _, k := range seq {
		if m := queryOps[k].do(s, want, res, solver, p); m != "" {
			return m
		}
	}
	var o Outcome
	o.Collect(res)
	if m := near(&o, want, 1e-12); m != "" {
		return "afterwards: " + m
	}
	return ""
}

type queryOp struct {
	name string
	do   func(s *Spec, want *Outcome, res deflect.ProblemResult, solver deflect.ProblemSolver, p *deflect.Problem) string
}

func scribble(ps deflect.PolySequence) {
	for i := range ps {
		ps[i].XE = -1
		for j := range ps[i].Coeff {
			ps[i].Coeff[j] = 1e9
		}
	}
}

var queryOps = []queryOp{
	{"unknown node", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		if _, err := res.Primary(deflect.Index{NodalID: "?", Dof: Ux}); err == nil {
			return "found a displacement of an unknown node"
		}
		return ""
	}},
	{"unknown reaction", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		if _, err := res.Reaction(s.index(0, Phix)); err == nil {
			return "found a reaction of an unknown degree of freedom"
		}
		return ""
	}},
	{"unknown element", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		if _, err := res.Interpolate("?", deflect.FctNx, 0); err == nil {
			return "found a function of an unknown element"
		}
		return ""
	}},
	{"absent function", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		if ip, err := res.Interpolate(s.Elems[0].ID, deflect.FctMz, 0); err == nil && len(ip.Piecewise) > 0 {
			return fmt.Sprintf("found a function the element doesn't have: %v", ip)
		}
		return ""
	}},
	{"primary and reaction", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		for k := range s.connected() {
			i := s.index(k.node, k.dof)
			p, err := res.Primary(i)
			if err != nil || bad(p.Value, want.D[i], 1e-12*math.Abs(want.D[i])) {
				return fmt.Sprintf("displacement %v/%v is %v (error %v), expected %v", i.NodalID, i.Dof, p, err, want.D[i])
			}
			r, err := res.Reaction(i)
			if err != nil || bad(r.Value, want.R[i], 1e-12*math.Abs(want.R[i])) {
				return fmt.Sprintf("reaction %v/%v is %v (error %v), expected %v", i.NodalID, i.Dof, r, err, want.R[i])
			}
		}
		return ""
	}},
	{"lists", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		p, r := res.PrimaryAll(), res.ReactionAll()
		if len(p) != len(want.D) || len(r) != len(want.R) {
			return fmt.Sprintf("lists of length %v and %v", len(p), len(r))
		}
		for i := range p {
			if bad(p[i].Value, want.D[p[i].Index], 1e-12*math.Abs(p[i].Value)) || bad(r[i].Value, want.R[r[i].Index], 1e-12*math.Abs(r[i].Value)) {
				return fmt.Sprintf("lists have %v and %v", p[i], r[i])
			}
		}
		return ""
	}},
	{"function, then overwrite it", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		for _, w := range want.Interp {
			ip, err := res.Interpolate(w.Element, w.Quantity, zeroTol)
			if err != nil {
				return err.Error()
			}
			if m := nearInterp([]deflect.Interpolation{ip}, []deflect.Interpolation{w}, 1e-12, tols{}); m != "" {
				return m
			}
			scribble(ip.Piecewise)
		}
		return ""
	}},
	{"all functions, then overwrite them", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		all := res.InterpolateAll(zeroTol)
		if m := nearInterp(all, want.Interp, 1e-12, tols{}); m != "" {
			return m
		}
		for _, ip := range all {
			scribble(ip.Piecewise)
		}
		return ""
	}},
	{"coarse functions", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		for _, ip := range res.InterpolateAll(1e6) {
			if len(ip.Piecewise) == 0 {
				return "function without pieces"
			}
		}
		return ""
	}},
	{"dimensions", func(s *Spec, want *Outcome, res deflect.ProblemResult, _ deflect.ProblemSolver, _ *deflect.Problem) string {
		if t, n := res.Dimension(); t != want.Total || n != want.Net {
			return fmt.Sprintf("dimensions %v/%v", t, n)
		}
		return ""
	}},
	{"analyse again", func(s *Spec, want *Outcome, res deflect.ProblemResult, solver deflect.ProblemSolver, p *deflect.Problem) string {
		idx, err := deflect.NewEqLayout(p)
		if err != nil {
			return err.Error()
		}
		other, err := solver.Solve(p, idx, deflect.NewCholeskySolver())
		if err != nil {
			return err.Error()
		}
		_, _ = other.Primary(deflect.Index{NodalID: "??", Dof: Uz})
		return ""
	}},
}

// supportSets adds all pairs of supports to a template, existing and impossible ones included.
func supportSets(x *Space, t Template) {
	s := t.Spec
	conn := s.connected()
	type cand struct {
		i  deflect.Index
		ok bool // part of the structure
	}
	var cands []cand
	for n := range s.Nodes {
		for _, d := range allDofs {
			cands = append(cands, cand{s.index(n, d), conn[refKey{n, d}]})
		}
	}
	cands = append(cands, cand{deflect.Index{NodalID: "?", Dof: Ux}, false}, cand{deflect.Index{NodalID: "", Dof: Uz}, false})
	// supports by value or as inclined support, and nodal loads
	kinds := 3
	k := len(cands) * kinds
	x.Each(t.Name+", additional supports and loads", k*k, func(c int) (string, map[string]any) {
		p, err := s.Build()
		if err != nil {
			return err.Error(), nil
		}
		have := map[deflect.Index]int{}
		for _, d := range p.Dirichlet {
			have[d.Index]++
		}
		layoutOK, solveOK := true, true
		what := ""
		for j, q := range []int{c % k, c / k} {
			if j == 1 && c%k == c/k {
				break // also covers single additions
			}
			cd, kind := cands[q/kinds], q%kinds
			what += fmt.Sprintf(" %v/%v as %v", cd.i.NodalID, cd.i.Dof, []string{"support", "inclined support", "load"}[kind])
			switch kind {
			case 0:
				p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: cd.i, Value: 0.01})
			case 1:
				from := Ux
				if cd.i.Dof == Ux {
					from = Uz
				}
				fi := deflect.Index{NodalID: cd.i.NodalID, Dof: from}
				tr, bc := deflect.NewInclinedSupport(fi, cd.i, 0.5)
				p.Dirichlet = append(p.Dirichlet, bc)
				p.EqTransforms = append(p.EqTransforms, tr)
				known := false
				for k := range conn {
					known = known || s.index(k.node, k.dof) == fi
				}
				solveOK = solveOK && known
			default:
				p.Neumann = append(p.Neumann, deflect.NodalValue{Index: cd.i, Value: 1})
				solveOK = solveOK && cd.ok
				continue
			}
			layoutOK = layoutOK && cd.ok
			have[cd.i]++
			if have[cd.i] > 1 {
				layoutOK = false
			}
		}
		x.Count(1, 2, 1)
		msg := ""
		var o Outcome
		guard(&o, func() {
			idx, err := deflect.NewEqLayout(p)
			if layoutOK != (err == nil) {
				msg = fmt.Sprintf("layout with%v: error %v, expected one: %v", what, err, !layoutOK)
				return
			}
			if err != nil {
				x.Class("refused")
				return
			}
			res, errSolve := deflect.NewLinearProblemSolver().Solve(p, idx, deflect.NewCholeskySolver())
			if !solveOK && errSolve == nil {
				msg = "analysed with" + what
				return
			}
			if errSolve == nil {
				if tot, net := res.Dimension(); tot != len(conn) || net != tot-len(p.Dirichlet) {
					msg = fmt.Sprintf("dimensions %v/%v with%v", tot, net, what)
				}
			}
			if !solveOK {
				x.Class("refused when solved")
			} else {
				x.Class("accepted")
			}
		})
		if o.Panic != "" {
			msg = "panic: " + o.Panic
		}
		return msg, nil
	})
}

func runQueries(r *Run) {
	if r.Replay == nil || r.Replay.Spec != nil {
		o := fullMenu()
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(5e4, 2e6, 4), 1.5e4, func(s *Spec) Verdict {
			if s.allConstrained() {
				return Verdict{Class: "nothing to solve", Trivial: true}
			}
			o := s.Run()
			if o.Failed() {
				return Verdict{Class: "not solved", Trivial: true}
			}
			return Verdict{Class: "queried", Msg: CheckQueries(s, &o)}
		})
	}
	if r.violations > 0 {
		return
	}
	first := r.Coverage
	r.Coverage = map[string]any{}
	x := NewSpace(r)
	depth := 4
	if !r.Quick() {
		depth = 5
	}
	scenes := solverScenes()
	for _, i := range []int{1, 3, 4} {
		sc := scenes[i]
		want := sc.spec.Run()
		if want.Failed() {
			x.Class("scene not solved")
			continue
		}
		judge := func(seq []int) (string, map[string]any) {
			msg := queryHistory(sc.spec, &want, seq)
			if msg == "" {
				return "", nil
			}
			names := make([]string, len(seq))
			for j, k := range seq {
				names[j] = queryOps[k].name
			}
			return fmt.Sprintf("%v, queries [%v]: %v", sc.name, strings.Join(names, ", "), msg), map[string]any{"queries": names}
		}
		x.sequences(sc.name+" queries", len(queryOps), 0, depth, judge)
		x.longSequences(sc.name+" queries", len(queryOps), depth-2, 40, judge)
	}
	for _, t := range allTemplates() {
		if strings.HasPrefix(t.Name, "rich") || r.Quick() && len(t.Spec.Nodes) > 4 {
			continue
		}
		supportSets(x, t)
	}
	x.Finish()
	r.mergeCoverage(first)
}

func init() { checks["C15"] = runQueries }
