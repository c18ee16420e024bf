package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"strconv"
	"time"

	"github.com/lubgr/deflect/deflect"
)

func runCheck(id, tier, root string) int {
	f, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check", id)
		return 2
	}
	r := NewRun(id, tier, root, 240*time.Second, 800*time.Second)
	f(r)
	return r.Finish()
}

type menuFn func(*Spec) []Edit

// modelSpace explores the standard space: all templates, edits up to the given depth.
func modelSpace(r *Run, tpls []Template, menu menuFn, depth func(t Template, n int) int, values float64, eval func(*Spec) Verdict) *Explorer {
	x := NewExplorer(r, eval)
	x.exploreAll(tpls, menu, depth)
	x.exploreValues(values, 20*values)
	return x
}

func (x *Explorer) exploreAll(tpls []Template, menu menuFn, depth func(t Template, n int) int) {
	r := x.Run
	if rp := r.Replay; rp != nil {
		if rp.Spec != nil {
			if v := x.eval(rp.Spec); v.Msg != "" {
				r.Violation(v.Msg, nil)
			}
		}
		return
	}
	maxD := 0
	menus := make([][]Edit, len(tpls))
	depths := make([]int, len(tpls))
	for i, t := range tpls {
		menus[i] = menu(t.Spec)
		depths[i] = depth(t, len(menus[i]))
		maxD = max(maxD, depths[i])
	}
	complete := true
	for d := 0; d <= maxD && complete; d++ { // iterate the bound over all templates
		for i, t := range tpls {
			if d > depths[i] {
				continue
			}
			if !x.Explore(t, menus[i], d, d) {
				complete = false
				break
			}
		}
	}
	bounds := map[string]any{}
	for i, t := range tpls {
		bounds[t.Name] = fmt.Sprintf("%v edits in menu, up to %v applied", len(menus[i]), depths[i])
	}
	r.fromExplorer(x, complete, bounds)
}

// depthFor returns the largest depth whose number of subsets stays below limit.
func depthFor(n int, limit float64, maxDepth int) int {
	total, c := 1.0, 1.0
	for d := 1; d <= maxDepth; d++ {
		c = c * float64(n+d-1) / float64(d)
		total += c
		if total > limit {
			return d - 1
		}
	}
	return maxDepth
}

func (r *Run) depth(quick, thorough float64, maxDepth int) func(t Template, n int) int {
	limit := quick
	if !r.Quick() {
		limit = thorough
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		limit *= f // for experiments
	}
	return func(t Template, n int) int {
		if len(t.Spec.Nodes) > 50 && limit < 1e6 {
			return 0
		}
		if len(t.Spec.Nodes) > 12 || t.Name == "crowded" && limit < 1e5 {
			return 1
		}
		return max(1, depthFor(n, limit, maxDepth))
	}
}

// exactOr classifies a state and calls cmp for those where the reference has a solution that the
// implementation must reproduce.
func exactOr(s *Spec, cmp func(o *Outcome, ref *RefResult) string) Verdict {
	if !s.hingesSupported() {
		return Verdict{Class: "unsupported release", Trivial: true}
	}
	if s.allConstrained() {
		return Verdict{Class: "nothing to solve", Trivial: true}
	}
	ref, err := RefSolve(s)
	if err != nil {
		if errors.Is(err, errSingular) {
			return Verdict{Class: "unstable", Trivial: true}
		}
		return Verdict{Class: err.Error(), Trivial: true}
	}
	o := s.Run()
	if o.Failed() {
		return Verdict{Class: "refused", Msg: "stable structure not solved: " + o.Describe()}
	}
	msg := cmp(&o, ref)
	return Verdict{Class: "compared", Msg: msg}
}

func menuOf(o MenuOpts) menuFn { return func(s *Spec) []Edit { return Menu(s, o) } }

const deg = math.Pi / 180

// CheckSupports: prescribed values are taken on, inclined supports don't move in their normal
// direction and don't push in their sliding direction, and nothing else carries a reaction.
func CheckSupports(s *Spec, o *Outcome, t tols) string {
	for _, d := range s.Dirichlet {
		if v, ok := o.D[s.index(d.Node, d.Dof)]; !ok || bad(v, d.Val, 1e-12*math.Abs(d.Val)) {
			return fmt.Sprintf("prescribed %v/%v = %v, but the result is %v", s.Nodes[d.Node].ID, d.Dof, d.Val, v)
		}
	}
	constrained := s.constrainedDofs()
	for k := range s.connected() {
		if v := o.R[s.index(k.node, k.dof)]; !constrained[k] && bad(v, 0, 0) {
			return fmt.Sprintf("reaction %v at unconstrained %v/%v", v, s.Nodes[k.node].ID, k.dof)
		}
	}
	perNode := map[int]int{}
	for _, l := range s.Links {
		perNode[l.Node]++
	}
	for _, l := range s.Links {
		if perNode[l.Node] > 1 {
			continue // a combination of rotations, covered by comparison with the reference
		}
		f, to := s.index(l.Node, l.From), s.index(l.Node, l.To)
		c, sn := math.Cos(l.Angle), math.Sin(l.Angle)
		if n := -sn*o.D[f] + c*o.D[to]; bad(n, 0, t.u) {
			return fmt.Sprintf("inclined support at %v moves by %v in its fixed direction", s.Nodes[l.Node].ID, n)
		}
		if q := c*o.R[f] + sn*o.R[to]; bad(q, 0, t.f) {
			return fmt.Sprintf("inclined support at %v has a reaction %v in its sliding direction", s.Nodes[l.Node].ID, q)
		}
	}
	return ""
}

// CheckReleases: the end force of a released degree of freedom vanishes.
func CheckReleases(s *Spec, o *Outcome, t tols) string {
	c := o.curves()
	for ei := range s.Elems {
		e := &s.Elems[ei]
		l := s.Length(ei)
		for _, h := range e.Hinges {
			f, tol := deflect.FctNx, t.f
			switch {
			case e.Kind != "frame2d" && h.Dof != Ux:
				continue
			case h.Dof == Uz:
				f = deflect.FctVz
			case h.Dof == Phiy:
				f, tol = deflect.FctMy, t.m
			}
			ps := c[e.ID][f]
			v := -startOf(ps) - sumDirac(e.Loads, h.Dof, 0)
			if h.End == 1 {
				v = endOf(ps) - sumDirac(e.Loads, h.Dof, l)
			}
			if bad(v, 0, tol) {
				return fmt.Sprintf("element %v transmits %v through its release of %v at end %v", e.ID, v, h.Dof, h.End)
			}
		}
	}
	return ""
}

func everyTemplate() []Template { return append(allTemplates(), largeTemplates()...) }

func init() {
	checks["C01"] = func(r *Run) {
		o := fullMenu()
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(3e5, 1.2e7, 5), 1e5, func(s *Spec) Verdict {
			return exactOr(s, CheckNodal)
		})
	}
	checks["C02"] = func(r *Run) {
		o := fullMenu()
		o.Relabel = false
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(3e5, 1.2e7, 5), 1e5, func(s *Spec) Verdict {
			return exactOr(s, func(o *Outcome, ref *RefResult) string { return CheckEquilibrium(s, o, ref.tol()) })
		})
	}
	checks["C03"] = func(r *Run) {
		o := fullMenu()
		o.Relabel = false
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(2e5, 1e7, 5), 1e5, func(s *Spec) Verdict {
			return exactOr(s, func(o *Outcome, ref *RefResult) string {
				if m := CheckInterpolations(o, ref); m != "" {
					return m
				}
				return CheckZeroTol(o)
			})
		})
	}
	checks["C04"] = func(r *Run) {
		o := MenuOpts{Supports: true, Prescribed: true, Links: true, ManyLinks: true, NodalLoads: true, Reverse: true, Rotate: true}
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(3e5, 1.2e7, 6), 1e5, func(s *Spec) Verdict {
			return exactOr(s, func(o *Outcome, ref *RefResult) string {
				if m := CheckSupports(s, o, ref.tol()); m != "" {
					return m
				}
				return CheckNodal(o, ref)
			})
		})
	}
	checks["C05"] = func(r *Run) {
		o := MenuOpts{Hinges: true, AllHinges: true, ElemLoads: true, NodalLoads: true, RichLoads: true, Reverse: true, Kinds: true, Rotate: true}
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(4e5, 1.2e7, 5), 1e5, evalReleases)
	}
	checks["C06"] = func(r *Run) {
		o := MenuOpts{Hinges: true, Supports: true, Links: true, Kinds: true, Mats: true, Rotate: true, NodalLoads: true, Scales: true, Extremes: true}
		modelSpace(r, everyTemplate(), menuOf(o), r.depth(4e5, 1.2e7, 6), 1e5, evalStability)
	}
}

func evalReleases(s *Spec) Verdict {
	supported := s.hingesSupported()
	if s.allConstrained() {
		return Verdict{Class: "nothing to solve", Trivial: true}
	}
	ref, err := RefSolve(s)
	o := s.Run()
	if o.Panic != "" {
		return Verdict{Class: "panic", Msg: o.Describe()}
	}
	switch {
	case !supported && o.Failed():
		return Verdict{Class: "unsupported release refused"}
	case errors.Is(err, errSingular) && !o.Failed():
		return Verdict{Class: "mechanism solved", Msg: "result for a structure that is unstable through its releases"}
	case errors.Is(err, errSingular):
		return Verdict{Class: "unstable, refused"}
	case err != nil:
		return Verdict{Class: err.Error(), Trivial: true}
	case o.Failed():
		return Verdict{Class: "refused", Msg: "stable structure with supported releases not solved: " + o.Describe()}
	}
	if m := CheckReleases(s, &o, ref.tol()); m != "" {
		return Verdict{Class: "compared", Msg: m}
	}
	if m := CheckNodal(&o, ref); m != "" {
		return Verdict{Class: "compared", Msg: m}
	}
	return Verdict{Class: "compared", Msg: CheckInterpolations(&o, ref)}
}

func evalStability(s *Spec) Verdict {
	if !s.hingesSupported() {
		return Verdict{Class: "unsupported release", Trivial: true}
	}
	o := s.Run()
	if o.Panic != "" {
		return Verdict{Class: "panic", Msg: o.Describe()}
	}
	if s.allConstrained() || len(s.Dirichlet)+len(s.Links) == 0 {
		if !o.Failed() {
			return Verdict{Class: "accepted", Msg: "result for a problem without free, or without constrained degrees of freedom"}
		}
		return Verdict{Class: "nothing to solve, refused"}
	}
	err := RefVerdict(s)
	switch {
	case errors.Is(err, errSingular) && !o.Failed():
		return Verdict{Class: "mechanism solved", Msg: fmt.Sprintf("result for a kinematically unstable structure: %v", o.D)}
	case errors.Is(err, errSingular):
		return Verdict{Class: "unstable, refused"}
	case err != nil:
		return Verdict{Class: err.Error(), Trivial: true}
	case o.Failed():
		return Verdict{Class: "refused", Msg: "stable structure not solved: " + o.Describe()}
	}
	for k, v := range o.D {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return Verdict{Class: "solved", Msg: fmt.Sprintf("stable structure with non-finite result %v = %v", k, v)}
		}
	}
	return Verdict{Class: "stable, solved"}
}
