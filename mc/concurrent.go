package main

import (
	"fmt"
	"os"
	"runtime"
	"time"

	"github.com/lubgr/deflect/deflect"
)

// C14: analyses that share nothing don't influence each other, whatever the interleaving. Two
// complete analyses run as cooperative threads of the instrumented library, which hands control to
// the scheduler before every statement. Schedules are enumerated by their preemptions.

type threads struct {
	cur    int
	total  int
	plan   []int // numbers of steps after which the running thread is preempted
	next   int
	done   [2]bool
	wake   [2]chan struct{}
	fin    chan struct{}
	steps  [2]int
	offset [2][]int
}

func (s *threads) step(int32) {
	s.steps[s.cur]++
	s.total++
	if s.next < len(s.plan) && s.total == s.plan[s.next] {
		s.next++
		me, other := s.cur, 1-s.cur
		if !s.done[other] {
			s.cur = other
			s.wake[other] <- struct{}{}
			<-s.wake[me]
		}
	}
}

// runThreads executes two bodies under a plan, starting with thread start. ok is false if the
// threads got stuck.
func runThreads(bodies [2]func(), start int, plan []int) (total int, steps [2]int, ok bool) {
	s := &threads{plan: plan, cur: start, fin: make(chan struct{})}
	resetLocks()
	for i := range bodies {
		s.wake[i] = make(chan struct{})
		go func() {
			<-s.wake[i]
			bodies[i]()
			s.done[i] = true
			if other := 1 - i; !s.done[other] {
				s.cur = other
				s.wake[other] <- struct{}{}
			} else {
				close(s.fin)
			}
		}()
	}
	setStepHook(s.step)
	s.wake[start] <- struct{}{}
	timer := time.NewTimer(20 * time.Second)
	defer timer.Stop()
	select {
	case <-s.fin:
		setStepHook(nil)
		return s.total, s.steps, true
	case <-timer.C:
		return s.total, s.steps, false
	}
}

type concScene struct {
	name string
	make func() (a, b func() Outcome) // with fresh objects that both share
	x, y Outcome
}

func concScenes() []concScene {
	viaJSON := func(s *Spec) func() Outcome { d := []byte(s.JSON()); return func() Outcome { return RunJSONDoc(d) } }
	direct := func(s *Spec) func() Outcome { return func() Outcome { return s.Run() } }
	sc := solverScenes()
	byName := map[string]*Spec{}
	for _, s := range sc {
		byName[s.name] = s.spec
	}
	tiny := &Spec{Nodes: nodesOf(0, 0, 2, 0), Elems: []Elem{el("truss2d", 0, 1)}, Dirichlet: cat(sup(0, Ux, Uz), sup(1, Uz))}
	tiny.Elems[0].Loads = []Load{{"dirac", Ux, 3, 0, 0.5}}
	tiny2 := tiny.Clone()
	tiny2.Nodes[1].X = 5
	tiny2.Elems[0].Loads[0].V0 = -7
	tinyIncl := tiny.Clone()
	tinyIncl.Dirichlet = tinyIncl.Dirichlet[:2]
	tinyIncl.Links = []Link{{1, Ux, Uz, 0.4}}
	tinyIncl.Neumann = []BC{{1, Uz, 2}}
	tinyIncl2 := tinyIncl.Clone()
	tinyIncl2.Links[0].Angle = -0.9
	tinyIncl2.Neumann[0].Val = -5
	beam := byName["cantilever"]
	beam2 := beam.Clone()
	beam2.Nodes[1].X = 3
	beam2.Elems[0].Loads = []Load{{"linear", Uz, 4, -1, 0}, {"dirac", Phiy, 2, 0, 1}}
	hinged := byName["knee"].Clone()
	hinged.Elems[0].Hinges = []Hinge{{1, Phiy}}
	hinged.Dirichlet = append(hinged.Dirichlet, BC{2, Phiy, 0}, BC{2, Ux, 0})
	incl2 := byName["inclined"].Clone()
	incl2.Links[0].Angle = 1.1
	bad := tiny.Clone()
	bad.Elems[0].Kind = "truss4d"
	// two problems made from the same immutable parts: material, cross section and load objects
	shared := func(rectangle bool) func() (func() Outcome, func() Outcome) {
		return func() (func() Outcome, func() Outcome) {
			mat := Mat{E: 3e7, B: 0.2, H: 0.3}
			if !rectangle {
				mat = matB
			}
			m := mat.deflect()
			load, line := deflect.NewElementConstantLoad(Uz, 3), deflect.NewElementLinearLoad(Uz, 3, -1)
			point, err := deflect.NewElementConcentratedLoad(Uz, 0.5, 2)
			if err != nil {
				panic(err)
			}
			mk := func(l float64) func() Outcome {
				return func() Outcome {
					nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: l}}
					e, err := deflect.NewFrame2d("AB", &nodes[0], &nodes[1], m, map[deflect.Index]struct{}{})
					if err != nil {
						return Outcome{Err: err}
					}
					e.AddLoad(load)
					e.AddLoad(point)
					e.AddLoad(line)
					p := &deflect.Problem{Nodes: nodes, Elements: []deflect.Element{e}}
					for _, d := range []Dof{Ux, Uz, Phiy} {
						p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: "A", Dof: d}})
					}
					return Analyse(p, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
				}
			}
			return mk(2), mk(3.5)
		}
	}
	sharedTruss := func() (func() Outcome, func() Outcome) {
		m := Mat{E: 2e8, B: 0.1, H: 0.1}.deflect()
		mk := func(load float64) func() Outcome {
			return func() Outcome {
				nodes := []deflect.Node{{ID: "A"}, {ID: "B", X: 2}, {ID: "C", Y: 2}, {ID: "D", X: 0.5, Y: 0.5, Z: 2}}
				p := &deflect.Problem{Nodes: nodes}
				for i, id := range []string{"AD", "BD", "CD"} {
					e, err := deflect.NewTruss3d(id, &nodes[i], &nodes[3], m, nil)
					if err != nil {
						return Outcome{Err: err}
					}
					p.Elements = append(p.Elements, e)
					for _, d := range []Dof{Ux, Uy, Uz} {
						p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: deflect.Index{NodalID: nodes[i].ID, Dof: d}})
					}
				}
				p.Neumann = []deflect.NodalValue{{Index: deflect.Index{NodalID: "D", Dof: Ux}, Value: load}}
				return Analyse(p, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
			}
		}
		return mk(5), mk(-7)
	}
	pair := func(a, b func() Outcome) func() (func() Outcome, func() Outcome) {
		return func() (func() Outcome, func() Outcome) { return a, b }
	}
	return []concScene{
		{name: "two bars", make: pair(direct(tiny), direct(tiny2))},
		{name: "two inclined bars", make: pair(direct(tinyIncl), direct(tinyIncl2))},
		{name: "two beams", make: pair(direct(beam), direct(beam2))},
		{name: "bar and beam from JSON", make: pair(viaJSON(tiny), viaJSON(beam))},
		{name: "inclined bars from JSON", make: pair(viaJSON(tinyIncl), viaJSON(tinyIncl2))},
		{name: "all operations on two bars", make: pair(busy(tinyIncl, false, Load{"dirac", Ux, 2, 0, 1}), busy(tinyIncl2, false, Load{"constant", Ux, 2, 0, 0}))},
		{name: "all operations on two beams", make: pair(busy(beam, false, Load{"dirac", Uz, 2, 0, 1}), busy(beam2, true, Load{"constant", Uz, 2, 0, 0}))},
		{name: "all operations on hinged knee and space truss", make: pair(busy(hinged, true, Load{"linear", Uz, 2, -3, 1}), busy(byName["guided"], true, Load{"constant", Ux, 2, 0, 0}))},
		{name: "shared material and loads, rectangle", make: shared(true)},
		{name: "shared material and loads, constants", make: shared(false)},
		{name: "shared space truss material", make: sharedTruss},
		{name: "portals with inclined supports from JSON", make: pair(viaJSON(byName["inclined"]), viaJSON(incl2))},
		{name: "knee and hinged knee from JSON", make: pair(viaJSON(byName["knee"]), viaJSON(hinged))},
		{name: "space truss and portal from JSON", make: pair(viaJSON(byName["guided"]), viaJSON(byName["inclined"]))},
		{name: "faulty document and beam from JSON", make: pair(viaJSON(bad), viaJSON(beam))},
		{name: "mechanism and knee from JSON", make: pair(viaJSON(byName["mechanism"]), viaJSON(byName["knee"]))},
	}
}

// busy is an analysis that uses everything a result and an element offer, failures included.
func busy(s *Spec, fromJSON bool, extra Load) func() Outcome {
	doc := []byte(s.JSON())
	return func() (o Outcome) {
		var p *deflect.Problem
		var err error
		if fromJSON {
			var q deflect.Problem
			q, err = deflect.ProblemFromJSON(doc)
			p = &q
		} else {
			p, err = s.Build()
		}
		if err != nil {
			return Outcome{Stage: "build", Err: err}
		}
		layout, err := deflect.NewEqLayout(p)
		if err != nil {
			return Outcome{Stage: "layout", Err: err}
		}
		note := func(f string, args ...any) { o.Notes = append(o.Notes, fmt.Sprintf(f, args...)) }
		solver := deflect.NewLinearProblemSolver()
		_, err = solver.Solve(p, layout, failing{})
		note("failing solver: %v", err)
		res, err := solver.Solve(p, layout, deflect.NewCholeskySolver())
		if err != nil {
			return Outcome{Stage: "solve", Err: err}
		}
		first := p.Elements[0] // documents don't define an order
		for _, e := range p.Elements {
			if e.ID() < first.ID() {
				first = e
			}
		}
		for _, bad := range []deflect.Index{{NodalID: "nowhere", Dof: Ux}, {NodalID: s.Nodes[0].ID, Dof: Phix}} {
			_, err := res.Primary(bad)
			note("primary %v: %v", bad, err)
			_, err = res.Reaction(bad)
			note("reaction %v: %v", bad, err)
		}
		_, err = res.Interpolate("nothing", deflect.FctNx, 0)
		note("interpolate: %v", err)
		o.Collect(res)
		for i := range o.Interp {
			o.Interp[i].Element += " again"
		}
		for _, ip := range res.InterpolateAll(1e-6) {
			ip.Element += " trimmed"
			o.Interp = append(o.Interp, CopyInterp([]deflect.Interpolation{ip})...)
		}
		for _, f := range allFcts {
			ip, err := res.Interpolate(first.ID(), f, 1e-6)
			note("%v: %v pieces, %v", f, len(ip.Piecewise), err)
		}
		bc, err := extra.deflect()
		if err != nil {
			return Outcome{Stage: "load", Err: err}
		}
		note("load accepted: %v", first.AddLoad(bc))
		with := Analyse(p, solver, deflect.NewCholeskySolver())
		first.RemoveLoad(bc)
		without := Analyse(p, solver, deflect.NewCholeskySolver())
		for i, more := range []*Outcome{&with, &without} {
			name := []string{" with", " without"}[i]
			if more.Failed() {
				note("%v: %v", name, more.Describe())
			}
			for k, v := range more.D {
				k.NodalID += name
				o.D[k] = v
			}
			for k, v := range more.R {
				k.NodalID += name
				o.R[k] = v
			}
		}
		return o
	}
}

// alone sets the outcomes of both analyses without any other.
func (sc *concScene) alone() {
	a, b := sc.make()
	sc.x, sc.y = a(), b()
}

func (sc *concScene) run(start int, plan []int) (total int, steps [2]int, msg string, ok bool) {
	var oa, ob Outcome
	resetPackage()
	a, b := sc.make()
	total, steps, ok = runThreads([2]func(){
		func() { guard(&oa, func() { oa = a() }) },
		func() { guard(&ob, func() { ob = b() }) },
	}, start, plan)
	if !ok {
		return total, steps, "", false
	}
	if m := near(&oa, &sc.x, 1e-9); m != "" {
		msg = "first analysis: " + m
	} else if m := near(&ob, &sc.y, 1e-9); m != "" {
		msg = "second analysis: " + m
	}
	return total, steps, msg, true
}

func concWorker(r *Run, x *Space) {
	runtime.GOMAXPROCS(1)
	scenes := concScenes()
	info := map[string]any{}
	type dims struct{ n [2]int }
	ds := make([]dims, len(scenes))
	for i := range scenes {
		scenes[i].alone()
		_, steps, _, ok := scenes[i].run(0, nil)
		if !ok {
			x.Complete = false
			return
		}
		ds[i].n = steps
		info[scenes[i].name] = fmt.Sprintf("%v and %v scheduling points", steps[0], steps[1])
	}
	r.Coverage["scheduling_points"] = info
	stuck := 0
	one := func(i, start int, plan []int) (string, map[string]any) {
		total, _, msg, ok := scenes[i].run(start, plan)
		x.Count(1, int64(total), 1)
		if !ok {
			x.Complete = false
			x.Class("stuck")
			if stuck++; stuck > 2 {
				x.stop.Store(true)
			}
			return "", nil
		}
		if msg != "" {
			return fmt.Sprintf("%v, thread %v first, preempted after steps %v: %v", scenes[i].name, start, plan, msg),
				map[string]any{"scene": scenes[i].name, "first": start, "preemptions": plan}
		}
		return "", nil
	}
	for i := range scenes {
		for start := 0; start < 2; start++ {
			x.Each(fmt.Sprintf("%v, thread %v first, 1 preemption", scenes[i].name, start), ds[i].n[start]+1, func(k int) (string, map[string]any) {
				return one(i, start, []int{k})
			})
		}
	}
	// Two preemptions: A up to p, B up to q, A to its end, B to its end. Distances between the points
	// grow from every statement to coarser grids.
	budget := 30000
	if !r.Quick() {
		budget = 3000000
	}
	for i := range scenes {
		for start := 0; start < 2; start++ {
			na, nb := ds[i].n[start], ds[i].n[1-start]
			grid := 1
			for (na/grid)*(nb/grid) > budget {
				grid++
			}
			ka, kb := na/grid, nb/grid
			x.Each(fmt.Sprintf("%v, thread %v first, 2 preemptions at every %v. statement", scenes[i].name, start, grid), ka*kb, func(k int) (string, map[string]any) {
				p := 1 + (k%ka)*grid
				return one(i, start, []int{p, p + 1 + (k/ka)*grid})
			})
		}
	}
}

func init() {
	workers["C14"] = concWorker
	checks["C14"] = func(r *Run) {
		x := NewSpace(r)
		bin, res, cleanup, err := buildInstrumented(r.Root, true)
		defer cleanup()
		switch {
		case err != nil:
			r.Coverage["instrumentation"] = "failed, only the sequential order is explored: " + err.Error()
			bin, _ = os.Executable()
		case res.Goroutines:
			r.Coverage["instrumentation"] = "the library starts goroutines, only the sequential order is explored"
			bin, _ = os.Executable()
		default:
			r.Coverage["instrumented_statements"] = res.Steps
			r.Coverage["lock_operations"] = res.Locks
		}
		if err := r.spread(x, bin); err != nil {
			r.spreadFailed(err)
			return
		}
		if !x.Stopped() {
			conflicts(r, x)
		}
		x.Finish()
	}
}
