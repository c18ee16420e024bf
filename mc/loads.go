package main

import (
	"fmt"
	"math"
	"strings"
	"sync"

	"github.com/lubgr/deflect/deflect"
)

// C07: histories of load changes. The model is the list of loads an element carries; the real
// elements live through the entire history, solves in between included.

type loadOp struct {
	name   string
	kind   string // add, remove, solve
	elem   int
	handle int
}

type loadScene struct {
	name    string
	spec    *Spec
	handles []Load // Pos is an absolute coordinate
	foreign []any  // handles which aren't loads at all
	ops     []loadOp
}

func loadAccepted(kind string, l Load, length float64) bool {
	if l.Deg == "dirac" && l.Pos > length {
		return false
	}
	if l.Kind == Ux {
		return true
	}
	return kind == "frame2d" && (l.Kind == Uz || l.Kind == Phiy && l.Deg == "dirac")
}

func loadScenes() []loadScene {
	knee := findTemplate("knee").Clone()
	kneeHinged := findTemplate("knee").Clone()
	kneeHinged.Elems[0].Hinges = []Hinge{{1, Phiy}}
	kneeHinged.Elems[1].Hinges = []Hinge{{0, Ux}}
	kneeHinged.Dirichlet = append(kneeHinged.Dirichlet, BC{1, Ux, 0}, BC{2, Ux, 0}, BC{2, Phiy, 0})
	frameLoads := func(l float64) []Load {
		return []Load{
			{"constant", Uz, 2.5, 0, 0},
			{"dirac", Ux, 3, 0, l / 2},
			{"dirac", Uz, 4, 0, l / 4},
			{"constant", Uz, 2.5, 0, 0}, // equal to the first, but another instance
			{"linear", Ux, 2, -1, 0},
			{"dirac", Phiy, 1.7, 0, l},
			{"linear", Uz, -1, 3, 0},
			{"constant", Phiy, 3, 0, 0},      // not supported by any element
			{"dirac", Uz, 4, 0, 1.25 * l},    // beyond the element
			{"dirac", Uy, 4, 0, l / 2},       // out of plane
			{"dirac", Ux, 4, 0, math.Inf(1)}, // beyond the element
		}
	}
	axial := func(l float64) []Load {
		return []Load{
			{"constant", Ux, 2.5, 0, 0},
			{"dirac", Ux, 3, 0, l / 2},
			{"linear", Ux, 2, -1, 0},
			{"constant", Ux, 2.5, 0, 0},
			{"dirac", Ux, -2, 0, l},
			{"constant", Uz, 1, 0, 0},
			{"dirac", Phiy, 1, 0, 0},
			{"dirac", Ux, 4, 0, 1.25 * l},
			{"linear", Uy, 1, 2, 0},
		}
	}
	var out []loadScene
	mk := func(name string, s *Spec, handles []Load) {
		sc := loadScene{name: name, spec: s, handles: handles}
		sc.foreign = []any{nil, "qz", 42, deflect.Node{ID: "A"}}
		for h := range handles {
			sc.ops = append(sc.ops, loadOp{fmt.Sprintf("add %v", h), "add", 0, h})
		}
		for h := range handles {
			if h < 8 {
				sc.ops = append(sc.ops, loadOp{fmt.Sprintf("remove %v", h), "remove", 0, h})
			}
		}
		sc.ops = append(sc.ops,
			loadOp{"add 0 to other", "add", 1, 0},
			loadOp{"add 1 to other", "add", 1, 1},
			loadOp{"remove 0 from other", "remove", 1, 0},
			loadOp{"solve", "solve", 0, 0},
			loadOp{"add foreign", "foreign", 0, 0},
		)
		out = append(out, sc)
	}
	mk("knee", knee, frameLoads(3))
	mk("knee with hinges", kneeHinged, frameLoads(3))
	tri := findTemplate("triangle").Clone()
	mk("triangle", tri, axial(3))
	tp := findTemplate("tripod").Clone()
	mk("tripod", tp, axial(tp.Length(0)))
	return out
}

var refCache sync.Map

// cachedRef is for histories that lead to few distinct problems.
func cachedRef(s *Spec) (*RefResult, error) {
	type entry struct {
		r   *RefResult
		err error
	}
	h := s.Hash()
	if v, ok := refCache.Load(h); ok {
		e := v.(entry)
		return e.r, e.err
	}
	r, err := RefSolve(s)
	refCache.Store(h, entry{r, err})
	return r, err
}

func (sc *loadScene) run(seq []loadOp) string {
	p, err := sc.spec.Build()
	if err != nil {
		return "cannot build: " + err.Error()
	}
	handles := make([]deflect.NeumannElementBC, len(sc.handles))
	for i, l := range sc.handles {
		if handles[i], err = l.deflect(); err != nil {
			return fmt.Sprintf("load %+v refused: %v", l, err)
		}
	}
	type entry struct{ h int }
	model := make([][]entry, len(sc.spec.Elems))
	solver := deflect.NewLinearProblemSolver()
	msg := ""
	type solved struct {
		o   Outcome
		ref *RefResult
	}
	var earlier []solved
	check := func() string {
		s := sc.spec.Clone()
		for e := range model {
			for _, en := range model[e] {
				s.Elems[e].Loads = append(s.Elems[e].Loads, sc.handles[en.h])
			}
		}
		o := Analyse(p, solver, deflect.NewCholeskySolver())
		if o.Failed() {
			return o.Describe()
		}
		ref, err := cachedRef(s)
		if err != nil {
			return ""
		}
		if m := CheckNodal(&o, ref); m != "" {
			return m
		}
		if m := CheckInterpolations(&o, ref); m != "" {
			return m
		}
		for i := range earlier { // the loads that were on the elements at that time
			m := CheckNodal(&earlier[i].o, earlier[i].ref)
			if m == "" {
				m = CheckInterpolations(&earlier[i].o, earlier[i].ref)
			}
			if m != "" {
				return fmt.Sprintf("results of analysis %v, evaluated after later changes: %v", i, m)
			}
		}
		earlier = append(earlier, solved{o, ref})
		return ""
	}
	var o Outcome
	guard(&o, func() {
		for _, op := range seq {
			el := p.Elements[op.elem]
			switch op.kind {
			case "add":
				ok := el.AddLoad(handles[op.handle])
				want := loadAccepted(sc.spec.Elems[op.elem].Kind, sc.handles[op.handle], sc.spec.Length(op.elem))
				if ok != want {
					msg = fmt.Sprintf("adding load %+v to %v reports %v, expected %v", sc.handles[op.handle], el.ID(), ok, want)
					return
				}
				if ok {
					model[op.elem] = append(model[op.elem], entry{op.handle})
				}
			case "foreign":
				for _, f := range sc.foreign {
					if el.AddLoad(f) {
						msg = fmt.Sprintf("adding %v (not a load) succeeds", f)
						return
					}
					el.RemoveLoad(f)
				}
			case "remove":
				el.RemoveLoad(handles[op.handle])
				kept := model[op.elem][:0]
				for _, en := range model[op.elem] {
					if en.h != op.handle {
						kept = append(kept, en)
					}
				}
				model[op.elem] = kept
			case "solve":
				if msg = check(); msg != "" {
					return
				}
			}
		}
		msg = check()
	})
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	return msg
}

func runLoads(r *Run) {
	x := NewSpace(r)
	full, small := 4, 6
	if !r.Quick() {
		full, small = 5, 8
	}
	judge := func(sc *loadScene, ops []loadOp) func([]int) (string, map[string]any) {
		return func(seq []int) (string, map[string]any) {
			list := make([]loadOp, len(seq))
			for i, k := range seq {
				list[i] = ops[k]
			}
			msg := sc.run(list)
			if msg == "" && len(seq) != 3 {
				return "", nil
			}
			names := make([]string, len(list))
			for i, op := range list {
				names[i] = op.name
			}
			if msg != "" {
				msg = fmt.Sprintf("%v after [%v]: %v", sc.name, strings.Join(names, ", "), msg)
			}
			return msg, map[string]any{"scene": sc.name, "operations": names, "handles": fmt.Sprintf("%+v", sc.handles)}
		}
	}
	do := func(sc *loadScene, ops []loadOp, lo, hi int, what string) {
		x.sequences(sc.name+" "+what, len(ops), lo, hi, judge(sc, ops))
	}
	scenes := loadScenes()
	pick := func(sc *loadScene, names ...string) (out []loadOp) {
		for _, n := range names {
			for _, op := range sc.ops {
				if op.name == n {
					out = append(out, op)
				}
			}
		}
		return out
	}
	for d := 0; d <= max(full, small); d++ { // deepen over all scenes
		for i := range scenes {
			sc := &scenes[i]
			if d <= full {
				do(sc, sc.ops, d, d, "all operations")
			}
			if d <= small && d > 3 {
				do(sc, pick(sc, "add 0", "add 1", "add 2", "remove 0", "remove 1", "remove 2"), d, d, "core operations")
			}
		}
	}
	for i := range scenes {
		sc := &scenes[i]
		x.longSequences(sc.name, len(sc.ops), full-2, 36, judge(sc, sc.ops))
	}
	x.Finish()
}

func init() { checks["C07"] = runLoads }
