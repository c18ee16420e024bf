package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/lubgr/deflect/deflect"
)

// C08: problems that change between analyses, and problems that share elements, supports and
// inclined supports with others. Every part can be there or not; what's there decides the result.

const (
	partSettlement  = 1 << iota // another value
	partNodalLoad               // another value
	partSpan                    // one more element with one more node and support
	partBrace                   // one more element
	partInclined                // an inclined support instead of a plain one
	partTie                     // one more inclined support
	partHinged                  // an element with other releases, the same nodes and name
	partElementLoad             // one more load on an element
	partMoved                   // a node at another place
	partStiffer                 // another stiffness of a material
	partTruss                   // another kind of element between the same nodes, if there's a span
	parts           = 11
)

var partNames = []string{"settlement", "nodal load", "span", "brace", "inclined support", "second inclined support", "hinged element", "element load", "coordinates", "stiffness", "kind of span"}

var changingBase = sync.OnceValue(func() *Spec {
	s := findTemplate("portal").Clone()
	s.Nodes = append(s.Nodes, Node{ID: "E", X: 5, Z: 4})
	s.Elems = append(s.Elems, named("CE", el("frame2d", 2, 4)), named("AC", el("truss2d", 0, 2)))
	s.Elems[1].Loads = []Load{{"linear", Uz, 2, -4, 0}, {"dirac", Phiy, 3, 0, 0.5}}
	s.Dirichlet = sup(0, Ux, Uz, Phiy)
	s.Neumann = []BC{{1, Ux, 7}, {2, Uz, -3}}
	return s
})

var changingLoad = Load{"constant", Uz, 5, 0, 0}

// changingSpec is the problem that consists of the given parts.
func changingSpec(mask int) *Spec {
	s := changingBase().Clone()
	span, brace := s.Elems[3], s.Elems[4]
	s.Elems = s.Elems[:3]
	if mask&partHinged != 0 {
		s.Elems[2].Hinges = []Hinge{{1, Phiy}}
	}
	if mask&partMoved != 0 {
		s.Nodes[2].X += 0.4
		s.Nodes[2].Z -= 0.3
	}
	if mask&partStiffer != 0 {
		s.Elems[1].Mat.E *= 3
	}
	if mask&partElementLoad != 0 {
		s.Elems[1].Loads = append(s.Elems[1].Loads, changingLoad)
	}
	if mask&partSettlement != 0 {
		s.Dirichlet[1].Val = 0.05
	}
	if mask&partNodalLoad != 0 {
		s.Neumann[0].Val = -11
	}
	if mask&partSpan != 0 {
		if mask&partTruss != 0 {
			span.Kind = "truss2d"
		}
		s.Elems = append(s.Elems, span)
		s.Dirichlet = append(s.Dirichlet, BC{4, Uz, -0.02})
	}
	if mask&partBrace != 0 {
		s.Elems = append(s.Elems, brace)
	}
	if mask&partInclined != 0 {
		s.Links = append(s.Links, Link{3, Ux, Uz, 0.6})
	} else {
		s.Dirichlet = append(s.Dirichlet, BC{3, Uz, 0.01})
	}
	if mask&partTie != 0 {
		s.Links = append(s.Links, Link{2, Uz, Ux, -0.4})
	}
	return s
}

// changing has the objects that all problems of a history share.
type changing struct {
	nodes    []deflect.Node
	elements map[string]deflect.Element
	hinged   deflect.Element
	truss    deflect.Element
	trans    []deflect.Transformer
	values   []deflect.NodalValue
	extra    deflect.NeumannElementBC
	loaded   bool
	material *deflect.Material // of the second element
}

func newChanging() *changing {
	c := &changing{elements: map[string]deflect.Element{}}
	s := changingBase()
	c.nodes = s.buildNodes()
	add := func(e *Elem) deflect.Element {
		m := e.Mat.deflect()
		if e == &s.Elems[1] {
			c.material = m
		}
		el, err := s.newElementOf(e, c.nodes, m)
		if err != nil {
			panic("harness: " + err.Error())
		}
		for _, l := range e.Loads {
			bc, err := l.deflect()
			if err != nil || !el.AddLoad(bc) {
				panic("harness: load")
			}
		}
		return el
	}
	for i := range s.Elems {
		c.elements[s.Elems[i].ID] = add(&s.Elems[i])
	}
	h := changingSpec(partHinged).Elems[2]
	c.hinged = add(&h)
	t := changingSpec(partSpan | partTruss).Elems[3]
	c.truss = add(&t)
	for _, l := range changingSpec(partInclined | partTie).Links {
		t, v := deflect.NewInclinedSupport(s.index(l.Node, l.From), s.index(l.Node, l.To), l.Angle)
		c.trans, c.values = append(c.trans, t), append(c.values, v)
	}
	c.extra, _ = changingLoad.deflect()
	return c
}

// become makes p the problem that consists of the given parts.
func (c *changing) become(p *deflect.Problem, mask int) string {
	s := changingSpec(mask)
	copy(c.nodes, s.buildNodes())
	c.material.YoungsModulus = s.Elems[1].Mat.E
	p.Nodes = c.nodes
	p.Elements, p.Dirichlet, p.Neumann, p.EqTransforms = p.Elements[:0], p.Dirichlet[:0], p.Neumann[:0], p.EqTransforms[:0]
	for i := range s.Elems {
		if i == 2 && mask&partHinged != 0 {
			p.Elements = append(p.Elements, c.hinged)
		} else if i == 3 && mask&partTruss != 0 && mask&partSpan != 0 {
			p.Elements = append(p.Elements, c.truss)
		} else {
			p.Elements = append(p.Elements, c.elements[s.Elems[i].ID])
		}
	}
	for _, d := range s.Dirichlet {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: s.index(d.Node, d.Dof), Value: d.Val})
	}
	for _, d := range s.Neumann {
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: s.index(d.Node, d.Dof), Value: d.Val})
	}
	for i, bit := range []int{partInclined, partTie} {
		if mask&bit != 0 {
			p.EqTransforms = append(p.EqTransforms, c.trans[i])
			p.Dirichlet = append(p.Dirichlet, c.values[i])
		}
	}
	if want := mask&partElementLoad != 0; want != c.loaded {
		el := c.elements[s.Elems[1].ID]
		if !want {
			el.RemoveLoad(c.extra)
		} else if !el.AddLoad(c.extra) {
			return "load refused"
		}
		c.loaded = want
	}
	return ""
}

type changingRef struct {
	alone [1 << parts]Outcome
	once  [1 << parts]sync.Once
	bad   [1 << parts]string
}

func (h *changingRef) of(mask int) (*Outcome, string) {
	h.once[mask].Do(func() {
		s := changingSpec(mask)
		h.alone[mask] = s.Run()
		ref, err := RefSolve(s)
		if errors.Is(err, errSingular) {
			if !h.alone[mask].Failed() {
				h.bad[mask] = "solved a mechanism"
			}
		} else if err != nil {
			h.bad[mask] = "harness: " + err.Error()
		} else if h.alone[mask].Failed() {
			h.bad[mask] = h.alone[mask].Describe()
		} else {
			h.bad[mask] = CheckNodal(&h.alone[mask], ref)
		}
	})
	return &h.alone[mask], h.bad[mask]
}

// changingHistories: each operation changes one part and analyses the problem; half of the
// operations do so with a second problem that shares all of its parts.
func changingHistories(x *Space, depth int) {
	var ref changingRef
	for mask := 0; mask < 1<<parts; mask++ {
		if _, bad := ref.of(mask); bad != "" {
			x.Run.Violation(fmt.Sprintf("problem of parts %b: %v", mask, bad), map[string]any{"spec": changingSpec(mask)})
			x.stop.Store(true)
			return
		}
	}
	ops := parts + 3
	name := func(k int) string {
		switch {
		case k < parts:
			return "change " + partNames[k]
		case k == parts:
			return "analyse second problem"
		case k == parts+1:
			return "let both problems exchange their parts"
		}
		return "new problem of the same parts"
	}
	run := func(seq []int) (msg string) {
		c := newChanging()
		p, q := &deflect.Problem{}, &deflect.Problem{}
		masks := [2]int{0, partSpan | partBrace | partInclined}
		solver := deflect.NewLinearProblemSolver()
		type kept struct {
			mask int
			res  deflect.ProblemResult
		}
		var results []kept
		solve := func(p *deflect.Problem, mask int) string {
			if m := c.become(p, mask); m != "" {
				return m
			}
			o := Analyse(p, solver, deflect.NewCholeskySolver())
			want, _ := ref.of(mask)
			if m := near(&o, want, 1e-9); m != "" {
				return m + " on its own"
			}
			if !o.Failed() {
				results = append(results, kept{mask, o.Res})
			}
			return ""
		}
		if m := solve(p, masks[0]); m != "" {
			return m
		}
		for _, k := range seq {
			m := ""
			switch {
			case k < parts:
				masks[0] ^= 1 << k
				m = solve(p, masks[0])
			case k == parts:
				m = solve(q, masks[1])
			case k == parts+1:
				masks[0], masks[1] = masks[1], masks[0]
				m = solve(p, masks[0])
			default:
				p = &deflect.Problem{}
				m = solve(p, masks[0])
			}
			if m != "" {
				return m
			}
		}
		for _, k := range results {
			want, _ := ref.of(k.mask)
			if m := sameResult(k.res, want, 1e-9); m != "" {
				return "earlier result: " + m
			}
		}
		return ""
	}
	judge := func(seq []int) (string, map[string]any) {
		msg := run(seq)
		if msg == "" && len(seq) != 3 {
			return "", nil
		}
		names := make([]string, len(seq))
		for i, k := range seq {
			names[i] = name(k)
		}
		if msg != "" {
			msg = fmt.Sprintf("after [%v]: %v", strings.Join(names, ", "), msg)
		}
		return msg, map[string]any{"operations": names}
	}
	x.sequences("changing problems", ops, 1, depth, judge)
	x.longSequences("changing problems", ops, depth-1, 36, judge)
}
