package main

import (
	"fmt"
	"math"
	"os"
	"slices"
)

var (
	matA = Mat{E: 1000, A: 2, Iyy: 0.3}
	matB = Mat{E: 1500, B: 0.5, H: 1.2}
	matC = Mat{E: 2.1e11, A: 0.01, Iyy: 2e-5}
)

type Template struct {
	Name string
	Spec *Spec
}

func nodesOf(c ...float64) []Node {
	var out []Node
	for i := 0; i+1 < len(c); i += 2 {
		out = append(out, Node{ID: string(rune('A' + len(out))), X: c[i], Z: c[i+1]})
	}
	return out
}

func nodes3(c ...float64) []Node {
	var out []Node
	for i := 0; i+2 < len(c); i += 3 {
		out = append(out, Node{ID: string(rune('A' + len(out))), X: c[i], Y: c[i+1], Z: c[i+2]})
	}
	return out
}

func el(kind string, a, b int, hinges ...Hinge) Elem {
	return Elem{ID: fmt.Sprintf("%c%c", 'A'+a, 'A'+b), Kind: kind, A: a, B: b, Mat: matA, Hinges: hinges}
}

func named(id string, e Elem) Elem {
	e.ID = id
	return e
}

func sup(node int, dofs ...Dof) []BC {
	var out []BC
	for _, d := range dofs {
		out = append(out, BC{node, d, 0})
	}
	return out
}

func cat(l ...[]BC) []BC {
	var out []BC
	for _, x := range l {
		out = append(out, x...)
	}
	return out
}

func templates2d() []Template {
	f, t := "frame2d", "truss2d"
	return []Template{
		{"cantilever", &Spec{Nodes: nodesOf(0, 0, 2, 0), Elems: []Elem{el(f, 0, 1)}, Dirichlet: sup(0, Ux, Uz, Phiy)}},
		{"simple", &Spec{Nodes: nodesOf(1, -1, 4, 3), Elems: []Elem{el(f, 0, 1)}, Dirichlet: cat(sup(0, Ux, Uz), sup(1, Uz))}},
		{"bar", &Spec{Nodes: nodesOf(0, 0, -3, 4), Elems: []Elem{el(t, 0, 1)}, Dirichlet: cat(sup(0, Ux, Uz), sup(1, Uz))}},
		{"triangle", &Spec{Nodes: nodesOf(0, 0, 3, 0, 0, 4), Elems: []Elem{el(t, 0, 1), el(t, 1, 2), el(t, 2, 0)},
			Dirichlet: cat(sup(0, Ux, Uz), sup(1, Uz))}},
		{"knee", &Spec{Nodes: nodesOf(0, 0, 0, 3, 4, 3), Elems: []Elem{el(f, 0, 1), el(f, 1, 2)},
			Dirichlet: cat(sup(0, Ux, Uz, Phiy), sup(2, Uz))}},
		{"gerber", &Spec{Nodes: nodesOf(0, 0, 2, 0, 3.5, 0, 6, 0), Elems: []Elem{el(f, 0, 1), el(f, 1, 2, Hinge{1, Phiy}), el(f, 2, 3)},
			Dirichlet: cat(sup(0, Ux, Uz, Phiy), sup(1, Uz), sup(3, Uz))}},
		{"portal", &Spec{Nodes: nodesOf(0, 0, 0, 4, 3, 5, 3, 0.5), Elems: []Elem{el(f, 0, 1), el(f, 1, 2), el(f, 3, 2)},
			Dirichlet: cat(sup(0, Ux, Uz, Phiy), sup(3, Ux, Uz))}},
		{"multispan", &Spec{Nodes: nodesOf(0, 0, 3, 0, 7, 0, 8.5, 0, 12, 0), Elems: []Elem{el(f, 0, 1), el(f, 1, 2), el(f, 3, 2), el(f, 3, 4)},
			Dirichlet: cat(sup(0, Ux, Uz), sup(1, Uz), sup(2, Uz), sup(4, Uz))}},
		{"ring", &Spec{Nodes: nodesOf(0, 0, 4, 0, 5, 3, -1, 2), Elems: []Elem{el(f, 0, 1), el(f, 1, 2), el(f, 2, 3), el(f, 3, 0)},
			Dirichlet: cat(sup(0, Ux, Uz), sup(1, Uz))}},
		{"parallel", &Spec{Nodes: nodesOf(0, 0, 3, 1, 5, 1), Elems: []Elem{el(f, 0, 1), named("AB2", el(f, 0, 1, Hinge{0, Phiy}, Hinge{1, Phiy})), named("BA", el(t, 1, 0)), el(f, 1, 2)},
			Dirichlet: cat(sup(0, Ux, Uz, Phiy))}},
		{"star", &Spec{Nodes: nodesOf(0, 0, 2, 1, -1, 3, -2, -2, 3, -1), Elems: []Elem{el(f, 0, 1), el(f, 2, 0, Hinge{1, Phiy}), el(f, 0, 3, Hinge{0, Ux}), el(t, 4, 0)},
			Dirichlet: cat(sup(1, Ux, Uz), sup(2, Ux, Uz, Phiy), sup(3, Ux, Uz, Phiy), sup(4, Ux, Uz))}},
		{"apart", &Spec{Nodes: nodesOf(0, 0, 2, 0, 0, 5, 3, 5), Elems: []Elem{el(f, 0, 1), el(f, 2, 3)},
			Dirichlet: cat(sup(0, Ux, Uz, Phiy), sup(2, Ux, Uz), sup(3, Uz))}},
		{"lattice", &Spec{Nodes: nodesOf(0, 0, 2, 0, 4, 0, 6, 0, 1, 2, 3, 2, 5, 2), Elems: []Elem{el(t, 0, 1), el(t, 1, 2), el(t, 2, 3), el(t, 4, 5), el(t, 5, 6),
			el(t, 0, 4), el(t, 4, 1), el(t, 1, 5), el(t, 5, 2), el(t, 2, 6), el(t, 6, 3)}, Dirichlet: cat(sup(0, Ux, Uz), sup(3, Uz))}},
		{"kingpost", &Spec{Nodes: nodesOf(0, 0, 3, 0, 6, 0, 3, 2), Elems: []Elem{el(f, 0, 1), el(f, 1, 2), el(t, 0, 3), el(t, 3, 2), el(t, 3, 1)},
			Dirichlet: cat(sup(0, Ux, Uz), sup(2, Uz))}},
	}
}

func templates3d() []Template {
	t := "truss3d"
	return []Template{
		{"bar3d", &Spec{Nodes: nodes3(0, 0, 0, 2, -3, 6), Elems: []Elem{el(t, 0, 1)},
			Dirichlet: cat(sup(0, Ux, Uy, Uz), sup(1, Uy, Uz))}},
		{"tetrahedron", &Spec{Nodes: nodes3(0, 0, 0, 3, 0, 0, 0, 4, 0, 1, 1, 2),
			Elems:     []Elem{el(t, 0, 1), el(t, 1, 2), el(t, 2, 0), el(t, 0, 3), el(t, 1, 3), el(t, 2, 3)},
			Dirichlet: cat(sup(0, Ux, Uy, Uz), sup(1, Uy, Uz), sup(2, Uz))}},
		{"mast", &Spec{Nodes: nodes3(0, 0, 0, 2, 0, 0, 0.5, 1.8, 0, 0.2, 0.1, 3, 1.9, 0.3, 3.1, 0.6, 1.7, 2.8),
			Elems:     []Elem{el(t, 0, 3), el(t, 1, 4), el(t, 2, 5), el(t, 3, 4), el(t, 4, 5), el(t, 5, 3), el(t, 0, 4), el(t, 1, 5), el(t, 2, 3)},
			Dirichlet: cat(sup(0, Ux, Uy, Uz), sup(1, Ux, Uy, Uz), sup(2, Ux, Uy, Uz))}},
		{"tripod", &Spec{Nodes: nodes3(0, 0, 0, 3, 0, 0, 0, 4, 0, 1, 1, 2),
			Elems:     []Elem{el(t, 0, 3), el(t, 3, 1), el(t, 2, 3)},
			Dirichlet: cat(sup(0, Ux, Uy, Uz), sup(1, Ux, Uy, Uz), sup(2, Ux, Uy, Uz))}},
	}
}

func allTemplates() []Template {
	return append(append(append(templates2d(), templates3d()...), richTemplates()...), crowded())
}

// crowded has elements that carry many loads at once, in no particular order, some of them equal or
// at the same position.
func crowded() Template {
	s := &Spec{Nodes: nodesOf(0, 0, 4, 0.5, 7, 0, 4, 3), Elems: []Elem{el("frame2d", 0, 1), el("frame2d", 2, 1), el("truss2d", 1, 3)},
		Dirichlet: cat(sup(0, Ux, Uz, Phiy), sup(2, Uz), sup(3, Ux, Uz))}
	at := []float64{0.5, 0.1, 0.9, 0.3, 0.7, 0.3, 0.2, 0.8, 0.6, 0.4, 0.55, 0.05, 0.95, 0.35, 0.5}
	for e := range s.Elems {
		l := s.Length(e)
		for i, f := range at {
			v := 1.5 - 0.4*float64((i*7+e)%9)
			d := []Dof{Uz, Phiy, Ux}[(i+e)%3]
			if s.Elems[e].Kind != "frame2d" {
				d = Ux
			}
			s.Elems[e].Loads = append(s.Elems[e].Loads, Load{"dirac", d, v, 0, f * l})
			if i%5 == 2 {
				s.Elems[e].Loads = append(s.Elems[e].Loads, Load{"linear", Ux, v, -2 * v, 0})
				if d != Ux {
					s.Elems[e].Loads = append(s.Elems[e].Loads, Load{"constant", Uz, v / 2, 0, 0}, Load{"linear", Uz, -v, 3, 0})
				}
			}
		}
	}
	return Template{"crowded", s}
}

// largeTemplates have an order of magnitude more degrees of freedom.
func largeTemplates() []Template {
	if os.Getenv("VERIF_BUDGET") != "" {
		return nil
	}
	var nodes []float64
	for k := 0; k < 4; k++ {
		for i := 0; i < 6; i++ {
			nodes = append(nodes, 3*float64(i)+0.1*float64(k*k), -2.8*float64(k)+0.05*float64(i))
		}
	}
	frame := &Spec{Nodes: nodesOf(nodes...)}
	for k := 0; k < 4; k++ {
		for i := 0; i < 6; i++ {
			n := 6*k + i
			if k == 0 {
				frame.Dirichlet = append(frame.Dirichlet, sup(n, Ux, Uz, Phiy)[:3-i%2]...)
			}
			if k < 3 {
				frame.Elems = append(frame.Elems, el("frame2d", n, n+6))
			}
			if k > 0 && i < 5 {
				frame.Elems = append(frame.Elems, el("frame2d", n, n+1))
			}
			if k == 2 && i%2 == 0 {
				frame.Elems = append(frame.Elems, el("truss2d", n, n+7))
			}
		}
	}
	var tn []float64
	for k := 0; k < 7; k++ {
		w := 3 - 0.3*float64(k)
		for i := 0; i < 3; i++ {
			a := float64(i)*2*math.Pi/3 + 0.1*float64(k)
			tn = append(tn, w*math.Cos(a), w*math.Sin(a), 2*float64(k))
		}
	}
	tower := &Spec{Nodes: nodes3(tn...)}
	for k := 0; k < 7; k++ {
		for i := 0; i < 3; i++ {
			n, m := 3*k+i, 3*k+(i+1)%3
			if k == 0 {
				tower.Dirichlet = append(tower.Dirichlet, sup(n, Ux, Uy, Uz)...)
			} else {
				tower.Elems = append(tower.Elems, el("truss3d", n, m))
			}
			if k < 6 {
				tower.Elems = append(tower.Elems, el("truss3d", n, n+3), el("truss3d", m, n+3))
			}
		}
	}
	// more than 256 degrees of freedom
	var hn []float64
	for k := 0; k < 10; k++ {
		for i := 0; i < 10; i++ {
			hn = append(hn, 3*float64(i)+0.05*float64(k*k), -2.8*float64(k)+0.05*float64(i))
		}
	}
	huge := &Spec{Nodes: nodesOf(hn...)}
	for k := 0; k < 10; k++ {
		for i := 0; i < 10; i++ {
			n := 10*k + i
			if k == 0 {
				huge.Dirichlet = append(huge.Dirichlet, sup(n, Ux, Uz, Phiy)[:3-i%2]...)
			}
			if k < 9 {
				huge.Elems = append(huge.Elems, el("frame2d", n, n+10))
			}
			if k > 0 && i < 9 {
				beam := el("frame2d", n, n+1)
				if k%4 == 1 && i%4 == 2 {
					beam.Hinges = []Hinge{{i / 4 % 2, Phiy}}
				}
				huge.Elems = append(huge.Elems, beam)
			}
			if k%3 == 2 && k < 9 && i%3 == 0 && i < 9 {
				huge.Elems = append(huge.Elems, el("truss2d", n, n+11))
			}
		}
	}
	huge.Dirichlet[2].Val = 0.02
	huge.Dirichlet[10].Val = -0.01
	huge.Links = []Link{{99, Ux, Uz, 0.4}}
	out := []Template{{"large frame", frame}, {"large tower", tower}, {"huge frame", huge}}
	for _, t := range out {
		s := t.Spec
		for i := range s.Elems {
			s.Elems[i].ID = fmt.Sprintf("e%d", i)
			if i%3 == 0 {
				l := elemLoads(s.Elems[i].Kind, false)[i%2]
				l.Pos *= s.Length(i)
				s.Elems[i].Loads = []Load{l}
			}
		}
		for i := range s.Nodes {
			s.Nodes[i].ID = fmt.Sprintf("%d", i+1)
			if i%4 == 3 {
				s.Neumann = append(s.Neumann, BC{i, Ux, 1 + 0.1*float64(i)})
			}
		}
	}
	return out
}

// richTemplates carry every kind of load, settlements, releases and different materials already, so
// that few edits lead to combinations of many features.
func richTemplates() []Template {
	base := map[string]*Spec{}
	for _, t := range append(templates2d(), templates3d()...) {
		base[t.Name] = t.Spec
	}
	rich := func(name string, angle float64, f func(s *Spec)) Template {
		s := base[name].Clone()
		for e := range s.Elems {
			l := s.Length(e)
			loads := elemLoads(s.Elems[e].Kind, false)
			for i := range loads {
				if (i+e)%2 == 1 && len(loads) > 3 {
					continue
				}
				loads[i].Pos *= l
				loads[i].V0 *= 1 + 0.3*float64(e)
				s.Elems[e].Loads = append(s.Elems[e].Loads, loads[i])
			}
			if e%2 == 1 {
				s.Elems[e].Mat = Mat{E: 700, A: 1.5, Iyy: 0.45}
			}
		}
		for i := range s.Dirichlet {
			if i%2 == 0 {
				s.Dirichlet[i].Val = 0.01 * float64(i+1)
			}
		}
		for n := range s.Nodes {
			if s.connected()[refKey{n, Uz}] {
				s.Neumann = append(s.Neumann, BC{n, Uz, 2 - float64(n)})
			}
		}
		rotate2d(s, angle)
		if f != nil {
			f(s)
		}
		return Template{"rich " + name, s}
	}
	return []Template{
		rich("simple", 0.3, nil),
		rich("gerber", 2.2, nil),
		rich("portal", 0.4, func(s *Spec) {
			s.Elems[1].Hinges = []Hinge{{0, Phiy}, {1, Ux}}
			s.Dirichlet = s.Dirichlet[:3]
			s.Links = []Link{{3, Ux, Uz, -0.7}}
		}),
		rich("kingpost", -1.1, func(s *Spec) {
			s.Elems[0].Hinges = []Hinge{{1, Phiy}}
			s.Dirichlet = s.Dirichlet[:2]
			s.Links = []Link{{2, Uz, Ux, 0.5}}
		}),
		rich("star", 3.5, nil),
		rich("tetrahedron", 0, func(s *Spec) {
			s.Dirichlet = append(s.Dirichlet[:4:4], s.Dirichlet[5])
			s.Links = []Link{{1, Ux, Uz, 0.8}}
		}),
	}
}

func findTemplate(name string) *Spec {
	for _, t := range allTemplates() {
		if t.Name == name {
			return t.Spec
		}
	}
	panic("harness: no template " + name)
}

// An Edit is one transition of the model space. Slot != "" makes edits of that slot exclusive.
type Edit struct {
	Name  string
	Slot  string
	Apply func(s *Spec) bool
}

func (s *Spec) connected() map[refKey]bool {
	c := map[refKey]bool{}
	for i := range s.Elems {
		for _, n := range []int{s.Elems[i].A, s.Elems[i].B} {
			c[refKey{n, Ux}] = true
			c[refKey{n, Uz}] = true
			switch s.Elems[i].Kind {
			case "truss3d":
				c[refKey{n, Uy}] = true
			case "frame2d":
				c[refKey{n, Phiy}] = true
			}
		}
	}
	return c
}

// Normalise drops what the element kinds of the spec cannot refer to (e.g. after a frame has been
// turned into a truss), so that the spec describes a well-formed problem.
func (s *Spec) Normalise() {
	c := s.connected()
	keep := func(in []BC) []BC {
		out := in[:0]
		for _, b := range in {
			if c[refKey{b.Node, b.Dof}] {
				out = append(out, b)
			}
		}
		return out
	}
	s.Dirichlet, s.Neumann = keep(s.Dirichlet), keep(s.Neumann)
	for i := range s.Elems {
		e := &s.Elems[i]
		if e.Kind == "frame2d" {
			continue
		}
		h := e.Hinges[:0]
		for _, x := range e.Hinges {
			if x.Dof == Ux {
				h = append(h, x)
			}
		}
		e.Hinges = h
		l := e.Loads[:0]
		for _, x := range e.Loads {
			if x.Kind == Ux {
				l = append(l, x)
			}
		}
		e.Loads = l
	}
}

// hingeSupported mirrors the release patterns the element formulations support: at most one axial
// release, and for frames either one lateral release (shear or moment at one end), or a pair that
// includes at most one shear release and does not release both at the same end.
func hingeSupported(kind string, hs []Hinge) bool {
	set := map[Hinge]bool{}
	for _, h := range hs {
		set[h] = true
	}
	axial, shear, moment := 0, 0, 0
	for h := range set {
		switch h.Dof {
		case Ux:
			axial++
		case Uz:
			shear++
		case Phiy:
			moment++
		}
	}
	if axial > 1 {
		return false
	}
	if kind != "frame2d" {
		return true
	}
	switch {
	case shear+moment <= 1, shear == 0 && moment == 2:
		return true
	case shear == 1 && moment == 1:
		return set[Hinge{0, Uz}] && set[Hinge{1, Phiy}] || set[Hinge{1, Uz}] && set[Hinge{0, Phiy}]
	}
	return false
}

func (s *Spec) hingesSupported() bool {
	for i := range s.Elems {
		if !hingeSupported(s.Elems[i].Kind, s.Elems[i].Hinges) {
			return false
		}
	}
	return true
}

func (s *Spec) allConstrained() bool {
	return len(s.Dirichlet)+len(s.Links) >= len(s.connected())
}

var frameHinges = []Hinge{{0, Ux}, {0, Uz}, {0, Phiy}, {1, Ux}, {1, Uz}, {1, Phiy}}
var trussHinges = []Hinge{{0, Ux}, {1, Ux}}

func hingeSets(all []Hinge) [][]Hinge {
	var out [][]Hinge
	for m := 0; m < 1<<len(all); m++ {
		var hs []Hinge
		for i := range all {
			if m>>i&1 == 1 {
				hs = append(hs, all[i])
			}
		}
		out = append(out, hs)
	}
	return out
}

type MenuOpts struct {
	Hinges, AllHinges     bool
	ElemLoads, NodalLoads bool
	RichLoads             bool
	Supports, Prescribed  bool
	Links, Kinds, Reverse bool
	Mats, Rotate, Relabel bool
	ManyLinks             bool
	Scales                bool
	Extremes              bool // sizes where concentrated loads next to each other can't be told apart
}

func fullMenu() MenuOpts {
	return MenuOpts{Hinges: true, ElemLoads: true, NodalLoads: true, Supports: true, Prescribed: true,
		Links: true, Kinds: true, Reverse: true, Mats: true, Rotate: true, Relabel: true, RichLoads: true, Scales: true}
}

func rotate2d(s *Spec, a float64) {
	c, sn := math.Cos(a), math.Sin(a)
	for i := range s.Nodes {
		x, z := s.Nodes[i].X, s.Nodes[i].Z
		s.Nodes[i].X, s.Nodes[i].Z = c*x-sn*z, sn*x+c*z
	}
}

// scaleLoads scales all causes: loads and prescribed values.
func scaleLoads(s *Spec, f float64) {
	for i := range s.Neumann {
		s.Neumann[i].Val *= f
	}
	for i := range s.Dirichlet {
		s.Dirichlet[i].Val *= f
	}
	for e := range s.Elems {
		for i := range s.Elems[e].Loads {
			s.Elems[e].Loads[i].V0 *= f
			s.Elems[e].Loads[i].V1 *= f
		}
	}
}

func hasBC(l []BC, n int, d Dof) int {
	for i, b := range l {
		if b.Node == n && b.Dof == d {
			return i
		}
	}
	return -1
}

func removeBC(l []BC, i int) []BC { return append(append([]BC(nil), l[:i]...), l[i+1:]...) }

func linkedAt(s *Spec, n int, d Dof) bool {
	for _, l := range s.Links {
		if l.Node == n && (l.From == d || l.To == d) {
			return true
		}
	}
	return false
}

// elemLoads is the alphabet of element loads. pos are fractions of the element length.
func elemLoads(kind string, rich bool) []Load {
	out := []Load{
		{"constant", Ux, 1.5, 0, 0},
		{"linear", Ux, 2, -1, 0},
		{"dirac", Ux, 3, 0, 0.25},
	}
	if rich {
		out = append(out, Load{"dirac", Ux, -2, 0, 1}, Load{"dirac", Ux, 2.5, 0, 0}, Load{"dirac", Ux, -3, 0, 0.2501},
			Load{"linear", Ux, 0, 1.2, 0}, Load{"linear", Ux, -1.5, 1.5, 0})
	}
	if kind == "frame2d" {
		out = append(out,
			Load{"constant", Uz, 2.5, 0, 0},
			Load{"linear", Uz, -1, 3, 0},
			Load{"dirac", Uz, 4, 0, 0.25},
			Load{"dirac", Phiy, 1.7, 0, 0.75},
		)
		if rich {
			out = append(out,
				Load{"linear", Uz, 2, 0, 0},
				Load{"linear", Uz, 0, -1.5, 0},
				Load{"linear", Uz, 1.4, -1.4, 0},
				Load{"linear", Uz, -2, -2, 0},
				Load{"dirac", Uz, 1.6, 0, 0.5},
				Load{"dirac", Uz, -3, 0, 0},
				Load{"dirac", Uz, 2.2, 0, 1},
				Load{"dirac", Uz, 5, 0, 0.75},
				Load{"dirac", Phiy, 2.1, 0, 0},
				Load{"dirac", Phiy, -1.3, 0, 1},
				Load{"dirac", Phiy, -2.3, 0, 0.25},
				Load{"dirac", Uz, -4, 0, 0.2501},
				Load{"dirac", Uz, 1e-6, 0, 0.6},
				Load{"constant", Uz, -2.5, 0, 0},
			)
		}
	}
	return out
}

// Menu lists the edits available on a template, simplest first.
func Menu(t *Spec, o MenuOpts) []Edit {
	var m []Edit
	add := func(name, slot string, f func(s *Spec) bool) { m = append(m, Edit{name, slot, f}) }
	conn := t.connected()
	is3d := false
	for i := range t.Elems {
		is3d = is3d || t.Elems[i].Kind == "truss3d"
	}
	dofsOf := func(n int) []Dof {
		var out []Dof
		for _, d := range []Dof{Ux, Uz, Uy, Phiy} {
			if conn[refKey{n, d}] {
				out = append(out, d)
			}
		}
		return out
	}
	if o.NodalLoads {
		for n := range t.Nodes {
			for _, d := range dofsOf(n) {
				v := 3.0 + float64(n) + 0.5*float64(d)
				if d == Uz {
					v = -v
				}
				add(fmt.Sprintf("force %v/%v", t.Nodes[n].ID, d), "", func(s *Spec) bool {
					s.Neumann = append(s.Neumann, BC{n, d, v})
					return true
				})
				if o.ManyLinks {
					add(fmt.Sprintf("opposite force %v/%v", t.Nodes[n].ID, d), fmt.Sprint("opp", n, d), func(s *Spec) bool {
						s.Neumann = append(s.Neumann, BC{n, d, -v})
						return true
					})
				}
			}
		}
	}
	if o.ElemLoads {
		for e := range t.Elems {
			for _, l := range elemLoads(t.Elems[e].Kind, o.RichLoads) {
				add(fmt.Sprintf("load %v %v %v@%v", t.Elems[e].ID, l.Deg, l.Kind, l.Pos), "", func(s *Spec) bool {
					l := l
					l.Pos *= s.Length(e)
					s.Elems[e].Loads = append(s.Elems[e].Loads, l)
					return true
				})
			}
		}
	}
	if o.Hinges {
		for e := range t.Elems {
			all := trussHinges
			if t.Elems[e].Kind == "frame2d" {
				all = frameHinges
			}
			for _, hs := range hingeSets(all) {
				if len(t.Nodes) > 12 && len(hs) > 1 || sameHinges(hs, t.Elems[e].Hinges) || !o.AllHinges && !hingeSupported(t.Elems[e].Kind, hs) {
					continue
				}
				add(fmt.Sprintf("hinges %v %v", t.Elems[e].ID, hs), fmt.Sprint("hinge", e), func(s *Spec) bool {
					s.Elems[e].Hinges = append([]Hinge(nil), hs...)
					return true
				})
			}
		}
	}
	if o.Supports {
		for n := range t.Nodes {
			for _, d := range dofsOf(n) {
				add(fmt.Sprintf("toggle support %v/%v", t.Nodes[n].ID, d), fmt.Sprint("bc", n, d), func(s *Spec) bool {
					if linkedAt(s, n, d) {
						return false
					}
					if i := hasBC(s.Dirichlet, n, d); i >= 0 {
						s.Dirichlet = removeBC(s.Dirichlet, i)
					} else {
						s.Dirichlet = append(s.Dirichlet, BC{n, d, 0})
					}
					return true
				})
			}
		}
	}
	if o.Prescribed {
		for n := range t.Nodes {
			for _, d := range dofsOf(n) {
				values := []float64{0.02 + 0.01*float64(n) - 0.005*float64(d)}
				if o.ManyLinks {
					values = append(values, 0.05, -0.05, 1e-9)
				}
				for i, v := range values {
					add(fmt.Sprintf("prescribe %v/%v %v", t.Nodes[n].ID, d, i), fmt.Sprint("bc", n, d), func(s *Spec) bool {
						if linkedAt(s, n, d) {
							return false
						}
						if i := hasBC(s.Dirichlet, n, d); i >= 0 {
							s.Dirichlet = removeBC(s.Dirichlet, i)
						}
						s.Dirichlet = append(s.Dirichlet, BC{n, d, v})
						return true
					})
				}
			}
		}
	}
	if o.Links {
		for n := range t.Nodes {
			type ft struct{ f, t Dof }
			pairs := []ft{{Ux, Uz}, {Uz, Ux}}
			if is3d {
				pairs = append(pairs, ft{Ux, Uy}, ft{Uy, Uz})
			}
			for pi, p := range pairs {
				angles := []float64{0.6, -2.1, math.Pi / 2}
				if o.ManyLinks {
					angles = []float64{0.6, -2.1, math.Pi / 2, 0, -math.Pi / 4, 1.2, math.Pi, 2.8, -0.9, 7, 2e-4, math.Pi/2 - 5e-6, -20, 40}
				}
				if pi > 0 {
					angles = angles[:1+len(angles)/4]
				}
				for _, a := range angles {
					add(fmt.Sprintf("incline %v %v->%v %.3g", t.Nodes[n].ID, p.f, p.t, a), fmt.Sprint("link", n), func(s *Spec) bool {
						for _, d := range []Dof{p.f, p.t} {
							if i := hasBC(s.Dirichlet, n, d); i >= 0 {
								s.Dirichlet = removeBC(s.Dirichlet, i)
							}
						}
						s.Links = append(s.Links, Link{n, p.f, p.t, a})
						return true
					})
				}
			}
			if is3d {
				add(fmt.Sprintf("guide %v", t.Nodes[n].ID), fmt.Sprint("link", n), func(s *Spec) bool {
					for _, d := range []Dof{Ux, Uy, Uz} {
						if i := hasBC(s.Dirichlet, n, d); i >= 0 {
							s.Dirichlet = removeBC(s.Dirichlet, i)
						}
					}
					s.Links = append(s.Links, Link{n, Ux, Uz, 0.4}, Link{n, Ux, Uy, 0.9})
					return true
				})
			}
		}
	}
	if o.Kinds {
		for e := range t.Elems {
			if t.Elems[e].Kind == "truss3d" {
				continue
			}
			add("swap kind "+t.Elems[e].ID, fmt.Sprint("kind", e), func(s *Spec) bool {
				if s.Elems[e].Kind == "frame2d" {
					s.Elems[e].Kind = "truss2d"
				} else {
					s.Elems[e].Kind = "frame2d"
				}
				return true
			})
		}
	}
	if o.Reverse {
		for e := range t.Elems {
			add("reverse "+t.Elems[e].ID, fmt.Sprint("rev", e), func(s *Spec) bool {
				s.Elems[e].A, s.Elems[e].B = s.Elems[e].B, s.Elems[e].A
				return true
			})
		}
	}
	if o.Mats {
		for e := range t.Elems {
			for i, mt := range []Mat{matB, {E: 400, A: 3, Iyy: 0.7}} {
				add(fmt.Sprintf("material %v %v", t.Elems[e].ID, i), fmt.Sprint("mat", e), func(s *Spec) bool {
					s.Elems[e].Mat = mt
					return true
				})
			}
		}
		add("material all steel", "matall", func(s *Spec) bool {
			for e := range s.Elems {
				s.Elems[e].Mat = matC
			}
			return true
		})
	}
	if o.Rotate && !is3d {
		for _, a := range []float64{90, 180, 270, 37, 127, 200, 301, 90.02, 179.9996, 0.001} {
			add(fmt.Sprintf("rotate %v", a), "rot", func(s *Spec) bool { rotate2d(s, a*math.Pi/180); return true })
		}
	}
	if o.Scales {
		for _, f := range []float64{1e-6, 1e6} {
			add(fmt.Sprintf("scale loads %v", f), "scale", func(s *Spec) bool { scaleLoads(s, f); return true })
		}
		for _, f := range []float64{1e-18, 1e18} {
			add(fmt.Sprintf("scale stiffness %v", f), "stiffness", func(s *Spec) bool { scaleStiffness(s, f); return true })
		}
		sizes := []float64{0.05, 20}
		if o.Extremes {
			// Rotations and displacements differ in their unit of length, frames become ill-conditioned.
			if sizes = append(sizes, 1e-3, 1e3); !hasFrame(t) {
				sizes = append(sizes, 1e-8, 1e8)
			}
		}
		for _, f := range sizes {
			add(fmt.Sprintf("scale size %v", f), "size", func(s *Spec) bool {
				for i := range s.Nodes {
					s.Nodes[i].X *= f
					s.Nodes[i].Y *= f
					s.Nodes[i].Z *= f
				}
				for e := range s.Elems {
					for i := range s.Elems[e].Loads {
						s.Elems[e].Loads[i].Pos *= f
					}
				}
				return true
			})
		}
		add("shift", "shift", func(s *Spec) bool {
			for i := range s.Nodes {
				s.Nodes[i].X += 40
				s.Nodes[i].Z -= 70
				if is3d {
					s.Nodes[i].Y += 30
				}
			}
			return true
		})
	}
	if o.Relabel {
		for k := 1; k < 3; k++ {
			add(fmt.Sprintf("relabel %v", k), "relabel", func(s *Spec) bool { relabel(s, k); return true })
		}
	}
	return m
}

func hasFrame(s *Spec) bool {
	return slices.ContainsFunc(s.Elems, func(e Elem) bool { return e.Kind == "frame2d" })
}

func scaleStiffness(s *Spec, f float64) {
	for i := range s.Elems {
		s.Elems[i].Mat.E *= f
	}
}

var relabelNames = [][]string{
	nil,
	{"Z", "Y", "X", "W", "V", "U", "T", "S"},
	{"10", "9", "2", "Ä", "a", "N 1", "1", "-"},
}

func relabel(s *Spec, k int) {
	for i := range s.Nodes {
		if s.Nodes[i].ID = fmt.Sprint("n", len(s.Nodes)-i); i < len(relabelNames[k]) {
			s.Nodes[i].ID = relabelNames[k][i]
		}
	}
	for i := range s.Elems {
		s.Elems[i].ID = fmt.Sprintf("e%d", len(s.Elems)-i)
	}
}

func sameHinges(a, b []Hinge) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[Hinge]bool{}
	for _, h := range a {
		m[h] = true
	}
	for _, h := range b {
		if !m[h] {
			return false
		}
	}
	return true
}
