package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"

	"github.com/lubgr/deflect/deflect"
)

// A Spec is a plain-data description of a boundary value problem. It is the state of the explored
// model space; the implementation under test is driven from it either through the Go constructors
// (Build) or through the JSON front end (JSON), and the reference model (ref.go) reads it directly.

const (
	Ux   = deflect.Ux
	Uz   = deflect.Uz
	Uy   = deflect.Uy
	Phiy = deflect.Phiy
	Phiz = deflect.Phiz
	Phix = deflect.Phix
)

type Dof = deflect.Dof

var dofNames = map[Dof]string{Ux: "Ux", Uz: "Uz", Uy: "Uy", Phiy: "Phiy", Phiz: "Phiz", Phix: "Phix"}
var forceNames = map[Dof]string{Ux: "Fx", Uz: "Fz", Uy: "Fy", Phiy: "My", Phiz: "Mz", Phix: "Mx"}
var lineNames = map[Dof]string{Ux: "qx", Uz: "qz", Uy: "qy", Phiy: "my", Phiz: "mz", Phix: "mx"}

type Node struct {
	ID      string
	X, Y, Z float64
}

type Mat struct {
	E, A, Iyy float64
	B, H      float64 // rectangular when > 0; A/Iyy are ignored then
}

func (m Mat) EA() float64 {
	if m.B > 0 {
		return m.E * m.B * m.H
	}
	return m.E * m.A
}

func (m Mat) EI() float64 {
	if m.B > 0 {
		return m.E * m.B * m.H * m.H * m.H / 12
	}
	return m.E * m.Iyy
}

// Izz must not matter in the plane, so it differs from Iyy.
func (m Mat) Izz() float64 { return 1.7 * m.Iyy }

type Load struct {
	Deg    string // dirac, constant, linear
	Kind   Dof
	V0, V1 float64
	Pos    float64
}

type Hinge struct {
	End int
	Dof Dof
}

type Elem struct {
	ID     string
	Kind   string // truss2d, truss3d, frame2d
	A, B   int
	Mat    Mat
	Hinges []Hinge
	Loads  []Load
}

type BC struct {
	Node int
	Dof  Dof
	Val  float64
}

type Link struct {
	Node     int
	From, To Dof
	Angle    float64
}

type Spec struct {
	Nodes     []Node
	Elems     []Elem
	Dirichlet []BC
	Neumann   []BC
	Links     []Link
	Flags     uint // how the problem is written down as a document, see Doc
}

func (s *Spec) Clone() *Spec {
	c := &Spec{
		Nodes:     append([]Node(nil), s.Nodes...),
		Elems:     append([]Elem(nil), s.Elems...),
		Dirichlet: append([]BC(nil), s.Dirichlet...),
		Neumann:   append([]BC(nil), s.Neumann...),
		Links:     append([]Link(nil), s.Links...),
		Flags:     s.Flags,
	}
	for i := range c.Elems {
		c.Elems[i].Hinges = append([]Hinge(nil), c.Elems[i].Hinges...)
		c.Elems[i].Loads = append([]Load(nil), c.Elems[i].Loads...)
	}
	return c
}

func (s *Spec) Length(e int) float64 {
	a, b := s.Nodes[s.Elems[e].A], s.Nodes[s.Elems[e].B]
	return math.Sqrt((b.X-a.X)*(b.X-a.X) + (b.Y-a.Y)*(b.Y-a.Y) + (b.Z-a.Z)*(b.Z-a.Z))
}

func (s *Spec) String() string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (m Mat) deflect() *deflect.Material {
	var cs deflect.CrossSection
	var err error
	if m.B > 0 {
		cs, err = deflect.NewRectangularCrossSection(m.B, m.H, 0)
	} else {
		constants := map[string]float64{"A": m.A, "Iyy": m.Iyy, "Izz": m.Izz()}
		cs, err = deflect.NewConstantsCrossSections(constants)
		constants["A"], constants["Iyy"], constants["Izz"] = 1, 1, 1 // it's the caller's
	}
	if err != nil {
		panic(fmt.Sprintf("harness: cross section: %v", err))
	}
	return &deflect.Material{
		CrossSection:  cs,
		LinearElastic: deflect.LinearElastic{YoungsModulus: m.E, PoissonsRatio: 0.3, Density: 1},
	}
}

func (l Load) deflect() (deflect.NeumannElementBC, error) {
	switch l.Deg {
	case "dirac":
		return deflect.NewElementConcentratedLoad(l.Kind, l.Pos, l.V0)
	case "constant":
		return deflect.NewElementConstantLoad(l.Kind, l.V0), nil
	case "linear":
		return deflect.NewElementLinearLoad(l.Kind, l.V0, l.V1), nil
	}
	panic("harness: load degree " + l.Deg)
}

func (s *Spec) index(n int, d Dof) deflect.Index {
	return deflect.Index{NodalID: s.Nodes[n].ID, Dof: d}
}

// newElement calls the constructor of the implementation for one element (without loads).
func (s *Spec) newElement(e *Elem, nodes []deflect.Node) (deflect.Element, error) {
	return s.newElementOf(e, nodes, e.Mat.deflect())
}

func (s *Spec) newElementOf(e *Elem, nodes []deflect.Node, m *deflect.Material) (deflect.Element, error) {
	// callers may reuse the map for the next element, and need none if there are no hinges
	hinges := map[deflect.Index]struct{}{}
	if len(e.Hinges) == 0 && len(e.ID)%2 == 0 {
		hinges = nil
	}
	defer clear(hinges)
	for _, h := range e.Hinges {
		n := e.A
		if h.End == 1 {
			n = e.B
		}
		hinges[s.index(n, h.Dof)] = struct{}{}
	}
	switch e.Kind {
	case "truss2d":
		return deflect.NewTruss2d(e.ID, &nodes[e.A], &nodes[e.B], m, hinges)
	case "truss3d":
		return deflect.NewTruss3d(e.ID, &nodes[e.A], &nodes[e.B], m, hinges)
	case "frame2d":
		return deflect.NewFrame2d(e.ID, &nodes[e.A], &nodes[e.B], m, hinges)
	}
	panic("harness: element kind " + e.Kind)
}

func (s *Spec) buildNodes() []deflect.Node {
	nodes := make([]deflect.Node, len(s.Nodes))
	for i, n := range s.Nodes {
		nodes[i] = deflect.Node{ID: n.ID, X: n.X, Y: n.Y, Z: n.Z}
	}
	return nodes
}

type loadRefused struct{ what string }

func (l loadRefused) Error() string { return l.what }

// Build constructs the problem through the exported Go constructors.
func (s *Spec) Build() (*deflect.Problem, error) {
	p := &deflect.Problem{Nodes: s.buildNodes()}
	for i := range s.Elems {
		e := &s.Elems[i]
		el, err := s.newElement(e, p.Nodes)
		if err != nil {
			return nil, err
		}
		for _, l := range e.Loads {
			bc, err := l.deflect()
			if err != nil {
				return nil, err
			}
			if !el.AddLoad(bc) {
				return nil, loadRefused{fmt.Sprintf("element %v refused load %+v", e.ID, l)}
			}
		}
		p.Elements = append(p.Elements, el)
	}
	for _, d := range s.Dirichlet {
		p.Dirichlet = append(p.Dirichlet, deflect.NodalValue{Index: s.index(d.Node, d.Dof), Value: d.Val})
	}
	for _, d := range s.Neumann {
		p.Neumann = append(p.Neumann, deflect.NodalValue{Index: s.index(d.Node, d.Dof), Value: d.Val})
	}
	for _, l := range s.Links {
		t, bc := deflect.NewInclinedSupport(s.index(l.Node, l.From), s.index(l.Node, l.To), l.Angle)
		p.EqTransforms = append(p.EqTransforms, t)
		p.Dirichlet = append(p.Dirichlet, bc)
	}
	return p, nil
}

func jsonString(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func num(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }
