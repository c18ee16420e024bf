package main

import (
	"fmt"
	"math"
)

// The space of values: structures which already have every feature, and for each single number in
// them - coordinates, stiffnesses, load values and positions, settlements, angles - a list of values
// it can be replaced by. All combinations of up to a depth are explored.

type values struct {
	coordinates []float64 // added
	stiffness   []float64 // factors
	loads       []float64
	positions   []float64 // relative to the length
	settlements []float64
	angles      []float64
	moduli      []float64 // factors for all elements
	farAway     []float64 // coordinates as in geodetic systems
}

// moveExactly moves all nodes, unless that rounds any of their distances.
func moveExactly(s *Spec, x, y, z float64) bool {
	moved := s.Clone()
	move := func(v *float64, d float64) bool {
		before := *v
		*v += d
		return *v-d == before
	}
	for i := range moved.Nodes {
		n := &moved.Nodes[i]
		if !move(&n.X, x) || !move(&n.Z, z) || is3d(s) && !move(&n.Y, y) {
			return false
		}
	}
	s.Nodes = moved.Nodes
	return true
}

var fineValues = values{
	coordinates: []float64{-1000, -17, -1, -0.3, -0x1p-10, -0x1p-20, 0x1p-20, 0x1p-10, 0.3, 1, 17, 1000},
	stiffness:   []float64{0.01, 0.5, 2, 100},
	loads:       []float64{-1e9, -1e4, -100, -1, -0.5, -1e-3, -1e-6, -1e-9, -1e-12, 0, 1e-12, 1e-9, 1e-6, 1e-3, 0.5, 1, 100, 1e4, 1e9},
	positions:   []float64{0, 1e-7, 1e-6, 1e-3, 0.1, 0.25, 1.0 / 3, 0.5, 2.0 / 3, 0.75, 0.9, 0.999, 1 - 1e-6, 1 - 1e-7, 1},
	settlements: []float64{-1e4, -100, -1, -0.5, -1e-3, -1e-6, -1e-9, -1e-12, 0, 1e-12, 1e-9, 1e-6, 1e-3, 0.5, 1, 100, 1e4},
	moduli:      []float64{1e-24, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12, 1e15, 1e24},
	farAway:     []float64{0x1p19},
	angles: []float64{-100, -7, -2 * math.Pi, -4.5, -math.Pi, -2, -math.Pi / 2, -1, -math.Pi / 4, -0.1, -1e-3, -1e-6, -1e-9,
		0, 1e-9, 1e-6, 1e-3, 0.1, math.Pi / 6, math.Pi / 4, 1, math.Pi / 2, 2, math.Pi, 4, 4.5, 2 * math.Pi, 7, 45, 90, 100, 180, 360},
}

var coarseValues = values{
	coordinates: []float64{-1, 0.3},
	stiffness:   []float64{0.01, 100},
	loads:       []float64{-1, 0, 100},
	positions:   []float64{0, 0.5, 1},
	settlements: []float64{0, -0.5},
	angles:      []float64{0, -2, math.Pi / 2, 4},
	moduli:      []float64{1e-10, 1e10},
	farAway:     []float64{-0x1p19},
}

func valueMenu(v *values) menuFn {
	return func(t *Spec) (m []Edit) {
		put := func(slot string, list []float64, f func(s *Spec, x float64) bool) {
			for _, x := range list {
				m = append(m, Edit{fmt.Sprintf("%v: %v", slot, x), slot, func(s *Spec) bool { return f(s, x) }})
			}
		}
		set := func(slot string, list []float64, at func(s *Spec) *float64) {
			put(slot, list, func(s *Spec, x float64) bool {
				p := at(s)
				if *p == x {
					return false
				}
				*p = x
				return true
			})
		}
		for i := range t.Nodes {
			add := func(slot string, at func(s *Spec) *float64) {
				put(slot, v.coordinates, func(s *Spec, x float64) bool {
					before := make([]float64, len(s.Elems))
					for e := range s.Elems {
						before[e] = s.Length(e)
					}
					*at(s) += x
					for e := range s.Elems { // keep loads where they are on their elements
						l := s.Length(e)
						if l == 0 {
							return false
						}
						for j := range s.Elems[e].Loads {
							p := &s.Elems[e].Loads[j].Pos
							*p = min(*p*(l/before[e]), l)
						}
					}
					return true
				})
			}
			add(fmt.Sprintf("x of node %v", i), func(s *Spec) *float64 { return &s.Nodes[i].X })
			add(fmt.Sprintf("z of node %v", i), func(s *Spec) *float64 { return &s.Nodes[i].Z })
			if t.Elems[0].Kind == "truss3d" {
				add(fmt.Sprintf("y of node %v", i), func(s *Spec) *float64 { return &s.Nodes[i].Y })
			}
		}
		for _, f := range v.moduli {
			m = append(m, Edit{fmt.Sprintf("stiffness of all: %v", f), "stiffness", func(s *Spec) bool { scaleStiffness(s, f); return true }})
		}
		for _, f := range v.farAway {
			m = append(m, Edit{fmt.Sprintf("moved by %v", f), "moved", func(s *Spec) bool { return moveExactly(s, f, f/2, -2*f) }})
		}
		for i := range t.Elems {
			scale := func(slot string, at func(m *Mat) *float64) {
				if *at(&t.Elems[i].Mat) == 0 {
					return
				}
				factors := v.stiffness
				if slot == "b" || slot == "h" {
					factors = []float64{0.1, 0.5, 2, 10}
				}
				put(fmt.Sprintf("%v of element %v", slot, i), factors, func(s *Spec, x float64) bool {
					*at(&s.Elems[i].Mat) *= x
					return true
				})
			}
			scale("E", func(m *Mat) *float64 { return &m.E })
			scale("A", func(m *Mat) *float64 { return &m.A })
			scale("Iyy", func(m *Mat) *float64 { return &m.Iyy })
			scale("b", func(m *Mat) *float64 { return &m.B })
			scale("h", func(m *Mat) *float64 { return &m.H })
			for j, l := range t.Elems[i].Loads {
				name := fmt.Sprintf("load %v of element %v", j, i)
				set(name+", value", v.loads, func(s *Spec) *float64 { return &s.Elems[i].Loads[j].V0 })
				if l.Deg == "linear" {
					set(name+", last value", v.loads, func(s *Spec) *float64 { return &s.Elems[i].Loads[j].V1 })
				}
				if l.Deg == "dirac" {
					put(name+", position", v.positions, func(s *Spec, x float64) bool {
						s.Elems[i].Loads[j].Pos = x * s.Length(i)
						return true
					})
				}
			}
		}
		for i := range t.Dirichlet {
			set(fmt.Sprintf("settlement %v", i), v.settlements, func(s *Spec) *float64 { return &s.Dirichlet[i].Val })
		}
		for i := range t.Neumann {
			set(fmt.Sprintf("nodal load %v", i), v.loads, func(s *Spec) *float64 { return &s.Neumann[i].Val })
		}
		for i := range t.Links {
			set(fmt.Sprintf("angle %v", i), v.angles, func(s *Spec) *float64 { return &s.Links[i].Angle })
		}
		return m
	}
}

// valueTemplates have every feature, on as few elements as possible.
func valueTemplates() []Template {
	get := func(n string) *Spec { return findTemplate(n).Clone() }
	bar := get("bar")
	bar.Elems[0].Loads = []Load{{"linear", Ux, 2, -1, 0}, {"dirac", Ux, 3, 0, 2}, {"constant", Ux, -4, 0, 0}}
	bar.Dirichlet[0].Val = 0.02
	bar.Neumann = []BC{{1, Ux, 5}}
	beam := get("cantilever")
	beam.Elems[0].Loads = []Load{{"linear", Uz, 2, -4, 0}, {"dirac", Phiy, 3, 0, 0.5}, {"dirac", Uz, 3, 0, 1}, {"constant", Ux, 2, 0, 0}, {"dirac", Ux, -2, 0, 0.7}}
	beam.Dirichlet = []BC{{0, Ux, 0.01}, {0, Uz, -0.02}, {0, Phiy, 0.03}}
	beam.Links = []Link{{1, Ux, Uz, 0.6}}
	beam.Neumann = []BC{{1, Uz, 3}, {1, Phiy, -2}}
	knee := get("knee")
	knee.Dirichlet = []BC{{0, Ux, 0.01}, {0, Uz, -0.02}, {0, Phiy, 0.03}}
	knee.Links = []Link{{2, Uz, Ux, -0.7}}
	knee.Elems[0].Hinges = []Hinge{{1, Phiy}}
	knee.Elems[0].Loads = []Load{{"linear", Uz, 2, -4, 0}, {"dirac", Phiy, 3, 0, 0.5}}
	knee.Elems[1].Loads = []Load{{"constant", Uz, 2, 0, 0}, {"dirac", Uz, 3, 0, 1}}
	knee.Elems[1].Mat = Mat{E: 3000, B: 0.4, H: 0.7}
	knee.Neumann = []BC{{1, Ux, 3}}
	out := []Template{{"bar", bar}, {"beam", beam}, {"knee", knee}}
	return append(out, richTemplates()...)
}

// exploreValues adds the space of values to a check.
func (x *Explorer) exploreValues(quick, thorough float64) {
	r := x.Run
	if r.Replay != nil || r.violations > 0 {
		return
	}
	for _, part := range []struct {
		name string
		v    *values
	}{{"values of ", &fineValues}, {"combined values of ", &coarseValues}} {
		if r.violations > 0 {
			return
		}
		bounds, exhaustive := r.Coverage["bounds"], r.Coverage["exhaustive"] != false
		tpls := valueTemplates()
		for i := range tpls {
			tpls[i].Name = part.name + tpls[i].Name
		}
		v := *part.v
		if r.ID == "C17" { // moves them on its own; rotating them rounds the positions of loads
			v.farAway = nil
		}
		x.exploreAll(tpls, valueMenu(&v), r.depth(quick, thorough, 6))
		r.Coverage["bounds"] = joinBounds(bounds, r.Coverage["bounds"])
		r.Coverage["exhaustive"] = exhaustive && r.Coverage["exhaustive"] != false
	}
}

func joinBounds(a, b any) any {
	out := map[string]any{}
	for _, m := range []any{a, b} {
		if m, ok := m.(map[string]any); ok {
			for k, v := range m {
				out[k] = v
			}
		}
	}
	return out
}
