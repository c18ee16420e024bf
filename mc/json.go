package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lubgr/deflect/deflect"
)

// C10: a document and the constructor calls that say the same thing lead to the same problem.

func problemString(p *deflect.Problem) string {
	var out []string
	for _, n := range p.Nodes {
		out = append(out, fmt.Sprintf("node %q %v %v %v", n.ID, n.X, n.Y, n.Z))
	}
	for _, e := range p.Elements {
		set := map[deflect.Index]struct{}{}
		e.Indices(set)
		var idx []string
		for i := range set {
			idx = append(idx, fmt.Sprintf("%q/%v", i.NodalID, i.Dof))
		}
		sort.Strings(idx)
		out = append(out, fmt.Sprintf("element %q %v %v", e.ID(), e.NumNodes(), idx))
	}
	for _, v := range p.Dirichlet {
		out = append(out, fmt.Sprintf("support %q/%v %v", v.NodalID, v.Dof, v.Value))
	}
	for _, v := range p.Neumann {
		out = append(out, fmt.Sprintf("load %q/%v %v", v.NodalID, v.Dof, v.Value))
	}
	out = append(out, fmt.Sprintf("%v transformers", len(p.EqTransforms)))
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func evalDocument(s *Spec) Verdict {
	if !s.hingesSupported() {
		return Verdict{Class: "unsupported release", Trivial: true}
	}
	doc := s.Render(s.Flags)
	if !json.Valid([]byte(doc)) {
		panic("harness: invalid document " + doc)
	}
	direct, errDirect := s.Build()
	parsed, errParsed := parseProblem(doc)
	switch {
	case len(s.Dirichlet)+len(s.Links) == 0:
		if errParsed == nil {
			return Verdict{Class: "accepted", Msg: "document without any support accepted"}
		}
		return Verdict{Class: "no supports, refused"}
	case errDirect != nil:
		return Verdict{Class: "refused by constructors", Trivial: true}
	case errParsed != nil:
		return Verdict{Class: "refused", Msg: "valid document refused: " + errParsed.Error()}
	}
	if s.Flags&docUnusedNode != 0 {
		direct.Nodes = append(direct.Nodes, deflect.Node{ID: "unused", X: 1, Y: 2, Z: 3})
	}
	if a, b := problemString(&parsed), problemString(direct); a != b {
		return Verdict{Class: "compared", Msg: fmt.Sprintf("the document describes\n%v\nbut the problem is\n%v", b, a)}
	}
	o := Analyse(&parsed, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
	w := Analyse(direct, deflect.NewLinearProblemSolver(), deflect.NewCholeskySolver())
	if o.Failed() && w.Failed() && o.Panic == "" {
		return Verdict{Class: "compared, not solvable"}
	}
	ref, err := RefSolve(s)
	if err != nil {
		// on the edge of what can be solved, summation order decides
		return Verdict{Class: "compared, unstable or ill-conditioned"}
	}
	tol := ref.tol()
	if ref.spread() < 1e6 {
		tol = tol.times(0.1)
	}
	if m := nearWithin(&o, &w, 1e-9, tol); m != "" {
		return Verdict{Class: "compared", Msg: "the document yields " + m + " from constructor calls"}
	}
	return Verdict{Class: "compared"}
}

func docMenu(s *Spec) []Edit {
	o := fullMenu()
	m := Menu(s, o)
	for i := 0; i < docVariants; i++ {
		m = append(m, Edit{"document: " + docNames[i], fmt.Sprint("doc", i), func(s *Spec) bool { s.Flags |= 1 << i; return true }})
	}
	return m
}

func allVariants(s *Spec) []Edit {
	var m []Edit
	for i := 0; i < docVariants; i++ {
		m = append(m, Edit{"document: " + docNames[i], fmt.Sprint("doc", i), func(s *Spec) bool { s.Flags |= 1 << i; return true }})
	}
	return m
}

// C11: faulty documents.

type fault struct {
	name  string
	apply func(root *jv) *jv // on a copy
}

// at returns the subtree at a path of child positions.
func (j *jv) at(path []int) *jv {
	for _, i := range path {
		j = j.vals[i]
	}
	return j
}

func (j *jv) paths(prefix []int, f func(path []int, v *jv)) {
	f(prefix, j)
	for i, v := range j.vals {
		v.paths(append(append([]int(nil), prefix...), i), f)
	}
}

var wrongValues = []string{`"zz"`, `""`, `-1`, `0`, `1e9`, `1e999`, `true`, `null`, `[]`, `{}`, `[1]`, `{"Ux":0}`, `"Ux"`, `"Phiy"`, `"Fz"`, `"qx"`, `"truss2d"`, `"linear"`, `"A"`}

// single faults have further values.
var moreWrongValues = append([]string{`"B"`, `"AB"`, `"AA"`, `2`, `1.5`, `-0`, `1e-320`, `1e308`, `"Linear"`, `"linear "`, `"dirac"`, `"constant"`, `"quadratic"`, `"Frame2d"`, `"frame2d"`,
	`"frame3d"`, `"truss3d"`, `"rectangle"`, `"constants"`, `"My"`, `"Fx"`, `"Fy"`, `"qz"`, `"mz"`, `"Uz"`, `"Uy"`, `"Phix"`, `"1"`, `[0,0]`, `[1,2,3,4]`, `["A"]`, `["A","B"]`, `["B","A"]`,
	`["A","A"]`, `["A","B","C"]`, `["Ux"]`, `["Phiy","Phiy"]`, `[null]`, `[{}]`, `[[]]`, `{"A":[]}`, `{"A":["Ux"]}`, `{"Fz":1}`, `{"Ux":null}`, `{"kind":"qz"}`, `{"kind":"qz","degree":"constant","values":[1]}`}, wrongValues...)

// faults lists everything that can go wrong at one place of the document.
func faults(root *jv, values []string) []fault {
	var out []fault
	root.paths(nil, func(path []int, v *jv) {
		where := fmt.Sprint(path)
		for _, w := range values {
			if v.kind == 'l' && v.lit == w {
				continue
			}
			out = append(out, fault{where + " := " + w, func(r *jv) *jv {
				t := r.at(path)
				*t = *parseLit(w)
				return r
			}})
		}
		for i := range v.vals {
			out = append(out, fault{fmt.Sprintf("%v remove %v", where, i), func(r *jv) *jv {
				t := r.at(path)
				t.vals = append(t.vals[:i:i], t.vals[i+1:]...)
				if t.kind == 'o' {
					t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
				}
				return r
			}})
			if v.kind == 'a' {
				out = append(out, fault{fmt.Sprintf("%v repeat %v", where, i), func(r *jv) *jv {
					t := r.at(path)
					t.vals = append(t.vals, t.vals[i].clone())
					return r
				}})
			}
		}
		for i, k := range v.keys {
			for _, name := range []string{"zz", "", k + "x", " " + k, k[:len(k)-min(1, len(k))], "A", "AA", "AB", "BA", "ABC", "Uy", "Mx"} {
				if name == k {
					continue
				}
				out = append(out, fault{fmt.Sprintf("%v rename %v to %q", where, k, name), func(r *jv) *jv {
					r.at(path).keys[i] = name
					return r
				}})
			}
		}
	})
	return out
}

func parseLit(w string) *jv { return parseDocument(w) }

// An interpretation of a document, independent of the implementation. Documents that are neither
// clearly right nor clearly wrong are left open.
type reading struct {
	refuse string
	open   string
	spec   *Spec
}

func (r *reading) no(f string, a ...any) {
	if r.refuse == "" {
		r.refuse = fmt.Sprintf(f, a...)
	}
}

func (r *reading) unclear(f string, a ...any) {
	if r.open == "" {
		r.open = fmt.Sprintf(f, a...)
	}
}

func (r *reading) str(v *jv) string {
	if v == nil {
		return ""
	}
	var s string
	if v.kind != 'l' || v.lit == "null" || json.Unmarshal([]byte(v.lit), &s) != nil {
		r.no("%v is not a string", v)
		return ""
	}
	return s
}

func (r *reading) num(v *jv) float64 {
	if v.kind == 'l' {
		if x, err := strconv.ParseFloat(v.lit, 64); err == nil {
			if math.Abs(x) > 1e100 {
				r.unclear("out of range")
			}
			return x
		}
	}
	r.no("%v is not a number", v)
	return math.NaN()
}

func (r *reading) is(v *jv, kind byte) bool {
	if v.kind != kind {
		r.no("%v has a wrong type", v)
		return false
	}
	return true
}

// fields reports duplicates, which are left open.
func (r *reading) fields(v *jv) {
	seen := map[string]bool{}
	for _, k := range v.keys {
		if seen[k] {
			r.unclear("duplicate key %q", k)
		}
		seen[k] = true
		for _, name := range documentKeys {
			if k != name && strings.EqualFold(k, name) {
				r.unclear("letter case of %q", k)
			}
		}
	}
}

var documentKeys = []string{"nodes", "material", "crosssection", "elements", "dirichlet", "neumann", "links", "kind", "parameter",
	"cs", "hinges", "from", "to", "angle", "degree", "values", "position"}

func invert(m map[Dof]string) map[string]Dof {
	out := map[string]Dof{}
	for k, v := range m {
		out[v] = k
	}
	return out
}

var dofOf, forceOf, lineOf = invert(dofNames), invert(forceNames), invert(lineNames)

func readDocument(root *jv) (r reading) {
	root.paths(nil, func(_ []int, v *jv) {
		if v.kind == 'l' && v.lit == "null" {
			r.unclear("null")
		}
		if v.kind == 'o' {
			r.fields(v)
		}
	})
	if !r.is(root, 'o') {
		return r
	}
	section := func(name string) *jv {
		v := root.get(name)
		if v == nil {
			return jobj()
		}
		if !r.is(v, 'o') {
			return jobj()
		}
		return v
	}
	s := &Spec{}
	nodes := section("nodes")
	nodeOf := map[string]int{}
	for i, id := range nodes.keys {
		v := nodes.vals[i]
		if id == "" {
			r.unclear("node without a name")
		}
		if !r.is(v, 'a') {
			continue
		}
		n := Node{ID: id}
		if len(v.vals) != 3 {
			r.unclear("%v coordinates", len(v.vals))
			for _, c := range v.vals {
				if c.kind != 'l' {
					r.num(c)
				}
			}
		} else {
			n.X, n.Y, n.Z = r.num(v.vals[0]), r.num(v.vals[1]), r.num(v.vals[2])
		}
		nodeOf[id] = len(s.Nodes)
		s.Nodes = append(s.Nodes, n)
	}
	params := func(v *jv) map[string]float64 {
		out := map[string]float64{}
		p := v.get("parameter")
		if p == nil || !r.is(p, 'o') {
			return out
		}
		for i, k := range p.keys {
			out[k] = r.num(p.vals[i])
		}
		return out
	}
	material, cross := section("material"), section("crosssection")
	matOf, csOf := map[string]func() float64{}, map[string]func() Mat{}
	for i, id := range material.keys {
		v := material.vals[i]
		if !r.is(v, 'o') {
			continue
		}
		r.str(v.get("kind"))
		p := params(v)
		bad := ""
		for _, k := range []string{"E", "nu", "rho"} {
			if _, ok := p[k]; !ok {
				bad = "material without " + k
			}
		}
		matOf[id] = func() float64 {
			if bad != "" {
				r.no("%v", bad)
			}
			if !(p["E"] > 0) {
				r.unclear("E = %v", p["E"])
			}
			return p["E"]
		}
		if bad != "" {
			matOf[id+"\x00"] = nil
		}
	}
	for i, id := range cross.keys {
		v := cross.vals[i]
		if !r.is(v, 'o') {
			continue
		}
		kind := r.str(v.get("kind"))
		p := params(v)
		var need []string
		bad := ""
		switch kind {
		case "rectangle":
			need = []string{"b", "h"}
		case "constants":
			need = []string{"A", "Iyy", "Izz"}
			if p["Ixx"] < 0 {
				bad = "negative Ixx"
			}
		default:
			bad = "cross section " + kind
		}
		if p["roll"] < 0 {
			bad = "negative roll angle"
		}
		for _, k := range need {
			if x, ok := p[k]; !ok || !(x > 0) {
				bad = "cross section with missing or non-positive " + k
			}
		}
		csOf[id] = func() Mat {
			if bad != "" {
				r.no("%v", bad)
			}
			if kind == "rectangle" {
				return Mat{B: p["b"], H: p["h"]}
			}
			return Mat{A: p["A"], Iyy: p["Iyy"]}
		}
		if bad != "" {
			csOf[id+"\x00"] = nil
		}
	}
	faultyMat, faultyCS := map[string]bool{}, map[string]bool{}
	clean := func(n int, ids []string, del func(string) bool, faulty map[string]bool) {
		for _, id := range ids {
			if del(id + "\x00") {
				faulty[id] = true
			}
		}
	}
	clean(0, material.keys, func(k string) bool { _, ok := matOf[k]; delete(matOf, k); return ok }, faultyMat)
	clean(0, cross.keys, func(k string) bool { _, ok := csOf[k]; delete(csOf, k); return ok }, faultyCS)
	elements := section("elements")
	elemOf := map[string]int{}
	for i, id := range elements.keys {
		v := elements.vals[i]
		if id == "" {
			r.no("element without a name")
		}
		if !r.is(v, 'o') {
			continue
		}
		e := Elem{ID: id, Kind: r.str(v.get("kind"))}
		if e.Kind != "truss2d" && e.Kind != "truss3d" && e.Kind != "frame2d" {
			r.no("element kind %q", e.Kind)
		}
		var ends []string
		if n := v.get("nodes"); n != nil && r.is(n, 'a') {
			for _, x := range n.vals {
				ends = append(ends, r.str(x))
			}
		}
		if len(ends) == 0 {
			for _, c := range id {
				ends = append(ends, string(c))
			}
		}
		if len(ends) != 2 {
			r.no("element %q with %v nodes", id, len(ends))
			continue
		}
		var ok0, ok1 bool
		e.A, ok0 = nodeOf[ends[0]]
		e.B, ok1 = nodeOf[ends[1]]
		if !ok0 || !ok1 {
			r.no("element %q with unknown nodes", id)
			continue
		}
		pick := func(name string, n int) {
			if name == "" && n != 1 {
				r.no("ambiguous material or cross section")
			}
		}
		mid, cid := r.str(v.get("material")), r.str(v.get("cs"))
		pick(mid, len(material.keys))
		pick(cid, len(cross.keys))
		if mid == "" && len(material.keys) == 1 {
			mid = material.keys[0]
		}
		if cid == "" && len(cross.keys) == 1 {
			cid = cross.keys[0]
		}
		m, c := matOf[mid], csOf[cid]
		if m == nil || c == nil {
			r.no("unknown material %q or cross section %q", mid, cid)
			continue
		}
		delete(faultyMat, mid)
		delete(faultyCS, cid)
		e.Mat = c()
		e.Mat.E = m()
		if h := v.get("hinges"); h != nil && r.is(h, 'o') {
			for k, n := range h.keys {
				end := -1
				if n == ends[0] {
					end = 0
				} else if n == ends[1] {
					end = 1
				} else {
					r.no("hinge at foreign node %q", n)
				}
				if !r.is(h.vals[k], 'a') {
					continue
				}
				for _, x := range h.vals[k].vals {
					d, ok := dofOf[r.str(x)]
					if !ok {
						r.no("unknown hinge %v", x)
						continue
					}
					if e.Kind == "frame2d" && d != Ux && d != Uz && d != Phiy || e.Kind != "frame2d" && d != Ux {
						r.unclear("hinge the element doesn't have")
					}
					e.Hinges = append(e.Hinges, Hinge{max(end, 0), d})
				}
			}
		}
		elemOf[id] = len(s.Elems)
		s.Elems = append(s.Elems, e)
		if r.refuse == "" && r.open == "" && s.Length(len(s.Elems)-1) == 0 {
			r.no("element of zero length")
		}
	}
	if len(faultyMat)+len(faultyCS) > 0 {
		r.unclear("faulty, but unused entry")
	}
	if len(s.Nodes) == 0 || len(elements.keys) == 0 || len(material.keys) == 0 || len(cross.keys) == 0 {
		r.no("empty section")
	}
	conn := s.connected()
	index := func(id string, d Dof, what string) (int, bool) {
		n, ok := nodeOf[id]
		if !ok || !conn[refKey{n, d}] {
			r.no("%v at unconnected %v/%v", what, id, d)
			return 0, false
		}
		return n, true
	}
	taken := map[refKey]bool{}
	lists := func(name string, f func(id string, v *jv)) {
		sec := section(name)
		for i, id := range sec.keys {
			if !r.is(sec.vals[i], 'a') {
				continue
			}
			for _, v := range sec.vals[i].vals {
				if r.is(v, 'o') {
					f(id, v)
				}
			}
		}
	}
	lists("dirichlet", func(id string, v *jv) {
		for i, k := range v.keys {
			x := r.num(v.vals[i])
			d, ok := dofOf[k]
			if !ok {
				r.no("unknown degree of freedom %q", k)
				continue
			}
			if n, ok := index(id, d, "support"); ok {
				if taken[refKey{n, d}] {
					r.no("duplicate support")
				}
				taken[refKey{n, d}] = true
				s.Dirichlet = append(s.Dirichlet, BC{n, d, x})
			}
		}
	})
	lists("links", func(id string, v *jv) {
		f, ok0 := dofOf[r.str(v.get("from"))]
		t, ok1 := dofOf[r.str(v.get("to"))]
		if !ok0 || !ok1 || f >= Phiy || t >= Phiy || f == t {
			r.no("link %v -> %v", v.get("from"), v.get("to"))
			return
		}
		l := Link{From: f, To: t}
		if a := v.get("angle"); a != nil {
			l.Angle = r.num(a)
		} else {
			r.unclear("no angle")
		}
		n, ok := index(id, t, "link")
		n2, ok2 := index(id, f, "link")
		if !ok || !ok2 {
			return
		}
		if taken[refKey{n, t}] {
			r.no("duplicate support")
		}
		taken[refKey{n, t}] = true
		if hasBC(s.Dirichlet, n2, f) >= 0 {
			r.unclear("support of an inclined support's sliding direction")
		}
		l.Node = n
		s.Links = append(s.Links, l)
	})
	if len(taken) == 0 {
		r.no("no supports")
	}
	lists("neumann", func(id string, v *jv) {
		kind, degree := v.get("kind"), v.get("degree")
		if len(v.keys) == 0 {
			r.unclear("empty load")
			return
		}
		if kind == nil && degree == nil {
			for i, k := range v.keys {
				x := r.num(v.vals[i])
				d, ok := forceOf[k]
				if !ok {
					r.no("unknown load %q", k)
					continue
				}
				if n, ok := index(id, d, "load"); ok {
					s.Neumann = append(s.Neumann, BC{n, d, x})
				}
			}
			return
		}
		if kind == nil || degree == nil {
			r.no("incomplete element load")
			return
		}
		ld := Load{Deg: r.str(degree)}
		k := r.str(kind)
		ei, ok := elemOf[id]
		if !ok {
			r.no("load on unknown element %q", id)
			return
		}
		var values, pos []float64
		for j, key := range []string{"values", "position"} {
			if l := v.get(key); l != nil && r.is(l, 'a') {
				for _, x := range l.vals {
					if j == 0 {
						values = append(values, r.num(x))
					} else {
						pos = append(pos, r.num(x))
					}
				}
			}
		}
		fd, isForce := forceOf[k]
		ldf, isLine := lineOf[k]
		if !isForce && !isLine {
			r.no("unknown load %q", k)
			return
		}
		ld.Kind = fd
		if isLine {
			ld.Kind = ldf
		}
		need := map[string]int{"dirac": 1, "constant": 1, "linear": 2}[ld.Deg]
		if need == 0 || len(values) != need || ld.Deg == "dirac" && len(pos) != 1 {
			r.no("%v load with %v values and %v positions", ld.Deg, len(values), len(pos))
			return
		}
		if (ld.Deg == "dirac") == isLine {
			r.unclear("%v as %v load", k, ld.Deg)
		}
		if ld.Deg != "dirac" && len(pos) != 0 {
			r.unclear("position of a distributed load")
		}
		ld.V0 = values[0]
		if need == 2 {
			ld.V1 = values[1]
		}
		if ld.Deg == "dirac" {
			ld.Pos = pos[0]
			l := s.Length(ei)
			if ld.Pos < 0 || ld.Pos > l*(1+1e-6)+1e-6 {
				r.no("load at %v, element length is %v", ld.Pos, l)
			} else if ld.Pos > l {
				r.unclear("load at the very end")
			}
		}
		e := &s.Elems[ei]
		switch {
		case ld.Kind == Ux, e.Kind == "frame2d" && (ld.Kind == Uz || ld.Kind == Phiy && ld.Deg == "dirac"):
		default:
			r.no("%v load %v on %v", ld.Deg, ld.Kind, e.Kind)
		}
		e.Loads = append(e.Loads, ld)
	})
	for i := range s.Elems {
		if s.Elems[i].Kind != "truss3d" {
			a, b := s.Nodes[s.Elems[i].A], s.Nodes[s.Elems[i].B]
			if a.Y != b.Y {
				r.unclear("plane element that leaves its plane")
			}
		}
	}
	r.spec = s
	return r
}

// checkFaulty decides one document.
func checkFaulty(doc *jv) (class, msg string) { return checkText(doc, doc.String()) }

// checkText decides the text of a document.
func checkText(doc *jv, text string) (class, msg string) {
	o := RunJSONDoc([]byte(text))
	if o.Panic != "" {
		return "panic", "panic: " + o.Panic
	}
	r := readDocument(doc)
	switch {
	case r.open != "":
		return "left open", ""
	case r.refuse != "" && !o.Failed():
		return "accepted", "result for a faulty document (" + r.refuse + ")"
	case r.refuse != "":
		return "refused", ""
	}
	w := r.spec.Run()
	if w.Panic != "" {
		return "panic", "panic: " + w.Panic
	}
	if o.Failed() && w.Failed() {
		return "well-formed, not solvable", ""
	}
	if o.Failed() != w.Failed() {
		if r.spec.hingesSupported() && RefVerdict(r.spec) == nil {
			return "well-formed", "document yields " + o.Describe() + ", constructors " + w.Describe()
		}
		return "well-formed, on the edge", ""
	}
	ref, err := RefSolve(r.spec)
	if err != nil {
		return "well-formed, ill-conditioned", ""
	}
	if m := nearWithin(&o, &w, math.Max(1e-7, 1e-14*ref.spread()), ref.tol()); m != "" {
		return "well-formed", "document yields " + m + " from constructor calls"
	}
	return "well-formed", ""
}

type baseDoc struct {
	name string
	doc  *jv
}

func baseDocs() []baseDoc {
	get := func(n string) *Spec { return findTemplate(n).Clone() }
	small := get("bar")
	small.Neumann = []BC{{1, Ux, 5}}
	small.Elems[0].Loads = []Load{{"linear", Ux, 2, -1, 0}}
	cant := get("cantilever")
	cant.Neumann = []BC{{1, Uz, 3}}
	cant.Elems[0].Loads = []Load{{"constant", Uz, 2, 0, 0}, {"dirac", Phiy, 3, 0, 0.5}}
	mixed := get("knee")
	mixed.Elems[1].Mat = matB
	mixed.Elems[0].Hinges = []Hinge{{1, Phiy}}
	mixed.Elems[1].Loads = []Load{{"dirac", Uz, 2, 0, 1}}
	mixed.Dirichlet = sup(0, Ux, Uz, Phiy)
	mixed.Links = []Link{{2, Ux, Uz, 0.6}}
	mixed.Neumann = []BC{{1, Ux, 7}}
	space := get("tripod")
	space.Elems[1].Hinges = []Hinge{{0, Ux}}
	space.Elems[0].Hinges = nil
	space.Links = []Link{{3, Ux, Uy, 0.6}}
	space.Neumann = []BC{{3, Uz, 7}}
	return []baseDoc{
		{"bar", small.Doc(docInferNodes | docInferMat | docInferCS | docOmitEmpty)},
		{"cantilever", cant.Doc(docInferMat)},
		{"mixed", mixed.Doc(docInferNodes | docOmitEmpty)},
		{"space", space.Doc(docInferNodes | docInferCS)},
	}
}

// fullDocs has documents which write several values into one object and use all optional parameters.
func fullDocs() []baseDoc {
	get := func(n string) *Spec { return findTemplate(n).Clone() }
	plane := get("cantilever")
	plane.Dirichlet = []BC{{0, Ux, 0.25}, {0, Uz, -0.5}, {0, Phiy, 0.125}}
	plane.Neumann = []BC{{1, Ux, 3}, {1, Uz, 5}, {1, Phiy, 2}}
	plane.Elems[0].Loads = []Load{{"constant", Ux, 2, 0, 0}, {"linear", Uz, 2, -1, 0}, {"dirac", Uz, 3, 0, 0.5}}
	knee := get("knee")
	knee.Elems[1].Mat = matB
	knee.Elems[0].Mat = Mat{E: 3, A: 2, Iyy: 1.5, B: 2, H: 1}
	knee.Elems[0].Mat.A, knee.Elems[0].Mat.Iyy = 2*1, 2.0/12
	knee.Dirichlet = sup(0, Ux, Uz, Phiy)
	knee.Neumann = []BC{{2, Ux, 3}, {2, Uz, 5}, {2, Phiy, 2}, {1, Phiy, -2}, {1, Ux, 2}}
	space := get("tripod")
	for i := range space.Dirichlet {
		space.Dirichlet[i].Val = 0.125 * float64(i%3+1)
	}
	space.Neumann = []BC{{3, Ux, 3}, {3, Uy, 5}, {3, Uz, 2}}
	return []baseDoc{
		{"plane, grouped", plane.Doc(docGroup | docExtra)},
		{"knee, grouped", knee.Doc(docGroup | docExtra | docReverseBC)},
		{"space, grouped", space.Doc(docGroup | docExtra)},
	}
}

func init() {
	checks["C10"] = func(r *Run) {
		x := NewExplorer(r, evalDocument)
		depth := r.depth(2.5e5, 1e7, 5)
		x.exploreAll(allTemplates(), docMenu, depth)
		if r.violations > 0 || r.Replay != nil {
			return
		}
		// every combination of ways to write a document, for a few rich problems
		var rich []Template
		for i, sc := range solverScenes() {
			if i < 5 {
				rich = append(rich, Template{"rich " + sc.name, sc.spec})
			}
		}
		x.exploreAll(rich, allVariants, func(Template, int) int { return docVariants })
		if r.violations > 0 {
			return
		}
		first := r.Coverage
		r.Coverage = map[string]any{}
		if names(r); r.violations > 0 {
			return
		}
		r.mergeCoverage(first)
		first = r.Coverage
		r.Coverage = map[string]any{}
		numberValues(r)
		r.mergeCoverage(first)
	}
	checks["C11"] = func(r *Run) {
		x := NewSpace(r)
		docs := baseDocs()
		for _, b := range docs {
			if c, m := checkFaulty(b.doc); c != "well-formed" || m != "" {
				r.Violation(fmt.Sprintf("valid document %v: %v %v", b.name, c, m), map[string]any{"document": b.doc.String()})
				x.stop.Store(true)
			}
		}
		byteLevel(x, docs)
		for _, b := range docs {
			fs := faults(b.doc, moreWrongValues)
			x.Each("single faults of "+b.name, len(fs), func(i int) (string, map[string]any) {
				d := fs[i].apply(b.doc.clone())
				c, m := checkFaulty(d)
				x.Count(1, 1, 1)
				x.Class(c)
				return m, map[string]any{"fault": fs[i].name, "document": d.String(), "class": c}
			})
		}
		second := []string{`"zz"`, `-1`, `[]`, `"Phiy"`}
		if !r.Quick() {
			second = wrongValues
		}
		for i, b := range docs {
			if r.Quick() && i == 2 {
				break
			}
			fs := faults(b.doc, wrongValues)
			x.Each("double faults of "+b.name, len(fs), func(i int) (msg string, data map[string]any) {
				d := fs[i].apply(b.doc.clone())
				local := map[string]int64{}
				all := faults(d, second)
				for _, f := range all {
					e := f.apply(d.clone())
					c, m := checkFaulty(e)
					local[c]++
					if m != "" {
						msg, data = m, map[string]any{"faults": []string{fs[i].name, f.name}, "document": e.String()}
						break
					}
				}
				for c, n := range local {
					x.addClass(c, n)
				}
				x.Count(int64(len(all)), int64(len(all)), int64(len(all)))
				return msg, data
			})
		}
		x.Finish()
	}
}

// characters that names consist of.
var characters = []string{"A", "B", "a", "b", "0", "1", "m", "-", "_", " ", ".", ",", ":", "#", "$", "/", "<", "&", "'", "\"", "\\", "\n", "\t",
	"\x7f", "\u0084", "\u00c3", "\u00c4", "\u00e4", "A\u0308", "\u03c3", "\u03c2", "\u2028", "\u20ac", "\u4e2d", "\ufeff", "\ufffd", "\U0001f600", "Ux", "Phiy", "nodes", "AB"}

// names explores the names of nodes, elements, materials and cross sections, in a document which
// has a node for every other name, too.
func names(r *Run) {
	x := NewSpace(r)
	n := len(characters)
	elementNames := []func(a, b string) string{
		func(a, b string) string { return a + b },
		func(a, b string) string { return b + a },
		func(a, b string) string { return a },
		func(a, b string) string { return a + a },
		func(a, b string) string { return "element " + b },
	}
	flags := []uint{docInferNodes, 0, docInferNodes | docEscapes, docInferNodes | docReverse | docGroup | docReverseBC, docEscapes | docEmptyLists}
	x.Bounds["names"] = characters
	x.Each("names of nodes and elements", n*n*len(elementNames)*len(flags), func(i int) (string, map[string]any) {
		a, b := i%n, i/n%n
		if a == b {
			return "", nil
		}
		s := findTemplate("cantilever").Clone()
		s.Nodes[0].ID, s.Nodes[1].ID = characters[a], characters[b]
		for j, c := range characters {
			if j != a && j != b {
				s.Nodes = append(s.Nodes, Node{ID: c, X: float64(j), Y: 1, Z: -float64(j)})
			}
		}
		s.Elems[0].ID = elementNames[i/n/n%len(elementNames)](characters[a], characters[b])
		s.Flags = flags[i/n/n/len(elementNames)]
		s.Neumann = []BC{{0, Ux, 3}, {1, Uz, 5}, {1, Phiy, -2}}
		s.Elems[0].Loads = []Load{{"constant", Uz, 2, 0, 0}, {"dirac", Ux, 3, 0, 0.5}}
		v := evalDocument(s)
		x.Count(1, 1, 1)
		x.Class(v.Class)
		if v.Msg == "" && v.Class != "compared" {
			v.Msg = "valid document not solved: " + v.Class
		}
		return v.Msg, map[string]any{"document": s.Render(s.Flags)}
	})
	x.Each("names of materials and cross sections", n*n*4, func(i int) (string, map[string]any) {
		a, b := i%n, i/n%n
		if a == b {
			return "", nil
		}
		s := findTemplate("knee").Clone()
		s.Elems[1].Mat = matB
		s.Elems[1].Mat.E *= 3
		s.Neumann = []BC{{1, Ux, 3}, {1, Uz, 5}, {1, Phiy, -2}}
		d := s.Doc(docInferNodes)
		rename := func(v *jv) {
			if v.lit == `"m0"` || v.lit == `"c0"` {
				v.lit = jsonString(characters[a])
			} else {
				v.lit = jsonString(characters[b])
			}
		}
		for _, section := range []string{"material", "crosssection"} {
			m := d.get(section)
			m.keys[0], m.keys[1] = characters[a], characters[b]
			for j, c := range characters {
				if i/n/n&1 != 0 && j != a && j != b {
					m.put(c, m.vals[j%2].clone())
					for k := range m.vals[len(m.vals)-1].get("parameter").vals {
						m.vals[len(m.vals)-1].get("parameter").vals[k] = jnum(0.01 * float64(j+1))
					}
				}
			}
		}
		for _, e := range d.get("elements").vals {
			rename(e.get("material"))
			rename(e.get("cs"))
		}
		if i/n/n&2 != 0 {
			d.reverseObjects()
		}
		c, m := checkFaulty(d)
		x.Count(1, 1, 1)
		x.Class(c)
		if m == "" && c != "well-formed" {
			m = "valid document: " + c
		}
		return m, map[string]any{"document": d.String()}
	})
	x.Finish()
}

// validNumbers to be written at every place of a document that has a number.
var validNumbers = []float64{0, 1, 0.5, 2.25, 6.5, 7.2, 45, 90, 180, 365, 1e4, 1e6, 1e-3, 1e-7, -0.5, -1, -3.5, -90, -720.5, 1e9}

var numberStyles = []func(f float64) string{
	num,
	func(f float64) string { return fmt.Sprintf("%.12E", f) },
	func(f float64) string { return fmt.Sprintf("%.10f", f) },
	func(f float64) string { return fmt.Sprintf("%ge+03", f/1000) },
}

// numberValues explores the values of single numbers and of pairs of numbers in documents.
func numberValues(r *Run) {
	x := NewSpace(r)
	for _, b := range append(baseDocs(), fullDocs()...) {
		var leaves [][]int
		b.doc.paths(nil, func(path []int, v *jv) {
			if _, err := strconv.ParseFloat(v.lit, 64); v.kind == 'l' && err == nil {
				leaves = append(leaves, path)
			}
		})
		set := func(d *jv, leaf, value, style int) {
			text := numberStyles[style](validNumbers[value])
			if _, err := strconv.ParseFloat(text, 64); err == nil && json.Valid([]byte(text)) {
				d.at(leaves[leaf]).lit = text
			}
		}
		nv, ns, nl := len(validNumbers), len(numberStyles), len(leaves)
		check := func(d *jv) (string, map[string]any) {
			c, m := checkFaulty(d)
			x.Count(1, 1, 1)
			x.Class(c)
			return m, map[string]any{"document": d.String()}
		}
		x.Each("every number of "+b.name+", all values and styles", nl*nv*ns, func(i int) (string, map[string]any) {
			d := b.doc.clone()
			set(d, i%nl, i/nl%nv, i/nl/nv)
			return check(d)
		})
		values := []int{1, 3, 6, 14} // of the second one
		if !r.Quick() {
			values = []int{0, 1, 2, 3, 5, 6, 8, 11, 12, 13, 14, 18}
		}
		x.Each("pairs of numbers of "+b.name, nl*nv*nl*len(values), func(i int) (string, map[string]any) {
			a, c := i%nl, i/nl/nv%nl
			if a == c {
				return "", nil
			}
			d := b.doc.clone()
			set(d, a, i/nl%nv, 0)
			set(d, c, values[i/nl/nv/nl], 0)
			return check(d)
		})
	}
	x.Finish()
}

// parseDocument reads syntactically correct JSON.
func parseDocument(text string) *jv {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var value func(t json.Token) *jv
	next := func() json.Token {
		t, err := d.Token()
		if err != nil {
			panic("harness: " + err.Error())
		}
		return t
	}
	value = func(t json.Token) *jv {
		switch t := t.(type) {
		case json.Delim:
			if t == '{' {
				o := jobj()
				for d.More() {
					k := next().(string)
					o.put(k, value(next()))
				}
				next()
				return o
			}
			a := jarr()
			for d.More() {
				a.add(value(next()))
			}
			next()
			return a
		case json.Number:
			return jlit(t.String())
		case string:
			return jstr(t)
		}
		b, _ := json.Marshal(t)
		return jlit(string(b))
	}
	return value(next())
}

var wrongBytes = []byte{'"', '{', '}', '[', ']', ',', ':', '0', '9', '-', '.', 'e', ' ', '\\', 0, 0xff, 'x', 'A'}

// byteLevel damages the text of documents: truncation, and every replaced, inserted or lost byte.
func byteLevel(x *Space, docs []baseDoc) {
	for _, b := range docs {
		text := b.doc.String()
		check := func(doc string) (string, string) {
			o := RunJSONDoc([]byte(doc))
			if o.Panic != "" {
				return "panic", "panic: " + o.Panic
			}
			if !json.Valid([]byte(doc)) {
				if !o.Failed() {
					return "accepted", "result for a syntactically wrong document"
				}
				return "syntax error, refused", ""
			}
			if !utf8.ValidString(doc) {
				return "left open", ""
			}
			return checkText(parseDocument(doc), doc)
		}
		x.Each("damaged bytes of "+b.name, len(text), func(i int) (string, map[string]any) {
			docs := []string{text[:i], text[i:], text[:i] + text[i+1:], text + text[i:]}
			if i == 0 {
				docs = docs[2:]
			}
			for _, w := range wrongBytes {
				if w != text[i] {
					docs = append(docs, text[:i]+string([]byte{w})+text[i+1:])
				}
				docs = append(docs, text[:i]+string([]byte{w})+text[i:])
			}
			for _, d := range docs {
				c, m := check(d)
				x.Class(c)
				if m != "" {
					return m, map[string]any{"document": d}
				}
			}
			x.Count(int64(len(docs)), int64(len(docs)), int64(len(docs)))
			return "", nil
		})
	}
}
