package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/lubgr/deflect/deflect"
)

// C09: nothing but the problem itself determines the result. Explored are
//   (1) every iteration order of the maps the library loops over, as explicit choice points of the
//       instrumented library (bounded by the number of loops that deviate from sorted order),
//   (2) every order of the entries of a problem,
//   (3) every assignment of names to nodes and elements.

type orderDoc struct {
	name string
	doc  []byte
	spec *Spec // nil: malformed or unstable, must be refused in every order
	// constructor calls instead of a document
	direct bool
	lists  string // order of the results' lists
}

func orderSpecs() []solveScene {
	get := func(n string) *Spec { return findTemplate(n).Clone() }
	var out []solveScene
	portal := get("portal")
	portal.Elems[0].Mat = matB
	portal.Elems[1].Mat = Mat{E: 400, A: 3, Iyy: 0.7}
	portal.Elems[1].Hinges = []Hinge{{0, Phiy}}
	portal.Elems[1].Loads = []Load{{"linear", Uz, 2, -4, 0}, {"dirac", Uz, 3, 0, 1}, {"dirac", Ux, 3, 0, 2}}
	portal.Elems[2].Loads = []Load{{"constant", Uz, 2, 0, 0}, {"dirac", Phiy, 3, 0, 1.5}}
	portal.Dirichlet = []BC{{0, Ux, 0}, {0, Uz, 0.01}, {0, Phiy, -0.02}}
	portal.Links = []Link{{3, Ux, Uz, 0.6}}
	portal.Neumann = []BC{{1, Ux, 7}, {2, Uz, -3}, {2, Phiy, 4}}
	out = append(out, solveScene{"portal", portal})
	king := get("kingpost")
	king.Elems[2].Mat, king.Elems[3].Mat = matB, matB
	king.Neumann = []BC{{3, Ux, 2}, {3, Uz, 5}, {1, Phiy, 1}}
	king.Elems[0].Loads = []Load{{"constant", Uz, 2, 0, 0}}
	king.Elems[4].Loads = []Load{{"constant", Ux, 1, 0, 0}}
	king.Dirichlet = sup(0, Ux)
	king.Links = []Link{{2, Ux, Uz, 0.3}, {1, Uz, Ux, 1.1}}
	out = append(out, solveScene{"kingpost", king})
	tet := get("tetrahedron")
	tet.Neumann = []BC{{3, Ux, 2}, {3, Uy, 3}, {3, Uz, -4}}
	tet.Dirichlet = cat(sup(0, Ux, Uy, Uz), sup(1, Uy), sup(2, Uz))
	tet.Links = []Link{{1, Ux, Uz, 0.5}}
	tet.Elems[3].Loads = []Load{{"dirac", Ux, 1, 0, 1}}
	out = append(out, solveScene{"tetrahedron", tet})
	guided := get("tetrahedron")
	guided.Neumann = []BC{{3, Ux, 2}, {3, Uy, 3}}
	guided.Dirichlet = cat(sup(0, Ux, Uy, Uz), sup(1, Uy, Uz))
	guided.Links = []Link{{2, Ux, Uz, 0.4}}
	out = append(out, solveScene{"guided", guided})
	gerber := get("gerber")
	gerber.Dirichlet[0].Val, gerber.Dirichlet[3].Val = 0.02, -0.03
	gerber.Elems[1].Loads = []Load{{"dirac", Uz, 3, 0, 0.5}, {"dirac", Uz, 3, 0, 0.5}, {"linear", Ux, 1, 2, 0}}
	gerber.Neumann = []BC{{1, Phiy, 2}, {2, Uz, 5}}
	out = append(out, solveScene{"gerber", gerber})
	dup := get("knee") // two loads on one degree of freedom
	dup.Neumann = []BC{{1, Ux, 2}, {1, Ux, 3}, {2, Ux, -1}, {1, Phiy, 2}}
	out = append(out, solveScene{"knee", dup})
	for _, sc := range out {
		if _, err := RefSolve(sc.spec); err != nil {
			panic(fmt.Sprintf("harness: %v: %v", sc.name, err))
		}
	}
	return out
}

// withGroupedBCs renders all values of a node in one object instead of one object per value.
func grouped(doc string) string { return strings.ReplaceAll(doc, "},{\"Uz\"", ",\"Uz\"") }

func orderDocs() []orderDoc {
	var out []orderDoc
	for _, sc := range orderSpecs() {
		out = append(out, orderDoc{name: sc.name, doc: []byte(sc.spec.JSON()), spec: sc.spec})
		if g := grouped(sc.spec.JSON()); json.Valid([]byte(g)) && g != sc.spec.JSON() {
			out = append(out, orderDoc{name: sc.name + " grouped", doc: []byte(g), spec: sc.spec})
		}
	}
	for _, sc := range orderSpecs() {
		out = append(out, orderDoc{name: sc.name + " from constructors", spec: sc.spec, direct: true})
	}
	// names that are easily taken for each other
	for _, names := range nameSets {
		for shift := range 2 {
			t := orderSpecs()[5].spec
			for i := range t.Nodes {
				t.Nodes[i].ID = names[(i+2+shift)%3]
			}
			for i := range t.Elems {
				t.Elems[i].ID = elemName(names, i, 2)
			}
			what := fmt.Sprintf("knee with nodes %.20q, %.20q, %.20q", t.Nodes[0].ID, t.Nodes[1].ID, t.Nodes[2].ID)
			out = append(out, orderDoc{name: what, doc: []byte(t.JSON()), spec: t},
				orderDoc{name: what + " from constructors", spec: t, direct: true})
		}
	}
	unstable := orderSpecs()[4].spec
	unstable.Elems[1].Hinges = append(unstable.Elems[1].Hinges, Hinge{1, Phiy})
	unstable.Dirichlet = unstable.Dirichlet[:len(unstable.Dirichlet)-1]
	out = append(out, orderDoc{name: "unstable beam", doc: []byte(unstable.JSON())})
	// Malformed ones: whether something is refused must not depend on the order either
	base := orderSpecs()[0].spec.JSON()
	for _, f := range []struct{ name, from, to string }{
		{"negative Young's modulus entry missing", `"E":1500,`, ``},
		{"unknown dof", `"Phiy":-0.02`, `"Phi":-0.02`},
		{"unknown element kind", `"DC":{"kind":"frame2d"`, `"DC":{"kind":"frame4d"`},
		{"second cross section broken", `"kind":"rectangle"`, `"kind":"circle"`},
		{"unknown load kind", `"kind":"My","degree":"dirac"`, `"kind":"Ny","degree":"dirac"`},
		{"load on unknown element", `"neumann":{`, `"neumann":{"XY":[{"kind":"qz","degree":"constant","values":[1]}],`},
		{"support of unknown node", `"dirichlet":{`, `"dirichlet":{"X":[{"Ux":0}],`},
		{"force on unknown node", `"neumann":{`, `"neumann":{"X":[{"Fx":1}],`},
		{"hinge at another node", `"hinges":{"B":["Phiy"]}`, `"hinges":{"B":["Phiy"],"D":["Phiy"]}`},
		{"link on unknown dof", `"to":"Uz"`, `"to":"Phiy"`},
	} {
		d := strings.Replace(base, f.from, f.to, 1)
		if d == base {
			// the harness' own rendering has changed
			panic("harness: fault does not apply: " + f.name)
		}
		out = append(out, orderDoc{name: f.name, doc: []byte(d)})
	}
	for _, f := range []struct{ name, from string }{{"several materials, none chosen", `"material":"`}, {"several cross sections, none chosen", `"cs":"`}} {
		d := base
		for {
			i := strings.Index(d, f.from)
			if i < 0 {
				break
			}
			end := i + len(f.from) + strings.Index(d[i+len(f.from):], `"`) + 1
			if d[end] == ',' {
				end++
			} else {
				i--
			}
			d = d[:i] + d[end:]
		}
		if d == base || !json.Valid([]byte(d)) {
			panic("harness: fault does not apply: " + f.name)
		}
		out = append(out, orderDoc{name: f.name, doc: []byte(d)})
	}
	for i := range out { // in sorted order
		d := &out[i]
		if d.spec != nil {
			if o := d.outcome(); !o.Failed() {
				d.lists = d.listed(&o)
			}
		}
	}
	return out
}

type orderCtl struct {
	prefix []int // alternative per choice point
	sizes  []int
}

var altCache = map[int][][]int{}

// orderAlts lists the explored orders of n map entries, sorted order first.
func orderAlts(n int) [][]int {
	if a, ok := altCache[n]; ok {
		return a
	}
	var out [][]int
	if n <= 4 {
		out = permutations(n)
	} else {
		id := make([]int, n)
		for i := range id {
			id[i] = i
		}
		out = append(out, id)
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		out = append(out, rev)
		for k := 1; k < n; k++ {
			rot := make([]int, n)
			for i := range rot {
				rot[i] = (i + k) % n
			}
			out = append(out, rot)
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				t := append([]int(nil), id...)
				t[i], t[j] = t[j], t[i]
				out = append(out, t)
			}
		}
	}
	altCache[n] = out
	return out
}

func (c *orderCtl) hook(n int) []int {
	k := len(c.sizes)
	c.sizes = append(c.sizes, n)
	if k < len(c.prefix) && c.prefix[k] > 0 {
		a := orderAlts(n)
		if c.prefix[k] < len(a) {
			return a[c.prefix[k]]
		}
	}
	return nil
}

func (d *orderDoc) run(prefix []int) (sizes []int, msg string) {
	c := &orderCtl{prefix: prefix}
	setOrderHook(c.hook)
	defer setOrderHook(nil)
	o := d.outcome()
	if d.spec == nil {
		if o.Panic != "" {
			msg = o.Describe()
		} else if !o.Failed() {
			msg = "malformed input (" + d.name + ") leads to a result"
		}
		return c.sizes, msg
	}
	if o.Failed() {
		return c.sizes, o.Describe()
	}
	ref, err := RefSolve(d.spec)
	if err != nil {
		return c.sizes, ""
	}
	if msg = CheckNodal(&o, ref); msg == "" {
		msg = CheckInterpolations(&o, ref)
	}
	if msg == "" && d.lists != "" {
		if l := d.listed(&o); l != d.lists {
			msg = fmt.Sprintf("results are listed as %v, but with another iteration order as %v", l, d.lists)
		}
	}
	return c.sizes, msg
}

func (d *orderDoc) outcome() Outcome {
	if d.direct {
		return d.spec.Run()
	}
	return RunJSONDoc(d.doc)
}

// listed is the order in which results are listed. The same problem should lead to the same lists;
// the order of elements in a document is none.
func (d *orderDoc) listed(o *Outcome) string {
	var b strings.Builder
	for _, l := range [][]deflect.NodalValue{o.Res.PrimaryAll(), o.Res.ReactionAll()} {
		for _, v := range l {
			fmt.Fprintf(&b, "%v/%v ", v.NodalID, v.Dof)
		}
	}
	if d.direct {
		for _, ip := range o.Interp {
			fmt.Fprintf(&b, "%v/%v ", ip.Element, ip.Quantity)
		}
	}
	return b.String()
}

type orderCase struct {
	doc    int
	prefix []int
}

func orderWorker(r *Run, x *Space) {
	docs := orderDocs()
	// deviations, one level after another
	level := []orderCase{}
	for i := range docs {
		level = append(level, orderCase{doc: i})
	}
	maxDev := 2
	if !r.Quick() {
		maxDev = 3
	}
	points := map[string]int{}
	for dev := 0; dev <= maxDev && len(level) > 0; dev++ {
		var next []orderCase
		lists := make([][]orderCase, len(level))
		if !instrumentedBuild && dev > 0 {
			break
		}
		expand := dev < maxDev
		x.Each(fmt.Sprintf("map iteration orders, %v loops deviate", dev), len(level), func(i int) (string, map[string]any) {
			lc := level[i]
			sizes, msg := docs[lc.doc].run(lc.prefix)
			x.Count(1, int64(len(sizes)), 1)
			if msg != "" {
				return fmt.Sprintf("%v with map iteration orders %v (sizes %v): %v", docs[lc.doc].name, lc.prefix, sizes, msg),
					map[string]any{"document": string(docs[lc.doc].doc), "orders": lc.prefix}
			}
			if dev == 0 {
				points[docs[lc.doc].name] = len(sizes)
			}
			return "", nil
		})
		if x.Stopped() || !x.Complete {
			return
		}
		if !expand {
			break
		}
		// Enumerate successors. Every worker does so for all cases (the runs are cheap compared to
		// the next level), so that the numbering of cases is the same everywhere.
		for i, lc := range level {
			sizes, _ := docs[lc.doc].run(lc.prefix)
			for at := len(lc.prefix); at < len(sizes); at++ {
				for alt := 1; alt < len(orderAlts(sizes[at])); alt++ {
					p := make([]int, at+1)
					copy(p, lc.prefix)
					p[at] = alt
					lists[i] = append(lists[i], orderCase{lc.doc, p})
				}
			}
			next = append(next, lists[i]...)
			if len(next) > 4000000 {
				break
			}
		}
		level = next
	}
	r.Coverage["choice_points_per_document"] = points

	// Orders of the entries
	for _, sc := range orderSpecs() {
		s := sc.spec
		type list struct {
			name  string
			n     int
			apply func(s *Spec, p []int)
		}
		lists := []list{
			{"elements", len(s.Elems), func(t *Spec, p []int) {
				for i, k := range p {
					t.Elems[i] = s.Clone().Elems[k]
				}
			}},
			{"supports", len(s.Dirichlet), func(t *Spec, p []int) {
				for i, k := range p {
					t.Dirichlet[i] = s.Dirichlet[k]
				}
			}},
			{"forces", len(s.Neumann), func(t *Spec, p []int) {
				for i, k := range p {
					t.Neumann[i] = s.Neumann[k]
				}
			}},
			{"inclined supports", len(s.Links), func(t *Spec, p []int) {
				for i, k := range p {
					t.Links[i] = s.Links[k]
				}
			}},
			{"nodes", len(s.Nodes), func(t *Spec, p []int) {
				inv := make([]int, len(p))
				for i, k := range p {
					t.Nodes[i] = s.Nodes[k]
					inv[k] = i
				}
				remapNodes(t, inv)
			}},
		}
		for e := range s.Elems {
			lists = append(lists, list{"loads of " + s.Elems[e].ID, len(s.Elems[e].Loads), func(t *Spec, p []int) {
				for i, k := range p {
					t.Elems[e].Loads[i] = s.Elems[e].Loads[k]
				}
			}})
		}
		for i, l := range lists {
			perms := orderAlts(l.n)
			x.Each(fmt.Sprintf("%v: orders of %v", sc.name, l.name), len(perms), func(k int) (string, map[string]any) {
				t := s.Clone()
				l.apply(t, perms[k])
				return orderCheck(x, t, fmt.Sprintf("%v with order %v of %v", sc.name, perms[k], l.name))
			})
			for _, m := range lists[i+1:] {
				if m.name == "nodes" || m.n < 2 || l.n < 2 {
					continue
				}
				ps, qs := orderAlts(l.n), orderAlts(m.n)
				x.Each(fmt.Sprintf("%v: orders of %v and %v", sc.name, l.name, m.name), len(ps)*len(qs), func(k int) (string, map[string]any) {
					t := s.Clone()
					l.apply(t, ps[k%len(ps)])
					if strings.HasPrefix(m.name, "loads") && l.name == "elements" {
						return "", nil
					}
					m.apply(t, qs[k/len(ps)])
					return orderCheck(x, t, fmt.Sprintf("%v with orders %v of %v and %v of %v", sc.name, ps[k%len(ps)], l.name, qs[k/len(ps)], m.name))
				})
			}
		}
	}

	// Names
	for _, sc := range orderSpecs() {
		s := sc.spec
		for ni, names := range nameSets {
			perms := orderAlts(len(s.Nodes))
			if len(s.Nodes) > len(names) {
				continue
			}
			eperms := orderAlts(len(s.Elems))
			x.Each(fmt.Sprintf("%v: names, set %v", sc.name, ni), len(perms)+len(eperms), func(k int) (string, map[string]any) {
				t := s.Clone()
				np, ep := perms[0], eperms[0]
				if k < len(perms) {
					np = perms[k]
				} else {
					ep = eperms[k-len(perms)]
				}
				for i := range t.Nodes {
					t.Nodes[i].ID = names[np[i]]
				}
				for i := range t.Elems {
					t.Elems[i].ID = elemName(names, ep[i], ni)
				}
				return orderCheck(x, t, fmt.Sprintf("%v with names %v, %v of set %v", sc.name, np, ep, ni))
			})
		}
	}
}

var longName = strings.Repeat("north-eastern corner of the first floor, ", 8)

var nameSets = [][]string{
	{"A", "B", "C", "D"},
	{"1", "10", "100", "2"},
	{"", "0", "00", " "},
	{"a", "A", "ä", "Ä"},
	{"n", "n ", " n", "n\t"},
	{longName, longName + "a", longName + "b", "n"},
	{"Ux", "Uz", "A/Ux", "A"},
	{"B", "\u0000", "日本", "\""},
	{"n-1", "n-2", "n-10", "n-11"},
	{"AB", "A", "B", "BA"},
	{"x1", "X1", "x01", "x1x"},
}

func elemName(names []string, i, set int) string {
	switch set % 3 {
	case 0:
		return fmt.Sprintf("e%d", i)
	case 1:
		return names[i%len(names)] + strings.Repeat("'", 1+i/len(names)) // similar to node names
	}
	if i < len(names) && names[i] != "" {
		return names[i] // same as node names
	}
	return fmt.Sprintf("%v%d", names[len(names)-1], i)
}

func remapNodes(t *Spec, inv []int) {
	for i := range t.Elems {
		t.Elems[i].A, t.Elems[i].B = inv[t.Elems[i].A], inv[t.Elems[i].B]
	}
	for i := range t.Dirichlet {
		t.Dirichlet[i].Node = inv[t.Dirichlet[i].Node]
	}
	for i := range t.Neumann {
		t.Neumann[i].Node = inv[t.Neumann[i].Node]
	}
	for i := range t.Links {
		t.Links[i].Node = inv[t.Links[i].Node]
	}
}

func orderCheck(x *Space, t *Spec, what string) (string, map[string]any) {
	x.Count(1, 1, 2)
	ref, err := RefSolve(t)
	if err != nil {
		return "", nil
	}
	for _, j := range []bool{false, true} {
		o := Outcome{}
		if j {
			o = t.RunJSON()
		} else {
			o = t.Run()
		}
		msg := ""
		if o.Failed() {
			msg = o.Describe()
		} else if msg = CheckNodal(&o, ref); msg == "" {
			msg = CheckInterpolations(&o, ref)
		}
		if msg != "" {
			return fmt.Sprintf("%v (from JSON: %v): %v", what, j, msg), map[string]any{"spec": t.String()}
		}
	}
	return "", nil
}

func init() {
	workers["C09"] = orderWorker
	checks["C09"] = func(r *Run) {
		x := NewSpace(r)
		bin, res, cleanup, err := buildInstrumented(r.Root, false)
		defer cleanup()
		if err != nil {
			// The library cannot be instrumented: explore the rest only
			r.Coverage["instrumentation"] = "failed: " + err.Error()
			bin, _ = os.Executable()
		} else {
			r.Coverage["instrumented_map_loops"] = res.MapLoops
		}
		if err := r.spread(x, bin); err != nil {
			r.spreadFailed(err)
			return
		}
		x.Finish()
	}
}
