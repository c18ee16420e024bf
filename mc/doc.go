package main

import (
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// A jv is an input document as an ordered tree, so that it can be rendered in different but
// equivalent ways, and so that faults can be put in at every position.
type jv struct {
	kind byte // o, a, or l for a literal (string, number, ...)
	keys []string
	vals []*jv
	lit  string
}

func jlit(s string) *jv   { return &jv{kind: 'l', lit: s} }
func jstr(s string) *jv   { return jlit(jsonString(s)) }
func jnum(v float64) *jv  { return jlit(num(v)) }
func jarr(v ...*jv) *jv   { return &jv{kind: 'a', vals: v} }
func jobj() *jv           { return &jv{kind: 'o'} }
func (j *jv) add(v *jv)   { j.vals = append(j.vals, v) }
func (j *jv) empty() bool { return j.kind != 'l' && len(j.vals) == 0 }

func (j *jv) put(k string, v *jv) *jv {
	j.keys = append(j.keys, k)
	j.vals = append(j.vals, v)
	return j
}

func (j *jv) get(k string) *jv {
	for i := range j.keys {
		if j.keys[i] == k {
			return j.vals[i]
		}
	}
	return nil
}

func (j *jv) clone() *jv {
	c := &jv{kind: j.kind, lit: j.lit, keys: append([]string(nil), j.keys...), vals: make([]*jv, len(j.vals))}
	for i, v := range j.vals {
		c.vals[i] = v.clone()
	}
	return c
}

func (j *jv) write(b *strings.Builder, space, nl string) {
	switch j.kind {
	case 'l':
		b.WriteString(j.lit)
	case 'a':
		b.WriteString("[" + nl)
		for i, v := range j.vals {
			if i > 0 {
				b.WriteString("," + nl)
			}
			v.write(b, space, nl)
		}
		b.WriteString(nl + "]")
	default:
		b.WriteString("{" + nl)
		for i, v := range j.vals {
			if i > 0 {
				b.WriteString("," + nl)
			}
			b.WriteString(jsonString(j.keys[i]) + space + ":" + space)
			v.write(b, space, nl)
		}
		b.WriteString(nl + "}")
	}
}

func (j *jv) String() string {
	var b strings.Builder
	j.write(&b, "", "")
	return b.String()
}

// Ways to render one and the same problem.
const (
	docInferNodes = 1 << iota // elements with a two character name don't list their nodes
	docInferMat               // a single material is not referred to
	docInferCS                // a single cross section is not referred to
	docReverse                // all objects in reverse order
	docReverseBC              // all lists of boundary conditions in reverse order
	docGroup                  // supports and loads of a node in one object
	docNumbers                // other number formats
	docWhitespace             // indented
	docOmitEmpty              // no empty sections
	docExtra                  // optional parameters, unrelated sections
	docEmptyLists             // empty lists where nothing is to be said
	docEscapes                // unicode escapes in names
	docUnusedNode             // a node, a material and a cross section nobody uses
	docVariants   = 13
)

var docNames = []string{"infer nodes", "infer material", "infer cross section", "reverse order", "reverse boundary conditions",
	"group boundary conditions", "number formats", "whitespace", "omit empty sections", "optional parameters", "empty lists",
	"escaped names", "unused entries"}

func oneChar(s string) bool { return utf8.RuneCountInString(s) == 1 }

// Doc renders the problem as a document tree.
func (s *Spec) Doc(flags uint) *jv {
	has := func(f uint) bool { return flags&f != 0 }
	root := jobj()
	nodes := jobj()
	for _, n := range s.Nodes {
		nodes.put(n.ID, jarr(jnum(n.X), jnum(n.Y), jnum(n.Z)))
	}
	if has(docUnusedNode) {
		nodes.put("unused", jarr(jnum(1), jnum(2), jnum(3)))
	}
	root.put("nodes", nodes)
	type eparam struct{ E float64 }
	var es []float64
	var css []Mat
	eOf, csOf := make([]int, len(s.Elems)), make([]int, len(s.Elems))
	for i, e := range s.Elems {
		eOf[i], csOf[i] = -1, -1
		for j := range es {
			if es[j] == e.Mat.E {
				eOf[i] = j
			}
		}
		if eOf[i] < 0 {
			eOf[i] = len(es)
			es = append(es, e.Mat.E)
		}
		c := e.Mat
		c.E = 0
		for j := range css {
			if css[j] == c {
				csOf[i] = j
			}
		}
		if csOf[i] < 0 {
			csOf[i] = len(css)
			css = append(css, c)
		}
	}
	material := jobj()
	for i, v := range es {
		material.put(fmt.Sprintf("m%d", i), jobj().put("kind", jstr("linelast")).
			put("parameter", jobj().put("E", jnum(v)).put("nu", jnum(0.3)).put("rho", jnum(1))))
	}
	cross := jobj()
	for i, m := range css {
		p, kind := jobj(), "constants"
		if m.B > 0 {
			kind = "rectangle"
			p.put("b", jnum(m.B)).put("h", jnum(m.H))
		} else {
			p.put("A", jnum(m.A)).put("Iyy", jnum(m.Iyy)).put("Izz", jnum(m.Izz()))
			if has(docExtra) {
				p.put("Ixx", jnum(0.25))
			}
		}
		if has(docExtra) {
			p.put("roll", jnum(0.5))
		}
		cross.put(fmt.Sprintf("c%d", i), jobj().put("kind", jstr(kind)).put("parameter", p))
	}
	single, singleCS := len(es) == 1, len(css) == 1
	if has(docUnusedNode) && !(has(docInferMat) && single) {
		material.put("unused", jobj().put("kind", jstr("linelast")).
			put("parameter", jobj().put("E", jnum(17)).put("nu", jnum(0)).put("rho", jnum(0))))
	}
	if has(docUnusedNode) && !(has(docInferCS) && singleCS) {
		cross.put("unused", jobj().put("kind", jstr("rectangle")).put("parameter", jobj().put("b", jnum(2)).put("h", jnum(3))))
	}
	root.put("material", material).put("crosssection", cross)

	elements := jobj()
	for i, e := range s.Elems {
		o := jobj().put("kind", jstr(e.Kind))
		a, b := s.Nodes[e.A].ID, s.Nodes[e.B].ID
		if !has(docInferNodes) || !oneChar(a) || !oneChar(b) || e.ID != a+b {
			o.put("nodes", jarr(jstr(a), jstr(b)))
		} else if has(docEmptyLists) {
			o.put("nodes", jarr())
		}
		if !has(docInferMat) || !single {
			o.put("material", jstr(fmt.Sprintf("m%d", eOf[i])))
		}
		if !has(docInferCS) || !singleCS {
			o.put("cs", jstr(fmt.Sprintf("c%d", csOf[i])))
		}
		h := jobj()
		for end, id := range []string{a, b} {
			l := jarr()
			for _, x := range e.Hinges {
				if x.End == end {
					l.add(jstr(dofNames[x.Dof]))
				}
			}
			if !l.empty() || has(docEmptyLists) {
				h.put(id, l)
			}
		}
		if !h.empty() || has(docEmptyLists) {
			o.put("hinges", h)
		}
		elements.put(e.ID, o)
	}
	root.put("elements", elements)

	nodal := func(bcs []BC, names map[Dof]string, n int) []*jv {
		var out []*jv
		group := jobj()
		for _, d := range bcs {
			if d.Node != n {
				continue
			}
			if has(docGroup) && group.get(names[d.Dof]) == nil {
				group.put(names[d.Dof], jnum(d.Val))
			} else {
				out = append(out, jobj().put(names[d.Dof], jnum(d.Val)))
			}
		}
		if !group.empty() {
			out = append(out, group)
		}
		return out
	}
	section := func(name string, v *jv) {
		if !has(docOmitEmpty) || !v.empty() {
			root.put(name, v)
		}
	}
	dirichlet, neumann, links := jobj(), jobj(), jobj()
	into := func(sec *jv, id string, l []*jv) {
		if len(l) == 0 && !has(docEmptyLists) {
			return
		}
		v := sec.get(id)
		if v == nil {
			v = jarr()
			sec.put(id, v)
		}
		v.vals = append(v.vals, l...)
	}
	for i, n := range s.Nodes {
		into(dirichlet, n.ID, nodal(s.Dirichlet, dofNames, i))
		into(neumann, n.ID, nodal(s.Neumann, forceNames, i))
		var l []*jv
		for _, k := range s.Links {
			if k.Node == i {
				l = append(l, jobj().put("from", jstr(dofNames[k.From])).put("to", jstr(dofNames[k.To])).put("angle", jnum(k.Angle)))
			}
		}
		into(links, n.ID, l)
	}
	for _, e := range s.Elems {
		var l []*jv
		for _, ld := range e.Loads {
			l = append(l, ld.Doc())
		}
		into(neumann, e.ID, l)
	}
	section("dirichlet", dirichlet)
	section("neumann", neumann)
	section("links", links)
	if has(docExtra) {
		root.put("name", jstr("a test")).put("description", jstr("unrelated")).put("expected", jobj().put("failure", jstr("x")))
	}
	if has(docReverseBC) {
		for _, sec := range []*jv{dirichlet, neumann} {
			for _, l := range sec.vals {
				reverse(l.vals)
			}
		}
	}
	if has(docReverse) {
		root.reverseObjects()
	}
	if has(docNumbers) {
		root.otherNumbers()
	}
	return root
}

func (l Load) Doc() *jv {
	switch l.Deg {
	case "dirac":
		return jobj().put("kind", jstr(forceNames[l.Kind])).put("degree", jstr("dirac")).put("values", jarr(jnum(l.V0))).put("position", jarr(jnum(l.Pos)))
	case "constant":
		return jobj().put("kind", jstr(lineNames[l.Kind])).put("degree", jstr("constant")).put("values", jarr(jnum(l.V0)))
	}
	return jobj().put("kind", jstr(lineNames[l.Kind])).put("degree", jstr("linear")).put("values", jarr(jnum(l.V0), jnum(l.V1)))
}

func reverse[T any](l []T) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
}

func (j *jv) reverseObjects() {
	if j.kind == 'o' {
		reverse(j.keys)
		reverse(j.vals)
	}
	for _, v := range j.vals {
		v.reverseObjects()
	}
}

// otherNumbers rewrites number literals to an equivalent notation.
func (j *jv) otherNumbers() {
	if j.kind == 'l' && j.lit != "" && (j.lit[0] == '-' || j.lit[0] >= '0' && j.lit[0] <= '9') && !strings.ContainsAny(j.lit, "eE") {
		if strings.Contains(j.lit, ".") {
			j.lit += "00E+0"
		} else {
			j.lit += ".0e-0"
		}
	}
	for _, v := range j.vals {
		v.otherNumbers()
	}
}

// Render returns the bytes of the document.
func (s *Spec) Render(flags uint) string {
	var b strings.Builder
	if flags&docWhitespace != 0 {
		b.WriteString("\n\t ")
		s.Doc(flags).write(&b, " ", "\r\n\t ")
		b.WriteString(" \n")
	} else {
		s.Doc(flags).write(&b, "", "")
	}
	if flags&docEscapes != 0 {
		return escapeNames(b.String())
	}
	return b.String()
}

// escapeNames writes the first letter of every string as an escape sequence.
func escapeNames(doc string) string {
	var b strings.Builder
	in := false
	for i := 0; i < len(doc); i++ {
		c := doc[i]
		switch {
		case c == '"':
			in = !in
			b.WriteByte(c)
			if in && i+1 < len(doc) && doc[i+1] != '"' && doc[i+1] != '\\' {
				first, size := utf8.DecodeRuneInString(doc[i+1:])
				i += size
				for _, u := range utf16.AppendRune(nil, first) {
					fmt.Fprintf(&b, "\\u%04x", u)
				}
			}
		case in && c == '\\':
			b.WriteByte(c)
			i++
			b.WriteByte(doc[i])
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (s *Spec) JSON() string { return s.Render(0) }
