package main

import (
	"errors"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
)

// C20: the checker of expectations.

// runT executes f with a test that can fail. It is set when the harness runs as a test binary.
var runT func(f func(t *testing.T)) (failed bool)

// runAsTest builds the harness as a test binary, which has tests to fail, and lets it do the check.
func runAsTest(r *Run) {
	dir, err := os.MkdirTemp("", "verifmc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := func() int {
		defer os.RemoveAll(dir)
		bin := filepath.Join(dir, "checker")
		build := exec.Command("go", "test", "-vet=off", "-c", "-o", bin, ".")
		build.Dir = filepath.Join(r.Root, "mc")
		if h := os.Getenv("VERIF_MC"); h != "" {
			build.Dir = h
		}
		if out, err := build.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "%s\n", out)
			return 2
		}
		cmd := exec.Command(bin, "-test.run=^TestHarness$", "-test.timeout=0")
		cmd.Env = append(os.Environ(), "VERIF_ARGS="+strings.Join(os.Args[1:], "\x1f"), "VERIF_ROOT="+r.Root)
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err := cmd.Run()
		var exit *exec.ExitError
		if errors.As(err, &exit) {
			return exit.ExitCode()
		} else if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		return 0
	}()
	os.Exit(code)
}

// A result whose values the explorer chooses.
type fakeResult struct {
	prim, reac map[deflect.Index]float64
	polys      map[polyKey]deflect.PolySequence
}

type polyKey struct {
	elem string
	f    deflect.Fct
}

func (f *fakeResult) clone() *fakeResult {
	c := &fakeResult{map[deflect.Index]float64{}, map[deflect.Index]float64{}, map[polyKey]deflect.PolySequence{}}
	for k, v := range f.prim {
		c.prim[k] = v
	}
	for k, v := range f.reac {
		c.reac[k] = v
	}
	for k, v := range f.polys {
		c.polys[k] = copyPoly(v)
	}
	return c
}

func (f *fakeResult) lookup(m map[deflect.Index]float64, i deflect.Index) (deflect.NodalValue, error) {
	if v, ok := m[i]; ok {
		return deflect.NodalValue{Index: i, Value: v}, nil
	}
	return deflect.NodalValue{}, errors.New("no such value")
}

func (f *fakeResult) Primary(i deflect.Index) (deflect.NodalValue, error) { return f.lookup(f.prim, i) }
func (f *fakeResult) Reaction(i deflect.Index) (deflect.NodalValue, error) {
	return f.lookup(f.reac, i)
}

func (f *fakeResult) all(m map[deflect.Index]float64) (out []deflect.NodalValue) {
	for k, v := range m {
		out = append(out, deflect.NodalValue{Index: k, Value: v})
	}
	return out
}

func (f *fakeResult) PrimaryAll() []deflect.NodalValue  { return f.all(f.prim) }
func (f *fakeResult) ReactionAll() []deflect.NodalValue { return f.all(f.reac) }

func (f *fakeResult) Interpolate(e string, q deflect.Fct, _ float64) (deflect.Interpolation, error) {
	if ps, ok := f.polys[polyKey{e, q}]; ok {
		return deflect.Interpolation{Element: e, Quantity: q, Piecewise: copyPoly(ps)}, nil
	}
	return deflect.Interpolation{}, errors.New("no such function")
}

func (f *fakeResult) InterpolateAll(tol float64) (out []deflect.Interpolation) {
	for k := range f.polys {
		ip, _ := f.Interpolate(k.elem, k.f, tol)
		out = append(out, ip)
	}
	return out
}

func (f *fakeResult) Dimension() (total, net int) { return len(f.prim), len(f.prim) }

// What a document expects, read independently of the implementation.
type expected struct {
	refuse, open        string
	tolP, tolR, tolI    float64
	primary, reaction   []expValue
	fcts                []expFct
	failure             *regexp.Regexp
	expectationsPresent bool
}

type expValue struct {
	i deflect.Index
	v float64
}

type expFct struct {
	elem     string
	f        deflect.Fct
	degree   int
	rng      []float64
	boundary []float64
	eval     [][]float64
}

var fctNames = map[string]deflect.Fct{"Nx": deflect.FctNx, "Vz": deflect.FctVz, "Vy": deflect.FctVy, "My": deflect.FctMy, "Mz": deflect.FctMz,
	"Mx": deflect.FctMx, "Ux": deflect.FctUx, "Uz": deflect.FctUz, "Uy": deflect.FctUy, "Phiy": deflect.FctPhiy, "Phiz": deflect.FctPhiz, "Phix": deflect.FctPhix}

var expDofs = map[string]Dof{"Fx": Ux, "Fz": Uz, "Fy": Uy, "My": Phiy, "Mz": Phiz, "Mx": Phix,
	"Ux": Ux, "Uz": Uz, "Uy": Uy, "Phiy": Phiy, "Phiz": Phiz, "Phix": Phix}

func (x *expected) no(f string, a ...any) {
	if x.refuse == "" {
		x.refuse = fmt.Sprintf(f, a...)
	}
}

func (x *expected) unclear(f string, a ...any) {
	if x.open == "" {
		x.open = fmt.Sprintf(f, a...)
	}
}

// is returns false for values that have no meaning, and complains about values of a wrong kind.
func (x *expected) is(v *jv, kind byte, what string) bool {
	if v == nil {
		return false
	}
	if v.kind == 'l' && v.lit == "null" {
		x.unclear("null")
		return false
	}
	if v.kind != kind {
		x.no("%v of a wrong kind", what)
		return false
	}
	return true
}

func (x *expected) num(v *jv, what string) float64 {
	if !x.is(v, 'l', what) {
		return 0
	}
	f, err := strconv.ParseFloat(v.lit, 64)
	if err != nil {
		x.no("%v isn't a number: %v", what, v.lit)
	}
	return f
}

func (x *expected) str(v *jv, what string) string {
	if !x.is(v, 'l', what) {
		return ""
	}
	if !strings.HasPrefix(v.lit, `"`) {
		x.no("%v isn't a string: %v", what, v.lit)
		return ""
	}
	s, _ := strconv.Unquote(v.lit)
	return s
}

func (x *expected) nums(v *jv, what string) (out []float64) {
	if !x.is(v, 'a', what) {
		return nil
	}
	for _, w := range v.vals {
		out = append(out, x.num(w, what))
	}
	return out
}

// only complains about unknown names of an object.
func (x *expected) only(v *jv, names ...string) {
	seen := map[string]bool{}
	for _, k := range v.keys {
		l := strings.ToLower(k)
		if seen[l] {
			x.unclear("repeated name %v", k)
		}
		seen[l] = true
		if slices.Contains(names, k) {
			continue
		}
		if slices.ContainsFunc(names, func(n string) bool { return strings.EqualFold(n, k) }) {
			x.unclear("upper and lower case of %v", k)
		} else {
			x.no("unknown name %v", k)
		}
	}
}

func readExpected(root *jv) (x expected) {
	x.tolP, x.tolR, x.tolI = 1e-8, 1e-8, 1e-8
	if !x.is(root, 'o', "document") {
		x.no("no document")
		return x
	}
	for _, k := range root.keys {
		if k != "expected" && strings.EqualFold(k, "expected") {
			x.unclear("upper and lower case")
		}
	}
	if len(root.keys) != 1 {
		x.unclear("other sections")
	}
	e := root.get("expected")
	if e == nil {
		x.no("no expectations")
		return x
	}
	if !x.is(e, 'o', "expectations") {
		return x
	}
	x.only(e, "tolerance", "primary", "reaction", "interpolation", "failure")
	if t := e.get("tolerance"); x.is(t, 'o', "tolerance") {
		x.only(t, "primary", "reaction", "polynomial")
		for k, dst := range map[string]*float64{"primary": &x.tolP, "reaction": &x.tolR, "polynomial": &x.tolI} {
			if v := t.get(k); v != nil {
				if *dst = x.num(v, "tolerance"); *dst < 0 {
					x.unclear("negative tolerance")
				}
			}
		}
	}
	nodal := func(k string) (out []expValue) {
		o := e.get(k)
		if !x.is(o, 'o', k) {
			return nil
		}
		for i, node := range o.keys {
			if slices.Index(o.keys, node) != i {
				x.unclear("repeated node")
			}
			l := o.vals[i]
			if !x.is(l, 'a', k) {
				continue
			}
			for _, entry := range l.vals {
				if !x.is(entry, 'o', k) {
					continue
				}
				for j, name := range entry.keys {
					if slices.Index(entry.keys, name) != j {
						x.unclear("repeated value")
					}
					d, ok := expDofs[name]
					if !ok {
						x.no("unknown degree of freedom %v", name)
						continue
					}
					if entry.vals[j].lit == "null" {
						x.unclear("null")
					}
					out = append(out, expValue{deflect.Index{NodalID: node, Dof: d}, x.num(entry.vals[j], k)})
				}
			}
		}
		return out
	}
	x.primary, x.reaction = nodal("primary"), nodal("reaction")
	if o := e.get("interpolation"); x.is(o, 'o', "interpolation") {
		for i, elem := range o.keys {
			if slices.Index(o.keys, elem) != i {
				x.unclear("repeated element")
			}
			l := o.vals[i]
			if !x.is(l, 'a', "interpolation") {
				continue
			}
			for _, v := range l.vals {
				if !x.is(v, 'o', "interpolation") {
					continue
				}
				x.only(v, "kind", "degree", "range", "boundary", "eval")
				q := expFct{elem: elem}
				var known bool
				if q.f, known = fctNames[x.str(v.get("kind"), "kind")]; !known {
					x.no("unknown function")
				}
				if d := v.get("degree"); d != nil {
					q.degree = int(x.num(d, "degree"))
					if _, err := strconv.Atoi(d.lit); err != nil {
						x.no("degree %v", d.lit)
					}
				}
				q.rng, q.boundary = x.nums(v.get("range"), "range"), x.nums(v.get("boundary"), "boundary")
				if n := len(q.rng); n != 0 && n != 2 {
					x.no("range of %v values", n)
				}
				if n := len(q.boundary); n > 2 {
					x.no("%v boundary values", n)
				}
				if ev := v.get("eval"); x.is(ev, 'a', "eval") {
					for _, p := range ev.vals {
						pair := x.nums(p, "eval")
						if len(pair) != 2 {
							x.no("sample of %v values", len(pair))
						}
						q.eval = append(q.eval, pair)
					}
				}
				x.fcts = append(x.fcts, q)
			}
		}
	}
	if f := e.get("failure"); f != nil {
		if f.lit == "null" {
			x.unclear("null")
		} else if re, err := regexp.Compile(x.str(f, "failure")); err != nil {
			x.no("pattern %v", f.lit)
		} else {
			x.failure = re
		}
	}
	return x
}

type outlook int

const (
	passes outlook = iota
	fails
	borderline
)

func judge(actual, exp, abs, rel float64) outlook {
	limit := math.Max(abs, rel*math.Max(math.Abs(actual), math.Abs(exp)))
	d := math.Abs(actual - exp)
	switch {
	case math.IsNaN(d) || math.IsInf(d, 0):
		return fails
	case d == 0 && limit == 0 || d < 0.99*limit:
		return passes
	case d > 1.01*limit:
		return fails
	}
	return borderline
}

// judgeEval leaves verdicts open that depend on the round-off of the evaluation.
func judgeEval(actual, exp, tol float64) outlook {
	roundOff := 1e-11 * math.Max(math.Abs(actual), math.Abs(exp))
	if roundOff > 0 && math.Max(tol, tol*roundOff*1e11) < roundOff && math.Abs(actual-exp) < roundOff {
		return borderline
	}
	return judge(actual, exp, tol, tol)
}

func worst(all ...outlook) outlook {
	if slices.Contains(all, fails) {
		return fails
	}
	if slices.Contains(all, borderline) {
		return borderline
	}
	return passes
}

func (x *expected) nodal(l []expValue, m map[deflect.Index]float64, tol float64) outlook {
	o := passes
	for _, e := range l {
		if v, ok := m[e.i]; !ok {
			o = fails
		} else {
			o = worst(o, judge(v, e.v, 1e-8, tol))
		}
	}
	return o
}

func (x *expected) fct(e *expFct, ps deflect.PolySequence) outlook {
	var piece *deflect.PolyPiece
	if len(e.rng) == 0 {
		if len(ps) != 1 {
			return fails
		}
		piece = &ps[0]
	} else {
		for i := range ps {
			if near := math.Abs(ps[i].X0-e.rng[0]) + math.Abs(ps[i].XE-e.rng[1]); near < 1e-12 {
				piece = &ps[i]
			} else if near < 1e-8*(1+math.Abs(ps[i].XE)) {
				return borderline
			}
		}
		if piece == nil {
			return fails
		}
	}
	if len(piece.Coeff)-1 != e.degree {
		return fails
	}
	o := passes
	sample := func(at, v float64) {
		if math.IsNaN(at) || at < piece.X0-1e-6 || at > piece.XE+1e-6 {
			o = fails
			return
		}
		if at < piece.X0 || at > piece.XE {
			o = worst(o, borderline)
			return
		}
		o = worst(o, judgeEval(PolyAt(piece.Coeff, at), v, x.tolI))
	}
	for _, s := range e.eval {
		sample(s[0], s[1])
	}
	if len(e.boundary) > 0 {
		sample(piece.X0, e.boundary[0])
	}
	if len(e.boundary) > 1 {
		sample(piece.XE, e.boundary[1])
	}
	return o
}

func (x *expected) interpolated(r *fakeResult) outlook {
	o := passes
	for i := range x.fcts {
		ps, ok := r.polys[polyKey{x.fcts[i].elem, x.fcts[i].f}]
		if !ok {
			return fails
		}
		o = worst(o, x.fct(&x.fcts[i], ps))
	}
	return o
}

func (x *expected) failed(err error) outlook {
	switch {
	case x.failure == nil && err == nil:
		return passes
	case x.failure == nil || err == nil:
		return fails
	case x.failure.MatchString(err.Error()) || x.failure.MatchString(strings.ToLower(err.Error())):
		return passes
	}
	return fails
}

// verdictOf runs one method of all expectations; panics are returned.
func verdictOf(exps []integr.Expectation, f func(e integr.Expectation, t *testing.T)) (failed bool, panicked string) {
	failed = runT(func(t *testing.T) {
		panicked = protect(func() string {
			for _, e := range exps {
				f(e, t)
			}
			return ""
		})
	})
	return failed, panicked
}

var checkerOps = []string{"primary", "reaction", "interpolation", "failure"}

func (x *expected) predict(op int, r *fakeResult, err error) outlook {
	switch op {
	case 0:
		return x.nodal(x.primary, r.prim, x.tolP)
	case 1:
		return x.nodal(x.reaction, r.reac, x.tolR)
	case 2:
		return x.interpolated(r)
	}
	return x.failed(err)
}

func perform(exps []integr.Expectation, op int, r deflect.ProblemResult, err error) (bool, string) {
	return verdictOf(exps, func(e integr.Expectation, t *testing.T) {
		switch op {
		case 0:
			e.Primary(r, t)
		case 1:
			e.Reaction(r, t)
		case 2:
			e.Interpolated(r, t)
		default:
			e.Failure(err, t)
		}
	})
}

// checkExpected compares the verdicts of the checker with what the document says.
func checkExpected(x *Space, doc *jv, r *fakeResult, err error) string {
	want := readExpected(doc)
	var exps []integr.Expectation
	var errDoc error
	if m := protect(func() string { exps, errDoc = parseExpectations(doc.String()); return "" }); m != "" {
		return fmt.Sprintf("%v: %v", doc, m)
	}
	x.Count(1, 1, 1)
	if want.refuse != "" {
		if errDoc == nil && want.open == "" {
			return fmt.Sprintf("malformed expectations accepted (%v): %v", want.refuse, doc)
		}
		x.Class("malformed, refused")
		return ""
	}
	if errDoc != nil {
		if want.open == "" {
			return fmt.Sprintf("well-formed expectations refused (%v): %v", errDoc, doc)
		}
		x.Class("left open")
		return ""
	}
	for op, name := range checkerOps {
		failed, panicked := perform(exps, op, r, err)
		if panicked != "" {
			return fmt.Sprintf("%v: %v", doc, panicked)
		}
		if want.open != "" {
			x.Class("left open")
			continue
		}
		o := want.predict(op, r, err)
		x.Class(fmt.Sprintf("%v: %v", name, []string{"match", "mismatch", "borderline"}[o]))
		if o == passes && failed {
			return fmt.Sprintf("check of %v fails, but everything matches: %v", name, doc)
		}
		if o == fails && !failed {
			return fmt.Sprintf("check of %v passes, but there are deviations: %v, result %v %v %v, error %v", name, doc, r.prim, r.reac, r.polys, err)
		}
	}
	return ""
}

// baseResult has values of all magnitudes and functions of 1 to 3 pieces.
func baseResult() *fakeResult {
	i := func(n string, d Dof) deflect.Index { return deflect.Index{NodalID: n, Dof: d} }
	return &fakeResult{
		prim: map[deflect.Index]float64{i("A", Ux): 0, i("A", Uz): -2.5, i("B", Phiy): 1e-3, i("B", Ux): 4e5},
		reac: map[deflect.Index]float64{i("A", Ux): 12, i("A", Uz): 0, i("B", Phiy): -3e6, i("B", Ux): 0.25},
		polys: map[polyKey]deflect.PolySequence{
			{"AB", deflect.FctNx}:   {{X0: 0, XE: 4, Coeff: []float64{5}}},
			{"AB", deflect.FctMy}:   {{X0: 0, XE: 1.5, Coeff: []float64{2, -3}}, {X0: 1.5, XE: 4, Coeff: []float64{-4, 1, 0.5}}},
			{"AB", deflect.FctUz}:   {{X0: 0, XE: 4, Coeff: []float64{0, 0.5, -2, 1}}},
			{"BC", deflect.FctVz}:   {{X0: 0, XE: 1, Coeff: []float64{0}}, {X0: 1, XE: 2, Coeff: []float64{-7}}, {X0: 2, XE: 3, Coeff: []float64{3e4}}},
			{"BC", deflect.FctPhiy}: {{X0: 0, XE: 3, Coeff: []float64{1e-4, 2e-4}}},
		},
	}
}

func docOfResult(r *fakeResult, interp func(k polyKey, ps deflect.PolySequence) []*jv) *jv {
	nodal := func(m map[deflect.Index]float64, names map[Dof]string) *jv {
		o := jobj()
		var keys []deflect.Index
		for k := range m {
			keys = append(keys, k)
		}
		slices.SortFunc(keys, func(a, b deflect.Index) int {
			if a.NodalID != b.NodalID {
				return strings.Compare(a.NodalID, b.NodalID)
			}
			return int(a.Dof) - int(b.Dof)
		})
		for _, k := range keys {
			l := o.get(k.NodalID)
			if l == nil {
				l = jarr()
				o.put(k.NodalID, l)
			}
			l.add(jobj().put(names[k.Dof], jnum(m[k])))
		}
		return o
	}
	ip := jobj()
	var keys []polyKey
	for k := range r.polys {
		keys = append(keys, k)
	}
	slices.SortFunc(keys, func(a, b polyKey) int {
		if a.elem != b.elem {
			return strings.Compare(a.elem, b.elem)
		}
		return int(a.f) - int(b.f)
	})
	for _, k := range keys {
		for _, v := range interp(k, r.polys[k]) {
			if ip.get(k.elem) == nil {
				ip.put(k.elem, jarr())
			}
			ip.get(k.elem).add(v)
		}
	}
	e := jobj().put("primary", nodal(r.prim, dofNames)).put("reaction", nodal(r.reac, forceNames)).put("interpolation", ip)
	return jobj().put("expected", e)
}

var fctName = func() map[deflect.Fct]string {
	m := map[deflect.Fct]string{}
	for n, f := range fctNames {
		m[f] = n
	}
	return m
}()

// describe writes down the expectations for one function: style selects boundary values or samples,
// and whether a range is given for functions of a single piece.
func describe(style int) func(k polyKey, ps deflect.PolySequence) []*jv {
	return func(k polyKey, ps deflect.PolySequence) (out []*jv) {
		for _, p := range ps {
			d := jobj().put("kind", jstr(fctName[k.f])).put("degree", jnum(float64(len(p.Coeff)-1)))
			if len(ps) > 1 || style&1 != 0 {
				d.put("range", jarr(jnum(p.X0), jnum(p.XE)))
			}
			if style&2 == 0 {
				b := jarr(jnum(PolyAt(p.Coeff, p.X0)))
				if len(p.Coeff) > 1 || style&4 != 0 {
					b.add(jnum(PolyAt(p.Coeff, p.XE)))
				}
				d.put("boundary", b)
			}
			if style&2 != 0 || style&4 != 0 {
				ev := jarr()
				for _, f := range []float64{0, 0.3, 0.5, 1} {
					at := p.X0 + f*(p.XE-p.X0)
					ev.add(jarr(jnum(at), jnum(PolyAt(p.Coeff, at))))
				}
				d.put("eval", ev)
			}
			out = append(out, d)
		}
		return out
	}
}

// withTolerances adds a section of tolerances; zero means none.
func withTolerances(doc *jv, p, r, i float64) *jv {
	d := doc.clone()
	t := jobj()
	for _, x := range []struct {
		k string
		v float64
	}{{"primary", p}, {"reaction", r}, {"polynomial", i}} {
		if x.v != 0 {
			t.put(x.k, jnum(x.v))
		}
	}
	d.get("expected").put("tolerance", t)
	return d
}

// A deviation changes one thing about a result.
type deviation struct {
	name  string
	apply func(r *fakeResult)
}

// deviations of a result by fractions and multiples of the given tolerances.
func deviations(r *fakeResult, tolP, tolR, tolI float64) (out []deviation) {
	add := func(name string, f func(r *fakeResult)) { out = append(out, deviation{name, f}) }
	nodal := func(what string, tol float64, base map[deflect.Index]float64, of func(r *fakeResult) map[deflect.Index]float64) {
		for k, v := range base {
			limit := math.Max(1e-8, tol*math.Abs(v))
			for _, f := range []float64{0.5, -0.5, 3, -3, 1e4} {
				add(fmt.Sprintf("%v %v by %v tolerances", what, k, f), func(r *fakeResult) { of(r)[k] = v + f*limit })
			}
			add(fmt.Sprintf("%v %v negative", what, k), func(r *fakeResult) { of(r)[k] = -v })
			add(fmt.Sprintf("%v %v nan", what, k), func(r *fakeResult) { of(r)[k] = math.NaN() })
			add(fmt.Sprintf("%v %v infinite", what, k), func(r *fakeResult) { of(r)[k] = math.Inf(-1) })
			add(fmt.Sprintf("%v %v missing", what, k), func(r *fakeResult) { delete(of(r), k) })
		}
	}
	nodal("primary", tolP, r.prim, func(r *fakeResult) map[deflect.Index]float64 { return r.prim })
	nodal("reaction", tolR, r.reac, func(r *fakeResult) map[deflect.Index]float64 { return r.reac })
	for k, ps := range r.polys {
		add(fmt.Sprintf("%v missing", k), func(r *fakeResult) { delete(r.polys, k) })
		add(fmt.Sprintf("%v without pieces", k), func(r *fakeResult) { r.polys[k] = nil })
		add(fmt.Sprintf("%v one piece more", k), func(r *fakeResult) {
			l := r.polys[k]
			r.polys[k] = append(l, deflect.PolyPiece{X0: l[len(l)-1].XE, XE: l[len(l)-1].XE + 1, Coeff: []float64{1}})
		})
		for i, p := range ps {
			edit := func(name string, f func(p *deflect.PolyPiece)) {
				add(fmt.Sprintf("%v piece %v %v", k, i, name), func(r *fakeResult) { f(&r.polys[k][i]) })
			}
			for j, c := range p.Coeff {
				limit := math.Max(tolI, tolI*math.Abs(PolyAt(p.Coeff, p.XE)))
				for _, f := range []float64{0.1, -0.1, 5, -5, 1e5} {
					edit(fmt.Sprintf("coefficient %v by %v", j, f), func(p *deflect.PolyPiece) { p.Coeff[j] = c + f*limit })
				}
				edit(fmt.Sprintf("coefficient %v negative", j), func(p *deflect.PolyPiece) { p.Coeff[j] = -c })
				edit(fmt.Sprintf("coefficient %v nan", j), func(p *deflect.PolyPiece) { p.Coeff[j] = math.NaN() })
			}
			edit("degree higher", func(p *deflect.PolyPiece) { p.Coeff = append(p.Coeff, 0) })
			edit("no coefficients", func(p *deflect.PolyPiece) { p.Coeff = nil })
			if len(p.Coeff) > 1 {
				edit("degree lower", func(p *deflect.PolyPiece) { p.Coeff = p.Coeff[:len(p.Coeff)-1] })
			}
			edit("starts later", func(p *deflect.PolyPiece) { p.X0 += 0.1 })
			edit("ends earlier", func(p *deflect.PolyPiece) { p.XE -= 0.1 })
			edit("starts slightly later", func(p *deflect.PolyPiece) { p.X0 += 1e-7 * (1 + p.XE) })
			edit("ends slightly later", func(p *deflect.PolyPiece) { p.XE += 1e-7 * (1 + p.XE) })
			edit("ends later", func(p *deflect.PolyPiece) { p.XE += 1e-3 })
		}
	}
	slices.SortFunc(out, func(a, b deviation) int { return strings.Compare(a.name, b.name) })
	return out
}

var expectWrongValues = []string{`"zz"`, `""`, `-1`, `0`, `1`, `2.5`, `1e9`, `1e999`, `true`, `null`, `[]`, `{}`, `[1]`, `{"Ux":0}`, `"Ux"`, `"My"`, `"Vz"`, `"["`}

func runChecker(r *Run) {
	if runT == nil {
		runAsTest(r)
	}
	x := NewSpace(r)
	base := baseResult()
	var n int64
	report := func(f func() string, data map[string]any) (string, map[string]any) {
		m := f()
		if atomic.AddInt64(&n, 1)%20011 == 1 && m == "" {
			return m, data
		}
		return m, nil
	}
	// deviations of results
	tolerances := []float64{0, 1e-3, 0.2}
	pairs := 1
	if !r.Quick() {
		pairs = 8
	}
	def := func(v float64) float64 {
		if v == 0 {
			return 1e-8
		}
		return v
	}
	type setting struct {
		doc  *jv
		devs []deviation
	}
	var settings []setting
	most := 0
	for c := 0; c < 28; c++ {
		tp, tr, ti := 1e-12, 1e-13, 0.0 // less than the absolute limit
		if c < 27 {
			tp, tr, ti = tolerances[c%3], tolerances[c/3%3], tolerances[c/9]
		}
		devs := deviations(base, def(tp), def(tr), def(ti))
		most = max(most, len(devs)+1)
		for style := 0; style < 8; style++ {
			settings = append(settings, setting{withTolerances(docOfResult(base, describe(style)), tp, tr, ti), devs})
		}
	}
	deviate := func(s setting, which ...int) (string, map[string]any) {
		res := base.clone()
		what := "none"
		for _, i := range which {
			if i >= len(s.devs) {
				return "", nil
			}
			if protect(func() string { s.devs[i].apply(res); return "" }) != "" {
				return "", nil
			}
			what += ", " + s.devs[i].name
		}
		return report(func() string { return checkExpected(x, s.doc, res, nil) }, map[string]any{"deviation": what, "document": s.doc.String()})
	}
	x.Each("deviations of results, 28 tolerances, 8 styles", len(settings)*most, func(i int) (string, map[string]any) {
		if i%most == 0 {
			return deviate(settings[i/most])
		}
		return deviate(settings[i/most], i%most-1)
	})
	for style := 0; style < pairs; style++ {
		s := settings[13*8+style]
		x.Each(fmt.Sprintf("pairs of deviations, style %v", style), len(s.devs)*len(s.devs), func(i int) (string, map[string]any) {
			return deviate(s, i%len(s.devs), i/len(s.devs))
		})
	}
	// faults of documents
	small := base.clone()
	small.prim = map[deflect.Index]float64{{NodalID: "A", Dof: Uz}: 3}
	small.reac = map[deflect.Index]float64{{NodalID: "B", Dof: Phiy}: -2}
	for k := range small.polys {
		if k.f != deflect.FctMy {
			delete(small.polys, k)
		}
	}
	smallDoc := withTolerances(docOfResult(small, describe(5)), 1e-3, 0.1, 1e-4)
	smallDoc.get("expected").put("failure", jstr("unstable"))
	for i, d := range []*jv{withTolerances(docOfResult(base, describe(5)), 1e-3, 0.1, 1e-4), docOfResult(base, describe(2)), smallDoc} {
		fs := faults(d, expectWrongValues)
		x.Each(fmt.Sprintf("faults of document %v", i), len(fs), func(k int) (string, map[string]any) {
			f := fs[k].apply(d.clone())
			res := base
			if d == smallDoc {
				res = small
			}
			return report(func() string { return checkExpected(x, f, res, nil) }, map[string]any{"fault": fs[k].name, "document": f.String()})
		})
	}
	fs := faults(smallDoc, expectWrongValues[:6])
	if !r.Quick() {
		fs = faults(smallDoc, expectWrongValues)
	}
	x.Each("double faults", len(fs)*len(fs), func(k int) (string, map[string]any) {
		a, b := k%len(fs), k/len(fs)
		if a == b {
			return "", nil
		}
		var f *jv
		if protect(func() string { f = fs[a].apply(fs[b].apply(smallDoc.clone())); return "" }) != "" {
			return "", nil // the second place is gone
		}
		return report(func() string { return checkExpected(x, f, small, nil) }, map[string]any{"faults": fs[a].name + ", " + fs[b].name})
	})
	// failures
	patterns := []string{"", "unstable", "Unstable", "UNSTABLE", "^unstable", "structure$", ".*", "(a|b)c", "[0-9]+ dofs", "no such", "a.c", "\\bcat\\b", "(?i)KINEMATIC"}
	errs := []error{nil, errors.New(""), errors.New("unstable"), errors.New("Unstable structure"), errors.New("UNSTABLE STRUCTURE"), errors.New("an unstable thing\nsecond line"),
		fmt.Errorf("wrapped: %w", errors.New("No such node")), errors.New("12 dofs"), errors.New("abc"), errors.New("concatenate"), errors.New("cat"), errors.New("kinematic")}
	x.Each("failures", (len(patterns)+1)*len(errs)*2, func(i int) (string, map[string]any) {
		e := jobj()
		p := i % (len(patterns) + 1)
		i /= len(patterns) + 1
		doc := jobj().put("expected", e)
		if i/len(errs) == 1 {
			doc = docOfResult(base, describe(0))
			e = doc.get("expected")
		}
		if p > 0 {
			e.put("failure", jstr(patterns[p-1]))
		}
		return report(func() string { return checkExpected(x, doc, base, errs[i%len(errs)]) }, map[string]any{"document": doc.String()})
	})
	// histories: verdicts don't depend on earlier ones
	off := base.clone()
	for i, d := range deviations(base, 1e-3, 1e-3, 1e-3) {
		if i%7 == 0 && !strings.Contains(d.name, "missing") && !strings.Contains(d.name, "pieces") {
			_ = protect(func() string { d.apply(off); return "" })
		}
	}
	depth := 4
	if !r.Quick() {
		depth = 6
	}
	for style := 0; style < 8; style += 3 {
		doc := docOfResult(base, describe(style))
		want := readExpected(doc)
		x.sequences(fmt.Sprintf("checks one after another, style %v", style), 8, 0, depth, func(seq []int) (string, map[string]any) {
			return report(func() string {
				exps, err := parseExpectations(doc.String())
				if err != nil {
					return err.Error()
				}
				for _, k := range seq {
					res, err := base, error(nil)
					if k >= 4 {
						res, err = off, errInjected
					}
					failed, panicked := perform(exps, k%4, res, err)
					if o := want.predict(k%4, res, err); panicked != "" || o != borderline && failed != (o == fails) {
						return fmt.Sprintf("sequence %v: check of %v fails: %v, expected %v %v", seq, checkerOps[k%4], failed, o == fails, panicked)
					}
				}
				return ""
			}, map[string]any{"sequence": seq})
		})
	}
	// real results
	for _, t := range allTemplates() {
		out := t.Spec.Run()
		if out.Failed() {
			continue
		}
		real := &fakeResult{out.D, out.R, map[polyKey]deflect.PolySequence{}}
		for _, ip := range CopyInterp(out.Res.InterpolateAll(1e-8)) {
			real.polys[polyKey{ip.Element, ip.Quantity}] = ip.Piecewise
		}
		doc := docOfResult(real, describe(5))
		var leaves [][]int
		doc.paths(nil, func(path []int, v *jv) {
			if v.kind == 'l' && !strings.HasPrefix(v.lit, `"`) {
				leaves = append(leaves, path)
			}
		})
		x.Each("results of "+t.Name, 1+2*len(leaves), func(i int) (string, map[string]any) {
			d := doc.clone()
			if i > 0 {
				v := d.at(leaves[(i-1)/2])
				f, _ := strconv.ParseFloat(v.lit, 64)
				v.lit = num(f + math.Max(1e-4, 1e-4*math.Abs(f)))
				if i%2 == 0 {
					v.lit = num(f + 1e-12*math.Abs(f))
				}
			}
			return report(func() string {
				m := checkExpected(x, d, real, nil)
				if m != "" {
					return m
				}
				want := readExpected(d)
				exps, err := parseExpectations(d.String())
				if err != nil {
					if want.refuse == "" {
						return err.Error()
					}
					return ""
				}
				for op := range checkerOps {
					failed, panicked := perform(exps, op, out.Res, nil)
					if o := want.predict(op, real, nil); panicked != "" || o != borderline && failed != (o == fails) {
						return fmt.Sprintf("real result, check of %v fails: %v, expected %v %v: %v", checkerOps[op], failed, o == fails, panicked, d)
					}
				}
				return ""
			}, map[string]any{"document": d.String()})
		})
	}
	x.Finish()
}

func init() { checks["C20"] = runChecker }
