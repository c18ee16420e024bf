package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

// C12: the shipped equation solver on all small integer systems, decided by exact arithmetic.

// minors returns the leading principal minors by fraction-free elimination on integers.
func det(a [][]int64) *big.Int {
	n := len(a)
	m := make([][]*big.Int, n)
	for i := range m {
		m[i] = make([]*big.Int, n)
		for j := range m[i] {
			m[i][j] = big.NewInt(a[i][j])
		}
	}
	sign, prev := int64(1), big.NewInt(1)
	for k := 0; k < n-1; k++ {
		p := k
		for p < n && m[p][k].Sign() == 0 {
			p++
		}
		if p == n {
			return new(big.Int)
		}
		if p != k {
			m[p], m[k] = m[k], m[p]
			sign = -sign
		}
		for i := k + 1; i < n; i++ {
			for j := k + 1; j < n; j++ {
				t := new(big.Int).Mul(m[i][j], m[k][k])
				u := new(big.Int).Mul(m[i][k], m[k][j])
				m[i][j] = t.Sub(t, u).Quo(t, prev)
			}
		}
		prev = m[k][k]
	}
	return new(big.Int).Mul(m[n-1][n-1], big.NewInt(sign))
}

func positiveDefinite(a [][]int64) bool {
	for k := 1; k <= len(a); k++ {
		sub := make([][]int64, k)
		for i := range sub {
			sub[i] = a[i][:k]
		}
		if det(sub).Sign() <= 0 {
			return false
		}
	}
	return true
}

// exactSolution by Cramer's rule.
func exactSolution(a [][]int64, b []int64) []float64 {
	n := len(a)
	d := det(a)
	x := make([]float64, n)
	for c := 0; c < n; c++ {
		m := make([][]int64, n)
		for i := range m {
			m[i] = append([]int64(nil), a[i]...)
			m[i][c] = b[i]
		}
		x[c], _ = new(big.Rat).SetFrac(det(m), d).Float64()
	}
	return x
}

// symmetric is a coefficient matrix of a type the library does not know.
type symmetric struct{ a [][]float64 }

func (s symmetric) Dims() (int, int)    { return len(s.a), len(s.a) }
func (s symmetric) At(i, j int) float64 { return s.a[i][j] }
func (s symmetric) T() mat.Matrix       { return s }
func (s symmetric) SymmetricDim() int   { return len(s.a) }

// arrangement of the arguments: how matrix and vectors are stored.
const (
	plain = iota
	view
	foreign
	arrangements
)

type system struct {
	n         int
	a         [][]int64
	b         []int64
	scaleA    float64
	scaleB    float64
	rowScales bool            // congruence with a diagonal matrix of powers of two, exact
	store     map[int]storage // by order
}

// storage of the arguments that stays the same from one call to the next.
type storage struct {
	a    *mat.SymDense
	b, x *mat.VecDense
	// the very arguments
	argA       mat.Symmetric
	argB, argX *mat.VecDense
}

func (s *system) scale(i int) float64 {
	if !s.rowScales {
		return 1
	}
	return math.Ldexp(1, 3*i-4)
}

func (s *system) solve(ch deflect.EquationSolver, how int, pd bool, exact []float64) string {
	n := s.n
	const guardValue = 12345.5
	fa := make([][]float64, n)
	for i := range fa {
		fa[i] = make([]float64, n)
		for j := range fa[i] {
			fa[i][j] = float64(s.a[i][j]) * s.scaleA * s.scale(i) * s.scale(j)
		}
	}
	var a mat.Symmetric
	var big *mat.SymDense
	var bb, bx *mat.VecDense
	off := 0
	if how == view {
		off = 2
	}
	bb, bx = mat.NewVecDense(n+2*off, nil), mat.NewVecDense(n+2*off, nil)
	before, reused := s.store[n+2*off]
	if reused {
		bb, bx, big = before.b, before.x, before.a
	}
	for i := 0; i < n+2*off; i++ {
		bb.SetVec(i, guardValue)
		bx.SetVec(i, guardValue) // left over from an earlier solution
	}
	for i := 0; i < n; i++ {
		bb.SetVec(off+i, float64(s.b[i])*s.scaleB*s.scale(i))
	}
	b, x := bb.SliceVec(off, off+n).(*mat.VecDense), bx.SliceVec(off, off+n).(*mat.VecDense)
	if reused {
		b, x = before.argB, before.argX
	}
	if how == foreign {
		a = symmetric{fa}
	} else {
		if big == nil {
			big = mat.NewSymDense(n+2*off, nil)
		}
		for i := 0; i < n+2*off; i++ {
			for j := i; j < n+2*off; j++ {
				big.SetSym(i, j, guardValue)
			}
		}
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				big.SetSym(off+i, off+j, fa[i][j])
			}
		}
		if a = big.SliceSym(off, off+n); reused {
			a = before.argA
		}
		if s.store != nil {
			s.store[n+2*off] = storage{big, bb, bx, a, b, x}
		}
	}
	err := ch.SolveLinearSystem(a, b, x)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if a.At(i, j) != fa[i][j] {
				return "coefficient matrix modified"
			}
		}
		if b.AtVec(i) != float64(s.b[i])*s.scaleB*s.scale(i) {
			return "right hand side modified"
		}
	}
	for i := 0; i < off; i++ {
		if bx.AtVec(i) != guardValue || bx.AtVec(n+2*off-1-i) != guardValue || bb.AtVec(i) != guardValue || bb.AtVec(n+2*off-1-i) != guardValue {
			return "values next to the vectors modified"
		}
	}
	switch {
	case !pd && err == nil:
		return fmt.Sprintf("no error for a matrix that is not positive definite, x = %v", mat.Formatted(x.T()))
	case !pd:
		return ""
	case err != nil:
		return "positive definite system refused: " + err.Error()
	}
	for i := 0; i < n; i++ {
		want := exact[i] * s.scaleB / s.scaleA / s.scale(i)
		tol := 0.0
		for j := 0; j < n; j++ {
			tol = math.Max(tol, 1e-10*math.Abs(exact[j]*s.scaleB/s.scaleA))
		}
		if s.rowScales {
			tol *= 4096
		}
		if bad(x.AtVec(i), want, tol) {
			return fmt.Sprintf("x[%v] is %v, exact value %v", i, x.AtVec(i), want)
		}
	}
	return ""
}

type cholSpace struct {
	n         int
	diag, off []int64
}

func (c cholSpace) size() int { return pow(len(c.diag), c.n) * pow(len(c.off), c.n*(c.n-1)/2) }

func (c cholSpace) matrix(k int) [][]int64 {
	a := make([][]int64, c.n)
	for i := range a {
		a[i] = make([]int64, c.n)
	}
	for i := range a {
		a[i][i] = c.diag[k%len(c.diag)]
		k /= len(c.diag)
		for j := 0; j < i; j++ {
			a[i][j] = c.off[k%len(c.off)]
			a[j][i] = a[i][j]
			k /= len(c.off)
		}
	}
	return a
}

func ints(lo, hi int64) (out []int64) {
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return out
}

// history is the matrices that a solver has seen before the k-th.
func history(sp cholSpace, k int) [][][]int64 {
	out := [][][]int64{fill(sp.n+1-2*(k%2)*min(1, sp.n-1), func(i, j int) int64 {
		if i == j {
			return 4
		}
		return 1
	})}
	if k > 0 {
		out = append(out, sp.matrix(k-1))
	}
	return out
}

func init() {
	checks["C12"] = func(r *Run) {
		x := NewSpace(r)
		spaces := []cholSpace{
			{1, ints(-20, 100), nil},
			{2, ints(-4, 12), ints(-12, 12)},
			{3, ints(-1, 6), ints(-3, 3)},
			{4, ints(0, 3), ints(-1, 1)},
		}
		if !r.Quick() {
			spaces = append(spaces, cholSpace{3, ints(-2, 9), ints(-6, 6)}, cholSpace{4, ints(1, 4), ints(-2, 2)}, cholSpace{5, ints(1, 3), ints(-1, 1)})
		}
		rhs := [][]int64{{1, 0, 0, 0, 0, 0}, {-2, 3, 5, -7, 11, 4}, {0, 0, 0, 0, 0, 0}}
		type variant struct {
			a, b float64
			rows bool
			how  int
		}
		variants := []variant{{1, 1, false, plain}, {0.1, 1, false, view}, {1e9, 3e-5, false, foreign}, {1e-7, 1e6, true, view}, {1e-120, 1e-60, false, plain}, {1e120, 1e90, false, view}}
		for _, sp := range spaces {
			name := fmt.Sprintf("%vx%v, diagonal %v, off-diagonal %v", sp.n, sp.n, sp.diag, sp.off)
			x.Each(name, sp.size(), func(k int) (string, map[string]any) {
				a := sp.matrix(k)
				pd := positiveDefinite(a)
				var execs int64
				// one solver, and the same storage for its arguments, through a history that begins with the matrix
				// before this one and one of another size: nothing may be carried over from one call to the next
				used, store := deflect.NewCholeskySolver(), map[int]storage{}
				for h, before := range history(sp, k) {
					pd := positiveDefinite(before)
					b := rhs[1][:len(before)]
					var exact []float64
					if pd {
						exact = exactSolution(before, b)
					}
					s := system{n: len(before), a: before, b: b, scaleA: 1, scaleB: 1, store: store}
					execs++
					if m := s.solve(used, plain, pd, exact); m != "" {
						return m, map[string]any{"a": before, "b": b, "call": h}
					}
				}
				for bi, b := range rhs {
					var exact []float64
					if pd {
						exact = exactSolution(a, b[:sp.n])
					}
					for vi, v := range variants {
						if bi > 0 && vi > 1 {
							continue
						}
						s := system{n: sp.n, a: a, b: b[:sp.n], scaleA: v.a, scaleB: v.b, rowScales: v.rows}
						ch := deflect.NewCholeskySolver()
						if vi == 0 {
							ch, s.store = used, store
						}
						execs++
						if m := s.solve(ch, v.how, pd, exact); m != "" {
							return m, map[string]any{"a": a, "b": b[:sp.n], "variant": fmt.Sprint(v)}
						}
					}
				}
				x.Count(1, execs, execs)
				if pd {
					x.Class("positive definite, exact")
				} else {
					x.Class("not positive definite, refused")
				}
				if k%4999 == 17 {
					return "", map[string]any{"a": a, "positive definite": pd}
				}
				return "", nil
			})
		}
		signedGraphs(x)
		largeSystems(x)
		// dimensions that don't fit together
		x.Each("dimensions", 4*4*4, func(k int) (string, map[string]any) {
			n, nb, nx := 1+k%4, 1+k/4%4, 1+k/16
			a := mat.NewSymDense(n, nil)
			for i := 0; i < n; i++ {
				a.SetSym(i, i, 2)
			}
			b, v := mat.NewVecDense(nb, nil), mat.NewVecDense(nx, nil)
			b.SetVec(0, 1)
			err := deflect.NewCholeskySolver().SolveLinearSystem(a, b, v)
			x.Count(1, 1, 1)
			if fits := n == nb && n == nx; fits != (err == nil) {
				return fmt.Sprintf("%vx%v matrix, right hand side %v, solution %v: error %v", n, n, nb, nx, err), map[string]any{}
			}
			return "", nil
		})
		x.Finish()
	}
}

// families of matrices of any size. bad is a position that makes some of them indefinite.
var families = []struct {
	name string
	f    func(n, bad int) [][]int64
	pd   func(n, bad int) bool
}{
	{"chain", func(n, bad int) [][]int64 {
		return fill(n, func(i, j int) int64 {
			switch {
			case i == j && i == bad:
				return -1
			case i == j:
				return 2
			case i == j+1:
				return -1
			}
			return 0
		})
	}, func(n, bad int) bool { return bad < 0 }},
	{"free chain", func(n, bad int) [][]int64 { // no fixed end unless bad says where
		return fill(n, func(i, j int) int64 {
			switch {
			case i == j && n == 1:
				return int64(min(1, max(0, bad+1)))
			case i == j:
				v := int64(2)
				if i == 0 || i == n-1 {
					v = 1
				}
				if i == bad {
					v++
				}
				return v
			case i == j+1:
				return -1
			}
			return 0
		})
	}, func(n, bad int) bool { return bad >= 0 }},
	{"dense", func(n, bad int) [][]int64 {
		return fill(n, func(i, j int) int64 {
			switch {
			case i == j && i == bad:
				return -3
			case i == j:
				return int64(n + i%3)
			}
			return int64((i*j+i+j)%3) - 1
		})
	}, func(n, bad int) bool { return bad < 0 }},
	{"arrow", func(n, bad int) [][]int64 {
		return fill(n, func(i, j int) int64 {
			switch {
			case i == j && i == bad:
				return 0
			case i == j && i == n-1:
				return int64(n)
			case i == j:
				return 2
			case i == n-1:
				return 1
			}
			return 0
		})
	}, func(n, bad int) bool { return bad < 0 }},
	{"diagonal", func(n, bad int) [][]int64 {
		return fill(n, func(i, j int) int64 {
			switch {
			case i == j && i == bad:
				return 0
			case i == j:
				return int64(1 + i*i)
			}
			return 0
		})
	}, func(n, bad int) bool { return bad < 0 }},
}

func fill(n int, f func(i, j int) int64) [][]int64 {
	a := make([][]int64, n)
	for i := range a {
		a[i] = make([]int64, n)
		for j := 0; j <= i; j++ {
			a[i][j] = f(i, j)
			a[j][i] = a[i][j]
		}
	}
	return a
}

// largeSystems has all sizes, with a solution in integers that is known in advance.
func largeSystems(x *Space) {
	sizes := 80
	if !x.Run.Quick() {
		sizes = 140
	}
	for _, fam := range families {
		x.Each("family "+fam.name, sizes*(sizes+1), func(k int) (string, map[string]any) {
			n, bad := 1+k/(sizes+1), k%(sizes+1)-1
			if bad >= n {
				return "", nil
			}
			a := fam.f(n, bad)
			pd := fam.pd(n, bad)
			exact, b := make([]float64, n), make([]int64, n)
			for i := range exact {
				exact[i] = float64((i*i+3*i)%11 - 5)
				for j := range a {
					b[i] += a[i][j] * int64((j*j+3*j)%11-5)
				}
			}
			ch := deflect.NewCholeskySolver()
			for vi, v := range [][2]float64{{1, 1}, {0.1, 0.7}, {1e-30, 1e-30}, {1e40, 1e30}} {
				s := system{n: n, a: a, b: b, scaleA: v[0], scaleB: v[1]}
				x.Count(0, 1, 1)
				if m := s.solve(ch, vi%arrangements, pd, exact); m != "" {
					return fmt.Sprintf("%v %vx%v: %v", fam.name, n, n, m), map[string]any{"a": a, "variant": vi}
				}
			}
			x.Count(1, 0, 0)
			x.Class("family: " + map[bool]string{true: "positive definite, exact", false: "not positive definite, refused"}[pd])
			return "", nil
		})
	}
}

// signedGraphs has stiffness matrices of springs that couple displacements with the same or the
// opposite sign. They are singular, or else just not, if no loop of springs contradicts itself, and
// what isn't restrained then moves with equal amounts, in one direction or the other.
func signedGraphs(x *Space) {
	graph := func(name string, n, cases, holds int, weights []int64, sign func(k, i, j int) int64, of func(k int) int) {
		x.Each(name, cases, func(k int) (string, map[string]any) {
			w := of(k)
			a := fill(n, func(i, j int) int64 { return 0 })
			for i := 0; i < n; i++ {
				for j := 0; j < i; j++ {
					v := weights[w%len(weights)] * sign(k, i, j)
					w /= len(weights)
					a[i][j], a[j][i] = v, v
					a[i][i] += max(v, -v)
					a[j][j] += max(v, -v)
				}
			}
			rhs := []int64{1, 0, 0, 2, 0, -1, 3}[:n]
			// entire, and held at one of its ends
			for held := 0; held < holds; held++ {
				if held > 0 {
					a[(held-1)*(n-1)][(held-1)*(n-1)]++
				}
				if held == 2 {
					a[0][0]--
				}
				pd, exact := positiveDefinite(a), []float64(nil)
				if pd {
					exact = exactSolution(a, rhs)
				}
				for vi, f := range []float64{1, 0.1, 0.7, 3e5} {
					s := system{n: n, a: a, b: rhs, scaleA: f, scaleB: 1}
					x.Count(0, 1, 1)
					if m := s.solve(deflect.NewCholeskySolver(), vi%arrangements, pd, exact); m != "" {
						return m, map[string]any{"a": a, "factor": f}
					}
				}
				x.Class("springs: " + map[bool]string{true: "positive definite, exact", false: "not positive definite, refused"}[pd])
			}
			x.Count(1, 0, 0)
			return "", nil
		})
	}
	one := func(k, i, j int) int64 { return 1 }
	same := func(k int) int { return k }
	graph("springs of 4 displacements", 4, pow(5, 6), 3, ints(-2, 2), one, same)
	graph("springs of 5 displacements", 5, pow(3, 10), 3, ints(-1, 1), one, same)
	// consistent ones of 6: each displacement, apart from the first, goes with it or against it
	var directions []int
	for d := 0; d < 32; d++ {
		if !x.Run.Quick() || bits.OnesCount(uint(d)) == 3 {
			directions = append(directions, d)
		}
	}
	direction := func(k, i int) int64 {
		if i > 0 && directions[k%len(directions)]>>(i-1)&1 == 1 {
			return -1
		}
		return 1
	}
	holds := 1
	if !x.Run.Quick() {
		holds = 3
	}
	graph("springs of 6 displacements", 6, pow(2, 15)*len(directions), holds, ints(0, 1), func(k, i, j int) int64 { return -direction(k, i) * direction(k, j) }, func(k int) int { return k / len(directions) })
}
