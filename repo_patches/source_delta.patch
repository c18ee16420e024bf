From e116378b7ec9e031f7a768a8f383f921d47e3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 01/22] fix: account for prescribed displacements when every
 Dirichlet value is non-zero

The check for non-zero Dirichlet values was inverted, such that the known nodal
values were ignored in the free equations if none of them was (nearly) zero.
---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From 8112b80dfb515c0886d965e8c9d0d9dd7140210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 02/22] fix: don't report loads on free degrees of freedom as
 reactions

Loads on free degrees of freedom were left in the reaction vector. Besides being
returned as reactions at unsupported nodes, a load in the rolling direction of
an inclined support was rotated into the support's reported reaction forces.
---
 deflect/linear_bvp_solver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..108a30b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -89,6 +89,9 @@ func (s *linearSolver) Solve(
 	r1.AddVec(r1, scratch)
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
+	// There are no reactions at free dofs. This must be zeroed out, because otherwise transformers
+	// mix Neumann loads on free dofs into reaction forces (e.g. at inclined supports).
+	r2.Zero()
 
 	for _, transform := range p.EqTransforms {
 		transform.Post(indices, r, d)
-- 
2.43.0


From 0aab6fa6a11f0d5a208dce75cfe8bdf727358225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 03/22] fix: revert equation transformers in reverse order

Two inclined supports that share a degree of freedom of a node don't commute, so
the back-transformation must be applied in the opposite order.
---
 deflect/linear_bvp_solver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 108a30b..8d6a1fa 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -93,8 +93,9 @@ func (s *linearSolver) Solve(
 	// mix Neumann loads on free dofs into reaction forces (e.g. at inclined supports).
 	r2.Zero()
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// Undo in reverse order, transformers that act on the same dofs don't commute
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From 3d5b2fd871e0dfa4db5ade343abfce70d196276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 04/22] fix: don't share the solver's re-used buffers with its
 results

Solving a second problem with the same solver instance silently replaced the
values of the first result.
---
 deflect/linear_bvp_solver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 8d6a1fa..1937b4b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -103,8 +103,8 @@ func (s *linearSolver) Solve(
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(d), // The solver re-uses its buffers
+		r:        mat.VecDenseCopyOf(r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From 0b65d10b0ebcdaa0a4836e6d988206fd7a24417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:41 +0000
Subject: [PATCH 05/22] fix: return an error instead of panicking without
 Dirichlet BCs

---
 deflect/linear_bvp_solver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 1937b4b..37d310a 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -1,6 +1,7 @@
 package deflect
 
 import (
+	"errors"
 	"fmt"
 
 	"gonum.org/v1/gonum/mat"
@@ -113,6 +114,8 @@ func (s *linearSolver) Solve(
 func (s *linearSolver) initialise(dim, constrained int) error {
 	if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
+	} else if constrained == 0 {
+		return errors.New("can't solve a BVP with no Dirichlet BC")
 	}
 
 	s.dim = dim
-- 
2.43.0


From 7c8169c463ea1c90e68d7964de86d19b2b8ba232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:47 +0000
Subject: [PATCH 06/22] fix: reject polynomial evaluation right of the domain

Typo in the tolerance, 1e10 instead of 1e-10.
---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From 9a7b518a4ad3fc7a894626d437141404a74f8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:53 +0000
Subject: [PATCH 07/22] fix: remove loads from frame elements

Loads are stored in the truss and beam parts of a frame, but removing a load was
only attempted on the (always empty) load sequence of the frame itself.
---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 63f8ebed96bdab5cad88f50738a13adc61ff9483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 08/22] fix: resize inclined support buffers when the problem
 size changes

Using the same inclined support for a problem that has grown panicked.
---
 deflect/inclined_support.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..f660ea1 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -33,8 +33,7 @@ func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDe
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
 	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From 13b6ba3c08b7a797200ad1abe9b8e14800b67fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 09/22] fix: don't pretend trusses can apply unknown element
 loads

Any handle that isn't an element load (e.g. nil) was accepted as if it was a
load in the truss direction, and then ignored.
---
 deflect/truss2d.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..35f6f12 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,15 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
+	if supported {
 		return t.oneDimElement.AddLoad(bc)
 	}
 
-- 
2.43.0


From 9fac9864facb900cf7be467f28525c4555459665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 10/22] fix: reject negative roll angles of constant cross
 sections as documented

---
 deflect/cross_sections.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..6c5df5f 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -45,6 +45,9 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 	if cs.ixx < 0 {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative cross section roll angle = %v", cs.roll))
+	}
 
 	return &cs, err
 }
-- 
2.43.0


From 7a624052ed2dc94369eed3a8541d8d0a93450fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 11/22] fix: refuse concentrated loads beyond the end of an
 element

Negative positions are already rejected, but a position larger than the element
length silently led to meaningless results.
---
 deflect/beam2d.go          |  2 +-
 deflect/one_dim_element.go | 12 ++++++++++++
 deflect/truss2d.go         |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/deflect/beam2d.go b/deflect/beam2d.go
index 4a41b60..4fcdc57 100644
--- a/deflect/beam2d.go
+++ b/deflect/beam2d.go
@@ -184,7 +184,7 @@ func (b *beam2d) AddLoad(bc NeumannElementBC) bool {
 		func(l *neumannConstant) { supported = l.kind == Uz },
 		func(l *neumannLinear) { supported = l.kind == Uz })
 
-	return supported && b.oneDimElement.AddLoad(bc)
+	return supported && b.onElement(bc) && b.oneDimElement.AddLoad(bc)
 }
 
 func (b *beam2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
diff --git a/deflect/one_dim_element.go b/deflect/one_dim_element.go
index b72988f..ec19f6a 100644
--- a/deflect/one_dim_element.go
+++ b/deflect/one_dim_element.go
@@ -26,6 +26,18 @@ type oneDimElement struct {
 	loads    []NeumannElementBC
 }
 
+// onElement returns false for concentrated loads with a position beyond the end of the element.
+func (e *oneDimElement) onElement(bc NeumannElementBC) bool {
+	on := true
+
+	loadDispatch(bc,
+		func(load *neumannConcentrated) { on = load.position <= length(e.n0, e.n1)+1e-10 },
+		func(*neumannConstant) {},
+		func(*neumannLinear) {})
+
+	return on
+}
+
 func (e *oneDimElement) AddLoad(bc NeumannElementBC) bool {
 	e.loads = append(e.loads, bc)
 	return true
diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 35f6f12..08fc19b 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -130,7 +130,7 @@ func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
 		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if supported {
+	if supported && t.onElement(bc) {
 		return t.oneDimElement.AddLoad(bc)
 	}
 
-- 
2.43.0


From a8af8ffb680227f35e6725bc825ae0bd0ccf7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 12/22] fix: report failing index lookups of elements and
 inclined supports

Elements and transformers are given a copy of the index layout. Lookup failures
were recorded in that copy and hence lost, and coefficients ended up in the row
with index zero: solving with an outdated layout or with an inclined support on
a degree of freedom that no element uses silently gave wrong results.
---
 deflect/inclined_support.go  |  6 ++++++
 deflect/linear_bvp_solver.go | 30 ++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index f660ea1..39a4684 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -22,6 +22,12 @@ type inclinedSupport struct {
 	irow, jrow *mat.VecDense
 }
 
+// Indices adds the indices linked by the inclined support to set.
+func (l *inclinedSupport) Indices(set map[Index]struct{}) {
+	set[l.from] = struct{}{}
+	set[l.to] = struct{}{}
+}
+
 type angularLinkPhase uint8
 
 const (
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 37d310a..a4d7c33 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -40,6 +40,10 @@ func (s *linearSolver) Solve(
 	k11, k12, k22 := s.eqn.k11, s.eqn.k12, s.eqn.k22
 	d1, d2, r1, r2 := s.eqn.d1, s.eqn.d2, s.eqn.r1, s.eqn.r2
 
+	if err := verifyLookups(p, indices); err != nil {
+		return nil, err
+	}
+
 	for _, e := range p.Elements {
 		e.Assemble(indices, k, r, d)
 	}
@@ -111,6 +115,32 @@ func (s *linearSolver) Solve(
 	}, err
 }
 
+// verifyLookups makes sure all indices used by elements and transformers are part of the layout.
+// Both work on a copy of the layout, so lookup failures in there would otherwise go unnoticed.
+func verifyLookups(p *Problem, indices EqLayout) error {
+	required := map[Index]struct{}{}
+
+	for _, e := range p.Elements {
+		e.Indices(required)
+	}
+
+	for _, transform := range p.EqTransforms {
+		if t, ok := transform.(interface{ Indices(set map[Index]struct{}) }); ok {
+			t.Indices(required)
+		}
+	}
+
+	for index := range required {
+		indices.mapOne(index)
+	}
+
+	if err := indices.failure(); err != nil {
+		return fmt.Errorf("layout doesn't match the problem: %w", err)
+	}
+
+	return nil
+}
+
 func (s *linearSolver) initialise(dim, constrained int) error {
 	if dim == constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
-- 
2.43.0


From c8d64f875b55c49d370fb84e2ab7836890a040a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 13/22] fix: reject an inclined support that links a degree of
 freedom to itself

Such a link led to wrong reaction forces.
---
 deflect/problem_from_json.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..71a3348 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -562,6 +562,11 @@ func translateAngularLinks(
 				continue
 			}
 
+			if dofFrom == dofTo {
+				err = errors.Join(err, fmt.Errorf("link %v/%v to itself", nodeID, dofFrom))
+				continue
+			}
+
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
 			toIndex := Index{NodalID: nodeID, Dof: dofTo}
 			transformer, bc := NewInclinedSupport(fromIndex, toIndex, desc.Angle)
@@ -570,7 +575,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From fdff02014de0e7aa6f3bc63d2909943039488972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 14/22] fix: refuse a layout that was created for different
 Dirichlet BCs

The global matrices were partitioned such that some constrained degrees of
freedom were treated as free ones and vice versa, giving wrong results.
---
 deflect/linear_bvp_solver.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index a4d7c33..62c48e9 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -138,6 +138,21 @@ func verifyLookups(p *Problem, indices EqLayout) error {
 		return fmt.Errorf("layout doesn't match the problem: %w", err)
 	}
 
+	// Distinct Dirichlet indices must make up the leading, constrained part of the layout
+	constrained := map[Index]struct{}{}
+
+	for _, bc := range p.Dirichlet {
+		constrained[bc.Index] = struct{}{}
+
+		if indices.mapOne(bc.Index) >= len(p.Dirichlet) {
+			return fmt.Errorf("layout has no Dirichlet BC on %v/%v", bc.NodalID, bc.Dof)
+		}
+	}
+
+	if len(constrained) != len(p.Dirichlet) {
+		return errors.New("duplicate Dirichlet BCs")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From c1100f9aab3a4241b07f595246c328bf2fca1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 15/22] fix: refuse numerically singular coefficient matrices
 instead of returning round-off as a result

---
 deflect/cholesky.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index 1cef408..ffc0152 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -24,6 +24,11 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
+	// With round-off, the factorisation of a singular matrix can succeed nevertheless
+	if cond := ch.Cond(); cond > 1e13 {
+		return fmt.Errorf("coefficient matrix is numerically singular, condition number = %v", cond)
+	}
+
 	if err := ch.SolveVecTo(x, b); err != nil {
 		det := ch.Det()
 		return fmt.Errorf("failed to solve Cholesky-factorised system, det = %v", det)
-- 
2.43.0


From 868b7d5cac7e23dbebe6240f00b52ba2fc38e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 16/22] fix: no residual stiffness of axially hinged trusses
 from round-off

---
 deflect/static_condensation.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/deflect/static_condensation.go b/deflect/static_condensation.go
index 5b42ff3..a0bc8a0 100644
--- a/deflect/static_condensation.go
+++ b/deflect/static_condensation.go
@@ -42,11 +42,13 @@ func (*noHinge) reduce(k *mat.SymDense, r *mat.VecDense)     {}
 func (*noHinge) enhance(k *mat.SymDense, r, d *mat.VecDense) {}
 
 func (*preComputedHinge2x0) reduce(k *mat.SymDense, r *mat.VecDense) {
-	k00, k01, k11 := k.At(0, 0), k.At(0, 1), k.At(1, 1)
+	k00, k01 := k.At(0, 0), k.At(0, 1)
 
 	k.SetSym(0, 0, 0)
 	k.SetSym(0, 1, 0)
-	k.SetSym(1, 1, k11-k01*k01/k00)
+	// A truss with an axial hinge has no stiffness left. This is mathematically identical to
+	// k11 - k01*k01/k00, but without the residual stiffness due to round-off.
+	k.SetSym(1, 1, 0)
 
 	r0, r1 := r.AtVec(0), r.AtVec(1)
 
@@ -63,9 +65,10 @@ func (*preComputedHinge2x0) enhance(k *mat.SymDense, r, d *mat.VecDense) {
 }
 
 func (*preComputedHinge2x1) reduce(k *mat.SymDense, r *mat.VecDense) {
-	k00, k01, k11 := k.At(0, 0), k.At(0, 1), k.At(1, 1)
+	k01, k11 := k.At(0, 1), k.At(1, 1)
 
-	k.SetSym(0, 0, k00-k01*k01/k11)
+	// See above, no residual stiffness due to round-off
+	k.SetSym(0, 0, 0)
 	k.SetSym(0, 1, 0)
 	k.SetSym(1, 1, 0)
 
-- 
2.43.0


From dd07a92a92b9b01b7c38216825219e6346e8797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 17/22] fix: refuse structures with a degree of freedom that
 has only round-off as stiffness

---
 deflect/linear_bvp_solver.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 62c48e9..c249064 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -70,6 +70,10 @@ func (s *linearSolver) Solve(
 		return nil, fmt.Errorf("failed to assemble global matrices: %w", err)
 	}
 
+	if err := s.verifyStiffness(); err != nil {
+		return nil, err
+	}
+
 	s.extractK12()
 
 	if hasNonZeroDirichlet {
@@ -213,6 +217,23 @@ func formMatrices(dim, constrained int, prior *matrices) matrices {
 	return *eqn
 }
 
+// verifyStiffness returns an error if any free degree of freedom has no stiffness except round-off.
+func (s *linearSolver) verifyStiffness() error {
+	var largest float64
+
+	for i := range s.dim {
+		largest = max(largest, s.eqn.k.At(i, i))
+	}
+
+	for i := s.constrained; i < s.dim; i++ {
+		if s.eqn.k.At(i, i) <= 1e-14*largest {
+			return errors.New("unstable structure, there is a degree of freedom without stiffness")
+		}
+	}
+
+	return nil
+}
+
 func (s *linearSolver) extractK12() {
 	for i := 0; i < s.constrained; i++ {
 		for j := s.constrained; j < s.dim; j++ {
-- 
2.43.0


From cd22f2a3169ad904e8d33549311b7b8ca744ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 18/22] fix: no residual stiffness from round-off in beams
 whose releases leave a mechanism

---
 deflect/static_condensation.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/deflect/static_condensation.go b/deflect/static_condensation.go
index a0bc8a0..cac6b08 100644
--- a/deflect/static_condensation.go
+++ b/deflect/static_condensation.go
@@ -2,6 +2,7 @@ package deflect
 
 import (
 	"fmt"
+	"math"
 
 	"gonum.org/v1/gonum/mat"
 )
@@ -38,9 +39,33 @@ type preComputedHinge4x1x2 struct{}
 type preComputedHinge4x1x3 struct{}
 type preComputedHinge4x0x3 struct{}
 
+// withoutResidue removes the round-off that the wrapped condenser leaves behind where degrees of
+// freedom lose their stiffness entirely. Otherwise, an unstable structure can seem to be stable.
+type withoutResidue struct{ condenser }
+
 func (*noHinge) reduce(k *mat.SymDense, r *mat.VecDense)     {}
 func (*noHinge) enhance(k *mat.SymDense, r, d *mat.VecDense) {}
 
+func (c *withoutResidue) reduce(k *mat.SymDense, r *mat.VecDense) {
+	n := k.SymmetricDim()
+	before := make([]float64, n)
+
+	for i := range n {
+		before[i] = k.At(i, i)
+	}
+
+	c.condenser.reduce(k, r)
+
+	for i := range n {
+		if math.Abs(k.At(i, i)) > 1e-12*math.Abs(before[i]) {
+			continue
+		}
+		for j := range n {
+			k.SetSym(i, j, 0)
+		}
+	}
+}
+
 func (*preComputedHinge2x0) reduce(k *mat.SymDense, r *mat.VecDense) {
 	k00, k01 := k.At(0, 0), k.At(0, 1)
 
@@ -425,7 +450,8 @@ func newStaticHingeCondenser(all []Index, hinged map[Index]struct{}) (c condense
 		c = &preComputedHinge4x0x3{}
 	default:
 		err = fmt.Errorf("unsupported hinge setup, indices %v with hinges %v", all, indices)
+		return c, err
 	}
 
-	return c, err
+	return &withoutResidue{c}, err
 }
-- 
2.43.0


From e22a0e4fa7f9cc4b4c6d002a12356f05475196e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 19/22] fix: an empty range of an expected interpolation spans
 the entire element

As documented, and as a missing range. The empty slice led to a panic instead.
---
 integr/expectations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/integr/expectations.go b/integr/expectations.go
index f1a0386..9925f50 100644
--- a/integr/expectations.go
+++ b/integr/expectations.go
@@ -163,9 +163,9 @@ func (e *interpolationExpectation) findPolySegment(
 
 	// If no range has been given, the polynomial characteristics are expected to hold for the
 	// entire element. There must not be any sub-domains, and hence only a single coefficient set.
-	if expect.fctRange == nil && len(ps) == 1 {
+	if len(expect.fctRange) == 0 && len(ps) == 1 {
 		return ps[0], nil
-	} else if expect.fctRange == nil && len(ps) != 1 {
+	} else if len(expect.fctRange) == 0 && len(ps) != 1 {
 		return deflect.PolyPiece{}, fmt.Errorf("%v polynomials on element %v", len(ps), elmtID)
 	}
 
-- 
2.43.0


From b6a80b10e0e5e0db200f33b3f634b8d7fce77f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:12 +0000
Subject: [PATCH 20/22] fix: infer node IDs from the two characters of an
 element ID, not its bytes
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

An element ID such as "ÄB" was refused, because it is three bytes long, and
"Ä" alone was read as two nodes named after its two bytes.
---
 deflect/problem_from_json.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 71a3348..43c3b88 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -250,14 +250,15 @@ func determineNodes(
 		return nil, nil, fmt.Errorf("expected node ID slice of length 0 or 2, got %v IDs", len(nodeIDs))
 	}
 
-	if len(elmtID) != 2 {
+	chars := []rune(elmtID)
+	if len(chars) != 2 {
 		return nil, nil, fmt.Errorf(
 			"can't infer connected node IDs from element ID '%v' (need 2 chars)",
 			elmtID,
 		)
 	}
 
-	n0, n1 := string(elmtID[0]), string(elmtID[1])
+	n0, n1 := string(chars[0]), string(chars[1])
 	return determineNodes(elmtID, []string{n0, n1}, nodes)
 }
 
-- 
2.43.0


From a97ac02acd2fdf2e7c77971c971cfa9520b5e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 21/22] fix: results don't change along with the problem they
 have been computed for

Interpolations were computed from the elements whenever they were queried.
Adding or removing a load of an element, or replacing an element in the
problem, changed the inner forces and displacements of earlier results.
---
 deflect/linear_bvp_solver.go |  3 +-
 deflect/polynomial.go        | 15 +++++++++
 deflect/solver_result.go     | 63 +++++++++++++++++++++++++-----------
 3 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index c249064..023a910 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -107,6 +107,7 @@ func (s *linearSolver) Solve(
 		p.EqTransforms[i].Post(indices, r, d)
 	}
 
+	elements := newElementResults(p.Elements, indices, d)
 	err := indices.flushFailure()
 
 	return &solverResult{
@@ -115,7 +116,7 @@ func (s *linearSolver) Solve(
 		d:        mat.VecDenseCopyOf(d), // The solver re-uses its buffers
 		r:        mat.VecDenseCopyOf(r),
 		indices:  indices,
-		elements: p.Elements,
+		elements: elements,
 	}, err
 }
 
diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index cc5cad3..1c388a5 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -262,6 +262,21 @@ func (ps PolySequence) integrate(constant float64) PolySequence {
 	return result
 }
 
+// clone returns a deep copy.
+func (ps PolySequence) clone() PolySequence {
+	if ps == nil {
+		return nil
+	}
+
+	result := make(PolySequence, len(ps))
+
+	for i, p := range ps {
+		result[i] = PolyPiece{X0: p.X0, XE: p.XE, Coeff: slices.Clone(p.Coeff)}
+	}
+
+	return result
+}
+
 // multiply multiplies all polynomial coefficients with factor in place. Factor must not be zero.
 // Polynomial domains are unchanged.
 func (ps PolySequence) multiply(factor float64) {
diff --git a/deflect/solver_result.go b/deflect/solver_result.go
index 4f85aa8..5db38dd 100644
--- a/deflect/solver_result.go
+++ b/deflect/solver_result.go
@@ -13,11 +13,49 @@ type solverResult struct {
 	total, net int
 	d, r       *mat.VecDense
 	indices    EqLayout
-	elements   []Element
+	// Interpolations of all quantities for each element, computed up front. Elements, their loads, and
+	// nodes can be modified between subsequent solver runs, which must not affect existing results.
+	elements []elementResult
 	// Group solution/reaction with symbolic index:
 	dIndexed, rIndexed []NodalValue
 }
 
+type elementResult struct {
+	id             string
+	interpolations map[Fct]PolySequence
+}
+
+var quantities = [...]Fct{
+	FctUx,
+	FctUz,
+	FctUy,
+	FctPhiy,
+	FctPhiz,
+	FctPhix,
+	FctNx,
+	FctVz,
+	FctVy,
+	FctMy,
+	FctMz,
+	FctMx,
+}
+
+func newElementResults(elements []Element, indices EqLayout, d *mat.VecDense) []elementResult {
+	results := make([]elementResult, len(elements))
+
+	for i, e := range elements {
+		results[i] = elementResult{id: e.ID(), interpolations: map[Fct]PolySequence{}}
+
+		for _, q := range quantities {
+			if poly := e.Interpolate(indices, q, d); poly != nil {
+				results[i].interpolations[q] = poly
+			}
+		}
+	}
+
+	return results
+}
+
 func (sr *solverResult) Primary(i Index) (NodalValue, error) {
 	plain := sr.indices.mapOne(i)
 	return NodalValue{Index: i, Value: sr.d.AtVec(plain)}, sr.indices.flushFailure()
@@ -62,18 +100,19 @@ func (sr *solverResult) Interpolate(
 	quantity Fct,
 	zeroTol float64,
 ) (Interpolation, error) {
-	idx := slices.IndexFunc(sr.elements, func(e Element) bool { return e.ID() == elmtID })
+	idx := slices.IndexFunc(sr.elements, func(e elementResult) bool { return e.id == elmtID })
 
 	if idx == -1 {
 		return Interpolation{}, fmt.Errorf("no element with ID '%v' found", elmtID)
 	}
 
-	interpolation := sr.elements[idx].Interpolate(sr.indices, quantity, sr.d)
+	// Trimming and compacting is done in place, and callers can do with the outcome what they want
+	interpolation := sr.elements[idx].interpolations[quantity].clone()
 	interpolation.TrimTrailingZeros(zeroTol)
 	interpolation = interpolation.CompactIdentical(zeroTol)
 
 	result := Interpolation{
-		Element:   sr.elements[idx].ID(),
+		Element:   sr.elements[idx].id,
 		Quantity:  quantity,
 		Piecewise: interpolation,
 	}
@@ -82,26 +121,12 @@ func (sr *solverResult) Interpolate(
 }
 
 func (sr *solverResult) InterpolateAll(zeroTol float64) []Interpolation {
-	quantities := [...]Fct{
-		FctUx,
-		FctUz,
-		FctUy,
-		FctPhiy,
-		FctPhiz,
-		FctPhix,
-		FctNx,
-		FctVz,
-		FctVy,
-		FctMy,
-		FctMz,
-		FctMx,
-	}
 	result := make([]Interpolation, 0, len(quantities)*len(sr.elements))
 	var err error
 
 	for _, q := range quantities {
 		for _, e := range sr.elements {
-			poly, errSingle := sr.Interpolate(e.ID(), q, zeroTol)
+			poly, errSingle := sr.Interpolate(e.id, q, zeroTol)
 			err = errors.Join(err, errSingle)
 
 			if errSingle == nil && poly.Piecewise != nil {
-- 
2.43.0


From cda97908aa52e72e9e291b7ab0430943457a7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:27 +0000
Subject: [PATCH 22/22] fix: recognise singular matrices whose condition number
 is underestimated

Gonum's estimate of the condition number misses null vectors that are orthogonal
to its trial vectors, e.g. (1, 1, -1, -1). If round-off lets the factorisation of
such a matrix succeed, displacements of 1e16 were returned instead of an error.
---
 deflect/cholesky.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/deflect/cholesky.go b/deflect/cholesky.go
index ffc0152..59f6e91 100644
--- a/deflect/cholesky.go
+++ b/deflect/cholesky.go
@@ -24,8 +24,16 @@ func (c *cholesky) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) (resul
 		return fmt.Errorf("failed to compute Cholesky factorisation, deteterminant = %v", det)
 	}
 
-	// With round-off, the factorisation of a singular matrix can succeed nevertheless
-	if cond := ch.Cond(); cond > 1e13 {
+	// With round-off, the factorisation of a singular matrix can succeed nevertheless. Gonum only
+	// estimates the condition number, and the estimate can be far too low. The actual one is never
+	// below the ratio of a diagonal coefficient to the square of its counterpart in the factor.
+	cond := ch.Cond()
+
+	for u, i := ch.RawU(), 0; i < a.SymmetricDim(); i++ {
+		cond = max(cond, a.At(i, i)/(u.At(i, i)*u.At(i, i)))
+	}
+
+	if cond > 1e13 {
 		return fmt.Errorf("coefficient matrix is numerically singular, condition number = %v", cond)
 	}
 
-- 
2.43.0

