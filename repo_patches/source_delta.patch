From b546d8eec07460819c5829837122e3795b9c6926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 01/16] fix: reject evaluation of a polynomial beyond the end
 of its domain

---
 deflect/polynomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deflect/polynomial.go b/deflect/polynomial.go
index aa7c587..cc5cad3 100644
--- a/deflect/polynomial.go
+++ b/deflect/polynomial.go
@@ -26,7 +26,7 @@ func (p *PolyPiece) Degree() int {
 
 // Eval evaluates the polynomial at x. If x is outside of the domain, an error is returned.
 func (p *PolyPiece) Eval(x float64) (float64, error) {
-	if x+1e-10 < p.X0 || x-1e10 > p.XE {
+	if x+1e-10 < p.X0 || x-1e-10 > p.XE {
 		return 0, fmt.Errorf("%v outside of domain [%v, %v]", x, p.X0, p.XE)
 	}
 
-- 
2.43.0


From cc55deef28a1e30ea67e5af64bf0f41cd94d2f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 02/16] fix: account for prescribed displacements when all of
 them are non-zero

---
 deflect/linear_bvp_solver.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 89b54c6..74c541b 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -3,7 +3,6 @@ package deflect
 import (
 	"fmt"
 
-	"gonum.org/v1/gonum/floats/scalar"
 	"gonum.org/v1/gonum/mat"
 )
 
@@ -47,7 +46,7 @@ func (s *linearSolver) Solve(
 	var hasNonZeroDirichlet bool
 
 	for _, bc := range p.Dirichlet {
-		hasNonZeroDirichlet = hasNonZeroDirichlet || scalar.EqualWithinAbs(bc.Value, 0, 1e-12)
+		hasNonZeroDirichlet = hasNonZeroDirichlet || bc.Value != 0
 		d.SetVec(indices.mapOne(bc.Index), bc.Value)
 	}
 
-- 
2.43.0


From 080dd9c109a74d21668c5b5e0ccf79bd4a59bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 03/16] fix: report no reaction at unsupported degrees of
 freedom

---
 deflect/linear_bvp_solver.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 74c541b..6ab4f21 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -90,6 +90,9 @@ func (s *linearSolver) Solve(
 	scratch.MulVec(k11, d1)
 	r1.AddVec(r1, scratch)
 
+	// There is no reaction at free dofs, where r_2 still holds the right-hand side of the solution:
+	r2.Zero()
+
 	for _, transform := range p.EqTransforms {
 		transform.Post(indices, r, d)
 	}
-- 
2.43.0


From 075607e3e1b805ea7591b5e270f5208b96cd0c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 04/16] fix: undo equation transformations in reverse order

---
 deflect/linear_bvp_solver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 6ab4f21..03cbef5 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -93,8 +93,9 @@ func (s *linearSolver) Solve(
 	// There is no reaction at free dofs, where r_2 still holds the right-hand side of the solution:
 	r2.Zero()
 
-	for _, transform := range p.EqTransforms {
-		transform.Post(indices, r, d)
+	// Transformations may act on the same dofs, so they must be undone in reverse order
+	for i := len(p.EqTransforms) - 1; i >= 0; i-- {
+		p.EqTransforms[i].Post(indices, r, d)
 	}
 
 	err := indices.flushFailure()
-- 
2.43.0


From f90ceb86a7456b468ee404f2bfd8293e31337451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 05/16] fix: share index lookup failures between copies of an
 equation layout

---
 deflect/eq_layout.go         | 27 +++++++++++++++++++++------
 deflect/linear_bvp_solver.go |  3 +++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/deflect/eq_layout.go b/deflect/eq_layout.go
index afa78c8..5d9a224 100644
--- a/deflect/eq_layout.go
+++ b/deflect/eq_layout.go
@@ -16,8 +16,13 @@ import (
 // populated with the erroneous index mapping can't be used. In the context of tangent/residual
 // assembly, the solver process should probably be aborted.
 type EqLayout struct {
-	indices  map[Index]int
-	inverse  []Index
+	indices map[Index]int
+	inverse []Index
+	// An EqLayout is passed around by value, so lookup errors are shared between copies.
+	*lookupFailures
+}
+
+type lookupFailures struct {
 	failures int
 	failed   []string
 }
@@ -59,6 +64,10 @@ func (el *EqLayout) unmap(i int) (isym Index) {
 
 func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 	if !ok {
+		if el.lookupFailures == nil {
+			el.lookupFailures = &lookupFailures{}
+		}
+
 		el.failures++
 
 		if len(el.failed) < 5 {
@@ -71,7 +80,7 @@ func (el *EqLayout) saveFailure(ok bool, symbolic Index) {
 // error state is _not_ flushed. In order to clear the error too, use [EqLayout.flushFailure]
 // instead.
 func (el *EqLayout) failure() error {
-	if el.failures == 0 {
+	if el.lookupFailures == nil || el.failures == 0 {
 		return nil
 	}
 
@@ -89,8 +98,10 @@ func (el *EqLayout) failure() error {
 func (el *EqLayout) flushFailure() error {
 	failure := el.failure()
 
-	el.failures = 0
-	el.failed = nil
+	if failure != nil {
+		el.failures = 0
+		el.failed = nil
+	}
 
 	return failure
 }
@@ -103,7 +114,11 @@ func NewEqLayout(p *Problem) (EqLayout, error) {
 }
 
 func newEqLayoutDirect(indices map[Index]int) EqLayout {
-	return EqLayout{indices: indices, inverse: invertIndexMap(indices)}
+	return EqLayout{
+		indices:        indices,
+		inverse:        invertIndexMap(indices),
+		lookupFailures: &lookupFailures{},
+	}
 }
 
 // IndexMap constructs the mapping from symbolic to plain matrix indices. It returns an
diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 03cbef5..9059aef 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -30,6 +30,9 @@ func (s *linearSolver) Solve(
 	indices EqLayout,
 	strategy EquationSolver,
 ) (ProblemResult, error) {
+	// Keep lookup failures of this solution separate from those of other users of the same layout
+	indices.lookupFailures = &lookupFailures{}
+
 	if err := s.initialise(indices.eqSize(), len(p.Dirichlet)); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From dfbe1990d6296e471294069b668dc71aae05533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 06/16] fix: return an error for problems without supports
 instead of panicking

---
 deflect/linear_bvp_solver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index 9059aef..cf142da 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -114,8 +114,10 @@ func (s *linearSolver) Solve(
 }
 
 func (s *linearSolver) initialise(dim, constrained int) error {
-	if dim == constrained {
+	if dim <= constrained {
 		return fmt.Errorf("all %v degrees of freedom have Dirichlet BC, no need to solve this", dim)
+	} else if constrained == 0 {
+		return fmt.Errorf("no Dirichlet BC for any of %v degrees of freedom, can't solve this", dim)
 	}
 
 	s.dim = dim
-- 
2.43.0


From 0a12316aaf3bfbcd2e16622ce4f70fcd6e01881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 07/16] fix: copy solution vectors into the result instead of
 sharing solver buffers

---
 deflect/linear_bvp_solver.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deflect/linear_bvp_solver.go b/deflect/linear_bvp_solver.go
index cf142da..55ecc68 100644
--- a/deflect/linear_bvp_solver.go
+++ b/deflect/linear_bvp_solver.go
@@ -103,11 +103,12 @@ func (s *linearSolver) Solve(
 
 	err := indices.flushFailure()
 
+	// Buffers are re-used by subsequent solutions, so the result needs its own copies
 	return &solverResult{
 		total:    s.dim,
 		net:      s.dim - s.constrained,
-		d:        s.eqn.d,
-		r:        s.eqn.r,
+		d:        mat.VecDenseCopyOf(s.eqn.d),
+		r:        mat.VecDenseCopyOf(s.eqn.r),
 		indices:  indices,
 		elements: p.Elements,
 	}, err
-- 
2.43.0


From af7db6a5d7cf504dea850b797d59c5f09a6e8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 08/16] fix: resize buffers of inclined supports when the size
 of the problem changes

---
 deflect/inclined_support.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/deflect/inclined_support.go b/deflect/inclined_support.go
index 9d905a2..ef78d85 100644
--- a/deflect/inclined_support.go
+++ b/deflect/inclined_support.go
@@ -32,9 +32,8 @@ const (
 func (l *inclinedSupport) Pre(indices EqLayout, k *mat.SymDense, r, d *mat.VecDense) {
 	// Initialise the buffer if necessary. We might want to think about sharing the same buffer
 	// between multiple inclinedSupport instances at some point, since re-using the buffer would be
-	// more efficient.
-	if l.irow == nil {
-		dim := k.SymmetricDim()
+	// more efficient. The size of the problem can differ from the last one this support was used in.
+	if dim := k.SymmetricDim(); l.irow == nil || l.irow.Len() != dim {
 		l.irow = mat.NewVecDense(dim, nil)
 		l.jrow = mat.NewVecDense(dim, nil)
 	}
-- 
2.43.0


From 82fd9286cd85ab28301ea53acb47f7351a90051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 09/16] fix: remove loads from both parts of a frame element

---
 deflect/frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deflect/frame.go b/deflect/frame.go
index c69e2c4..c9cb490 100644
--- a/deflect/frame.go
+++ b/deflect/frame.go
@@ -70,6 +70,11 @@ func (f *frame) AddLoad(bc NeumannElementBC) bool {
 	return f.truss.AddLoad(bc) || f.beam.AddLoad(bc)
 }
 
+func (f *frame) RemoveLoad(bc NeumannElementBC) {
+	f.truss.RemoveLoad(bc)
+	f.beam.RemoveLoad(bc)
+}
+
 func (f *frame) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
 	s0 := f.truss.Interpolate(indices, which, d)
 	s1 := f.beam.Interpolate(indices, which, d)
-- 
2.43.0


From 2219420cd6c77af24ce0a4c3407e60571c6d8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 10/16] fix: refuse loads of unknown type on truss elements

---
 deflect/truss2d.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/deflect/truss2d.go b/deflect/truss2d.go
index 88bc1a9..b708a4f 100644
--- a/deflect/truss2d.go
+++ b/deflect/truss2d.go
@@ -122,19 +122,15 @@ func (t *truss2d) indicesAsArray() *[4]Index {
 }
 
 func (t *truss2d) AddLoad(bc NeumannElementBC) bool {
-	var kind Dof
+	supported := false
 
 	loadDispatch(bc,
-		func(load *neumannConcentrated) { kind = load.kind },
-		func(load *neumannConstant) { kind = load.kind },
-		func(load *neumannLinear) { kind = load.kind },
+		func(load *neumannConcentrated) { supported = load.kind == Ux },
+		func(load *neumannConstant) { supported = load.kind == Ux },
+		func(load *neumannLinear) { supported = load.kind == Ux },
 	)
 
-	if kind == Ux {
-		return t.oneDimElement.AddLoad(bc)
-	}
-
-	return false
+	return supported && t.oneDimElement.AddLoad(bc)
 }
 
 func (t *truss2d) Interpolate(indices EqLayout, which Fct, d *mat.VecDense) PolySequence {
-- 
2.43.0


From 0574d461d68b6a1b6b55ffcd889e707aa620ae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 11/16] fix: refuse negative roll angles of constant cross
 sections as documented

---
 deflect/cross_sections.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 9fcb4ae..279a24e 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -46,6 +46,10 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
 
+	if cs.roll < 0 {
+		err = errors.Join(err, fmt.Errorf("negative cross section roll angle = %v", cs.roll))
+	}
+
 	return &cs, err
 }
 
-- 
2.43.0


From 1ae9d1d30e20c20076970a5b82d9b36e92f2bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 12/16] fix: refuse NaN as parameter of cross sections and
 position of loads

---
 deflect/cross_sections.go | 10 +++++-----
 deflect/element_loads.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/deflect/cross_sections.go b/deflect/cross_sections.go
index 279a24e..36638db 100644
--- a/deflect/cross_sections.go
+++ b/deflect/cross_sections.go
@@ -33,7 +33,7 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 		v, ok := param[key]
 		if !ok {
 			err = errors.Join(err, fmt.Errorf("cross section constant %v not found", key))
-		} else if v <= 0 {
+		} else if !(v > 0) { // Also true for NaN
 			err = errors.Join(err, fmt.Errorf("non-positive cross section constant %v = %v", key, v))
 		}
 	}
@@ -42,11 +42,11 @@ func NewConstantsCrossSections(param map[string]float64) (CrossSection, error) {
 	cs.ixx = param["Ixx"]
 	cs.roll = param["roll"]
 
-	if cs.ixx < 0 {
+	if !(cs.ixx >= 0) {
 		err = errors.Join(err, fmt.Errorf("negative cross section constant Ixx = %v", cs.ixx))
 	}
 
-	if cs.roll < 0 {
+	if !(cs.roll >= 0) {
 		err = errors.Join(err, fmt.Errorf("negative cross section roll angle = %v", cs.roll))
 	}
 
@@ -80,9 +80,9 @@ type rectangular struct {
 // NewRectangularCrossSection instantiates a new rectangular cross section. Returns an error if the
 // dimensions are not positive.
 func NewRectangularCrossSection(b, h, roll float64) (CrossSection, error) {
-	if b <= 0 || h <= 0 {
+	if !(b > 0 && h > 0) { // Also true for NaN
 		return nil, fmt.Errorf("b/h must be positive, not %v/%v", b, h)
-	} else if roll < 0 {
+	} else if !(roll >= 0) {
 		return nil, fmt.Errorf("roll angle must not be negative, got %v", roll)
 	}
 
diff --git a/deflect/element_loads.go b/deflect/element_loads.go
index 5791c70..9a80818 100644
--- a/deflect/element_loads.go
+++ b/deflect/element_loads.go
@@ -10,7 +10,7 @@ type neumannConcentrated struct {
 // NewElementConcentratedLoad instantiates an element Neumann boundary condition that applies a
 // concentrated quantity at the given position, e.g. a force or torque.
 func NewElementConcentratedLoad(kind Dof, pos, value float64) (NeumannElementBC, error) {
-	if pos < 0 {
+	if !(pos >= 0) { // Also true for NaN
 		return nil, fmt.Errorf("can't instantiate element force at negative x = %v", pos)
 	}
 
-- 
2.43.0


From f9799da5d03a613ce883b687bea483d368640ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 13/16] fix: refuse materials of unknown kind

---
 deflect/problem_from_json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index 7a91aa7..e0bbe4a 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -312,6 +312,10 @@ func translateMaterials(from map[string]matDescription) (map[string]LinearElasti
 	}
 
 	for id, desc := range from {
+		if desc.Kind != "" && desc.Kind != "linelast" {
+			return materials, fmt.Errorf("unsupported material '%v'", desc.Kind)
+		}
+
 		E, found0 := desc.Parameter["E"]
 		nu, found1 := desc.Parameter["nu"]
 		rho, found2 := desc.Parameter["rho"]
-- 
2.43.0


From 5472e5d6f9f7194443c989c11941e58b386a564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 14/16] fix: refuse inclined supports that link a degree of
 freedom to itself

---
 deflect/problem_from_json.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index e0bbe4a..fdefc7e 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -564,6 +564,12 @@ func translateAngularLinks(
 
 			if !(okFrom && okTo) {
 				continue
+			} else if dofFrom == dofTo {
+				err = errors.Join(
+					err,
+					fmt.Errorf("inclined support at %v needs two different dofs, got %v twice", nodeID, dofFrom),
+				)
+				continue
 			}
 
 			fromIndex := Index{NodalID: nodeID, Dof: dofFrom}
@@ -574,7 +580,7 @@ func translateAngularLinks(
 		}
 	}
 
-	return links, bcs, dofs.FinaliseJoin(nil)
+	return links, bcs, dofs.FinaliseJoin(err)
 }
 
 type dofLookup struct {
-- 
2.43.0


From 99460a4aa3fe1f1371c9793ac6c1ddb80392c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 15/16] fix: treat an empty range of an expected interpolation
 like none

An empty (non-nil) range passed the check for zero or two values, but then
indexing it panicked.
---
 integr/expectations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/integr/expectations.go b/integr/expectations.go
index f1a0386..9925f50 100644
--- a/integr/expectations.go
+++ b/integr/expectations.go
@@ -163,9 +163,9 @@ func (e *interpolationExpectation) findPolySegment(
 
 	// If no range has been given, the polynomial characteristics are expected to hold for the
 	// entire element. There must not be any sub-domains, and hence only a single coefficient set.
-	if expect.fctRange == nil && len(ps) == 1 {
+	if len(expect.fctRange) == 0 && len(ps) == 1 {
 		return ps[0], nil
-	} else if expect.fctRange == nil && len(ps) != 1 {
+	} else if len(expect.fctRange) == 0 && len(ps) != 1 {
 		return deflect.PolyPiece{}, fmt.Errorf("%v polynomials on element %v", len(ps), elmtID)
 	}
 
-- 
2.43.0


From 5c6e173f9c114c08a9b17a19d796ca36135056f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:48 +0000
Subject: [PATCH 16/16] fix: infer the nodes of an element from the characters
 of its ID, not from its bytes

---
 deflect/problem_from_json.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deflect/problem_from_json.go b/deflect/problem_from_json.go
index fdefc7e..8c7a3e2 100644
--- a/deflect/problem_from_json.go
+++ b/deflect/problem_from_json.go
@@ -250,14 +250,16 @@ func determineNodes(
 		return nil, nil, fmt.Errorf("expected node ID slice of length 0 or 2, got %v IDs", len(nodeIDs))
 	}
 
-	if len(elmtID) != 2 {
+	chars := []rune(elmtID)
+
+	if len(chars) != 2 {
 		return nil, nil, fmt.Errorf(
 			"can't infer connected node IDs from element ID '%v' (need 2 chars)",
 			elmtID,
 		)
 	}
 
-	n0, n1 := string(elmtID[0]), string(elmtID[1])
+	n0, n1 := string(chars[0]), string(chars[1])
 	return determineNodes(elmtID, []string{n0, n1}, nodes)
 }
 
-- 
2.43.0

