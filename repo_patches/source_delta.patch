From 0bf8f38ab5a9115a35bd1b8a13fd03efb3ea65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 01/53] fix: element stiffness of clockwise elements had the
 wrong sign

---
 src/element/element.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index 06ab84c..f80e843 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -214,7 +214,8 @@ impl Element {
             // the integrand for K is thickness * (det J) * B_t * C * B
             mats.b.transpose(); // transpose in place is cheap
             let mut inter: LinearMatrix = mats.b.mul(&c);
-            inter *= mats.det_j;
+            // area is unsigned: nodes may be listed clockwise
+            inter *= mats.det_j.abs();
             inter *= mats.thickness;
             mats.b.transpose();
 
-- 
2.43.0


From f9e17e0f77cc541cc2bc1b01886b2c89a0458265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 02/53] fix: element mass matrix was not scaled by the
 element's area

---
 src/element/element.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/element/element.rs b/src/element/element.rs
index f80e843..eac040a 100644
--- a/src/element/element.rs
+++ b/src/element/element.rs
@@ -232,11 +232,11 @@ impl Element {
         let integrand = |nat_coor| {
             let mats = self.get_isopar_mats(NaturalCoor(nat_coor));
 
-            // integrand is rho * scaling * H_t * H
+            // integrand is rho * scaling * |det J| * H_t * H
             let h = mats.h;
             let mut ht = h.clone();
             ht.transpose();
-            ht *= self.material().density * mats.thickness;
+            ht *= self.material().density * mats.thickness * mats.det_j.abs();
 
             ht.mul(&h)
         };
-- 
2.43.0


From 9fba2e82bce8acba959b52694548a20bb22b9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 03/53] fix: loads meeting at a node overwrote each other

---
 src/element/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 2f8b276..4a1dbe0 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -250,7 +250,7 @@ impl ElementAssemblage {
             // check if each node dof still exists and if so apply that part of force
             for d in 0..NODE_DIM {
                 let node_dof = NodeDof(n, d);
-                res[node_dof.to_dof().0] = f[d];
+                res[node_dof.to_dof().0] += f[d];
             }
         }
 
@@ -259,8 +259,10 @@ impl ElementAssemblage {
                 // TODO this is a bad way of locating affected elements - very slow, lots of loops
                 if el.nodes_connect(n, m) {
                     for (i, val) in el.int_f_l((n, m), f).unwrap() {
-                        res[i.to_dof().0] = val;
+                        res[i.to_dof().0] += val;
                     }
+                    // an edge shared by two elements is loaded once
+                    break;
                 }
             }
         }
-- 
2.43.0


From ed01b1e9b110fd8393c4f28772f1f36359e15d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 04/53] fix: graph built from edges lost its last isolated
 vertices

---
 src/matrix/graph.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index ca69884..20898f1 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -76,6 +76,11 @@ impl Graph {
             res.adjacent.push(y);
         }
 
+        // vertices after the last one with an edge are isolated
+        while res.indices.len() < v_count {
+            res.indices.push(res.adjacent.len());
+        }
+
         res
     }
 
-- 
2.43.0


From eb8e9a591951c5a00b53091352530917bb1d60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 05/53] fix: reordering failed on graphs that are not connected

---
 src/matrix/graph.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/matrix/graph.rs b/src/matrix/graph.rs
index 20898f1..c916caa 100644
--- a/src/matrix/graph.rs
+++ b/src/matrix/graph.rs
@@ -194,7 +194,12 @@ impl Graph {
         // identify a pseudoperipheral node of the graph by George and Liu's method
 
         // choose an arbitrary starting node
-        let mut x = 0;
+        self.pseudo_peripheral_from(0)
+    }
+
+    fn pseudo_peripheral_from(&mut self, start: usize) -> usize {
+        // identify a pseudoperipheral node of the starting node's connected component
+        let mut x = start;
         let mut longest = 0;
 
         loop {
@@ -213,17 +218,28 @@ impl Graph {
         // find the reverse cuthill mckee labelling of the graph's nodes
 
         let mut ordering = Vec::new();
-        ordering.push(self.pseudo_peripheral());
-
         let mut mask = vec![true; self.vertex_count()];
-        mask[ordering[0]] = false;
 
-        for i in 0..self.vertex_count() {
-            let adj = self.adjacent_masked(ordering[i], &mask);
+        // label one connected component after another
+        for start in 0..self.vertex_count() {
+            if !mask[start] {
+                continue;
+            }
+
+            let mut i = ordering.len();
+            let root = self.pseudo_peripheral_from(start);
+            mask[root] = false;
+            ordering.push(root);
+
+            while i < ordering.len() {
+                let adj = self.adjacent_masked(ordering[i], &mask);
+
+                for a in adj {
+                    mask[*a] = false;
+                    ordering.push(*a);
+                }
 
-            for a in adj {
-                mask[*a] = false;
-                ordering.push(*a);
+                i += 1;
             }
         }
 
-- 
2.43.0


From 46df59df5c410d30c6bee282a1aab18b759254d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 06/53] fix: gaussian elimination pivoted on signed values and
 divided by zero pivots

---
 src/matrix/inverse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 22f42b2..201c76c 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -42,7 +42,9 @@ where
                 .col(col)
                 .enumerate()
                 .skip(col)
-                .max_by(|(_, &x), (_, y)| x.partial_cmp(y).unwrap());
+                .map(|(i, x)| (i, x.abs()))
+                .filter(|&(_, x)| x > 0.0)
+                .max_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
             if max == None {
                 return Err(MatrixError::solve("no non-zero values remain in column"));
             }
-- 
2.43.0


From 8cf1eca2a9fe163f268850b11f425c15bbdcf07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 07/53] fix: fully fixing a node already fixed in one direction
 was ignored

---
 src/element/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 4a1dbe0..31688b8 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -189,6 +189,7 @@ impl ElementAssemblage {
 
     pub fn add_constraint(&mut self, n: NodeId, constraint: Constraint) {
         match (self.constraints[n.0], constraint) {
+            (_, Constraint::Free) => {}
             (Constraint::Free, c) => {
                 self.constraints[n.0] = c;
             }
@@ -201,7 +202,9 @@ impl ElementAssemblage {
             (c, Constraint::AngleFixed(_)) => {
                 self.constraints[n.0] = c;
             }
-            (Constraint::XFixed, Constraint::YFixed) | (Constraint::YFixed, Constraint::XFixed) => {
+            (_, Constraint::XYFixed)
+            | (Constraint::XFixed, Constraint::YFixed)
+            | (Constraint::YFixed, Constraint::XFixed) => {
                 self.constraints[n.0] = Constraint::XYFixed;
             }
             _ => {}
-- 
2.43.0


From d5522466a44522eee6239b28446ea03a33631393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 08/53] fix: adding a second force to a node or edge discarded
 the first

---
 src/element/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/element/mod.rs b/src/element/mod.rs
index 31688b8..133dc7c 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -165,7 +165,11 @@ impl ElementAssemblage {
     }
 
     pub fn add_conc_force(&mut self, n: NodeId, force: Point) {
-        self.concentrated_forces.insert(n, force);
+        // forces added to the same node act together
+        self.concentrated_forces
+            .entry(n)
+            .and_modify(|f| *f = *f + force)
+            .or_insert(force);
     }
 
     pub fn dist_forces(&self) -> Vec<((NodeId, NodeId), Point)> {
@@ -176,7 +180,11 @@ impl ElementAssemblage {
     }
 
     pub fn add_dist_line_force(&mut self, n: NodeId, m: NodeId, force: Point) {
-        self.line_forces.insert((n, m), force);
+        // forces added to the same edge act together
+        self.line_forces
+            .entry((n, m))
+            .and_modify(|f| *f = *f + force)
+            .or_insert(force);
     }
 
     pub fn constraints(&self) -> Vec<(NodeId, Constraint)> {
-- 
2.43.0


From cd23f20c22b42e3fc2de420f322b223476e44e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 09/53] fix: cauchy stress tensor lacked its lower triangle

---
 src/element/stress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index e6d0492..0035416 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -91,7 +91,7 @@ impl StressState {
 
         let mut res = LinearMatrix::zeros(dim);
         for r in 0..dim {
-            for c in r..dim {
+            for c in 0..dim {
                 res[(r, c)] = self.data[self.loc(r, c)];
             }
         }
-- 
2.43.0


From 0bbbed5af946b4b6c42122ac7a8d57bbc34eca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 10/53] fix: von Mises stress of plane and bar states was wrong

---
 src/element/stress.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/element/stress.rs b/src/element/stress.rs
index 0035416..5d216ed 100644
--- a/src/element/stress.rs
+++ b/src/element/stress.rs
@@ -102,9 +102,13 @@ impl StressState {
     pub fn von_mises(&self) -> f64 {
         // compute the von mises yield criterion
         match self.state_type {
-            StressType::Bar => self.data[0],
+            StressType::Bar => self.data[0].abs(),
             StressType::Plane => {
-                ((self.data[0] - self.data[1]).powi(2) + 3.0 * self.data[2].powi(2)).sqrt()
+                // the out-of-plane normal stress is zero
+                let normals = (self.data[0] - self.data[1]).powi(2)
+                    + self.data[0].powi(2)
+                    + self.data[1].powi(2);
+                (0.5 * normals + 3.0 * self.data[2].powi(2)).sqrt()
             }
             StressType::ThreeD => {
                 let normals = (self.data[0] - self.data[1]).powi(2)
-- 
2.43.0


From 7d52dde9f2c5200b4f9dd92a67e6e47fae583411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 11/53] fix: stresses at nodes on the axis of an axisymmetric
 model were not numbers

---
 src/element/strain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index 5820f4b..208277c 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -72,7 +72,8 @@ impl Condition {
                     b[(1, u_i_y)] = dhi_dy;
                     b[(2, u_i_x)] = dhi_dy;
                     b[(2, u_i_y)] = dhi_dx;
-                    b[(3, u_i_x)] = h_i / r;
+                    // on the axis the hoop strain is the limit of u_x / r, which is du_x/dx
+                    b[(3, u_i_x)] = if r == 0.0 { dhi_dx } else { h_i / r };
                 }
 
                 b
-- 
2.43.0


From 5fd52b118c7e76226f0a67c8ceb038206ddbe8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 12/53] fix: cholesky solver reported success on matrices that
 are not positive definite

---
 src/matrix/solve/direct.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index b607e5b..ba8b0d2 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -85,6 +85,12 @@ impl Solver for CholeskyEnvelopeSolver {
 
         eprintln!("substitution complete in {}ms", t.elapsed().as_millis());
 
+        // a matrix that is not positive definite leaves a zero or imaginary diagonal entry
+        let invalid = |i: usize| !(chol[(i, i)] > 0.0 && chol[(i, i)].is_finite());
+        if (0..dofs).any(invalid) || x.iter().any(|v| !v.is_finite()) {
+            return Err(());
+        }
+
         Ok(x)
     }
 }
-- 
2.43.0


From db11c47dc11cc318bea26f9b458cd7e73c644eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 13/53] fix: gauss-seidel iteration never converged for a zero
 right hand side

---
 src/matrix/solve/iterative.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/solve/iterative.rs b/src/matrix/solve/iterative.rs
index 30cb4ac..971c6ef 100644
--- a/src/matrix/solve/iterative.rs
+++ b/src/matrix/solve/iterative.rs
@@ -82,7 +82,7 @@ pub(super) fn gauss_seidel(
 
         u = new_u;
 
-        if diff_norm / u.frobenius() <= tol {
+        if diff_norm == 0.0 || diff_norm / u.frobenius() <= tol {
             // iterations have sufficiently converged
             eprintln!("converged in {} iterations", round);
             break;
-- 
2.43.0


From 1ddddd234b3e0a4795d440432884da38b261751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 14/53] fix: envelope forward substitution depended on what the
 result slice held before

---
 src/matrix/sparse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 2c5cb61..5deca9d 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -241,9 +241,10 @@ impl LowerRowEnvelope {
         for i in 0..self.n {
             let (start_col, row_stored) = self.row_stored(i);
 
+            // x[i] is not known yet, so the diagonal takes no part in the product
             let dot: f64 = row_stored
                 .iter()
-                .zip(start_col..)
+                .zip(start_col..i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
@@ -275,7 +276,7 @@ impl LowerRowEnvelope {
             let sub_start_col = start_col - range.0;
             let dot: f64 = row_stored
                 .iter()
-                .zip(sub_start_col..)
+                .zip(sub_start_col..sub_i)
                 .map(|(val, col)| val * x[col])
                 .sum();
 
-- 
2.43.0


From 1fb734256c8aad0eacc295f55788d2f231372a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 15/53] fix: reading an all-zero compressed row matrix panicked

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 5deca9d..6f3030c 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -692,7 +692,7 @@ impl MatrixLike for CompressedRow {
             nz_count: 0,
             data: vec![],
             col_indices: vec![],
-            row_starts: vec![],
+            row_starts: vec![0; shape.0],
         }
     }
 
-- 
2.43.0


From 34ba93d33c4bb5697af260da634bfe21cd7fc679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 16/53] fix: transposed dictionary matrix kept the shape of the
 original

---
 src/matrix/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 6f3030c..e32683d 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -521,7 +521,7 @@ impl Dictionary {
 
     pub fn transposed(&self) -> Self {
         let mut res = Self {
-            shape: self.shape,
+            shape: (self.shape.1, self.shape.0),
             data: HashMap::new(),
         };
 
-- 
2.43.0


From 3a0531a7566720a34d2ff87f5b4f008721d646ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 17/53] fix: compressed row matrix accepted values outside its
 shape and showed them elsewhere

---
 src/matrix/sparse.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index e32683d..838b4f0 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -118,7 +118,13 @@ impl CompressedRow {
         // vals should now be contiguous stretches of same-row values in ascending column order
         let nz_count = vals.len();
 
-        // TODO decide if it's worth performing a bounds check on the supplied values
+        // a value beyond the last row would end up in the last row
+        assert!(
+            vals.iter()
+                .all(|((r, c), _)| *r < shape.0 && *c < shape.1),
+            "supplied value out of bounds"
+        );
+
         let data: Vec<f64> = vals.iter().map(|(_, x)| *x).collect();
         let col_indices: Vec<usize> = vals.iter().map(|((_, c), _)| *c).collect();
 
-- 
2.43.0


From 87c3a4324f0d77114c51e194691ff989817610d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 18/53] fix: converting a dictionary matrix with an empty row
 to envelope storage panicked

---
 src/matrix/sparse.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/matrix/sparse.rs b/src/matrix/sparse.rs
index 838b4f0..69ad740 100644
--- a/src/matrix/sparse.rs
+++ b/src/matrix/sparse.rs
@@ -614,7 +614,8 @@ impl From<Dictionary> for LowerRowEnvelope {
     fn from(dct: Dictionary) -> Self {
         // conversion ignores all values above the diagonal
 
-        let env = dct.envelope();
+        // rows without values still store their diagonal
+        let env = dct.envelope().into_iter().map(|x| x.max(1)).collect();
         let mut res = Self::from_envelope(env);
 
         for (loc, v) in dct.data.into_iter() {
@@ -631,7 +632,13 @@ impl From<Dictionary> for LowerRowEnvelope {
 
 impl From<Dictionary> for BiEnvelope {
     fn from(dct: Dictionary) -> Self {
-        let bnd = dct.row_bounds();
+        // rows without values have an empty range at the diagonal
+        let bnd = dct
+            .row_bounds()
+            .into_iter()
+            .enumerate()
+            .map(|(r, (a, b))| if a < b { (a, b) } else { (r, r) })
+            .collect();
         let mut res = Self::from_row_bounds(bnd);
 
         for (loc, v) in dct.data.into_iter() {
-- 
2.43.0


From 576059f0fc86b592726b02edca60f0e4363bb85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 19/53] fix: cholesky solver panicked on a system without
 unknowns

---
 src/matrix/solve/direct.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix/solve/direct.rs b/src/matrix/solve/direct.rs
index ba8b0d2..ce08e7c 100644
--- a/src/matrix/solve/direct.rs
+++ b/src/matrix/solve/direct.rs
@@ -110,11 +110,9 @@ pub fn cholesky_envelope(a: &LowerRowEnvelope) -> LowerRowEnvelope {
 
     let mut l = LowerRowEnvelope::from_envelope(envelope);
 
-    l[(0, 0)] = a[(0, 0)].sqrt();
-
     let mut w = Vec::new();
 
-    for i in 1..a.shape().0 {
+    for i in 0..a.shape().0 {
         let (start_col, u) = a.row_stored(i);
 
         // by the contruction of LowerRowEnvelope u.len() != 0
-- 
2.43.0


From 4db82e6c14632d7886917ed6ca2e9ea3645c87fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 20/53] fix: matrices whose element count overflows were given
 too small a buffer

---
 src/matrix/buffer.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index 947c61b..4b21068 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -33,6 +33,19 @@ pub struct ConstMatrix<const SIZE: usize> {
     data: [f64; SIZE],
 }
 
+// element counts of matrices that fit in memory
+// element access skips bounds checks, so a wrapped count must never size a buffer
+fn checked_len(dims: (usize, usize)) -> usize {
+    dims.0.checked_mul(dims.1).expect("matrix too large")
+}
+
+fn checked_triangle_len(dim: usize) -> usize {
+    dim.checked_add(2)
+        .and_then(|x| x.checked_mul(dim + 1))
+        .expect("matrix too large")
+        / 2
+}
+
 impl LinearMatrix {
     fn pos(&self, loc: (usize, usize)) -> Option<usize> {
         // find the location of the desired element in data
@@ -222,7 +235,7 @@ impl MatrixLike for LinearMatrix {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
-        let data = vec![0.0; dims.0 * dims.1];
+        let data = vec![0.0; checked_len(dims)];
         Self {
             dims,
             row_maj: true,
@@ -235,7 +248,7 @@ impl MatrixLike for LinearMatrix {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
         let data: Vec<f64> = data.into_iter().collect();
-        if (dims.0 * dims.1) != data.len() {
+        if checked_len(dims) != data.len() {
             panic!("bad shape {:?} for data length {}", dims, data.len())
         }
         Self {
@@ -387,7 +400,7 @@ impl MatrixLike for LowerTriangular {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dim = shape.max_dim;
-        let data = vec![0.0; ((dim + 1) * (dim + 2)) / 2];
+        let data = vec![0.0; checked_triangle_len(dim)];
         Self { dim, data }
     }
 
@@ -468,7 +481,7 @@ impl MatrixLike for UpperTriangular {
     fn zeros<T: Into<MatrixShape>>(shape: T) -> Self {
         let shape: MatrixShape = shape.into();
         let dim = shape.max_dim;
-        let data = vec![0.0; ((dim + 1) * (dim + 2)) / 2];
+        let data = vec![0.0; checked_triangle_len(dim)];
         Self { dim, data }
     }
 
-- 
2.43.0


From 59fccea89d7cc9b0e982b0048e5d0eb23ec29954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 21/53] fix: fixed size matrix accepted a shape that does not
 match its size

---
 src/matrix/buffer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/matrix/buffer.rs b/src/matrix/buffer.rs
index 4b21068..56ad587 100644
--- a/src/matrix/buffer.rs
+++ b/src/matrix/buffer.rs
@@ -672,16 +672,18 @@ impl<const SIZE: usize> MatrixLike for ConstMatrix<SIZE> {
         let shape: MatrixShape = shape.into();
         let dims = (shape.nrow, shape.ncol);
 
+        assert_eq!(checked_len(dims), SIZE, "provided shape does not match size");
+
         let mut arr_data = [0.0; SIZE];
-        let mut last = 0;
+        let mut count = 0;
 
         for (i, x) in data.into_iter().enumerate() {
             assert!(i < SIZE, "provided iterator too long");
             arr_data[i] = x;
-            last = i;
+            count = i + 1;
         }
 
-        assert_eq!(last, SIZE - 1, "provided iterator too short");
+        assert_eq!(count, SIZE, "provided iterator too short");
 
         Self {
             dims,
-- 
2.43.0


From f825a966401dd66aa1cd1269c4ca78a5278e281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 22/53] fix: matrices without columns listed indices outside
 their shape

---
 src/matrix/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix/mod.rs b/src/matrix/mod.rs
index 7b71742..1839685 100644
--- a/src/matrix/mod.rs
+++ b/src/matrix/mod.rs
@@ -454,7 +454,7 @@ impl Iterator for MatrixIndices {
     type Item = (usize, usize);
 
     fn next(&mut self) -> Option<(usize, usize)> {
-        if self.r >= self.rows {
+        if self.r >= self.rows || self.c >= self.cols {
             return None;
         }
 
-- 
2.43.0


From 9fc0aa699d2913b4abdd8e7a83f1f7803501a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 23/53] fix: inverse of matrices with a zero pivot was not a
 number

---
 src/matrix/inverse.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/matrix/inverse.rs b/src/matrix/inverse.rs
index 201c76c..30450eb 100644
--- a/src/matrix/inverse.rs
+++ b/src/matrix/inverse.rs
@@ -1,4 +1,4 @@
-use super::{dot, LowerTriangular, MatrixError, MatrixLike, UpperTriangular};
+use super::{dot, LinearMatrix, LowerTriangular, MatrixError, MatrixLike, UpperTriangular};
 
 const SMALL_NUM: f64 = 1e-100;
 
@@ -191,6 +191,21 @@ where
             return Self::from_flat((2, 2), vec![d, -1.0 * b, -1.0 * c, a]);
         }
 
-        self.inv_lu()
+        // eliminate with row exchanges, LU substitution would divide by zero pivots
+        let n = self.shape().0;
+        let mut vals = vec![0.0; n * n];
+
+        for c in 0..n {
+            let mut a = LinearMatrix::from_flat(self.shape(), self.flat().cloned());
+            let mut unit = LinearMatrix::zeros((n, 1));
+            unit[(c, 0)] = 1.0;
+
+            let x = a.solve_gausselim(unit).expect("matrix has no inverse");
+            for r in 0..n {
+                vals[r * n + c] = x[(r, 0)];
+            }
+        }
+
+        Self::from_flat((n, n), vals)
     }
 }
-- 
2.43.0


From f806bdeefe2adc927b32a888da4faa12d472489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 24/53] fix: eigensolver skipped an eigenvalue and repeated its
 neighbour

---
 src/matrix/solve/eigen.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index e3a7903..2a286c7 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -20,6 +20,11 @@ impl OneEigenRange {
     fn mid_val(&self) -> f64 {
         (self.lower + self.upper) / 2.0
     }
+
+    fn narrowable(&self) -> bool {
+        // whether there is still a sensible distance between the bounds
+        self.upper - self.lower > 1e-9 * self.upper
+    }
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -194,7 +199,7 @@ impl DeterminantSearcher {
         d.num_neg()
     }
 
-    fn process_one(&mut self, r: OneEigenRange) {
+    fn process_one(&mut self, mut r: OneEigenRange) {
         // refine an eigenrange, then send it to inverse iteration and store the result
         // TODO improve this procedure - might need to improve guess first
 
@@ -213,7 +218,19 @@ impl DeterminantSearcher {
         };
 
         // accept the middle of the resulting range for inverse iteration
-        let pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+        let mut pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+
+        // the iteration can settle on an eigenvalue outside the range, so narrow it and try again
+        while !(r.lower <= pair.value() && pair.value() <= r.upper) && r.narrowable() {
+            let mid_val = r.mid_val();
+            if self.eigenvalues_under(mid_val) > self.eigenpairs.len() {
+                r.upper = mid_val;
+            } else {
+                r.lower = mid_val;
+            }
+
+            pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+        }
 
         self.eigenpairs.push(pair);
 
-- 
2.43.0


From 1479acc559b674da23872001ada4c688e5847a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 25/53] verif hook: guarded re-export of the spatial module

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 04a3ec1..5e44d7e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -5,6 +5,15 @@ pub mod mesher;
 mod spatial;
 pub mod visual;
 
+#[allow(unexpected_cfgs)]
+#[cfg(bugi_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    // what the checks observe of the private spatial module
+    pub use crate::spatial::predicates::*;
+    pub use crate::spatial::*;
+}
+
 #[cfg(test)]
 mod tests {
     #[test]
-- 
2.43.0


From 93ca569223dd70d0e76c8dbfae407d96888b47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 26/53] fix: free constraint could not be read back from its
 text

---
 src/element/constraint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/element/constraint.rs b/src/element/constraint.rs
index b6ae8f8..976c5f8 100644
--- a/src/element/constraint.rs
+++ b/src/element/constraint.rs
@@ -41,6 +41,7 @@ impl FromStr for Constraint {
             "x" => Ok(Constraint::XFixed),
             "y" => Ok(Constraint::YFixed),
             "xy" => Ok(Constraint::XYFixed),
+            "free" => Ok(Constraint::Free),
             other => {
                 if other.starts_with("angle:") {
                     other[6..]
-- 
2.43.0


From 93aba8b4bc6d8864089371717d846566940d4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 27/53] fix: in-sphere predicate ignored the third coordinate

---
 src/spatial/predicates.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index dbe6a19..c63c856 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -111,27 +111,27 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
             a[0],
             a[1],
             a[2],
-            a[0].powi(2) + a[1].powi(2) + a[1].powi(2),
+            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
             1.0,
             b[0],
             b[1],
             b[2],
-            b[0].powi(2) + b[1].powi(2) + b[1].powi(2),
+            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
             1.0,
             c[0],
             c[1],
             c[2],
-            c[0].powi(2) + c[1].powi(2) + c[1].powi(2),
+            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
             1.0,
             d[0],
             d[1],
             d[2],
-            d[0].powi(2) + d[1].powi(2) + d[1].powi(2),
+            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
             1.0,
             p[0],
             p[1],
             p[2],
-            p[0].powi(2) + p[1].powi(2) + p[1].powi(2),
+            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
             1.0,
         ],
     );
-- 
2.43.0


From 89f0c55ae9b2ef9e0e46cb1e73c46aa3d22e5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 28/53] fix: rounding decided the predicates for cocircular,
 cospherical and coplanar points

---
 src/spatial/predicates.rs | 122 ++++++++++----------------------------
 1 file changed, 32 insertions(+), 90 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index c63c856..6820903 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -1,7 +1,5 @@
 use std::convert::TryInto;
 
-use crate::matrix::{ConstMatrix, Inverse};
-
 use super::Point;
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -11,34 +9,29 @@ pub enum Orient {
     Zero,
 }
 
+fn relative(p: Point, to: Point) -> [f64; 3] {
+    [p[0] - to[0], p[1] - to[1], p[2] - to[2]]
+}
+
+fn det3(m: [[f64; 3]; 3]) -> f64 {
+    m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
+        - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
+        + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0])
+}
+
 #[allow(dead_code)]
 pub fn tetrahedron_dir(tet: (Point, Point, Point, Point)) -> Orient {
     // return the orientation of a tetrahedron
     let (a, b, c, d) = tet;
 
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0], a[1], a[2], 1.0, b[0], b[1], b[2], 1.0, c[0], c[1], c[2], 1.0, d[0], d[1], d[2],
-            1.0,
-        ],
-    );
-
-    match mat.determinant() {
-        Ok(val) => {
-            if val == 0.0 {
-                Orient::Zero
-            } else if val > 0.0 {
-                Orient::Positive
-            } else {
-                Orient::Negative
-            }
-        }
-        Err(_) => {
-            // error in determinant() implies det = 0
-            // TODO handle various error types
-            Orient::Zero
-        }
+    let val = det3([relative(a, d), relative(b, d), relative(c, d)]);
+
+    if val == 0.0 {
+        Orient::Zero
+    } else if val > 0.0 {
+        Orient::Positive
+    } else {
+        Orient::Negative
     }
 }
 
@@ -69,34 +62,13 @@ pub fn in_circle(p: Point, tri: (Point, Point, Point)) -> bool {
     // tri's points should be in counterclockwise order
     let (a, b, c) = tri;
 
-    // TODO replace with faster / more accurate 3x3 determinant
-    let mat = ConstMatrix::<16>::from_flat_array(
-        4,
-        [
-            a[0],
-            a[1],
-            a[0].powi(2) + a[1].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[0].powi(2) + b[1].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[0].powi(2) + c[1].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[0].powi(2) + p[1].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // relative to p, so that no division is needed
+    let lift = |q: Point| {
+        let (x, y) = (q[0] - p[0], q[1] - p[1]);
+        [x, y, x.powi(2) + y.powi(2)]
+    };
+
+    det3([lift(a), lift(b), lift(c)]) > 0.0
 }
 
 #[allow(dead_code)]
@@ -104,43 +76,13 @@ pub fn in_sphere(p: Point, tet: (Point, Point, Point, Point)) -> bool {
     // determine whether p lies within tet's circumsphere
     let (a, b, c, d) = tet;
 
-    // TODO replace with faster / more accurate 4x4 determinant
-    let mat = ConstMatrix::<25>::from_flat_array(
-        5,
-        [
-            a[0],
-            a[1],
-            a[2],
-            a[0].powi(2) + a[1].powi(2) + a[2].powi(2),
-            1.0,
-            b[0],
-            b[1],
-            b[2],
-            b[0].powi(2) + b[1].powi(2) + b[2].powi(2),
-            1.0,
-            c[0],
-            c[1],
-            c[2],
-            c[0].powi(2) + c[1].powi(2) + c[2].powi(2),
-            1.0,
-            d[0],
-            d[1],
-            d[2],
-            d[0].powi(2) + d[1].powi(2) + d[2].powi(2),
-            1.0,
-            p[0],
-            p[1],
-            p[2],
-            p[0].powi(2) + p[1].powi(2) + p[2].powi(2),
-            1.0,
-        ],
-    );
-
-    if let Ok(val) = mat.determinant() {
-        val > 0.0
-    } else {
-        false
-    }
+    // relative to p, so that no division is needed
+    let (a, b, c, d) = (relative(a, p), relative(b, p), relative(c, p), relative(d, p));
+    let lift = |q: [f64; 3]| q[0].powi(2) + q[1].powi(2) + q[2].powi(2);
+
+    let val = lift(d) * det3([a, b, c]) - lift(c) * det3([a, b, d]) + lift(b) * det3([a, c, d])
+        - lift(a) * det3([b, c, d]);
+    val > 0.0
 }
 
 // a line, represented as ax + by = c
-- 
2.43.0


From 5853b6262cf4a3cafc635ad48fa3716bceabc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 29/53] fix: rounding put points on a triangle's third edge
 outside it

---
 src/spatial/predicates.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spatial/predicates.rs b/src/spatial/predicates.rs
index 6820903..e801cf1 100644
--- a/src/spatial/predicates.rs
+++ b/src/spatial/predicates.rs
@@ -44,10 +44,11 @@ pub fn bary_coor(p: Point, tri: (Point, Point, Point)) -> (f64, f64, f64) {
     let (x, y) = p.try_into().unwrap();
 
     let denom = (y2 - y3) * (x1 - x3) + (x3 - x2) * (y1 - y3);
-    let a = ((y2 - y3) * (x - x3) + (x3 - x2) * (y - y3)) / denom;
-    let b = ((y3 - y1) * (x - x3) + (x1 - x3) * (y - y3)) / denom;
-    let c = 1.0 - a - b;
-    (a, b, c)
+    let a = (y2 - y3) * (x - x3) + (x3 - x2) * (y - y3);
+    let b = (y3 - y1) * (x - x3) + (x1 - x3) * (y - y3);
+    // taking the rest before dividing keeps points on the third edge on it
+    let c = denom - a - b;
+    (a / denom, b / denom, c / denom)
 }
 
 pub fn in_triangle(p: Point, tri: (Point, Point, Point)) -> bool {
-- 
2.43.0


From f9193bf17d98232cf1cf59b6a6c41d353f08a116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 30/53] fix: drawing failed when all points coincide

---
 src/visual/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 7e498bd..3a85b4a 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -145,7 +145,12 @@ impl Visualizer {
 
         // want to bring the range down to 80% of the image width
         let target_range = 0.8 * (self.im_size as f64);
-        let scaling = target_range / max_range;
+        // points that all coincide have no range, and go in the center
+        let scaling = if max_range > 0.0 {
+            target_range / max_range
+        } else {
+            1.0
+        };
 
         let middle_x = (x_max + x_min) / 2.0;
         let middle_y = (y_max + y_min) / 2.0;
-- 
2.43.0


From 8da53b8159545b935561ce188579ea65ad1b862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 31/53] fix: drawing small pictures failed where a dot reaches
 past the border

---
 src/visual/fill.rs | 4 ++--
 src/visual/mod.rs  | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/visual/fill.rs b/src/visual/fill.rs
index d85ba53..e461e55 100644
--- a/src/visual/fill.rs
+++ b/src/visual/fill.rs
@@ -6,8 +6,8 @@ pub fn dot_points(center_x: u32, center_y: u32) -> Vec<(u32, u32)> {
     // just a boring ol' square, might change to a more circular thing
     // TODO maybe handle *edge* cases better haha get it
     let mut res = Vec::new();
-    for x in (center_x - DOT_SIZE)..=(center_x + DOT_SIZE) {
-        for y in (center_y - DOT_SIZE)..=(center_y + DOT_SIZE) {
+    for x in center_x.saturating_sub(DOT_SIZE)..=(center_x + DOT_SIZE) {
+        for y in center_y.saturating_sub(DOT_SIZE)..=(center_y + DOT_SIZE) {
             res.push((x, y));
         }
     }
diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 3a85b4a..61ab0c5 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -160,7 +160,9 @@ impl Visualizer {
             let x_new = ((x - middle_x) * scaling + (self.im_size as f64) / 2.0).round();
             // flip y so the image appears in the familiar x/y orientation
             let y_new = (-1.0 * (y - middle_y) * scaling + (self.im_size as f64) / 2.0).round();
-            pix_points.push((x_new as u32, y_new as u32));
+            // rounding must not leave a small picture
+            let last = self.im_size.saturating_sub(1);
+            pix_points.push(((x_new as u32).min(last), (y_new as u32).min(last)));
         }
 
         pix_points
@@ -217,7 +219,9 @@ impl Visualizer {
             for ((x, y), c) in pix_points.into_iter().zip(self.colors.iter()) {
                 let to_draw = fill::dot_points(x, y);
                 for (i, j) in to_draw.into_iter() {
-                    img.put_pixel(i, j, color::STDCOL[*c]);
+                    if i < self.im_size && j < self.im_size {
+                        img.put_pixel(i, j, color::STDCOL[*c]);
+                    }
                 }
             }
         }
-- 
2.43.0


From aac4622cbd913f88144cf801b2b592ad91c648f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 32/53] fix: lines lost their pixels in the first row and
 column

---
 src/visual/bresenham.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visual/bresenham.rs b/src/visual/bresenham.rs
index 626cc60..e64e481 100644
--- a/src/visual/bresenham.rs
+++ b/src/visual/bresenham.rs
@@ -4,7 +4,7 @@ pub fn line_unsigned(orig: &(u32, u32), end: &(u32, u32)) -> Vec<(u32, u32)> {
 
     line(orig, end)
         .into_iter()
-        .filter(|(x, y)| x > &0 && y > &0)
+        .filter(|(x, y)| x >= &0 && y >= &0)
         .map(|(x, y)| (x as u32, y as u32))
         .collect()
 }
-- 
2.43.0


From 21da2ef54b385f762dd9d9a429bde3c6478b9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:14 +0000
Subject: [PATCH 33/53] fix: equal node values were normalized to not-a-number

---
 src/visual/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/visual/mod.rs b/src/visual/mod.rs
index 61ab0c5..e8e6ab5 100644
--- a/src/visual/mod.rs
+++ b/src/visual/mod.rs
@@ -91,7 +91,8 @@ impl Visualizer {
 
         self.val_range = Some((min, max));
 
-        let range = max - min;
+        // equal values have no range, and all become 0
+        let range = if max > min { max - min } else { 1.0 };
 
         vals.iter_mut()
             .for_each(|x| *x = ((*x - min) / range).clamp(0.0, 1.0));
-- 
2.43.0


From 2fdccb60c7e137390eb3c32bbd1da0b5913841d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 34/53] fix: write mesh files with all digits of their numbers

Coordinates were cut to six decimals, forces to three and thicknesses to five,
so that a saved model read back as another one.
---
 src/element/strain.rs | 4 ++--
 src/file/bmsh.rs      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/element/strain.rs b/src/element/strain.rs
index 208277c..db23686 100644
--- a/src/element/strain.rs
+++ b/src/element/strain.rs
@@ -125,8 +125,8 @@ impl Condition {
 impl ToString for Condition {
     fn to_string(&self) -> String {
         match self {
-            Condition::PlaneStress(t) => format!("planestress {:3.5}", t),
-            Condition::PlaneStrain(t) => format!("planestrain {:3.5}", t),
+            Condition::PlaneStress(t) => format!("planestress {}", t),
+            Condition::PlaneStrain(t) => format!("planestrain {}", t),
             Condition::Axisymmetric => format!("axisymmetric"),
         }
     }
diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index efd3d85..edbf0fa 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -302,7 +302,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     let nodes = elas.nodes();
     res += &format!("\ncount {}", nodes.len());
     for (i, n) in nodes.into_iter().enumerate() {
-        res += &format!("\n{} {:.6}/{:.6}", i, n[0], n[1]);
+        res += &format!("\n{} {}/{}", i, n[0], n[1]);
     }
     res += "\n$EndNodes\n\n$Elements";
 
@@ -339,7 +339,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     let forces = elas.conc_forces();
     res += &format!("\ncount {}", forces.len());
     for (n, frc) in forces {
-        res += &format!("\n{} {:.3}/{:.3}", n.into_idx(), frc[0], frc[1]);
+        res += &format!("\n{} {}/{}", n.into_idx(), frc[0], frc[1]);
     }
     res.push_str("\n$EndForces\n\n$DistForces");
 
@@ -347,7 +347,7 @@ pub fn elas_to_bmsh(elas: ElementAssemblage) -> String {
     res += &format!("\ncount {}", dist_forces.len());
     for ((na, nb), frc) in dist_forces {
         res += &format!(
-            "\n{} {} {:.3}/{:.3}",
+            "\n{} {} {}/{}",
             na.into_idx(),
             nb.into_idx(),
             frc[0],
-- 
2.43.0


From 94f7a3c8ae200e2ac088ba043ae727046b2e7198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 35/53] fix: refuse malformed mesh files with an error

Unknown materials and constraints, points that are not pairs of finite numbers,
elements without three nodes and references to missing nodes made the reader
panic.
---
 src/file/bmsh.rs | 81 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 26 deletions(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index edbf0fa..e24ebe5 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -1,5 +1,3 @@
-use std::convert::TryInto;
-
 use crate::element::constraint::Constraint;
 use crate::element::material::Material;
 use crate::element::strain::Condition;
@@ -13,10 +11,30 @@ use super::FileError;
 
 type NomStrErr<'a> = nom::error::Error<&'a str>;
 
-fn code_to_desc(code: Vec<NodeId>) -> ElementDescriptor {
-    assert!(code.len() == 3);
+fn code_to_desc(code: Vec<NodeId>) -> Result<ElementDescriptor, FileError> {
+    if code.len() != 3 {
+        return Err(FileError::parse(format!(
+            "element has {} nodes instead of 3",
+            code.len()
+        )));
+    }
 
-    ElementDescriptor::new([code[0], code[1], code[2]])
+    Ok(ElementDescriptor::new([code[0], code[1], code[2]]))
+}
+
+fn find_node(node_ids: &[NodeId], i: usize) -> Result<NodeId, FileError> {
+    node_ids
+        .get(i)
+        .copied()
+        .ok_or_else(|| FileError::parse(format!("node {} does not exist", i)))
+}
+
+fn plane_point(vals: Vec<f64>) -> Result<Point, ()> {
+    // all models are plane, a value out of range parses as infinite
+    if vals.len() != 2 || vals.iter().any(|x| !x.is_finite()) {
+        return Err(());
+    }
+    Ok(Point::new(&vals))
 }
 
 fn desc_to_code(desc: ElementDescriptor) -> [NodeId; 3] {
@@ -160,7 +178,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         branch::alt,
         bytes::complete::tag,
         character::complete::{self, alphanumeric1, not_line_ending},
-        combinator::map,
+        combinator::{map, map_res, verify},
         multi::separated_list0,
         number::complete::double,
         sequence::{preceded, separated_pair, terminated, tuple},
@@ -180,13 +198,15 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     // parse the header
     let version = named_value("version", complete::u8);
-    let material = named_value("material", alphanumeric1);
+    let material = named_value("material", map_res(alphanumeric1, |m: &str| m.parse()));
+
+    let thickness = |s| verify(double, |t: &f64| t.is_finite())(s);
 
     let condition_parser = alt((
-        map(preceded(tag("planestrain "), double), |t: f64| {
+        map(preceded(tag("planestrain "), thickness), |t: f64| {
             Condition::PlaneStrain(t)
         }),
-        map(preceded(tag("planestress "), double), |t: f64| {
+        map(preceded(tag("planestress "), thickness), |t: f64| {
             Condition::PlaneStress(t)
         }),
         map(tag("axisymmetric"), |_| Condition::Axisymmetric),
@@ -199,7 +219,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         map(tuple((version, material, condition)), |(v, m, c)| {
             ParseHeader {
                 version: v,
-                material: m.parse().expect("bad material"),
+                material: m,
                 condition: c,
             }
         }),
@@ -215,9 +235,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
     // parse the remaining segments
     let (input, nodes): (_, Vec<Point>) = section_parse(
         "Nodes",
-        monotonic_list(map(separated_list0(tag("/"), double), |x| {
-            x.try_into().expect("bad node position string")
-        })),
+        monotonic_list(map_res(separated_list0(tag("/"), double), plane_point)),
     )(input)?;
 
     let (input, elements): (_, Vec<Vec<usize>>) = section_parse(
@@ -233,10 +251,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(
+            map_res(
                 not_line_ending,
                 // TODO: remove redundant info from make_constraint
-                |con: &str| con.parse::<Constraint>().expect("bad constraint"),
+                |con: &str| con.parse::<Constraint>(),
             ),
         )),
     )(input)?;
@@ -246,9 +264,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(separated_pair(
             map(complete::u64, |x| x as usize),
             tag(" "),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), plane_point),
         )),
     )(input)?;
 
@@ -257,9 +273,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
-            map(separated_list0(tag("/"), double), |x| {
-                x.try_into().expect("bad force vector string")
-            }),
+            map_res(separated_list0(tag("/"), double), plane_point),
         ))),
     )(input)?;
 
@@ -270,21 +284,36 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
 
     // TODO write an elas API to generate an element with the suggested type
     for ns in elements.into_iter() {
-        let nids = ns.into_iter().map(|i| node_ids[i]).collect();
-        let desc = code_to_desc(nids);
+        let nids = ns
+            .into_iter()
+            .map(|i| find_node(&node_ids, i))
+            .collect::<Result<_, _>>()?;
+        let desc = code_to_desc(nids)?;
+
+        // the element matrices cannot be formed where products of lengths overflow
+        let [a, b, c] = desc.clone().into_parts().map(|n| elas.node(n));
+        let (u, v) = (b - a, c - a);
+        if !(u[0] * v[1] - u[1] * v[0]).is_finite() {
+            return Err(FileError::parse("element too large"));
+        }
+
         elas.add_element(desc);
     }
 
     for (n, con) in constraints.into_iter() {
-        elas.add_constraint(node_ids[n], con);
+        elas.add_constraint(find_node(&node_ids, n)?, con);
     }
 
     for (n, frc) in forces.into_iter() {
-        elas.add_conc_force(node_ids[n], frc);
+        elas.add_conc_force(find_node(&node_ids, n)?, frc);
     }
 
     for (na, nb, frc) in dist_forces.into_iter() {
-        elas.add_dist_line_force(node_ids[na], node_ids[nb], frc);
+        elas.add_dist_line_force(
+            find_node(&node_ids, na)?,
+            find_node(&node_ids, nb)?,
+            frc,
+        );
     }
 
     Ok(elas)
-- 
2.43.0


From e307ae53a48b1e6843801f50cf69e7d09c442dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 36/53] fix: refuse mesh files with text after the last section

Further sections, misplaced or repeated, were dropped without notice.
---
 src/file/bmsh.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/bmsh.rs b/src/file/bmsh.rs
index e24ebe5..ca546af 100644
--- a/src/file/bmsh.rs
+++ b/src/file/bmsh.rs
@@ -268,7 +268,7 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         )),
     )(input)?;
 
-    let (_input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
+    let (input, dist_forces): (_, Vec<(usize, usize, Point)>) = section_parse(
         "DistForces",
         free_list(tuple((
             terminated(map(complete::u64, |x| x as usize), tag(" ")),
@@ -277,6 +277,10 @@ pub fn bmsh_to_elas(file: &str) -> Result<ElementAssemblage, FileError> {
         ))),
     )(input)?;
 
+    if !input.is_empty() {
+        return Err(FileError::parse("text after the last section"));
+    }
+
     // done with parsing, time to assemble the output
     let mut elas = header.into_elas();
 
-- 
2.43.0


From 02c1eedd998cbeb1e9b0f0aefedb1fdd5191cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 37/53] fix: refuse unknown materials and constraints in
 boundary files with an error

---
 src/file/bbnd.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index b3b58eb..d3bfbcc 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -13,7 +13,7 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{self, alphanumeric1, not_line_ending},
-    combinator::map,
+    combinator::{map, map_res},
     multi::{separated_list0, separated_list1},
     number::complete::double,
     sequence::{delimited, preceded, separated_pair, tuple},
@@ -127,9 +127,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             ParseItem::Condition(Condition::Axisymmetric)
         }),
     ));
-    // TODO fix material error handling
-    let material = map(preceded(tag("material "), alphanumeric1), |m: &str| {
-        ParseItem::Material(m.parse::<Material>().unwrap())
+    let material = map_res(preceded(tag("material "), alphanumeric1), |m: &str| {
+        m.parse::<Material>().map(ParseItem::Material)
     });
 
     let dist_force = map(
@@ -145,7 +144,7 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
         |f: (&str, &str, f64, f64)| ParseItem::DistForce(f.0, f.1, f.2, f.3),
     );
 
-    let dist_constraint = map(
+    let dist_constraint = map_res(
         preceded(
             tag("distributed_constraint "),
             tuple((
@@ -155,7 +154,8 @@ fn parse_file<'a>(file: &'a str) -> Result<Vec<ParseItem<'a>>, FileError> {
             )),
         ),
         |f: (&str, &str, &str)| {
-            ParseItem::DistConstraint(f.0, f.1, f.2.parse::<Constraint>().unwrap())
+            f.2.parse::<Constraint>()
+                .map(|c| ParseItem::DistConstraint(f.0, f.1, c))
         },
     );
 
-- 
2.43.0


From fa3c334f6344956e9cf913f58b979387ad21fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 38/53] fix: refuse polygons that cross or have too few
 vertices with an error

---
 src/file/bbnd.rs     |  4 +++-
 src/mesher/bounds.rs | 27 +++++++++++++++++++++------
 src/mesher/mod.rs    |  6 ++++++
 3 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index d3bfbcc..094df83 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -72,7 +72,9 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 vertex_labels.push(l);
             }
 
-            let vertices = res.store_polygon(&vertex_points);
+            let vertices = res
+                .try_store_polygon(&vertex_points)
+                .map_err(|e| FileError::parse(e))?;
             for (&l, vertex) in vertex_labels.iter().zip(vertices) {
                 if let Some(label) = l {
                     label_map.insert(label, vertex);
diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 96abe86..3f7b037 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -6,7 +6,7 @@ use crate::element::constraint::Constraint;
 use crate::element::material::Material;
 use crate::element::strain::Condition;
 
-use super::Vertex;
+use super::{MeshError, Vertex};
 
 use spacemath::two::dist::Dist;
 use spacemath::two::intersect::Intersect;
@@ -195,7 +195,7 @@ impl PlaneBoundary {
         self.seg_set.insert(s);
     }
 
-    fn store_base_segment<S: Into<Segment>>(&mut self, s: S) {
+    fn store_base_segment<S: Into<Segment>>(&mut self, s: S) -> Result<(), MeshError> {
         // store a segment into both the main and base maps
         let s = s.into();
 
@@ -203,12 +203,15 @@ impl PlaneBoundary {
 
         // possibly avoid this O(n) check for at-scale work
         if self.intersects(a, b, Some(s)) {
-            panic!("segment overlaps with existing segment");
+            return Err(MeshError::boundary(
+                "segment overlaps with existing segment",
+            ));
         }
 
         self.seg_map.insert(s.0, s.1);
         self.base_seg_map.insert(s.0, s.1);
         self.seg_set.insert(s);
+        Ok(())
     }
 
     pub fn set_condition(&mut self, c: Condition) {
@@ -324,6 +327,18 @@ impl PlaneBoundary {
     {
         // store an ordered set of points as a polygon
         // the polygon should be oriented so positive triangles off the edges are inside the body
+        self.try_store_polygon(poly)
+            .expect("could not store polygon")
+    }
+
+    pub fn try_store_polygon<T>(&mut self, poly: &[T]) -> Result<Vec<Vertex>, MeshError>
+    where
+        T: Into<Point> + Copy,
+    {
+        // store a polygon as in store_polygon, with an error if its walls cannot bound a body
+        if poly.len() < 3 {
+            return Err(MeshError::boundary("polygon with fewer than 3 vertices"));
+        }
 
         let mut poly = poly.into_iter().copied().map(|p| p.into());
         let mut ids = Vec::new();
@@ -338,13 +353,13 @@ impl PlaneBoundary {
         for p in poly {
             let p_idx = self.store_vertex(p);
             ids.push(p_idx);
-            self.store_base_segment((prev_idx, p_idx));
+            self.store_base_segment((prev_idx, p_idx))?;
 
             prev_idx = p_idx;
         }
 
-        self.store_base_segment((prev_idx, start_idx));
-        ids
+        self.store_base_segment((prev_idx, start_idx))?;
+        Ok(ids)
     }
 
     pub fn divide_segment(&mut self, s: Segment, h: f64) {
diff --git a/src/mesher/mod.rs b/src/mesher/mod.rs
index 9a024bc..00d1b36 100644
--- a/src/mesher/mod.rs
+++ b/src/mesher/mod.rs
@@ -12,18 +12,24 @@ pub mod plane;
 #[derive(Clone, Debug)]
 pub enum MeshError {
     TriangleError(String),
+    BoundaryError(String),
 }
 
 impl MeshError {
     fn triangle<T: ToString>(msg: T) -> Self {
         MeshError::TriangleError(msg.to_string())
     }
+
+    fn boundary<T: ToString>(msg: T) -> Self {
+        MeshError::BoundaryError(msg.to_string())
+    }
 }
 
 impl fmt::Display for MeshError {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             MeshError::TriangleError(s) => write!(f, "TriangleError: {}", s),
+            MeshError::BoundaryError(s) => write!(f, "BoundaryError: {}", s),
         }
     }
 }
-- 
2.43.0


From 5426038cb864dca15bff0e77b8bd4be61771c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:43 +0000
Subject: [PATCH 39/53] fix: refuse distributed forces and constraints between
 vertices that share no wall

---
 src/file/bbnd.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/file/bbnd.rs b/src/file/bbnd.rs
index 094df83..e39dd91 100644
--- a/src/file/bbnd.rs
+++ b/src/file/bbnd.rs
@@ -100,6 +100,11 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 let b_vertex = label_map
                     .get(&b)
                     .ok_or_else(|| FileError::parse("invalid vertex label"))?;
+                if !res.is_segment((*a_vertex, *b_vertex))
+                    && !res.is_segment((*b_vertex, *a_vertex))
+                {
+                    return Err(FileError::parse("distributed force on no segment"));
+                }
                 res.store_distributed_force(*a_vertex, *b_vertex, (x, y).into());
             }
             ParseItem::DistConstraint(a, b, c) => {
@@ -109,6 +114,11 @@ pub fn bbnd_to_bounds(file: &str) -> Result<PlaneBoundary, FileError> {
                 let b_vertex = label_map
                     .get(&b)
                     .ok_or_else(|| FileError::parse("invalid vertex label"))?;
+                if !res.is_segment((*a_vertex, *b_vertex))
+                    && !res.is_segment((*b_vertex, *a_vertex))
+                {
+                    return Err(FileError::parse("distributed constraint on no segment"));
+                }
                 res.store_distributed_constraint(*a_vertex, *b_vertex, c);
             }
         }
-- 
2.43.0


From ea925394421ffd35d2a8d7ef291c367094d2d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 40/53] fix: forces and constraints given for the same wall or
 corner replaced each other

---
 src/mesher/bounds.rs | 82 ++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 3f7b037..d9a5d92 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -150,9 +150,10 @@ pub struct PlaneBoundary {
     // also store some BC / material information
     condition: Option<Condition>,
     material: Option<Material>,
-    constraints: HashMap<Vertex, Constraint>,
+    // a vertex or segment may have several constraints
+    constraints: Vec<(Vertex, Constraint)>,
     distributed_forces: HashMap<Segment, Point>,
-    distributed_constraints: HashMap<Segment, Constraint>,
+    distributed_constraints: Vec<(Segment, Constraint)>,
 }
 
 impl PlaneBoundary {
@@ -169,9 +170,9 @@ impl PlaneBoundary {
 
             condition: None,
             material: None,
-            constraints: HashMap::new(),
+            constraints: Vec::new(),
             distributed_forces: HashMap::new(),
-            distributed_constraints: HashMap::new(),
+            distributed_constraints: Vec::new(),
         }
     }
 
@@ -231,15 +232,28 @@ impl PlaneBoundary {
     }
 
     pub fn store_constraint(&mut self, v: Vertex, c: Constraint) {
-        self.constraints.insert(v, c);
+        self.constraints.push((v, c));
     }
 
     pub fn store_distributed_force(&mut self, v: Vertex, w: Vertex, f: Point) {
-        self.distributed_forces.insert((v, w).into(), f);
+        // forces on the same segment, named in either direction, add up
+        let s = Segment(v, w);
+        let s = if self.distributed_forces.contains_key(&s.rev()) {
+            s.rev()
+        } else {
+            s
+        };
+        let (mut x, mut y): (f64, f64) = f.into();
+        if let Some(&g) = self.distributed_forces.get(&s) {
+            let g: (f64, f64) = g.into();
+            x += g.0;
+            y += g.1;
+        }
+        self.distributed_forces.insert(s, (x, y).into());
     }
 
     pub fn store_distributed_constraint(&mut self, v: Vertex, w: Vertex, c: Constraint) {
-        self.distributed_constraints.insert((v, w).into(), c);
+        self.distributed_constraints.push(((v, w).into(), c));
     }
 
     pub fn is_segment<S: Into<Segment>>(&self, s: S) -> bool {
@@ -255,7 +269,16 @@ impl PlaneBoundary {
 
         // should probably also remove any associated forces / constraints
         self.distributed_forces.remove(&s);
-        self.distributed_constraints.remove(&s);
+        self.take_distributed_constraints(s);
+    }
+
+    fn take_distributed_constraints(&mut self, s: Segment) -> Vec<Constraint> {
+        // remove and return the constraints stored for a segment in either direction
+        let (taken, kept): (Vec<_>, Vec<_>) = std::mem::take(&mut self.distributed_constraints)
+            .into_iter()
+            .partition(|&(t, _)| t == s || t == s.rev());
+        self.distributed_constraints = kept;
+        taken.into_iter().map(|(_, c)| c).collect()
     }
 
     fn store_segment_unchecked<S: Into<Segment>>(&mut self, s: S) {
@@ -393,10 +416,7 @@ impl PlaneBoundary {
             .remove(&s)
             .or_else(|| self.distributed_forces.remove(&s.rev()));
 
-        let dist_c = self
-            .distributed_constraints
-            .remove(&s)
-            .or_else(|| self.distributed_constraints.remove(&s.rev()));
+        let dist_c = self.take_distributed_constraints(s);
 
         self.remove_segment(s);
         let start = s.0;
@@ -415,22 +435,22 @@ impl PlaneBoundary {
                     .insert((cur, new_point_id).into(), f);
             }
 
-            if let Some(c) = dist_c {
+            for &c in dist_c.iter() {
                 self.distributed_constraints
-                    .insert((cur, new_point_id).into(), c);
+                    .push(((cur, new_point_id).into(), c));
 
                 // distributed constraints are just bookkeeping
                 // they mark segments where new points should have cosntraints
-                self.constraints.insert(new_point_id, c);
+                self.constraints.push((new_point_id, c));
             }
 
             cur = new_point_id;
             new_point = new_point + leg;
         }
 
-        if let Some(c) = dist_c {
-            self.constraints.insert(start, c);
-            self.constraints.insert(end, c);
+        for &c in dist_c.iter() {
+            self.constraints.push((start, c));
+            self.constraints.push((end, c));
         }
 
         self.store_segment_unchecked((cur, end));
@@ -454,19 +474,16 @@ impl PlaneBoundary {
             .remove(&s)
             .or_else(|| self.distributed_forces.remove(&s.rev()));
 
-        let dist_c = self
-            .distributed_constraints
-            .remove(&s)
-            .or_else(|| self.distributed_constraints.remove(&s.rev()));
+        let dist_c = self.take_distributed_constraints(s);
 
         self.remove_segment(s);
 
         self.store_segment_unchecked((a, m));
         self.store_segment_unchecked((m, b));
 
-        if let Some(c) = dist_c {
-            self.distributed_constraints.insert((a, m).into(), c);
-            self.distributed_constraints.insert((m, b).into(), c);
+        for &c in dist_c.iter() {
+            self.distributed_constraints.push(((a, m).into(), c));
+            self.distributed_constraints.push(((m, b).into(), c));
         }
 
         if let Some(f) = dist_f {
@@ -504,19 +521,16 @@ impl PlaneBoundary {
 
     pub fn all_constraints(&self) -> Vec<(Vertex, Constraint)> {
         // include the vertices of distributed constraints
+        // a vertex appears once per constraint it is under
 
-        let mut res: HashMap<Vertex, Constraint> = HashMap::new();
-
-        for (v, c) in self.constraints.iter() {
-            res.insert(*v, *c);
-        }
+        let mut res = self.constraints.clone();
 
-        for (s, c) in self.distributed_constraints.iter() {
-            res.insert(s.0, *c);
-            res.insert(s.1, *c); // will just overwrite any duplicates
+        for &(s, c) in self.distributed_constraints.iter() {
+            res.push((s.0, c));
+            res.push((s.1, c));
         }
 
-        res.into_iter().collect()
+        res
     }
 
     pub fn visualize(&self) -> Visualizer {
-- 
2.43.0


From f35b89b81f4c086c4d3a034a32da171da751734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 41/53] fix: meshes without a condition panicked instead of
 returning an error

---
 src/mesher/plane.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 9dc98a5..bcce4de 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -568,7 +568,12 @@ impl PlaneTriangulation {
     pub fn assemble(self) -> Result<ElementAssemblage, &'static str> {
         let mat = self.bound.material().ok_or("missing material definition")?;
 
-        let mut res = ElementAssemblage::new(mat, self.bound.condition().unwrap());
+        let condition = self
+            .bound
+            .condition()
+            .ok_or("missing condition definition")?;
+
+        let mut res = ElementAssemblage::new(mat, condition);
 
         // build vertex list and translation to elas node ids
         let vertex_list: Vec<(f64, f64)>;
-- 
2.43.0


From 212c1776c2e9f2e3e3c9ba9bc7b944b81f90782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 42/53] fix: meshing never ended beside acute holes and notches

---
 src/mesher/bounds.rs | 5 +++++
 src/mesher/plane.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index d9a5d92..7bcfaa6 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -261,6 +261,11 @@ impl PlaneBoundary {
         self.seg_set.contains(&s)
     }
 
+    pub fn on_wall(&self, v: Vertex) -> bool {
+        // determine whether a wall runs through v
+        self.seg_map.contains_key(&v)
+    }
+
     fn remove_segment<S: Into<Segment>>(&mut self, s: S) {
         let s = s.into();
 
diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index bcce4de..e2e1dae 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -420,6 +420,11 @@ impl PlaneTriangulation {
             return false; // a segment is not encroached by its own end points
         }
 
+        // a wall vertex behind s faces it across the outside of the body (a hole or a notch)
+        if self.bound.on_wall(p) && !self.to_left(s, p) {
+            return false;
+        }
+
         // check if p is in the diametral circle
         let (a, b) = (s.0.get(), s.1.get());
         let mid = a.mid(b);
-- 
2.43.0


From dd98074a620466fda96001d275e1be63865c7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 43/53] fix: ruppert meshing left segments encroached and could
 fail on them

---
 src/mesher/plane.rs | 53 ++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index e2e1dae..61d551e 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -457,35 +457,38 @@ impl PlaneTriangulation {
         (child_a, child_b, new_v)
     }
 
-    fn ruppert_split_many(
-        &mut self,
-        p: Vertex,
-        mut to_split: Vec<Segment>,
-        recursive: bool,
-    ) -> Vec<Vertex> {
-        // split the provided segments while their children are still encroached
-        // if recursive flag is set, split the children too
-        // return the newly generated vertices
+    fn ruppert_split_many(&mut self, segs: Vec<Segment>) -> Vec<Segment> {
+        // split the provided segments once
+        // return the segments which may be encroached from then on
         let mut res = Vec::new();
 
-        while let Some(s) = to_split.pop() {
+        for s in segs {
             let (child_a, child_b, new_v) = self.ruppert_split_segment(s);
 
-            if recursive {
-                if self.ruppert_encroaches(p, child_a) {
-                    to_split.push(child_a);
-                }
-                if self.ruppert_encroaches(p, child_b) {
-                    to_split.push(child_b);
-                }
-            }
+            // what could not see the midpoint of s may see those of its children
+            res.push(child_a);
+            res.push(child_b);
 
-            res.push(new_v);
+            if let Some(encroached) = self.segments_encroached_by(new_v) {
+                res.extend(encroached);
+            }
         }
 
         res
     }
 
+    fn ruppert_split_encroached(&mut self, mut to_check: Vec<Segment>) {
+        // split the listed segments, and those affected by the splits, until none is encroached
+        while let Some(s) = to_check.pop() {
+            // a segment can be listed twice, and be split by the time it is up again
+            if self.bound.is_segment(s)
+                && self.all_vertices().any(|&v| self.ruppert_encroaches(v, s))
+            {
+                to_check.extend(self.ruppert_split_many(vec![s]));
+            }
+        }
+    }
+
     fn segments_encroached_by(&self, p: Vertex) -> Option<Vec<Segment>> {
         // find segments which would be encroached by the addition of a trial point
         // returns None if the vector would otherwise be empty
@@ -511,13 +514,8 @@ impl PlaneTriangulation {
         // first, split all the walls that are already encroached by boundary vertices
         eprint!("splitting walls ... ");
         let ti = Instant::now();
-        let mut to_check: Vec<Vertex> = self.bound.all_vertices().copied().collect();
-        while let Some(v) = to_check.pop() {
-            if let Some(segs) = self.segments_encroached_by(v) {
-                let new_vs = self.ruppert_split_many(v, segs, true);
-                to_check.extend(new_vs);
-            }
-        }
+        let to_check: Vec<Segment> = self.bound.all_walls().collect();
+        self.ruppert_split_encroached(to_check);
         eprintln!("done in {}ms", ti.elapsed().as_millis());
 
         eprint!("refining mesh ... ");
@@ -529,7 +527,8 @@ impl PlaneTriangulation {
             let center = Vertex::new(center); // ok to do this outside of storage
 
             if let Some(segs) = self.segments_encroached_by(center) {
-                self.ruppert_split_many(center, segs, false);
+                let to_check = self.ruppert_split_many(segs);
+                self.ruppert_split_encroached(to_check);
             } else {
                 let center_id = self.store_vertex(center.get()); // this'll spin a new id, but that doesn't matter
                 self.bowyer_watson_insert(center_id, tri);
-- 
2.43.0


From a362c57d437e3322702b95cae9026c836032aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 44/53] fix: meshing depended on the unit of length

---
 src/mesher/bounds.rs |  8 ++++++--
 src/mesher/mod.rs    |  6 ++----
 src/mesher/plane.rs  | 21 ++++++++++++++++++---
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 7bcfaa6..6e76332 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -324,7 +324,8 @@ impl PlaneBoundary {
 
     pub fn midpoint_visible(&self, s: Segment, x: Vertex) -> bool {
         // determine whether the midpoint of s is visible from v
-        const TOLERANCE: f64 = 1e-6;
+        // points this close to a wall, in proportion to its coordinates, lie on it
+        const TOLERANCE: f64 = 1e-9;
 
         let (p, q) = s.get();
         let m = p.mid(q); // midpoint
@@ -339,7 +340,10 @@ impl PlaneBoundary {
             let ab = spacemath::two::Segment::new(a, b);
             let mx = spacemath::two::Segment::new(m, x);
             if ab.intersects(&mx).is_nonzero() {
-                if !((ab.dist(m) < TOLERANCE) || (ab.dist(x) < TOLERANCE)) {
+                let (a, b): ((f64, f64), (f64, f64)) = (a.into(), b.into());
+                let max_coord = a.0.abs().max(a.1.abs()).max(b.0.abs()).max(b.1.abs());
+                let tolerance = TOLERANCE * max_coord;
+                if !((ab.dist(m) < tolerance) || (ab.dist(x) < tolerance)) {
                     // if they intersect and neither m nor x lie on ab
                     return false;
                 }
diff --git a/src/mesher/mod.rs b/src/mesher/mod.rs
index 00d1b36..59ec663 100644
--- a/src/mesher/mod.rs
+++ b/src/mesher/mod.rs
@@ -64,16 +64,14 @@ impl Vertex {
         Self(id, p)
     }
 
-    fn perturbed(self) -> Point {
+    fn perturbed(self, max_perturb: f64) -> Point {
         // apply a perturbation unique to this vertex
         // for use in avoiding cocircular edge cases in meshing
 
-        const MAX_PERTURB: f64 = 1e-9;
-
         let mut hasher = DefaultHasher::new();
         self.hash(&mut hasher);
 
-        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * MAX_PERTURB;
+        let perturb = (hasher.finish() as f64 / u64::MAX as f64) * max_perturb;
 
         let (x, y) = self.1.into();
         (x + perturb, y + perturb).into()
diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index 61d551e..cd8b652 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -23,8 +23,12 @@ impl Triangle {
         (self.0.get(), self.1.get(), self.2.get())
     }
 
-    fn perturbed(self) -> (Point, Point, Point) {
-        (self.0.perturbed(), self.1.perturbed(), self.2.perturbed())
+    fn perturbed(self, max_perturb: f64) -> (Point, Point, Point) {
+        (
+            self.0.perturbed(max_perturb),
+            self.1.perturbed(max_perturb),
+            self.2.perturbed(max_perturb),
+        )
     }
 
     fn edges(self) -> [Edge; 3] {
@@ -102,6 +106,9 @@ pub struct PlaneTriangulation {
 
     // record of coappearing vertices in recently added triangles
     recents: HashMap<Vertex, Vertex>,
+
+    // size of the perturbations, in proportion to the coordinates
+    max_perturb: f64,
 }
 
 impl PlaneTriangulation {
@@ -113,6 +120,7 @@ impl PlaneTriangulation {
             tris: HashMap::new(),
             full_tris: HashMap::new(),
             recents: HashMap::new(),
+            max_perturb: 0.0,
         }
     }
 
@@ -130,7 +138,8 @@ impl PlaneTriangulation {
         // determine whether x lies in the oriented triangle tri's circumcircle
         // perturb determines whether or not to perturb the inputs (which helps avoid chew edge cases)
         let (x, tri) = if perturb {
-            (x.perturbed(), tri.into().perturbed())
+            let p = self.max_perturb;
+            (x.perturbed(p), tri.into().perturbed(p))
         } else {
             (x.get(), tri.into().get())
         };
@@ -342,6 +351,12 @@ impl PlaneTriangulation {
         self.tris.clear();
         self.recents.clear();
 
+        let max_coord = self.all_vertices().fold(0.0_f64, |m, v| {
+            let (x, y): (f64, f64) = v.get().into();
+            m.max(x.abs()).max(y.abs())
+        });
+        self.max_perturb = 1e-9 * max_coord;
+
         let mut to_finish: HashSet<Edge> = self.bound.all_walls().map(Into::into).collect();
 
         while !to_finish.is_empty() {
-- 
2.43.0


From ce445da8f0d6b3fb13d6fefa1dc0a78d2c742dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 45/53] fix: element sizes that are not positive were accepted

---
 src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 140e1db..18a12ae 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -158,6 +158,10 @@ fn mesh<'a>(args: &clap::ArgMatches<'a>) -> Result<(), BugiError> {
         .parse::<f64>()
         .or(Err(BugiError::arg_error("could not parse element size")))?;
 
+    if !(size > 0.0 && size.is_finite()) {
+        return Err(BugiError::arg_error("element size must be positive"));
+    }
+
     eprintln!("meshing ...");
     match args.value_of("mesher") {
         None | Some("chew") => msh.chew_mesh(size), // chew_mesh(size)
-- 
2.43.0


From 4bd346772bcec69ea19a8e951719acddee546b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 46/53] fix: eigensolver overflowed the stack on repeated
 eigenvalues

---
 src/matrix/solve/eigen.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index 2a286c7..9815983 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -56,6 +56,11 @@ impl ManyEigenRange {
         (self.lower + self.upper) / 2.0
     }
 
+    fn narrowable(&self) -> bool {
+        // whether there is still a sensible distance between the bounds
+        self.upper - self.lower > 1e-9 * self.upper
+    }
+
     fn split(self, n: usize) -> (EigenRange, EigenRange) {
         // split at the midpoint, with n eigenvalues (total) below the split
         use EigenRange::{Empty, Many, One};
@@ -217,8 +222,11 @@ impl DeterminantSearcher {
             Some(&self.eigenpairs[lower_idx..])
         };
 
+        // eigenvectors of a repeated eigenvalue must not start alike
+        let seed = 1337 + self.eigenpairs.len() as u64;
+
         // accept the middle of the resulting range for inverse iteration
-        let mut pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+        let mut pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso, seed);
 
         // the iteration can settle on an eigenvalue outside the range, so narrow it and try again
         while !(r.lower <= pair.value() && pair.value() <= r.upper) && r.narrowable() {
@@ -229,7 +237,7 @@ impl DeterminantSearcher {
                 r.lower = mid_val;
             }
 
-            pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso);
+            pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso, seed);
         }
 
         self.eigenpairs.push(pair);
@@ -242,6 +250,12 @@ impl DeterminantSearcher {
             EigenRange::One(r) => {
                 self.process_one(r);
             }
+            EigenRange::Many(r) if !r.narrowable() => {
+                // the eigenvalues coincide as far as can be told
+                for _ in r.low_i..r.next_i {
+                    self.process_one(OneEigenRange::new(r.lower, r.upper));
+                }
+            }
             EigenRange::Many(r) => {
                 let under = self.eigenvalues_under(r.mid_val());
                 let (rl, ru) = r.split(under);
@@ -332,6 +346,7 @@ fn inverse_iterate(
     m: &BiEnvelope,
     shift: f64,
     eigs: Option<&[EigenPair]>,
+    seed: u64,
 ) -> EigenPair {
     // perform inverse iteration on the shifted eigenproblem
     // (K - shift * M) * v = l * M * v
@@ -356,7 +371,7 @@ fn inverse_iterate(
     let mut old_rho: Option<f64> = None;
 
     // generate a random starting vector
-    let rng = fastrand::Rng::with_seed(1337);
+    let rng = fastrand::Rng::with_seed(seed);
     let mut x: Vec<_> = std::iter::repeat_with(|| rng.f64()).take(n).collect();
 
     let mut x_bar = vec![0.0; n];
@@ -374,6 +389,10 @@ fn inverse_iterate(
     loop {
         // K x_bar(k+1) = y(k)
         direct::solve_ldl(&k_l, &k_d, &y, &mut x_bar);
+        if let Some(e) = eigs {
+            // next to a known eigenvalue its eigenvector grows back from rounding error
+            gram_schmidt_orthogonalize(x_bar.as_mut_slice(), m, e);
+        }
         // y_bar(k+1) = M x_bar(k+1)
         m.mul_vec(&x_bar, &mut y_bar);
 
-- 
2.43.0


From 95443f2c22373bda304d50d2a2948877117727c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 47/53] fix: eigenvalue counts were wrong where a pivot
 vanished

---
 src/matrix/solve/eigen.rs | 46 ++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index 9815983..adb64f3 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -1,6 +1,6 @@
 use crate::matrix::graph::Permutation;
 use crate::matrix::solve::{direct, System};
-use crate::matrix::{dot, BiEnvelope, LinearMatrix, LowerRowEnvelope, MatrixLike};
+use crate::matrix::{dot, BiEnvelope, Diagonal, LinearMatrix, LowerRowEnvelope, MatrixLike};
 
 // a range known to contain an eigenvalue
 // stores the number of eigenvalues under this one (same as val index)
@@ -196,11 +196,7 @@ impl DeterminantSearcher {
         // find the number of eigenvalues under the supplied value
 
         // find the LDL' decomposition of (K - lM)
-        let mut a = self.sys.k_mat.clone();
-        a.add_scaled_bienv(&self.sys.m_mat, -1.0 * l);
-        let (_, d) = direct::cholesky_envelope_no_root(&a);
-
-        // TODO add handling for too-singular K-lM (solution: just test a different value)
+        let (_, d, _) = decompose_shifted(&self.sys.k_mat, &self.sys.m_mat, l);
         d.num_neg()
     }
 
@@ -258,6 +254,8 @@ impl DeterminantSearcher {
             }
             EigenRange::Many(r) => {
                 let under = self.eigenvalues_under(r.mid_val());
+                // a count next to an eigenvalue is uncertain
+                let under = under.max(r.low_i).min(r.next_i);
                 let (rl, ru) = r.split(under);
                 // recursively following (with lower values evaulated first)
                 self.process_eigenrange(rl);
@@ -341,6 +339,37 @@ impl DeterminantSearcher {
     }
 }
 
+fn decompose_shifted(
+    k: &LowerRowEnvelope,
+    m: &BiEnvelope,
+    mut shift: f64,
+) -> (LowerRowEnvelope, Diagonal, f64) {
+    // find the LDL' decomposition of (K - shift * M)
+    // there is none if a pivot vanishes, in which case a slightly lower shift will do
+    // returns the factors and the shift they belong to
+
+    const PIVOT: f64 = 1e-13;
+
+    let n = k.shape().0;
+    let mut step = 1e-8;
+
+    loop {
+        // for now, clone the supplied K - maybe investigate nonallocating alternatives in the future
+        let mut a = k.clone();
+        a.add_scaled_bienv(m, -1.0 * shift);
+        let (l, d) = direct::cholesky_envelope_no_root(&a);
+
+        let regular = (0..n).all(|i| d[i].abs() > PIVOT * k[(i, i)]);
+
+        if regular || step > 1e-5 {
+            break (l, d, shift);
+        }
+
+        shift -= step * shift.abs();
+        step *= 10.0;
+    }
+}
+
 fn inverse_iterate(
     k: &LowerRowEnvelope,
     m: &BiEnvelope,
@@ -359,14 +388,11 @@ fn inverse_iterate(
     assert_eq!(k.shape(), m.shape());
     let n = k.shape().0;
 
-    // for now, clone the supplied K - maybe investigate nonallocating alternatives in the future
-    let mut k = k.clone();
-    k.add_scaled_bienv(m, -1.0 * shift);
     // for all intents and purposes (K - shift * M) is now the K to be used
     // the following algorithm iterates on the system K * v = l * M * v
 
     // decompose the shifted matrix (this only needs to happen once)
-    let (k_l, k_d) = direct::cholesky_envelope_no_root(&k);
+    let (k_l, k_d, shift) = decompose_shifted(k, m, shift);
 
     let mut old_rho: Option<f64> = None;
 
-- 
2.43.0


From bf58c5a352561b2fb6cb412960f4b14570645737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 48/53] fix: eigensolver never ended where a shift met an
 eigenvalue

---
 src/matrix/solve/eigen.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index adb64f3..c97d522 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -384,6 +384,7 @@ fn inverse_iterate(
     // to the provided eigenvectors using gram-schmidt orthogonalization
 
     const TOLERANCE: f64 = 1e-6;
+    const NOISE: f64 = 1e-11;
 
     assert_eq!(k.shape(), m.shape());
     let n = k.shape().0;
@@ -429,7 +430,10 @@ fn inverse_iterate(
         let mag = dot(&x_bar, &y_bar).sqrt();
 
         if let Some(r) = old_rho {
-            if ((rho - r) / rho).abs() <= TOLERANCE {
+            // rho is all rounding error if the shift is next to an eigenvalue
+            let settled = (rho - r).abs() <= NOISE * (rho + shift).abs();
+
+            if settled || ((rho - r) / rho).abs() <= TOLERANCE {
                 // ready to return, construct the final approximation
                 for i in 0..n {
                     x[i] = x_bar[i] / mag;
-- 
2.43.0


From 78ba8674d589ba76d89c29517cab7967948c0251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 49/53] fix: eigensolver returned vectors that had not
 converged

---
 src/matrix/solve/eigen.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index c97d522..075938c 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -222,10 +222,12 @@ impl DeterminantSearcher {
         let seed = 1337 + self.eigenpairs.len() as u64;
 
         // accept the middle of the resulting range for inverse iteration
-        let mut pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso, seed);
+        let (mut pair, mut converged) =
+            inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso, seed);
 
-        // the iteration can settle on an eigenvalue outside the range, so narrow it and try again
-        while !(r.lower <= pair.value() && pair.value() <= r.upper) && r.narrowable() {
+        // the iteration can settle on an eigenvalue outside the range or waver between two
+        // so narrow it and try again
+        while !(converged && r.lower <= pair.value() && pair.value() <= r.upper) && r.narrowable() {
             let mid_val = r.mid_val();
             if self.eigenvalues_under(mid_val) > self.eigenpairs.len() {
                 r.upper = mid_val;
@@ -233,7 +235,9 @@ impl DeterminantSearcher {
                 r.lower = mid_val;
             }
 
-            pair = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso, seed);
+            let found = inverse_iterate(&self.sys.k_mat, &self.sys.m_mat, r.mid_val(), gso, seed);
+            pair = found.0;
+            converged = found.1;
         }
 
         self.eigenpairs.push(pair);
@@ -376,7 +380,7 @@ fn inverse_iterate(
     shift: f64,
     eigs: Option<&[EigenPair]>,
     seed: u64,
-) -> EigenPair {
+) -> (EigenPair, bool) {
     // perform inverse iteration on the shifted eigenproblem
     // (K - shift * M) * v = l * M * v
 
@@ -385,6 +389,8 @@ fn inverse_iterate(
 
     const TOLERANCE: f64 = 1e-6;
     const NOISE: f64 = 1e-11;
+    const TURN: f64 = 1e-10;
+    const MAX_ITERATIONS: usize = 200;
 
     assert_eq!(k.shape(), m.shape());
     let n = k.shape().0;
@@ -413,7 +419,7 @@ fn inverse_iterate(
     // y(0) = M x(0)
     m.mul_vec(&x, &mut y);
 
-    loop {
+    for iteration in 0.. {
         // K x_bar(k+1) = y(k)
         direct::solve_ldl(&k_l, &k_d, &y, &mut x_bar);
         if let Some(e) = eigs {
@@ -433,14 +439,20 @@ fn inverse_iterate(
             // rho is all rounding error if the shift is next to an eigenvalue
             let settled = (rho - r).abs() <= NOISE * (rho + shift).abs();
 
-            if settled || ((rho - r) / rho).abs() <= TOLERANCE {
+            let settled = settled || ((rho - r) / rho).abs() <= TOLERANCE;
+
+            // rho also stands still where a vector has yet to turn to the nearest eigenvector
+            let turn = 1.0 - (dot(&x_bar, &y) / mag).powi(2);
+            let converged = settled && turn <= TURN;
+
+            if converged || iteration == MAX_ITERATIONS {
                 // ready to return, construct the final approximation
                 for i in 0..n {
                     x[i] = x_bar[i] / mag;
                 }
 
                 // add the shift back on
-                break EigenPair::new(rho + shift, x);
+                return (EigenPair::new(rho + shift, x), converged);
             }
         }
 
@@ -451,6 +463,8 @@ fn inverse_iterate(
             y[i] = y_bar[i] / mag;
         }
     }
+
+    unreachable!("iteration ends by itself")
 }
 
 fn inverse_iterate_times(k: &LowerRowEnvelope, m: &BiEnvelope, times: usize) -> Vec<f64> {
-- 
2.43.0


From 493279262d41cd3fa160b950604c302e1394f316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:26 +0000
Subject: [PATCH 50/53] fix: midpoint of points of different dimension kept a
 hidden component

---
 src/spatial/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spatial/mod.rs b/src/spatial/mod.rs
index 61ea0a0..a375790 100644
--- a/src/spatial/mod.rs
+++ b/src/spatial/mod.rs
@@ -52,12 +52,14 @@ impl Point {
 
     pub fn mid(&self, other: Point) -> Point {
         // find the midpoint between two points
-        let data = [
+        let mut data = [
             (self.data[0] + other.data[0]) / 2.0,
             (self.data[1] + other.data[1]) / 2.0,
             (self.data[2] + other.data[2]) / 2.0,
         ];
         let n = min(self.n, other.n);
+        // components which only one of the points has are no part of the midpoint
+        data[n..].fill(0.0);
         Point { n, data }
     }
 
-- 
2.43.0


From caad1352d8eb65682598b3aabc19b4f64600fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 51/53] fix: eigensolver repeated modes of eigenvalues that
 occur more than six times

---
 src/matrix/solve/eigen.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/matrix/solve/eigen.rs b/src/matrix/solve/eigen.rs
index 075938c..df281d2 100644
--- a/src/matrix/solve/eigen.rs
+++ b/src/matrix/solve/eigen.rs
@@ -208,14 +208,8 @@ impl DeterminantSearcher {
         let gso = if self.eigenpairs.len() == 0 {
             None
         } else {
-            // pick the last six eigens found
-            let lower_idx = if self.eigenpairs.len() < 6 {
-                0
-            } else {
-                self.eigenpairs.len() - 6
-            };
-
-            Some(&self.eigenpairs[lower_idx..])
+            // any number of the eigens found can share the next one's eigenvalue
+            Some(&self.eigenpairs[..])
         };
 
         // eigenvectors of a repeated eigenvalue must not start alike
-- 
2.43.0


From 59e3cd1b5629233873b50f5aef36853ae255e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 52/53] fix: triangulating a boundary again kept the triangles
 of the time before

---
 src/mesher/plane.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/plane.rs b/src/mesher/plane.rs
index cd8b652..4ee3de3 100644
--- a/src/mesher/plane.rs
+++ b/src/mesher/plane.rs
@@ -349,6 +349,7 @@ impl PlaneTriangulation {
     pub fn gift_wrap(&mut self) {
         // gift-wrap the triangulation from scratch
         self.tris.clear();
+        self.full_tris.clear();
         self.recents.clear();
 
         let max_coord = self.all_vertices().fold(0.0_f64, |m, v| {
-- 
2.43.0


From 9b0430c8c8143936600569664a25dc2a5399b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 53/53] fix: the last piece of a divided wall lost the wall's
 constraints

---
 src/mesher/bounds.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/bounds.rs b/src/mesher/bounds.rs
index 6e76332..c6aac2a 100644
--- a/src/mesher/bounds.rs
+++ b/src/mesher/bounds.rs
@@ -458,6 +458,7 @@ impl PlaneBoundary {
         }
 
         for &c in dist_c.iter() {
+            self.distributed_constraints.push(((cur, end).into(), c));
             self.constraints.push((start, c));
             self.constraints.push((end, c));
         }
-- 
2.43.0

