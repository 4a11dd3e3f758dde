From f6ee81c954b252bfd940d28195d5a16864738e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 01/23] fix: descendant_edges returns an error for the first id
 past the end instead of panicking

---
 src/fem_domain/domain/mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From 83cd8e80d9f28515e663bfea48e0016e3e49a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 02/23] fix: get_basis_spec returns an error for the first elem
 id past the end instead of panicking

---
 src/fem_domain/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
-- 
2.43.0


From de77f76cb9ceff8fcad9fc351c9f391f35f3d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 03/23] fix: validate h-refinement batches before modifying the
 mesh

Splitting an edge below MIN_EDGE_LENGTH, or an extended refinement with an
invalid child index, used to stop execute_h_refinements after part of the
batch had been applied (or panic), although it promises that none of the
refinements are executed when an error is returned.
---
 src/fem_domain/domain/mesh.rs | 55 +++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..cdaef18 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -847,6 +847,12 @@ impl Mesh {
     ) -> Result<(), HRefError> {
         let mut refinements_map: BTreeMap<usize, HRef> = BTreeMap::new();
         for (elem_id, h_ref) in refinements {
+            if let HRef::U(Some(child_idx)) | HRef::V(Some(child_idx)) = h_ref {
+                if child_idx > 1 {
+                    return Err(HRefError::BisectionIdxExceeded);
+                }
+            }
+
             match self.elem_is_h_refineable(elem_id) {
                 Ok(true) => {
                     refinements_map
@@ -859,6 +865,11 @@ impl Mesh {
             }
         }
 
+        // ensure that none of the refinements (or their extensions) can fail part of the way through execution
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.check_edges_for_h_refinement(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -913,6 +924,50 @@ impl Mesh {
         Ok(())
     }
 
+    // Ensure that an h-refinement of an Elem will not be stopped by the minimum edge length (without modifying the Mesh)
+    fn check_edges_for_h_refinement(
+        &self,
+        elem_id: usize,
+        refinement: HRef,
+    ) -> Result<(), HRefError> {
+        // indices of the bisected Edges, and (for extended refinements) of the Edge bisected by the subsequent refinement of one child Elem
+        let (edge_indices, extension_edge_idx): (&[usize], Option<usize>) = match refinement {
+            HRef::T => (&[0, 1, 2, 3], None),
+            HRef::U(extension) => (&[0, 1], extension.map(|child_idx| 2 + child_idx)),
+            HRef::V(extension) => (&[2, 3], extension),
+        };
+
+        let edge_ids = &self.elems[elem_id].edges;
+
+        for edge_idx in edge_indices.iter().copied().chain(extension_edge_idx) {
+            let edge = &self.edges[edge_ids[edge_idx]];
+            if !edge.has_children() && edge.length / 2.0 < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(edge.id));
+            }
+        }
+
+        if extension_edge_idx.is_some() {
+            // the child Elem must itself be h-refineable
+            for edge_idx in edge_indices.iter() {
+                let edge = &self.edges[edge_ids[*edge_idx]];
+                if edge.length / 2.0 <= MIN_EDGE_LENGTH {
+                    return Err(HRefError::MinEdgeLength(edge.id));
+                }
+            }
+
+            // the new Edge between the child Elems must also be long enough to bisect
+            let [mid_0, mid_1] = [edge_indices[0], edge_indices[1]].map(|edge_idx| {
+                let [p0, p1] = self.edge_points(edge_ids[edge_idx]).unwrap();
+                Point::between(p0, p1)
+            });
+            if mid_0.dist(&mid_1) / 2.0 < MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(edge_ids[extension_edge_idx.unwrap()]));
+            }
+        }
+
+        Ok(())
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
-- 
2.43.0


From d67c2c5033ab8e9415d06933d84ddc9021e73295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:56 +0000
Subject: [PATCH 04/23] fix: adding an extended HRef to a basic one keeps the
 extension

U(None) + U(Some(i)) lost the extension while U(Some(i)) + U(None) kept it, so
the outcome of a batch depended on the order of its requests.
---
 src/fem_domain/domain/mesh/h_refinement.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..aa6569f 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -163,12 +163,14 @@ impl AddAssign for HRef {
             HRef::U(None) => match rhs {
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                // an extended refinement includes the basic one
+                HRef::U(_) => *self = rhs,
             },
             HRef::V(None) => match rhs {
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                // an extended refinement includes the basic one
+                HRef::V(_) => *self = rhs,
             },
             HRef::U(Some(idx)) => match rhs {
                 HRef::U(Some(r_idx)) => {
-- 
2.43.0


From 882641c545569187557c9771b3e74a1e2f1f8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 05/23] fix: p-refinement arithmetic no longer overflows

PRef::from(-128, _) and sums of several PRefs overflowed u8/i8 (a panic in
debug builds). In release builds 127 + 127 wrapped to -2, passed the window
check, and left the element with a wrapped expansion order.
---
 src/fem_domain/domain/mesh/p_refinement.rs | 41 ++++++++++++----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..ce2a8d0 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -96,8 +96,8 @@ impl From<PolyOrders> for JsonValue {
 // the internal p-refinement type
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    Increment(u32),
+    Decrement(u32),
     None,
 }
 
@@ -105,17 +105,17 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                if delta.saturating_add(n as u32) > MAX_POLYNOMIAL_ORDER as u32 {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(n + *delta as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= n as u32 {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,33 +125,38 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d as u32),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u32),
             _ => unreachable!(),
         }
     }
 
-    pub fn as_i8(&self) -> i8 {
+    fn value(&self) -> i64 {
         match self {
             Self::None => 0,
-            Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Increment(delta) => *delta as i64,
+            Self::Decrement(delta) => -(*delta as i64),
         }
     }
 
+    // sums of several refinements can exceed the range of an i8
+    pub fn as_i8(&self) -> i8 {
+        self.value().clamp(i8::MIN as i64, i8::MAX as i64) as i8
+    }
+
     pub fn constrain(&mut self, bounds: [i8; 2]) {
-        let si = self.as_i8();
+        let si = self.value();
 
-        if si < bounds[0] {
+        if si < bounds[0] as i64 {
             *self = Self::from_i8(bounds[0]);
-        } else if si > bounds[1] {
+        } else if si > bounds[1] as i64 {
             *self = Self::from_i8(bounds[1]);
         }
     }
 
     pub fn within(&self, bounds: [i8; 2]) -> bool {
-        let si = self.as_i8();
-        si >= bounds[0] && si <= bounds[1]
+        let si = self.value();
+        si >= bounds[0] as i64 && si <= bounds[1] as i64
     }
 }
 
@@ -159,7 +164,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +173,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From 452d077ae0ca2cc991ce43cf5ae7157ea0f49166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 06/23] fix: PolyOrders::refine leaves the orders untouched
 when it fails

An out-of-range v-increment was reported as an error after the u-order had
already been changed.
---
 src/fem_domain/domain/mesh/p_refinement.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ce2a8d0..fdc4c06 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -18,8 +18,11 @@ impl PolyOrders {
     ///
     /// Return an `Err` if the refinement causes the expansion orders to fall outside of the valid range
     pub fn refine(&mut self, refinement: PRef) -> Result<(), PRefError> {
-        self.ni = refinement.refine_i(self.ni)?;
-        self.nj = refinement.refine_j(self.nj)?;
+        let ni = refinement.refine_i(self.ni)?;
+        let nj = refinement.refine_j(self.nj)?;
+
+        self.ni = ni;
+        self.nj = nj;
 
         Ok(())
     }
-- 
2.43.0


From 3602490f90f0f6a3d824dbd0733030b63ecf0da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 07/23] fix: field evaluation and VTK cells with different
 densities in x and y

The value grids are indexed [x][y] but were allocated [y][x] (a panic whenever
the densities differ), and the VTK cells used nx as the stride between columns
of ny points.
---
 src/fem_domain/domain/fields.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From 3642def9d87a4525570d4603db2a7d10aa943c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 08/23] fix: connect the element of the unit mesh to its edges
 and nodes

Mesh::unit() left their element lists empty, unlike a mesh imported from a file.
---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index cdaef18..2845ba0 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From ebca222b398029583bbe2a271ba79cd1dc53c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:41 +0000
Subject: [PATCH 09/23] fix: points at 0.0 and -0.0 are the same point

A mesh file could list two nodes at one location by writing -0.0.
---
 src/fem_domain/domain/mesh/space.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..98ea8f9 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -353,7 +353,8 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            // -0.0 (and anything that rounds to it) represents the same location as 0.0
+            sign: value.is_sign_positive() || total_rounded == 0.0,
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From 40437bc101da3a993bac0d0f39a79c1ef53dcde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 10/23] fix: remove the temporary files when the solver's
 results can't be read (or its inputs written)

An early return left the matrix files behind in the solver directory.
---
 src/fem_problem/linalg/slepc_solve.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..0bcfc7c 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -20,7 +20,11 @@ pub fn slepc_solve_gep(
         let prefix = unique_prefix();
 
         // Write the matrices to files
-        gep.print_to_petsc_binary_files(&dir, &prefix)?;
+        if let Err(err) = gep.print_to_petsc_binary_files(&dir, &prefix) {
+            // don't leave partially written files behind
+            let _ = clean_directory(&dir, &prefix);
+            return Err(Box::new(err));
+        }
 
         // Run the solver
         let esolve_exit_status = Command::new("mpiexec")
@@ -38,9 +42,9 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix);
                     clean_directory(&dir, &prefix)?;
-                    Ok(solution)
+                    Ok(solution?)
                 } else {
                     clean_directory(&dir, &prefix)?;
 
-- 
2.43.0


From 970b106ecaf62d3bf42b4de100fdccb03496ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:20 +0000
Subject: [PATCH 11/23] fix: return an error when the solver's eigenvector file
 is corrupt instead of panicking

A bad header failed an assertion and a corrupt length was used to allocate
memory. Unrelated files with non-UTF-8 names also made the cleanup panic.
---
 src/fem_problem/linalg/slepc_solve.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 0bcfc7c..c64f501 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -120,8 +120,16 @@ fn retrieve_eigenvector(path: String) -> std::io::Result<Vec<f64>> {
     header_bytes.resize(8, 0);
     vec_file.read_exact(&mut header_bytes)?;
 
-    assert_eq!(header_bytes.get_i32(), 1211214_i32); // ensure this is a PETSC vector file
-    let m = header_bytes.get_i32() as usize;
+    // ensure this is a PETSC vector file, and that it's long enough to hold all of its entries
+    let class_id = header_bytes.get_i32();
+    let m = header_bytes.get_i32();
+    if class_id != 1211214_i32 || m < 0 || vec_file.metadata()?.len() < 8 + 8 * m as u64 {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Eigenvector file is not a valid PETSC vector",
+        ));
+    }
+    let m = m as usize;
 
     let mut value_bytes = BytesMut::new();
     value_bytes.resize(m * 8, 0);
@@ -160,7 +168,7 @@ fn clean_directory(dir: impl AsRef<str>, prefix: impl AsRef<str>) -> std::io::Re
     for file in std::fs::read_dir(&format!("{}/tmp/", dir.as_ref()))? {
         let file = file?;
         let file_name_os = file.file_name();
-        let file_name = String::from(file_name_os.to_str().unwrap());
+        let file_name = file_name_os.to_string_lossy();
 
         if file_name.contains(prefix.as_ref()) {
             std::fs::remove_file(file.path())?;
-- 
2.43.0


From 1ea8444147ffe6fa405608edd0a0a83bdd5a5c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 12/23] fix: report errors from the final write of a mesh JSON
 export

---
 src/fem_domain/domain/mesh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 2845ba0..6423d2e 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -29,7 +29,7 @@ use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::fmt;
 use std::fs::{read_to_string, File};
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::sync::Arc;
 
 /// Minimum Edge length in parametric space. h-Refinements will fail after edges are smaller than this value.
@@ -354,7 +354,8 @@ impl Mesh {
 
         mesh_object.write_pretty(&mut w, 4)?;
 
-        Ok(())
+        // errors encountered while dropping a BufWriter are ignored
+        w.flush()
     }
 
     // ----------------------------------------------------------------------------------------------------
-- 
2.43.0


From e25a8194921516fb7a3375d9fefefea4fac05c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 13/23] fix: report errors from the final write of a VTK export

---
 src/fem_domain/domain/fields.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index 7bf7f13..f023a45 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -230,6 +230,9 @@ impl<'d> UniformFieldSpace<'d> {
         }
         writeln!(writer)?;
 
+        // errors encountered while dropping a BufWriter are ignored
+        writer.flush()?;
+
         Ok(())
     }
 
-- 
2.43.0


From 067992ae7f0b1042740d9ed545dcdc55a85eae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:33 +0000
Subject: [PATCH 14/23] fix: report errors from the final write of a PETSc
 matrix file

---
 src/fem_problem/linalg/sparse_matrix.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 7010745..32726b3 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -260,7 +260,8 @@ impl AIJMatrixBinary {
         }
         writer.write_all(a_buf.as_ref())?;
 
-        Ok(())
+        // errors encountered while dropping a BufWriter are ignored
+        writer.flush()
     }
 }
 
-- 
2.43.0


From 960e20ffda6bd60bc0348b860f4a0cbae068bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 15/23] fix: SparseMatrix::write_to_petsc_binary_format wrote
 an incomplete text file

---
 src/fem_problem/linalg/sparse_matrix.rs | 36 +------------------------
 1 file changed, 1 insertion(+), 35 deletions(-)

diff --git a/src/fem_problem/linalg/sparse_matrix.rs b/src/fem_problem/linalg/sparse_matrix.rs
index 32726b3..35dbd9b 100644
--- a/src/fem_problem/linalg/sparse_matrix.rs
+++ b/src/fem_problem/linalg/sparse_matrix.rs
@@ -127,41 +127,7 @@ impl SparseMatrix {
     }
 
     pub fn write_to_petsc_binary_format(&self, path: impl AsRef<str>) -> std::io::Result<()> {
-        let file = File::create(path.as_ref())?;
-        let mut writer = BufWriter::new(file);
-
-        let mut full_sparse: BTreeMap<[u32; 2], f64> = self
-            .entries
-            .iter()
-            .map(|([r, c], v)| ([*c, *r], *v))
-            .collect();
-        full_sparse.append(&mut self.entries.clone());
-
-        let nnz = full_sparse.len();
-        let mut i = Vec::with_capacity(nnz);
-        let mut j = Vec::with_capacity(nnz);
-        let mut v = Vec::with_capacity(nnz);
-
-        for ([r, c], value) in full_sparse {
-            i.push(r);
-            j.push(c);
-            v.push(value);
-        }
-        let nnz = v.len();
-
-        // Write the header
-        writer.write_all(
-            format!("1211216 {} {} {}\n", self.dimension, self.dimension, nnz).as_bytes(),
-        )?;
-        let mut row_nnz = vec![0; self.dimension];
-        for (coordinates, _) in self.iter_upper_tri() {
-            row_nnz[coordinates[0]] += 1;
-        }
-        for rnz in row_nnz.iter() {
-            writer.write_all(format!("{} ", rnz).as_bytes())?;
-        }
-
-        Ok(())
+        AIJMatrixBinary::from(self.clone()).print_to_petsc_binary_file(path)
     }
 }
 
-- 
2.43.0


From 4a5d406f55347f20a84cf23609bd7289aa027542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 16/23] fix: max_uv_ratio ignored the v/u ratio

---
 src/fem_domain/basis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..eca7277 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -334,7 +334,7 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
         let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r1 = self.jac[m][n].v[1] / self.jac[m][n].u[0];
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0


From 6a11339e7be986a29bea867306485b610c0437a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:34 +0000
Subject: [PATCH 17/23] fix: gauss_quadrature_points returned wrong weights for
 136 points

---
 src/fem_problem/integration/glq.rs | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/fem_problem/integration/glq.rs b/src/fem_problem/integration/glq.rs
index 3e2a076..7836a1e 100644
--- a/src/fem_problem/integration/glq.rs
+++ b/src/fem_problem/integration/glq.rs
@@ -1,4 +1,4 @@
-use nalgebra::{DMatrix, SymmetricEigen};
+use nalgebra::DMatrix;
 
 /// 2D Gauss Legendre Quadrature integral of some function F defined over an m by n rectangular region.
 /// ```
@@ -191,19 +191,10 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
         }
     });
 
-    let eigen_decomp = SymmetricEigen::new(polymat);
-
-    let mut xw: Vec<(f64, f64)> = eigen_decomp
-        .eigenvalues
+    let mut xw: Vec<(f64, f64)> = polymat
+        .symmetric_eigenvalues()
         .iter()
-        .cloned()
-        .zip(
-            eigen_decomp
-                .eigenvectors
-                .row(0)
-                .iter()
-                .map(|weight| (*weight).powi(2) * 2.0),
-        )
+        .map(|&x| (x, gauss_weight(n, x)))
         .collect();
 
     xw.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
@@ -221,6 +212,22 @@ pub fn gauss_quadrature_points(n: usize, include_endpoints: bool) -> (Vec<f64>,
     (points, weights)
 }
 
+// Weight associated with the point `x` of the `n` point rule: `2 / Σ (2k + 1) P_k(x)^2` for `k` in `[0, n)`
+//
+// (the squared first components of the eigenvectors are not reliable for all `n`)
+fn gauss_weight(n: usize, x: f64) -> f64 {
+    let [mut p_prev, mut p] = [0.0, 1.0];
+    let mut sum = 0.0;
+    for k in 0..n {
+        let k = k as f64;
+        sum += (2.0 * k + 1.0) * p * p;
+        let p_next = ((2.0 * k + 1.0) * x * p - k * p_prev) / (k + 1.0);
+        p_prev = p;
+        p = p_next;
+    }
+    2.0 / sum
+}
+
 /// Scale a set of Gauss-Legendre-Quadrature Integration points to fall within a specific range
 ///
 /// ```
-- 
2.43.0


From 4ed407b9676215609dea887a7748caed3a6937f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 18/23] fix: nalgebra_solve_gep could return an inaccurate or
 mispaired eigenvector

---
 src/fem_problem/linalg/nalgebra_solve.rs | 37 +++++++++++++++++++-----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/fem_problem/linalg/nalgebra_solve.rs b/src/fem_problem/linalg/nalgebra_solve.rs
index 18ddbc5..737166a 100644
--- a/src/fem_problem/linalg/nalgebra_solve.rs
+++ b/src/fem_problem/linalg/nalgebra_solve.rs
@@ -1,5 +1,5 @@
 use super::{EigenPair, GEP};
-use nalgebra::SymmetricEigen;
+use nalgebra::{DMatrix, DVector};
 use std::fmt;
 
 // TODO: use Nalgebra's Sparse crate
@@ -19,15 +19,15 @@ pub fn nalgebra_solve_gep(gep: GEP, target_eigenvalue: f64) -> Result<EigenPair,
     if let Some(cholesky_decomp) = b_mat.cholesky() {
         let b_inverse = cholesky_decomp.inverse();
         let ba_product = b_inverse * a_mat;
-        let ba_se_decomp = SymmetricEigen::new(ba_product);
+        let eigenvalues = ba_product.symmetric_eigenvalues();
 
-        if ba_se_decomp.eigenvalues.iter().all(|e| e.abs() < 1e-12) {
+        if eigenvalues.iter().all(|e| e.abs() < 1e-12) {
             return Err(NalgebraGEPError::SpuriouslyConverged);
         }
 
         let mut delta_min = f64::MAX;
         let mut delta_min_idx = 0;
-        for (eval_idx, eval) in ba_se_decomp.eigenvalues.iter().enumerate() {
+        for (eval_idx, eval) in eigenvalues.iter().enumerate() {
             let delta = (eval - target_eigenvalue).abs();
             if delta < delta_min {
                 delta_min_idx = eval_idx;
@@ -35,11 +35,10 @@ pub fn nalgebra_solve_gep(gep: GEP, target_eigenvalue: f64) -> Result<EigenPair,
             }
         }
 
+        let value = eigenvalues[delta_min_idx];
         Ok(EigenPair {
-            value: *ba_se_decomp.eigenvalues.get(delta_min_idx).unwrap(),
-            vector: ba_se_decomp
-                .eigenvectors
-                .column(delta_min_idx)
+            value,
+            vector: symmetric_eigenvector(ba_product, value)
                 .iter()
                 .cloned()
                 .collect(),
@@ -49,6 +48,28 @@ pub fn nalgebra_solve_gep(gep: GEP, target_eigenvalue: f64) -> Result<EigenPair,
     }
 }
 
+// Eigenvector of a symmetric matrix (given by its lower triangle) by inverse iteration on a known eigenvalue
+//
+// The eigenvectors from Nalgebra's `SymmetricEigen` are not used, because they can be paired with the wrong
+// eigenvalues or lose all accuracy when the matrix is close to block-diagonal
+fn symmetric_eigenvector(mut mat: DMatrix<f64>, eigenvalue: f64) -> DVector<f64> {
+    mat.fill_upper_triangle_with_lower_triangle();
+    let shift = eigenvalue + mat.amax() * 1e-14;
+    for i in 0..mat.nrows() {
+        mat[(i, i)] -= shift;
+    }
+
+    let dim = mat.nrows();
+    let lu_decomp = mat.lu();
+    let mut vector = DVector::from_fn(dim, |r, _| 1.0 + (r as f64 * 0.618034).fract()).normalize();
+    for _ in 0..3 {
+        if let Some(next_vector) = lu_decomp.solve(&vector) {
+            vector = next_vector.normalize();
+        }
+    }
+    vector
+}
+
 #[derive(Debug, Clone)]
 /// Error type for the SlepcGEP solver
 pub enum NalgebraGEPError {
-- 
2.43.0


From f2525815d63bbbede46a87af1f1c0c09779def0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 19/23] fix: the product of two M2D matrices multiplies rows by
 columns, not rows by rows

---
 src/fem_domain/domain/mesh/space.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index 98ea8f9..14d4c2b 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -167,9 +167,11 @@ impl Div<f64> for M2D {
 impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
+        let other_t = other.transpose();
+
         Self {
-            u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
-            v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
+            u: V2D::from([self.u.dot_with(&other_t.u), self.u.dot_with(&other_t.v)]),
+            v: V2D::from([self.v.dot_with(&other_t.u), self.v.dot_with(&other_t.v)]),
         }
     }
 }
-- 
2.43.0


From 1d035ae013227fa1dd296efec84baa040bfe0047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 20/23] fix: the max_ortho_basis feature did not compile

The prelude named a module and a type that do not exist, the module was private, and
the language feature it asked for is stable.
---
 src/fem_domain/basis/hierarchical_basis_fns.rs | 2 +-
 src/lib.rs                                     | 8 ++------
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index 7a541e6..eeadbed 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -199,7 +199,7 @@ pub mod poly {
 }
 
 #[cfg(feature = "max_ortho_basis")]
-mod max_ortho {
+pub mod max_ortho {
     use super::super::HierCurlBasisFnSpace;
 
     //https://ieeexplore.ieee.org/stamp/stamp.jsp?tp=&arnumber=6470651
diff --git a/src/lib.rs b/src/lib.rs
index ef4a74e..f5a3cd7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,7 +1,3 @@
-#![cfg_attr(
-    feature = "max_ortho_basis",
-    feature(const_fn_floating_point_arithmetic)
-)]
 #![doc = include_str!("../README.md")]
 
 /// Structures defining the FEM Domain, Mesh, and Basis Space
@@ -12,9 +8,9 @@ pub mod fem_problem;
 
 /// Convenient Re-Exports
 pub mod prelude {
-    pub use crate::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
     #[cfg(feature = "max_ortho_basis")]
-    pub use crate::fem_domain::basis::shape_fns::max_ortho::MaxOrthoShapeFn;
+    pub use crate::fem_domain::basis::hierarchical_basis_fns::max_ortho::HierMaxOrtho;
+    pub use crate::fem_domain::basis::hierarchical_basis_fns::poly::HierPoly;
     pub use crate::fem_domain::domain::{
         dof::{
             basis_spec::{BSAddress, BasisSpec},
-- 
2.43.0


From 6dea0ee3ec86bb5013d7ba7a47d7d15806e8def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 21/23] fix: the tangential HierMaxOrtho functions of order 10
 did not vanish at the end points

The coefficient of the last Legendre polynomial has to be the sum of the others (as in
the rest of the table).
---
 src/fem_domain/basis/hierarchical_basis_fns.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index eeadbed..ae21de9 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -217,12 +217,12 @@ pub mod max_ortho {
         &[0, -3, 0, -7, 0, -11, 0, 21],
         &[-1, 0, -5, 0, -9, 0, -13, 0, 28],
         &[0, -3, 0, -7, 0, -11, 0, -15, 0, 36],
-        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 40],
+        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 45],
         &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, 55],
         &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, -21, 0, 66],
-        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 72],
+        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 78],
     ];
-    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 40, 55, 66, 72];
+    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66, 78];
 
     const fn get_q_weight_vector<const DIM: usize>() -> [f64; DIM] {
         let mut coeffs = [0.0; DIM];
-- 
2.43.0


From 1ee7ca9aa46de8cfbe3aaf5a3d8358907dc0d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 22/23] fix: second derivatives of HierMaxOrtho functions were
 zero at the end points

They were computed as the quotient of two expressions that vanish there.
---
 .../basis/hierarchical_basis_fns.rs           | 49 ++-----------------
 1 file changed, 4 insertions(+), 45 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index ae21de9..3c5b8d2 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -470,46 +470,6 @@ pub mod max_ortho {
             let mut primes = Vec::with_capacity(n);
             let mut double_primes = Vec::with_capacity(n);
 
-            // construct (1 - x^2) without singularities at the endpoints
-            let d2_denom: Vec<f64> = match (
-                (points[0].abs() - 1.0).abs() < 1e-15,
-                (points[num_p - 1].abs() - 1.0).abs() < 1e-15,
-            ) {
-                (true, true) => {
-                    let mut den = vec![1.0];
-                    den.extend(
-                        points
-                            .iter()
-                            .skip(1)
-                            .take(num_p - 2)
-                            .map(|x| 1.0 - x.powi(2)),
-                    );
-                    den.push(1.0);
-                    den
-                }
-                (true, false) => {
-                    let mut den = vec![1.0];
-                    den.extend(
-                        points
-                            .iter()
-                            .skip(1)
-                            .take(num_p - 1)
-                            .map(|x| 1.0 - x.powi(2)),
-                    );
-                    den
-                }
-                (false, true) => {
-                    let mut den: Vec<_> = points
-                        .iter()
-                        .take(num_p - 1)
-                        .map(|x| 1.0 - x.powi(2))
-                        .collect();
-                    den.push(1.0);
-                    den
-                }
-                (false, false) => points.iter().map(|x| (1.0 - x.powi(2))).collect(),
-            };
-
             for i in 0..=n {
                 let i_f = i as f64;
                 match i {
@@ -567,14 +527,13 @@ pub mod max_ortho {
                                 .collect(),
                         );
 
+                        // derivative of the above (also valid at the end points)
                         double_primes.push(
-                            primes[i]
+                            points
                                 .iter()
-                                .zip(values[i].iter())
                                 .enumerate()
-                                .map(|(p, (prime, value))| {
-                                    (2.0 * points[p] * prime - (i_f * (i_f + 1.0)) * value)
-                                        / d2_denom[p]
+                                .map(|(p, x)| {
+                                    (i_f + 1.0) * primes[i - 1][p] + x * double_primes[i - 1][p]
                                 })
                                 .collect(),
                         )
-- 
2.43.0


From 50ba952e80cb13eff020e55972e79afb9ae22a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 23/23] fix: HierMaxOrtho panicked for expansion orders above
 12

Meshes have orders up to MAX_POLYNOMIAL_ORDER. The coefficients follow from the order, so
they are computed instead of listed.
---
 .../basis/hierarchical_basis_fns.rs           | 76 +++++--------------
 1 file changed, 18 insertions(+), 58 deletions(-)

diff --git a/src/fem_domain/basis/hierarchical_basis_fns.rs b/src/fem_domain/basis/hierarchical_basis_fns.rs
index 3c5b8d2..8ebc8ee 100644
--- a/src/fem_domain/basis/hierarchical_basis_fns.rs
+++ b/src/fem_domain/basis/hierarchical_basis_fns.rs
@@ -208,48 +208,21 @@ pub mod max_ortho {
         1.0,
     ];
 
-    const Q_NUMERATORS: [&[i32]; 12] = [
-        &[-1, 0, 1],
-        &[0, -3, 0, 3],
-        &[-1, 0, -5, 0, 6],
-        &[0, -3, 0, -7, 0, 10],
-        &[-1, 0, -5, 0, -9, 0, 15],
-        &[0, -3, 0, -7, 0, -11, 0, 21],
-        &[-1, 0, -5, 0, -9, 0, -13, 0, 28],
-        &[0, -3, 0, -7, 0, -11, 0, -15, 0, 36],
-        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, 45],
-        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, 55],
-        &[-1, 0, -5, 0, -9, 0, -13, 0, -17, 0, -21, 0, 66],
-        &[0, -3, 0, -7, 0, -11, 0, -15, 0, -19, 0, -23, 0, 78],
-    ];
-    const Q_DENOMINATORS: [i32; 12] = [1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 66, 78];
-
-    const fn get_q_weight_vector<const DIM: usize>() -> [f64; DIM] {
-        let mut coeffs = [0.0; DIM];
-        let mut i = 0;
-        let index = DIM - 3;
-
-        while i < DIM {
-            coeffs[i] = (Q_NUMERATORS[index][i] as f64) / (Q_DENOMINATORS[index] as f64);
-            i += 1;
-        }
-
-        coeffs
+    // Coefficients of the Legendre Polynomials (of the same parity) in the nth tangential function, which vanishes at both end points
+    fn q_weights(n: usize) -> Vec<f64> {
+        let sum = (n * (n - 1) / 2) as f64;
+        (0..=n)
+            .map(|i| match n - i {
+                0 => 1.0,
+                even if even % 2 == 0 => -((2 * i + 1) as f64) / sum,
+                _ => 0.0,
+            })
+            .collect()
     }
 
-    const Q_WEIGHTS: [&[f64]; 11] = [
-        &get_q_weight_vector::<3>(),
-        &get_q_weight_vector::<4>(),
-        &get_q_weight_vector::<5>(),
-        &get_q_weight_vector::<6>(),
-        &get_q_weight_vector::<7>(),
-        &get_q_weight_vector::<8>(),
-        &get_q_weight_vector::<9>(),
-        &get_q_weight_vector::<10>(),
-        &get_q_weight_vector::<11>(),
-        &get_q_weight_vector::<12>(),
-        &get_q_weight_vector::<13>(),
-    ];
+    fn euc_norm_coeff(n: usize) -> f64 {
+        EUC_NORM_COEFFS.get(n - 2).copied().unwrap_or(1.0)
+    }
 
     /// An advanced Curl-Conforming Hierarchical Basis Function Space
     ///
@@ -332,14 +305,8 @@ pub mod max_ortho {
                         primes.push((0..points.len()).map(|_| 1.0).collect());
                     }
                     _ => {
-                        values.push(
-                            leg_poly.weighted_value_sum(&Q_WEIGHTS[i - 2], EUC_NORM_COEFFS[i - 2]),
-                            // leg_poly.weighted_value_sum(Q_SEGMENT_WEIGHTS[i - 2], 1.0),
-                        );
-                        primes.push(
-                            leg_poly.weighted_prime_sum(&Q_WEIGHTS[i - 2], EUC_NORM_COEFFS[i - 2]),
-                            // leg_poly.weighted_prime_sum(Q_SEGMENT_WEIGHTS[i - 2], 1.0),
-                        );
+                        values.push(leg_poly.weighted_value_sum(&q_weights(i), euc_norm_coeff(i)));
+                        primes.push(leg_poly.weighted_prime_sum(&q_weights(i), euc_norm_coeff(i)));
                     }
                 }
             }
@@ -372,17 +339,10 @@ pub mod max_ortho {
                         double_primes.push(vec![0.0; np]);
                     }
                     _ => {
-                        values.push(
-                            leg_poly.weighted_value_sum(&Q_WEIGHTS[i - 2], EUC_NORM_COEFFS[i - 2]),
-                        );
-                        primes.push(
-                            leg_poly.weighted_prime_sum(&Q_WEIGHTS[i - 2], EUC_NORM_COEFFS[i - 2]),
-                        );
+                        values.push(leg_poly.weighted_value_sum(&q_weights(i), euc_norm_coeff(i)));
+                        primes.push(leg_poly.weighted_prime_sum(&q_weights(i), euc_norm_coeff(i)));
                         double_primes.push(
-                            leg_poly.weighted_double_prime_sum(
-                                &Q_WEIGHTS[i - 2],
-                                EUC_NORM_COEFFS[i - 2],
-                            ),
+                            leg_poly.weighted_double_prime_sum(&q_weights(i), euc_norm_coeff(i)),
                         )
                     }
                 }
-- 
2.43.0

