From ddf4091e77f61679635252c17c8e09e8a7263669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 01/23] fix: axial series evaluation read past the coefficient
 table at the last sample

---
 traceon/backend/radial.c  | 8 ++++----
 traceon/backend/three_d.c | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/traceon/backend/radial.c b/traceon/backend/radial.c
index 2d09cbb..e79eceb 100644
--- a/traceon/backend/radial.c
+++ b/traceon/backend/radial.c
@@ -324,9 +324,9 @@ potential_radial_derivs(double point[3], double *z_inter, double *coeff_p, size_
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
 	
-	// Guard against roundoff issues 0 <= index < N_z
+	// There are N_z-1 intervals, also z == zlast belongs to the last one: 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 			
 	double diffz = z - z_inter[index];
 		
@@ -356,9 +356,9 @@ field_radial_derivs(double point[3], double field[3], double *z_inter, double *c
 	
 	double dz = z_inter[1] - z_inter[0];
 	int index = (int) ( (z-z0)/dz );
-	// Guard against roundoff issues 0 <= index < N_z
+	// There are N_z-1 intervals, also z == zlast belongs to the last one: 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	double diffz = z - z_inter[index];
 		
diff --git a/traceon/backend/three_d.c b/traceon/backend/three_d.c
index efba5a4..63419dc 100644
--- a/traceon/backend/three_d.c
+++ b/traceon/backend/three_d.c
@@ -208,9 +208,9 @@ potential_3d_derivs(double point[3], double *zs, double *coeffs_p, size_t N_z) {
 	
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// There are N_z-1 intervals, also z == zlast belongs to the last one: 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	
 	double z_ = zp - zs[index];
@@ -249,9 +249,9 @@ field_3d_derivs(double point[3], double field[3], double *restrict zs, double *r
 		
 	double dz = zs[1] - zs[0];
 	int index = (int) ((zp-zs[0])/dz);
-	// Guard against roundoff issues 0 <= index < N_z
+	// There are N_z-1 intervals, also z == zlast belongs to the last one: 0 <= index < N_z-1
 	index = MAX(0, index);
-	index = MIN(index, N_z-1);
+	index = MIN(index, N_z-2);
 		
 	double z_ = zp - zs[index];
 
-- 
2.43.0


From 851218e27c2218666132cf68de6d5a8e5b916dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 02/23] fix: ellipk divided by sqrt(k) instead of sqrt(1-k) for
 k <= -1

---
 traceon/backend/elliptic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index 5bb20d7..e754fe5 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -37,7 +37,7 @@ EXPORT double ellipkm1(double p) {
 EXPORT double ellipk(double k) {
 	if(k > -1) return ellipkm1(1-k);
 	
-	return ellipkm1(1./(1-k))/sqrt(k);
+	return ellipkm1(1./(1-k))/sqrt(1-k);
 }
 
 EXPORT double ellipem1(double p) {
-- 
2.43.0


From bfba75e12f882edc2970c5acb277a0ade4f18f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 03/23] fix: subtraction, scaling and negation of fields, and
 addition of 3D fields, raised errors

---
 traceon/interpolation.py | 12 +++++++--
 traceon/solver.py        | 56 +++++++++++++++++++++-------------------
 2 files changed, 40 insertions(+), 28 deletions(-)

diff --git a/traceon/interpolation.py b/traceon/interpolation.py
index 05a264b..521cfb8 100644
--- a/traceon/interpolation.py
+++ b/traceon/interpolation.py
@@ -1,3 +1,4 @@
+import copy
 import time
 from abc import ABC, abstractmethod
 
@@ -43,12 +44,19 @@ class FieldAxial(S.Field, ABC):
         name = self.__class__.__name__
         return f'<Traceon {name}, zmin={self.z[0]} mm, zmax={self.z[-1]} mm,\n\tNumber of samples on optical axis: {len(self.z)}>'
      
+    def _with_coeffs(self, electrostatic_coeffs, magnetostatic_coeffs):
+        # The initializer of the derived classes computes the coefficients, so
+        # it cannot be used to produce a field from given coefficients.
+        field = copy.copy(self)
+        FieldAxial.__init__(field, self.z, electrostatic_coeffs, magnetostatic_coeffs)
+        return field
+     
     def __add__(self, other):
         if isinstance(other, FieldAxial):
             assert np.array_equal(self.z, other.z), "Cannot add FieldAxial if optical axis sampling is different."
             assert self.electrostatic_coeffs.shape == other.electrostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
             assert self.magnetostatic_coeffs.shape == other.magnetostatic_coeffs.shape, "Cannot add FieldAxial if shape of axial coefficients is unequal."
-            return self.__class__(self.z, self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
+            return self._with_coeffs(self.electrostatic_coeffs+other.electrostatic_coeffs, self.magnetostatic_coeffs + other.magnetostatic_coeffs)
          
         return NotImplemented
     
@@ -60,7 +68,7 @@ class FieldAxial(S.Field, ABC):
      
     def __mul__(self, other):
         if isinstance(other, int) or isinstance(other, float):
-            return self.__class__(self.z, other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
+            return self._with_coeffs(other*self.electrostatic_coeffs, other*self.magnetostatic_coeffs)
          
         return NotImplemented
     
diff --git a/traceon/solver.py b/traceon/solver.py
index 05c8c3e..9ae8a90 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -573,41 +573,41 @@ class FieldBEM(Field, ABC):
     def is_magnetostatic(self):
         return len(self.magnetostatic_point_charges) > 0 or len(self.current_point_charges) > 0 
      
+    def _with_point_charges(self, electrostatic, magnetostatic, current):
+        return self.__class__(electrostatic, magnetostatic, current)
+     
     def __add__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__add__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__add__(other.magnetostatic_point_charges),
-            self.current_point_charges.__add__(other.current_point_charges))
+        if not isinstance(other, FieldBEM):
+            return NotImplemented
+        
+        return self._with_point_charges(
+            self.electrostatic_point_charges + other.electrostatic_point_charges,
+            self.magnetostatic_point_charges + other.magnetostatic_point_charges,
+            self.current_point_charges + other.current_point_charges)
      
     def __sub__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__sub__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__sub__(other.magnetostatic_point_charges),
-            self.current_point_charges.__sub__(other.current_point_charges))
+        if not isinstance(other, FieldBEM):
+            return NotImplemented
+        
+        return self + (-other)
     
     def __radd__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__radd__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__radd__(other.magnetostatic_point_charges),
-            self.current_point_charges.__radd__(other.current_point_charges))
+        return self.__add__(other)
     
     def __mul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__mul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__mul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__mul__(other.current_point_charges))
+        if not (isinstance(other, int) or isinstance(other, float)):
+            return NotImplemented
+        
+        return self._with_point_charges(
+            other*self.electrostatic_point_charges,
+            other*self.magnetostatic_point_charges,
+            other*self.current_point_charges)
+    
+    def __neg__(self):
+        return -1*self
     
-    def __neg__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__neg__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__neg__(other.magnetostatic_point_charges),
-            self.current_point_charges.__neg__(other.current_point_charges))
-     
     def __rmul__(self, other):
-        return self.__class__(
-            self.electrostatic_point_charges.__rmul__(other.electrostatic_point_charges),
-            self.magnetostatic_point_charges.__rmul__(other.magnetostatic_point_charges),
-            self.current_point_charges.__rmul__(other.current_point_charges))
+        return self.__mul__(other)
      
     def area_of_elements(self, indices):
         """Compute the total area of the elements at the given indices.
@@ -861,6 +861,10 @@ class Field3D_BEM(FieldBEM):
             assert eff.jacobians.shape == (N, backend.N_TRIANGLE_QUAD)
             assert eff.positions.shape == (N, backend.N_TRIANGLE_QUAD, 3)
      
+    def _with_point_charges(self, electrostatic, magnetostatic, current):
+        # There are no currents in three dimensional geometries
+        return self.__class__(electrostatic, magnetostatic)
+     
     def electrostatic_field_at_point(self, point_):
         """
         Compute the electric field, \\( \\vec{E} = -\\nabla \\phi \\)
-- 
2.43.0


From daf91f80dbbe2c9c214741501bd3625185b19951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 04/23] fix: field bounds were ignored in 3D, along z in radial
 symmetry and misread when given as integers

---
 traceon/backend/tracing.c | 3 ++-
 traceon/solver.py         | 2 +-
 traceon/tracing.py        | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/traceon/backend/tracing.c b/traceon/backend/tracing.c
index a18490c..ae5c404 100644
--- a/traceon/backend/tracing.c
+++ b/traceon/backend/tracing.c
@@ -123,7 +123,8 @@ field_radial_traceable(double point[6], double result[3], void *args_p) {
 	double (*bounds)[2] = (double (*)[2]) args->bounds;
 	
 	if(args->bounds == NULL || ((bounds[0][0] < point[0]) && (point[0] < bounds[0][1])
-						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1]))) {
+						 && (bounds[1][0] < point[1]) && (point[1] < bounds[1][1])
+						 && (bounds[2][0] < point[2]) && (point[2] < bounds[2][1]))) {
 		
 		double elec_field[3] = {0.};
 		double mag_field[3] = {0.};
diff --git a/traceon/solver.py b/traceon/solver.py
index 9ae8a90..9e12efc 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -564,7 +564,7 @@ class FieldBEM(Field, ABC):
         bounds: (3, 2) np.ndarray of float64
             The min, max value of x, y, z respectively within the field is still computed.
         """
-        self.field_bounds = np.array(bounds)
+        self.field_bounds = np.array(bounds, dtype=np.float64, order='C')
         assert self.field_bounds.shape == (3,2)
     
     def is_electrostatic(self):
diff --git a/traceon/tracing.py b/traceon/tracing.py
index a9f49c3..18d6386 100644
--- a/traceon/tracing.py
+++ b/traceon/tracing.py
@@ -175,7 +175,7 @@ class Tracer3D_BEM(Tracer):
         velocity = _convert_velocity_to_SI(velocity)
         bounds = self.field.field_bounds
         elec, mag = self.field.electrostatic_point_charges, self.field.magnetostatic_point_charges
-        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag)
+        return backend.trace_particle_3d(position, velocity, self.bounds, atol, elec, mag, field_bounds=bounds)
 
 class Tracer3DAxial(Tracer):
     def __call__(self, position, velocity, atol=1e-10):
-- 
2.43.0


From ea30cca9f3055d9424c074806a69a1b94b8490df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 05/23] fix: failures in worker threads were dropped, leaving
 matrix rows at zero

---
 traceon/backend/__init__.py |  2 +-
 traceon/util.py             | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 72323d0..2013612 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -577,7 +577,7 @@ def fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_b
     assert excitation_values.shape == (N,)
     assert jac_buffer.shape == (N, N_QUAD_2D)
     assert pos_buffer.shape == (N, N_QUAD_2D, 2)
-    assert 0 <= start_index < N and 0 <= end_index < N and start_index < end_index
+    assert 0 <= start_index < N and 0 <= end_index < N and start_index <= end_index
      
     backend_lib.fill_matrix_radial(matrix, lines, excitation_types, excitation_values, jac_buffer, pos_buffer, N, matrix.shape[0], start_index, end_index)
 
diff --git a/traceon/util.py b/traceon/util.py
index cd695a8..0c98623 100644
--- a/traceon/util.py
+++ b/traceon/util.py
@@ -59,12 +59,18 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         logging.log_debug(f'Running function \'{f.__name__}\' on a single thread since DEBUG=True')
         return [f(array)]
     
-    args = np.array_split(array, get_number_of_threads())
+    # Never create more parts than there are elements (but at least one)
+    args = np.array_split(array, max(1, min(get_number_of_threads(), len(array))))
      
     results = [np.zeros(0)]*len(args)
+    exceptions: List[BaseException] = []
     
     def set_result(index):
-        results[index] = f(args[index])
+        try:
+            results[index] = f(args[index])
+        except BaseException as e:
+            # An exception raised in a thread is not seen by the caller
+            exceptions.append(e)
     
     threads = [Thread(target=set_result, args=(i,)) for i in range(len(args))]
      
@@ -72,6 +78,9 @@ def split_collect(f, array: np.ndarray) -> List[np.ndarray]:
         t.start()
     for t in threads:
         t.join()
+    
+    if exceptions:
+        raise exceptions[0]
 
     return results
             
-- 
2.43.0


From e6e248194a581405924b64973482a0d0130b573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 06/23] fix: superposition mixed up voltages and currents, kept
 all currents on and skipped magnetostatic potentials

---
 traceon/backend/__init__.py |  1 +
 traceon/excitation.py       |  5 ++++-
 traceon/solver.py           | 27 +++++++++++++++++++--------
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 2013612..832ae7f 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -487,6 +487,7 @@ def field_3d_derivs(point, z, coeffs):
 
     field = np.zeros( (3,) )
     backend_lib.field_3d_derivs(point.astype(np.float64), field, z, coeffs, len(z))
+    return field
 
 current_potential_axial_radial_ring = backend_lib.current_potential_axial_radial_ring
 
diff --git a/traceon/excitation.py b/traceon/excitation.py
index f7c7ea7..a7fe90c 100644
--- a/traceon/excitation.py
+++ b/traceon/excitation.py
@@ -231,9 +231,10 @@ class Excitation:
     
     def _split_for_superposition(self):
         
-        # Names that have a fixed voltage excitation, not equal to 0.0
+        # Names that have a fixed potential or current excitation, not equal to 0.0
         types = self.excitation_types
         non_zero_fixed = [n for n, (t, v) in types.items() if t in [ExcitationType.VOLTAGE_FIXED,
+                                                                    ExcitationType.MAGNETOSTATIC_POT,
                                                                     ExcitationType.CURRENT] and v != 0.0]
         
         excitations = []
@@ -249,6 +250,8 @@ class Excitation:
                     new_types_dict[n] = (t, 1.0)
                 elif t == ExcitationType.VOLTAGE_FIXED:
                     new_types_dict[n] = (t, 0.0)
+                elif t == ExcitationType.MAGNETOSTATIC_POT:
+                    new_types_dict[n] = (t, 0.0)
                 elif t == ExcitationType.CURRENT:
                     new_types_dict[n] = (t, 0.0)
                 else:
diff --git a/traceon/solver.py b/traceon/solver.py
index 9e12efc..e1fb2aa 100644
--- a/traceon/solver.py
+++ b/traceon/solver.py
@@ -418,17 +418,28 @@ def solve_direct_superposition(excitation):
     # Speedup: invert matrix only once, when using superposition
     excitations = excitation._split_for_superposition()
     
+    types = excitation.excitation_types
+    elec_dict, mag_dict = {}, {}
+     
     # Solve for elec fields
-    elec_names = [n for n, v in excitations.items() if v.is_electrostatic()]
-    right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
-    solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
-    elec_dict = {n:s for n, s in zip(elec_names, solutions)}
+    elec_names = [n for n in excitations if types[n][0].is_electrostatic()]
+    if elec_names:
+        right_hand_sides = np.array([ElectrostaticSolver(excitations[n]).get_right_hand_side() for n in elec_names])
+        solutions = ElectrostaticSolver(excitation).solve_matrix(right_hand_sides)
+        elec_dict = {n:s for n, s in zip(elec_names, solutions)}
     
     # Solve for mag fields 
-    mag_names = [n for n, v in excitations.items() if v.is_magnetostatic()]
-    right_hand_sides = np.array([MagnetostaticSolver(excitations[n]).get_right_hand_side() for n in mag_names])
-    solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
-    mag_dict = {n:s for n, s in zip(mag_names, solutions)}
+    mag_names = [n for n in excitations if types[n][0].is_magnetostatic()]
+    if mag_names:
+        solvers = [MagnetostaticSolver(excitations[n]) for n in mag_names]
+        right_hand_sides = np.array([s.get_right_hand_side() for s in solvers])
+        solutions = MagnetostaticSolver(excitation).solve_matrix(right_hand_sides)
+        
+        for solver, solution in zip(solvers, solutions):
+            # The currents belong to the split excitation, not to the full one
+            solution.current_point_charges = solver.current_charges
+        
+        mag_dict = {n:s for n, s in zip(mag_names, solutions)}
         
     return {**elec_dict, **mag_dict}
 
-- 
2.43.0


From ec4523a3c5d1b8b959ab34b4627f3033082bd8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 07/23] fix: flipping normals and conversion to a higher order
 mesh re-oriented all elements outwards

---
 traceon/mesher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 8ea0b68..9346ebe 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -475,7 +475,8 @@ class Mesh(Saveable, GeometricObject):
         
         return Mesh(self.points, lines, triangles,
             physical_to_lines=self.physical_to_lines,
-            physical_to_triangles=self.physical_to_triangles)
+            physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def remove_lines(self):
         """Remove all the lines from the mesh.
@@ -541,7 +542,8 @@ class Mesh(Saveable, GeometricObject):
 
         return Mesh(points=points,
             lines=lines, physical_to_lines=self.physical_to_lines,
-            triangles=triangles, physical_to_triangles=self.physical_to_triangles)
+            triangles=triangles, physical_to_triangles=self.physical_to_triangles,
+            ensure_outward_normals=False)
      
     def __str__(self):
         physical_lines = ', '.join(self.physical_to_lines.keys())
-- 
2.43.0


From dd9773bdbb76df0646ffceb6730d1526f1470f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 08/23] fix: subdividing a quad that was split in one direction
 only left holes in the mesh

---
 traceon/mesher.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 9346ebe..5b324cf 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -996,17 +996,20 @@ def _subdivide_quads(pstack, mesh_size, to_subdivide=[], quads=[]):
         h = horizontal > ms or (horizontal > 2.5*vertical and horizontal > 1/8*ms)
         v = vertical > ms or (vertical > 2.5*horizontal and vertical > 1/8*ms)
             
+        # A quad can span more than one index if it was previously split in the other direction only
+        i_mid, j_mid = i0+i1, j0+j1
+        
         if h and v: # Split both horizontally and vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0+1, 2*j0+2))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0+1, 2*j0+2))
+            to_subdivide.append((depth+1, 2*i0, i_mid, 2*j0, j_mid))
+            to_subdivide.append((depth+1, 2*i0, i_mid, j_mid, 2*j1))
+            to_subdivide.append((depth+1, i_mid, 2*i1, 2*j0, j_mid))
+            to_subdivide.append((depth+1, i_mid, 2*i1, j_mid, 2*j1))
         elif h and not v: # Split only horizontally
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, 2*j0+1))
-            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0+1, 2*j0+2)) 
+            to_subdivide.append((depth+1, 2*i0, 2*i1, 2*j0, j_mid))
+            to_subdivide.append((depth+1, 2*i0, 2*i1, j_mid, 2*j1))
         elif v and not h: # Split only vertically
-            to_subdivide.append((depth+1, 2*i0, 2*i0+1, 2*j0, 2*j1))
-            to_subdivide.append((depth+1, 2*i0+1, 2*i0+2, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, 2*i0, i_mid, 2*j0, 2*j1))
+            to_subdivide.append((depth+1, i_mid, 2*i1, 2*j0, 2*j1))
         else: # We are done, both sides are within mesh size limits
             quads.append((depth, i0, i1, j0, j1))
 
-- 
2.43.0


From e166732fef6692129b64472e2a0bcafc77a8a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 09/23] fix: surfaces with different numbers of breakpoints in
 each direction were stitched along the wrong edges

---
 traceon/mesher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index 5b324cf..e457aa8 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -1055,11 +1055,11 @@ def _mesh(surface, mesh_size, start_depth=2, name=None, ensure_outward_normals=T
 
     for i in range(Nx-1):
         for j in range(Ny): # Horizontal copying
-            _copy_over_edge(point_with_quads[j*Nx + i][-1, :], point_with_quads[j*Nx + i + 1][0, :])
+            _copy_over_edge(point_with_quads[i*Ny + j][-1, :], point_with_quads[(i+1)*Ny + j][0, :])
      
     for i in range(Nx):
         for j in range(Ny-1): # Vertical copying
-            _copy_over_edge(point_with_quads[j*Nx + i][:, -1], point_with_quads[(j+1)*Nx + i][:, 0])
+            _copy_over_edge(point_with_quads[i*Ny + j][:, -1], point_with_quads[i*Ny + j + 1][:, 0])
      
     points = np.array(points)
     triangles = np.concatenate([pq.to_triangles() for pq in point_with_quads], axis=0)
-- 
2.43.0


From f2706efe7e98bc3a1bc56c03901ce79b97de7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 10/23] fix: rotating over a zero angle raised an error

---
 traceon/mesher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traceon/mesher.py b/traceon/mesher.py
index e457aa8..c52f30b 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -88,6 +88,8 @@ class GeometricObject(ABC):
         origin = np.array(origin)
         assert origin.shape == (3,), "Please supply a 3D point for origin"
          
+        matrix = np.eye(3)
+        
         if Rx != 0.:
             matrix = np.array([[1, 0, 0],
                 [0, np.cos(Rx), -np.sin(Rx)],
-- 
2.43.0


From b155c58510aebc8acdbea0d52d46fc6984876c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 11/23] fix: non-integer mesh size factors for paths raised an
 error

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index d9de84b..435391a 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -52,7 +52,7 @@ def discretize_path(path_length, breakpoints, mesh_size, mesh_size_factor=None,
         if mesh_size is not None:
             N = max( ceil((u1-u0)/mesh_size), 3)
         elif mesh_size_factor is not None:
-            N = 3*max(mesh_size_factor, 1)
+            N = max( ceil(3*mesh_size_factor), 3)
         
         # When using higher order, we splice extra points
         # between two points in the descretization. This
-- 
2.43.0


From 2ee72f22a2f563ee7d0fe0d3ceadc84da67577d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 12/23] fix: joining paths lost the positions of the
 breakpoints of the second path

---
 traceon/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 435391a..b6a1256 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -10,7 +10,7 @@ lots of holes in them (the 'cut' operation is not supported). For these cases, T
 meshes generated by other programs (e.g. GMSH or Comsol). Traceon can import [meshio](https://github.com/nschloe/meshio) meshes
 or any file format supported by meshio."""
 
-from math import pi, sqrt, sin, cos, atan2, ceil
+from math import pi, sqrt, sin, cos, atan2, ceil, isclose
 
 import numpy as np
 from scipy.integrate import quad
@@ -224,14 +224,14 @@ class Path(GeometricObject):
         total = self.path_length + other.path_length
          
         def f(t):
-            assert 0 <= t <= total
+            assert 0 <= t <= total or isclose(t, total)
             
             if t <= self.path_length:
                 return self(t)
             else:
-                return other(t - self.path_length)
+                return other(min(t - self.path_length, other.path_length))
         
-        return Path(f, total, self.breakpoints + [self.path_length] + other.breakpoints, name=self.name)
+        return Path(f, total, self.breakpoints + [self.path_length] + [self.path_length + b for b in other.breakpoints], name=self.name)
 
     def starting_point(self):
         """Returns the starting point of the path.
-- 
2.43.0


From a5341a21f2cf9be45cd7bfd97aefd2480ada2a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 13/23] fix: arcs given by integer coordinates raised an error

---
 traceon/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index b6a1256..d251549 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -382,7 +382,7 @@ class Path(GeometricObject):
         Returns
         ----------------------------
         Path"""
-        start_arr, center_arr, end_arr = np.array(start), np.array(center), np.array(end)
+        start_arr, center_arr, end_arr = np.array(start, dtype=float), np.array(center, dtype=float), np.array(end, dtype=float)
          
         x_unit = start_arr - center_arr
         x_unit /= np.linalg.norm(x_unit)
@@ -402,7 +402,7 @@ class Path(GeometricObject):
           
         def f(l):
             theta = l/path_length * theta_max
-            return center + radius*cos(theta)*x_unit + radius*sin(theta)*y_unit
+            return center_arr + radius*cos(theta)*x_unit + radius*sin(theta)*y_unit
         
         return Path(f, path_length)
      
-- 
2.43.0


From b1a4964fa42a9d8c79f5816bda5e9392016a7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 14/23] fix: breakpoints of irregular functions were placed at
 the wrong path length

---
 traceon/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index d251549..8eab58d 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -106,12 +106,13 @@ class Path(GeometricObject):
         samples = CubicSpline(u, [fun(u_) for u_ in u])
         derivatives = samples.derivative()(u)
         norm_derivatives = np.linalg.norm(derivatives, axis=1)
-        path_lengths = CubicSpline(u, norm_derivatives).antiderivative()(u)
+        length_at = CubicSpline(u, norm_derivatives).antiderivative() # [0, 1] to path length
+        path_lengths = length_at(u)
         interpolation = CubicSpline(path_lengths, u) # Path length to [0,1]
 
         path_length = path_lengths[-1]
         
-        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[b*path_length for b in breakpoints])
+        return Path(lambda pl: fun(interpolation(pl)), path_length, breakpoints=[float(length_at(b)) for b in breakpoints])
     
     @staticmethod
     def spline_through_points(points, N=100):
-- 
2.43.0


From 0e2e1e1add1f04d71001315b6cce9c7d7e39548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 15/23] fix: adding a collection to a path failed and += on
 collections gave None

---
 traceon/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 8eab58d..f708eb5 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -685,7 +685,7 @@ class Path(GeometricObject):
             return PathCollection([self, other])
         
         if isinstance(other, PathCollection):
-            return PathCollection([self] + [other.paths])
+            return PathCollection([self] + other.paths)
 
         return NotImplemented
      
@@ -807,6 +807,8 @@ class PathCollection(GeometricObject):
             self.paths.append(other)
         else:
             self.paths.extend(other.paths)
+        
+        return self
        
     def revolve_x(self, angle=2*pi):
         return self._map_to_surfaces(Path.revolve_x, angle=angle)
@@ -1371,6 +1373,8 @@ class SurfaceCollection(GeometricObject):
             self.surfaces.append(other)
         else:
             self.surfaces.extend(other.surfaces)
+        
+        return self
 
     def __str__(self):
         return f"<SurfaceCollection with {len(self.surfaces)} surfaces, name: {self.name}>"
-- 
2.43.0


From bda68ae4415386d93e46162bc0474c64bc4eb895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 16/23] fix: extruding a boundary by a path raised an error

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index f708eb5..6f1e0ab 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -1199,7 +1199,7 @@ class Surface(GeometricObject):
         SurfaceCollection"""
         
         boundary = self.get_boundary_paths()
-        extruded_boundary = boundary.extrude(path)
+        extruded_boundary = boundary.extrude_by_path(path)
 
         if enclose:
             path_vector = path.endpoint() - path.starting_point()
-- 
2.43.0


From 808a79fdbaea2b2ac64361a2ad3f700f856018bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 17/23] fix: revolving around the y-axis went clockwise, away
 from the enclosing cap

---
 traceon/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 6f1e0ab..018e640 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -449,7 +449,7 @@ class Path(GeometricObject):
             p = self(u)
             theta = atan2(p[2], p[0])
             r = sqrt(p[0]*p[0] + p[2]*p[2])
-            return np.array([r*cos(theta + v/length2*angle), p[1], r*sin(theta + v/length2*angle)])
+            return np.array([r*cos(theta - v/length2*angle), p[1], r*sin(theta - v/length2*angle)])
          
         return Surface(f, self.path_length, length2, self.breakpoints, name=self.name)
     
-- 
2.43.0


From f8051b41f93418c96e7c33be63b0d40ac929f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 18/23] fix: surfaces from boundary paths did not follow curved
 boundaries

---
 traceon/geometry.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 018e640..cea92e0 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -996,16 +996,23 @@ class Surface(GeometricObject):
             c = v
             d = u
             
-            return 1/2*(a*p1(u*p1.path_length) + \
-                        b*p4((1-v)*p4.path_length) + \
-                        c*p3((1-u)*p3.path_length) + \
-                        d*p2(v*p2.path_length))
+            # Coons patch: blend opposite edges, and subtract the
+            # contribution of the corners (which is counted twice).
+            edges = a*p1(u*p1.path_length) + \
+                    b*p4((1-v)*p4.path_length) + \
+                    c*p3((1-u)*p3.path_length) + \
+                    d*p2(v*p2.path_length)
+            
+            corners = a*b*p1.starting_point() + a*d*p2.starting_point() + \
+                      c*d*p3.starting_point() + c*b*p4.starting_point()
+            
+            return edges - corners
         
         # Scale the breakpoints appropriately
         b1 = sorted([b/p1.path_length * path_length_p1_and_p3 for b in p1.breakpoints] + \
-                [b/p3.path_length * path_length_p1_and_p3 for b in p3.breakpoints])
+                [(1 - b/p3.path_length) * path_length_p1_and_p3 for b in p3.breakpoints])
         b2 = sorted([b/p2.path_length * path_length_p2_and_p4 for b in p2.breakpoints] + \
-                [b/p4.path_length * path_length_p2_and_p4 for b in p4.breakpoints])
+                [(1 - b/p4.path_length) * path_length_p2_and_p4 for b in p4.breakpoints])
         
         return Surface(f, path_length_p1_and_p3, path_length_p2_and_p4, b1, b2)
      
-- 
2.43.0


From 62ee6e1fa13f0be9610f8a75bc0cd76f32abbf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 19/23] fix: meshing a collection ignored
 ensure_outward_normals=False

---
 traceon/geometry.py | 8 +++++---
 traceon/mesher.py   | 6 +++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index cea92e0..802c3f8 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -776,8 +776,9 @@ class PathCollection(GeometricObject):
         name = self.name if name is None else name
         
         for p in self.paths:
-            mesh = mesh + p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
-                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._combine(p.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor,
+                                higher_order=higher_order, name=name, ensure_outward_normals=ensure_outward_normals),
+                                ensure_outward_normals=ensure_outward_normals)
 
         return mesh
 
@@ -1358,7 +1359,8 @@ class SurfaceCollection(GeometricObject):
         name = self.name if name is None else name
         
         for s in self.surfaces:
-            mesh = mesh + s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals)
+            mesh = mesh._combine(s.mesh(mesh_size=mesh_size, mesh_size_factor=mesh_size_factor, name=name, ensure_outward_normals=ensure_outward_normals),
+                                ensure_outward_normals=ensure_outward_normals)
          
         return mesh
      
diff --git a/traceon/mesher.py b/traceon/mesher.py
index c52f30b..ed88368 100644
--- a/traceon/mesher.py
+++ b/traceon/mesher.py
@@ -282,6 +282,9 @@ class Mesh(Saveable, GeometricObject):
         if not isinstance(other, Mesh):
             return NotImplemented
          
+        return self._combine(other)
+    
+    def _combine(self, other, ensure_outward_normals=True):
         N_points = len(self.points)
         N_lines = len(self.lines)
         N_triangles = len(self.triangles)
@@ -300,7 +303,8 @@ class Mesh(Saveable, GeometricObject):
                     lines=lines,
                     triangles=triangles,
                     physical_to_lines=physical_lines,
-                    physical_to_triangles=physical_triangles)
+                    physical_to_triangles=physical_triangles,
+                    ensure_outward_normals=ensure_outward_normals)
      
     def extract_physical_group(self, name):
         """Extract a named group from the mesh.
-- 
2.43.0


From 73f3842d3ffe815243e6996681eada7a0b31c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 20/23] fix: transforming or sweeping a collection lost its
 name

---
 traceon/geometry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/traceon/geometry.py b/traceon/geometry.py
index 802c3f8..ce9f38c 100644
--- a/traceon/geometry.py
+++ b/traceon/geometry.py
@@ -767,7 +767,9 @@ class PathCollection(GeometricObject):
             path.name = name
      
     def map_points(self, fun):
-        return PathCollection([p.map_points(fun) for p in self.paths])
+        result = PathCollection([p.map_points(fun) for p in self.paths])
+        result._name = self._name
+        return result
      
     def mesh(self, mesh_size=None, mesh_size_factor=None, higher_order=False, name=None, ensure_outward_normals=True):
         """See `Path.mesh`"""
@@ -788,7 +790,9 @@ class PathCollection(GeometricObject):
         for p in self.paths:
             surfaces.append(f(p, *args, **kwargs))
 
-        return SurfaceCollection(surfaces)
+        result = SurfaceCollection(surfaces)
+        result._name = self._name
+        return result
     
     def __add__(self, other):
         """Allows you to combine paths and path collection using the + operator (path1 + path2)."""
@@ -1350,7 +1354,9 @@ class SurfaceCollection(GeometricObject):
             surf.name = name
      
     def map_points(self, fun):
-        return SurfaceCollection([s.map_points(fun) for s in self.surfaces])
+        result = SurfaceCollection([s.map_points(fun) for s in self.surfaces])
+        result._name = self._name
+        return result
      
     def mesh(self, mesh_size=None, mesh_size_factor=None, name=None, ensure_outward_normals=True):
         """See `Surface.mesh`"""
-- 
2.43.0


From e6c39c8320915dcd334d0f6ab4256220a8963ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 21/23] fix: evaluating the field of a current at integer
 coordinates raised an error

---
 traceon/backend/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/__init__.py b/traceon/backend/__init__.py
index 832ae7f..7243024 100644
--- a/traceon/backend/__init__.py
+++ b/traceon/backend/__init__.py
@@ -516,7 +516,7 @@ def current_field(p0, currents, jac_buffer, pos_buffer):
     assert np.all(pos_buffer[:, :, 1] == 0.)
     
     result = np.zeros( (3,) )
-    backend_lib.current_field(p0, result, currents, jac_buffer, pos_buffer, N)
+    backend_lib.current_field(p0.astype(np.float64), result, currents, jac_buffer, pos_buffer, N)
     return result
 
 def current_axial_derivatives_radial(z, currents, jac_buffer, pos_buffer):
-- 
2.43.0


From cdad58152ee1fc8e1ed76c8632e7e2c41fbe5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:28 +0000
Subject: [PATCH 22/23] fix: flux of a triangle was wrong or infinite for
 targets within 3e-5 of a line through it

---
 traceon/backend/triangle.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/traceon/backend/triangle.c b/traceon/backend/triangle.c
index f24dfd3..b4fa8c7 100644
--- a/traceon/backend/triangle.c
+++ b/traceon/backend/triangle.c
@@ -130,17 +130,24 @@ double _flux_integrand(double y, void *args_p) {
 
 	flux[0] = 1 / sqrt(r2 + xmax2) - 1 / sqrt(r2 + xmin2);
 
-	// Singularity when r2 is small...
-	if (fabs(r2) < 1e-9) {
-		flux[1] = ((xmin2 - xmax2) * y0 + (xmin2 - xmax2) * y) / (2.0 * xmax2 * xmin2);
-		flux[2] = -((xmin2 - xmax2) * z) / (2.0 * xmax2 * xmin2);
+	// flux[1] and flux[2] contain the factor
+	// F = (xmax/sqrt(r2 + xmax2) - xmin/sqrt(r2 + xmin2))/r2
+	double s_max = sqrt(r2 + xmax2);
+	double s_min = sqrt(r2 + xmin2);
+	double F;
+
+	if (xmin*xmax > 0) {
+		// Cancellation when r2 is small. Use x/s = sign(x)*(1 - r2/(s*(s + |x|)))
+		F = 1/(s_min*(s_min + fabs(xmin))) - 1/(s_max*(s_max + fabs(xmax)));
+		if (xmax < 0) F = -F;
+	} else if (r2 > 1e-20*(xmax - xmin)*(xmax - xmin)) {
+		F = (xmax/s_max - xmin/s_min)/r2;
 	} else {
-		double denom_max = r2 * sqrt(r2 + xmax2);
-		double denom_min = r2 * sqrt(r2 + xmin2);
-
-		flux[1] = -((xmax * (y + y0)) / denom_max) + (xmin * (y + y0)) / denom_min;
-		flux[2] = (xmax * z) / denom_max - (xmin * z) / denom_min;
+		F = 0.; // Target lies on the triangle
 	}
+
+	flux[1] = -(y + y0)*F;
+	flux[2] = z*F;
 	
 	return dot_3d(args.normal, flux);
 }
-- 
2.43.0


From addfaff92a153d4f9a32a335e3d3662a7c966d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 23/23] fix: ellipk was inaccurate (6e-6) for parameters
 between -1 and 0

---
 traceon/backend/elliptic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traceon/backend/elliptic.c b/traceon/backend/elliptic.c
index e754fe5..e7f2580 100644
--- a/traceon/backend/elliptic.c
+++ b/traceon/backend/elliptic.c
@@ -35,7 +35,7 @@ EXPORT double ellipkm1(double p) {
 }
 
 EXPORT double ellipk(double k) {
-	if(k > -1) return ellipkm1(1-k);
+	if(k >= 0) return ellipkm1(1-k);
 	
 	return ellipkm1(1./(1-k))/sqrt(1-k);
 }
-- 
2.43.0

