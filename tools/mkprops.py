import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
B='traceon/backend/'
prop('C01','Axial-series fields use the right table interval, and are zero outside it',
 'Evaluating an axially interpolated potential or field (radial or 3D expansion) at any point reads only entries that exist in the coefficient table, and uses the polynomial piece of the sampling interval containing z (including z exactly at the last sample). For z below the first or above the last sample the potential and field are exactly zero. Inside, the value is the documented truncated series in r (and angle) of the interpolated axial quantities.',
 ['inputs'],'every point, every sampling (N>=2 equally spaced samples), every coefficient table',
 'Tests sample a few interior points of one or two tables; an out-of-bounds read at the end of the table or a wrong piece only shows for z at or next to the sample boundaries.',
 [B+'radial.c',B+'three_d.c','traceon/interpolation.py','traceon/solver.py'],
 [('potential_radial_derivs / field_radial_derivs','traceon/backend/radial.c'),('potential_3d_derivs / field_3d_derivs','traceon/backend/three_d.c'),('interpolation index clamp','traceon/backend/radial.c, three_d.c')],
 ['FieldRadialAxial.*_at_point','backend.field_3d_derivs'])
prop('C02','Every field is minus the gradient of its own potential',
 'For each field representation (surface charges in radial symmetry, surface charges in 3D, 3D axial expansion) and for point, ring and whole-mesh sources, the field vector equals minus the gradient of the potential of the same source, at every point away from the sources. For the radial axial expansion this holds up to the documented truncation order of the radial series. On the optical axis of a radially symmetric source the transverse field is zero and the axial component is the derivative of the axial potential.',
 ['inputs'],'all source positions, charges, meshes and evaluation points off the sources',
 'Tests compare against finite differences at hand-picked points; sign or factor errors confined to one component, one angle or one term of the series escape.',
 [B+'three_d_point.c',B+'radial_ring.c',B+'three_d.c',B+'radial.c'],
 [('d*_potential_3d_point','traceon/backend/three_d_point.c'),('dr1/dz1_potential_radial_ring','traceon/backend/radial_ring.c'),('field_3d, field_3d_derivs','traceon/backend/three_d.c'),('field_radial, field_radial_derivs','traceon/backend/radial.c')])
prop('C03','Potential and field are the exact charge-weighted sum over all sources',
 'The potential (field) of a surface-charge solution is the sum over every element and every quadrature point of charge times weight times the potential (field) of a unit source at that point: no element or point is skipped, double counted or weighted differently, for any number of elements including zero. The same holds for coil currents and for the axial potential derivatives.',
 ['inputs'],'any number of elements, any charges, weights, positions and evaluation point',
 'A test mesh fixes the number of elements; sums dropping or repeating an element only at particular counts, or mis-weighting one quadrature point, stay below test tolerances.',
 [B+'three_d.c',B+'radial.c','traceon/backend/__init__.py','traceon/solver.py'],
 [('potential_3d/field_3d loops','traceon/backend/three_d.c'),('potential_radial/field_radial/current_field/axial_derivatives loops','traceon/backend/radial.c'),('Python wrappers','traceon/backend/__init__.py')])
prop('C04','Adding, subtracting, scaling and negating fields is pointwise superposition',
 'For fields f, g of the same kind and numbers a: the field of f+g, f-g, a*f, f*a and -f at any point is the corresponding pointwise combination, for the electrostatic and the magnetostatic part alike, both for surface-charge fields and for axially interpolated fields. The operands are not modified, and adding fields living on different meshes works as well.',
 ['inputs'],'all pairs of fields on equal or different meshes, all scalars, all points',
 'Tests add two specific fields; subtraction, negation, scaling by each numeric type and mixed electro/magnetostatic operands are barely exercised.',
 ['traceon/solver.py','traceon/interpolation.py'],
 [('EffectivePointCharges and FieldBEM operators','traceon/solver.py'),('FieldAxial operators','traceon/interpolation.py')])
prop('C05','Radially symmetric fields are rotationally symmetric and transverse-free on axis',
 'For a radially symmetric source (charges, coils or axial expansion) the potential depends on the point only through its distance to the z-axis and z. The field rotates with the point: its transverse part is parallel to (x, y), its magnitude does not depend on the angle, and it vanishes on the axis.',
 ['inputs'],'all points (any angle, on and off axis) and all radial sources',
 'Tests mostly evaluate in the y=0 plane, so an x/y mix-up or an angle-dependent factor is invisible.',
 [B+'radial.c','traceon/solver.py'],
 [('projection of (Er,Ez) on (x,y,z)','traceon/backend/radial.c')])
prop('C06','Quadrature points lie on the element and weights sum to its length or area',
 'For every line or triangle element the stored integration points lie on that element and the stored weights integrate to its arc length (2D: for straight elements exactly, in general the speed |dx/dalpha| times the Gauss weight; 3D: the triangle area), so integrals of low-degree polynomials over an element are exact. The curved line element passes through its four nodes at parameters -1, -1/3, 1/3 and 1, and element normals are unit vectors orthogonal to the element with the orientation fixed by the vertex order.',
 ['inputs'],'every non-degenerate line (4-node) and triangle element and every parameter value',
 'Tests use a handful of elements; an error in one quadrature point or one polynomial term changes results below tolerance.',
 [B+'utilities_2d.c',B+'utilities_3d.c',B+'radial.c',B+'tracing.c'],
 [('position_and_jacobian_radial, higher_order_normal_radial, normal_2d','traceon/backend/utilities_2d.c'),('triangle quadrature, normal_3d, triangle_area','traceon/backend/utilities_3d.c'),('fill_jacobian_buffer_*','traceon/backend/radial.c, tracing.c')])
prop('C07','Each matrix row states its boundary condition, however rows are partitioned',
 'The system matrix entry (i, j) is the response at the center of element i to unit charge on element j: the potential for fixed-potential elements and, for dielectric or magnetizable elements, 2(K-1)/(K+1) times the normal field, with -1 added on the diagonal. Every row is filled exactly once with that value regardless of how rows are distributed over worker threads, and writing rows a..b leaves all other rows untouched.',
 ['inputs','configurations'],'all meshes, excitation types, material constants, thread counts and row partitions',
 'Tests run a single thread and compare end results of a few geometries at percent-level tolerance, so one wrong row or a partition boundary error is not seen.',
 [B+'radial.c',B+'tracing.c','traceon/solver.py','traceon/util.py','traceon/backend/__init__.py'],
 [('fill_matrix_radial','traceon/backend/radial.c'),('fill_matrix_3d','traceon/backend/tracing.c'),('Solver.get_matrix','traceon/solver.py'),('split_collect','traceon/util.py')])
prop('C08',"Excitations reach exactly their groups' elements, once, with the right value",
 'The active elements of an excitation are exactly the mesh elements belonging to physical groups that carry an electrostatic (respectively magnetostatic) surface excitation, each with the vertices of that element, and the group-to-row map sends every name to the rows of its own elements. Each row carries the type and value given for its group (for voltage functions the function evaluated at the element center), and the right-hand side is that value for potentials and zero for dielectrics and electrostatic boundaries.',
 ['inputs','configurations'],'all meshes, all assignments of excitation types to groups, groups in any order',
 'Tests use one or two groups whose elements are contiguous; permutations and interleavings of several groups are not covered.',
 ['traceon/excitation.py','traceon/solver.py'],
 [('Excitation._get_active_elements and add_*','traceon/excitation.py'),('Solver.__init__, get_right_hand_side','traceon/solver.py')])
prop('C09','Superposition solving gives the unit response of every excited group',
 'Superposition solving returns, for each group with a non-zero fixed potential or current, the field obtained by setting that group to unity and every other such group to zero while keeping all material conditions. Recombining these fields with the original values reproduces the field of the full solve.',
 ['inputs','configurations'],'all geometries and mixtures of voltage, current, magnetostatic potential, dielectric and magnetizable groups',
 'Only pure-voltage and pure-current examples are tested; mixtures of excitation kinds are not.',
 ['traceon/excitation.py','traceon/solver.py'],
 [('Excitation._split_for_superposition','traceon/excitation.py'),('solve_direct_superposition','traceon/solver.py')])
prop('C10','A trajectory starts as given, advances in time, and ends at the first exit',
 'A traced trajectory begins with exactly the given position and velocity at time zero, its times strictly increase, every sample except possibly the last lies inside the tracing bounds and the last sample lies outside them (when tracing ends by leaving them). Trajectories longer than the internal storage block are joined without a lost, repeated or altered sample, and storage is never overrun.',
 ['inputs','histories'],'all initial conditions, bounds, tolerances and fields, any number of steps',
 'Tests trace a few particles for far fewer steps than one storage block.',
 [B+'tracing.c','traceon/backend/__init__.py','traceon/tracing.py'],
 [('trace_particle','traceon/backend/tracing.c'),('trace_particle_wrapper','traceon/backend/__init__.py'),('Tracer classes','traceon/tracing.py')])
prop('C11','Each accepted tracer step is a Runge-Kutta-Fehlberg step within tolerance',
 'Every recorded step advances position and velocity by the 5(4)-order Runge-Kutta-Fehlberg formula for d(position)/dt = velocity, d(velocity)/dt = (charge/mass) times the field at that state, and is recorded only if its embedded error estimate (position plus step size times velocity error) is at most the requested tolerance. The recorded time difference is the step actually taken, and no step exceeds the maximum step derived from the initial speed.',
 ['inputs','histories'],'all states, fields, tolerances and step histories',
 'Convergence tests on smooth fields cannot separate a slightly wrong tableau or error estimate from a correct one, nor a missing tolerance check.',
 [B+'tracing.c'],[('produce_new_y, produce_new_k, trace_particle, tableau constants','traceon/backend/tracing.c')])
prop('C12','The traced acceleration is the Lorentz force of E plus v cross mu0 H',
 'The vector driving the particle is E + v x (mu0 H) where E is the electrostatic field and H is the sum of the fields of magnetic charges and of currents at the particle position, in every tracer (radial or 3D, direct or interpolated). The conversions between energy, direction and velocity satisfy |v|^2 = 2 e E / m along the requested direction and are mutually inverse.',
 ['inputs'],'all velocities, positions, fields, energies and directions',
 'Tests use pure E or pure B in special directions; cross terms and the separate magnetic contributions of charges and currents are not combined.',
 [B+'utilities_3d.c',B+'tracing.c','traceon/tracing.py'],
 [('combine_elec_magnetic_field','traceon/backend/utilities_3d.c'),('field_*_traceable','traceon/backend/tracing.c'),('velocity_vec*, kinetic_energy','traceon/tracing.py')])
prop('C13','Outside its declared bounds a field exerts no force; inside it is unchanged',
 'After bounds are set on a surface-charge field, a particle traced through it feels exactly zero field wherever x, y or z lies outside the corresponding bound and exactly the unbounded field wherever all three lie strictly inside. This holds for radial and 3D fields and for bounds given as integers or floats.',
 ['inputs','configurations'],'all bounds (any numeric type), all positions, radial and 3D fields',
 'Tests set symmetric float bounds and compare one trajectory.',
 [B+'tracing.c','traceon/tracing.py','traceon/solver.py','traceon/backend/__init__.py'],
 [('field_radial_traceable, field_3d_traceable','traceon/backend/tracing.c'),('FieldBEM.set_bounds','traceon/solver.py'),('Tracer*BEM.__call__','traceon/tracing.py')])
prop('C14','Plane intersections lie on the plane, on the last crossing segment',
 'The intersection of a trajectory with a plane lies on that plane and on the straight segment (in position and velocity) between the two consecutive samples that enclose it, namely the last pair of samples lying on opposite sides. If no consecutive samples lie on opposite sides an error is raised instead of a value being returned.',
 ['inputs'],'all trajectories with at least two samples, all planes',
 'Tests use straight or monotone trajectories with one crossing of an axis-aligned plane.',
 [B+'tracing.c','traceon/tracing.py','traceon/backend/__init__.py'],
 [('plane_intersection (C)','traceon/backend/tracing.c'),('plane_intersection, xy/yz/xz wrappers','traceon/tracing.py')])
prop('C15','The focus is the least-squares closest point to all rays',
 'The computed focus is the point minimising the mean squared transverse deviation of the straight rays defined by the last sample of each trajectory: the x and y residual of every ray at the returned z average to zero against the slopes, and x, y are the mean ray positions at that z. It does not depend on the order of the trajectories, and for rays sharing a common point it returns that point.',
 ['inputs'],'any number of rays with non-identical slopes',
 'Tests check two or four symmetric rays.',
 ['traceon/focus.py'],[('focus_position','traceon/focus.py')])
prop('C16','Meshes keep valid indices and groups, and cleanup preserves geometry',
 'Every mesh returned by the library has element indices that refer to existing points and group indices that refer to existing elements. Merging duplicate points and dropping degenerate triangles (area below 1e-12) never moves a surviving element vertex by more than the merge tolerance (a relative 2e-11 per coordinate), never removes a line or a non-degenerate triangle, and keeps every surviving element in the same named groups.',
 ['inputs'],'all point, line, triangle arrays and group maps',
 'Tests mesh a few shapes; mixtures of lines and triangles with several overlapping groups and degenerate elements are not tested.',
 ['traceon/mesher.py'],
 [('Mesh.__init__ and _deduplicate_points/_remove_degenerate*','traceon/mesher.py')])
prop('C17','Adding, extracting and removing mesh parts moves no element between groups',
 'The sum of two meshes contains exactly the elements of both with their vertex coordinates, and each name refers to the union of the elements it referred to in the operands; neither operand changes. Extracting a named part returns exactly the elements of that name (its lines, or its triangles if it has no lines), under that name, with the same geometry; removing the lines (triangles) keeps exactly the triangles (lines) with their names. Only the vertex order of triangles and lines may change.',
 ['inputs','histories'],'all pairs of meshes with equal or different names, all selections',
 'Tests add small meshes without shared names and look at counts.',
 ['traceon/mesher.py'],[('Mesh.__add__, extract_physical_group, remove_lines, remove_triangles','traceon/mesher.py')])
prop('C18','Normal orientation commands give consistently outward or inward normals',
 'After orienting a named closed, connected surface outward (inward) every element normal of that group points out of (into) the enclosed volume and all elements agree across shared edges; in 2D the same holds with respect to the chosen side. Orienting changes only the vertex order of elements in the named group, flipping that of all elements: no vertex, no group membership and no other group changes, flipping twice is the identity, and neither a flip, nor converting the mesh to higher order, nor meshing with ensure_outward_normals=False undoes the chosen orientation.',
 ['inputs','histories'],'all meshes of closed surfaces with arbitrary initial vertex order, several groups, sequences of orientation commands',
 'Tests orient a few spheres and boxes produced by the library itself, whose initial orientation is regular.',
 ['traceon/mesher.py',B+'triangle.c'],
 [('Mesh.ensure_outward/inward_normals, flip_normals, _reorient','traceon/mesher.py'),('triangle_orientation_is_equal','traceon/backend/triangle.c')])
prop('C19','Moving, rotating and mirroring are exactly those isometries for every object',
 'For paths, path collections, surfaces, surface collections and meshes, moving by d adds d to every point, rotating by an angle (zero included) about x, y or z rotates anticlockwise about the parallel axis through the given origin, and mirroring reflects in the stated plane. The parametrisation, path length, breakpoints and names of the object are unchanged, and the original object is not modified.',
 ['inputs'],'all objects, vectors, angles (one axis at a time) and origins',
 'Tests rotate by multiples of 90 degrees around the origin.',
 ['traceon/geometry.py','traceon/mesher.py'],
 [('GeometricObject.move/rotate/mirror_*/map_points','traceon/mesher.py'),('Path/Surface map_points','traceon/geometry.py')])
prop('C20','Paths have the stated shape, length and end points, also when composed',
 'Every path constructor yields a path that starts and ends at the stated points, has the stated path length, and is parametrised by arc length. Concatenation, extension with a line or arc, closing, cutting and phase shifting visit exactly the same curve in the stated order with lengths adding up, and keep breakpoints at the corners.',
 ['inputs'],'all constructor parameters (any number type) and all compositions',
 'Tests evaluate a few parameters on axis-aligned examples.',
 ['traceon/geometry.py'],[('Path constructors and operators','traceon/geometry.py')])
prop('C21','Discretised paths hit end points and breakpoints with steps no larger than asked',
 'Discretising a path yields strictly increasing arc-length samples that start at zero, end at the path length, contain every breakpoint exactly once and are no further apart than the requested mesh size. The mesh of a path consists of consecutive elements joining successive samples from start to end (higher-order nodes at one and two thirds in arc length), all in the named group.',
 ['inputs'],'all path lengths, breakpoints, mesh sizes and mesh size factors',
 'Tests use a few lengths; rounding at particular ratios of length to mesh size is not sampled.',
 ['traceon/mesher.py','traceon/geometry.py'],
 [('discretize_path','traceon/geometry.py'),('Path.mesh','traceon/geometry.py')])
prop('C22','Surface meshes tile the whole surface once, on the surface, without gaps',
 'The mesh of a parametric surface covers the parameter rectangle exactly once: quadrilaterals obtained by any sequence of horizontal and vertical subdivisions are disjoint and leave no hole, sections between breakpoints join on identical vertices, every mesh vertex is the surface evaluated at its parameters, and no side of a quadrilateral is longer than the mesh size asked at its centre. Every triangle belongs to the named group.',
 ['inputs','histories'],'all surfaces, breakpoints in either or both directions, mesh sizes and subdivision sequences',
 'Tests mesh discs and boxes where the subdivision pattern is regular, and check areas of few of them.',
 ['traceon/mesher.py'],[('_subdivide_quads, _mesh, _copy_over_edge, to_triangles','traceon/mesher.py')])
prop('C23','Surface constructors produce the surface their name and arguments state',
 'Extrusion maps (u, v) to the path point displaced along the vector or second path, revolution rotates the path anticlockwise about the stated axis by the stated angle, and a surface spanned by paths contains those paths as its boundary curves. The path lengths in both directions, breakpoints and names follow from the inputs, and boundary operations with enclosure yield a closed collection covering side, start and end.',
 ['inputs'],'all paths, vectors, angles and both surface parameters',
 'Tests evaluate constructors at corner points of axis-aligned examples.',
 ['traceon/geometry.py'],[('Path.extrude/revolve_*, Surface.spanned_by_paths, box, from_boundary_paths, *_boundary','traceon/geometry.py')])
prop('C24','Adaptive integration covers the interval once and accepts only within tolerance',
 'The adaptive integrator returns the sum of its panel estimates over consecutive panels that cover the interval from a to b exactly once, and a panel is accepted only if its two estimates agree within the absolute or relative tolerance. For polynomials of low degree the result is exact to rounding, in one panel.',
 ['inputs'],'all integrands, intervals and tolerances',
 'Tests integrate a few smooth functions; gaps or overlaps between panels appear only after particular accept/reject sequences.',
 [B+'kronrod.c'],[('kronrod_adaptive','traceon/backend/kronrod.c')])
prop('C25','Elliptic integrals are accurate and consistent over their whole domain',
 'The complete elliptic integrals of both kinds are finite and agree with their defining integrals to about 1e-8 relative accuracy for every parameter below one, negative parameters included. The variants taking the complementary parameter agree with them.',
 ['inputs'],'every parameter in the domain, including large negative values and values near the singularity',
 'Tests compare on a grid that does not cover parameters at or below -1.',
 [B+'elliptic.c'],[('ellipk, ellipe, ellipkm1, ellipem1','traceon/backend/elliptic.c')])
prop('C26','Axial derivatives are the successive z-derivatives of the axial potential',
 'For a charged ring or current ring of any radius and position, the n-th returned axial derivative is the exact n-th derivative with respect to z of the axial potential, for all orders returned, and the zeroth equals the potential on the axis. For a mesh they are the charge-weighted sums of the ring values.',
 ['inputs'],'all ring radii and positions, all evaluation points, all orders 0 to 8',
 'High orders are only indirectly tested via interpolation accuracy near the axis.',
 [B+'radial_ring.c',B+'radial.c'],[('axial_derivatives_radial_ring, current_axial_derivatives_radial_ring','traceon/backend/radial_ring.c')])
prop('C27','Interpolation tables reproduce the sampled axial derivatives',
 'Building an axially interpolated field yields one polynomial per interval and per derivative order, which at both ends of the interval reproduces the sampled values (and for orders with available higher samples also the first and second derivative), covers the requested range from zmin to zmax with the requested number of samples, and keeps electrostatic and magnetostatic tables apart.',
 ['inputs','configurations'],'all derivative samples, ranges and sample counts',
 'Tests look at the final potential near the axis with loose tolerance.',
 ['traceon/interpolation.py'],[('_quintic_spline_coefficients, FieldRadialAxial','traceon/interpolation.py')])
prop('C28','Distributing work over threads returns the serial result or an error',
 'Splitting an array of inputs over any number of worker threads applies the function to every input exactly once and returns the partial results in the original order, for any array length (including shorter than the number of threads). If the function fails for any part the failure is reported to the caller instead of being dropped.',
 ['inputs','configurations','fault_sequences'],'all array lengths, thread counts and failing positions',
 'The suite runs with one thread only.',
 ['traceon/util.py'],[('split_collect','traceon/util.py')])
prop('C29','Triangle potentials and fluxes integrate the Coulomb kernel over the triangle',
 'The potential of a uniformly charged triangle at a target equals the integral of 1/distance over the triangle, and the flux equals the component along the given normal of its field (minus the gradient of that potential), for any triangle position and orientation and any target off the triangle (for the potential also on it). Both are invariant under rigid motions and under relabelling of the vertices.',
 ['inputs'],'all non-degenerate triangles, targets and normals',
 'Tests compare a few random triangles numerically; exceptional branches (target in the plane of an edge, near-zero denominators) are not hit.',
 [B+'triangle.c'],[('potential_triangle, self_potential_triangle, flux_triangle and integrands','traceon/backend/triangle.c')])
prop('C30','Coil currents and surface charges add up to the prescribed totals',
 'The current sources created for a coil carry in total exactly the prescribed current, spread uniformly over the cross-section of exactly the elements of that coil; several coils do not mix. The area reported for elements is their true surface area and the charge on a set of elements is the sum of density times area.',
 ['inputs','configurations'],'all coil cross-sections, currents, several coils in any order, all element sets',
 'Tests use one coil and compare axial fields.',
 ['traceon/solver.py',B+'radial.c'],[('MagnetostaticSolver.get_current_charges','traceon/solver.py'),('FieldBEM.area_of_element(s), charge_on_element(s), charge_radial','traceon/solver.py, traceon/backend/radial.c')])
prop('C31','3D axial expansion coefficients reproduce the source potential near the axis',
 'The coefficients computed for the three-dimensional axial expansion of a charge distribution are the coefficients of the exact expansion of its potential in r, cos(m phi), sin(m phi) around the sampled axis point, for all orders stored. They are linear in the charges and accumulate over every element and quadrature point exactly once.',
 ['inputs'],'all source points off the axis, all axis points, all orders nu<4, m<8',
 'No test in the suite evaluates the individual high-order coefficients.',
 [B+'three_d.c'],[('axial_coefficients_3d','traceon/backend/three_d.c')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
