import json
P=[]
def add(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
F='src/flib/'; Y='src/pysimulators/'
add("C01","Sparse products add exactly the stored entries",
 "Multiplying a fixed-sparse-column or fixed-sparse-row matrix (scalar entries) by a vector adds to each output component the sum of value times input over the stored entries that couple them, and nothing else. An entry with a negative index contributes nothing, repeated entries add up, and when each component carries several extra values (homothety) every one of them is treated alike. Whatever was in the output buffer is accumulated onto, not lost.",
 ["inputs"],"all sizes, all numbers of entries per row or column (including 0 and 1), all index contents (negative, repeated, unordered), all values, all supported index/value/vector types",
 "The tests use a handful of small matrices with fixed entries; which sizes, index patterns and accumulations are treated correctly is a statement over every content of the structured array.",
 [F+"sparse.f90.j2",Y+"sparse.py"],
 [("scalar matrix-vector kernels","fsc_matvec_*, fsr_matvec_* in src/flib/sparse.f90.j2"),("homothety kernels","fsc_homothety_matvec_*, fsr_homothety_matvec_*"),("type dispatch and pure-Python fallback","_FSMatrix._matvec, FSCMatrix._matvec, FSRMatrix._matvec in sparse.py")],
 ["FSCMatrix/FSRMatrix * vector","SparseOperator(matrix)(x)"])
add("C02","Block and rotation sparse products equal their block definition",
 "A sparse matrix stored by blocks (1..3 by 1..3) or by compressed 2x2 / 3x3 rotation blocks multiplies a vector exactly as the matrix in which every stored entry is expanded into its dense block at its block row and column. Entries with a negative index contribute nothing and the output buffer is accumulated onto.",
 ["inputs"],"all block shapes offered, all numbers of blocks, all index contents, all values, row and column storage",
 "Each block shape has its own hand-unrolled kernel with a transposed storage convention; tests exercise one random matrix per shape.",
 [F+"module_operators.f90.j2",F+"sparse.f90.j2",Y+"sparse.py"],
 [("block kernels","fsc_block_M_N_matvec_*, fsr_block_M_N_matvec_* in module_operators.f90.j2"),("block dispatch on shape","fsc_block_matvec_*, fsr_block_matvec_* in sparse.f90.j2"),("rotation kernels","fsc_rot2d/rot3d_matvec_*, fsr_rot2d/rot3d_matvec_*")],
 ["FSxBlockMatrix, FSxRotation2dMatrix, FSxRotation3dMatrix * vector"])
add("C03","The transpose of a sparse operator is its exact adjoint",
 "For every sparse operator, whatever its storage, applying the transposed operator is the adjoint of applying the operator: the inner product of y with the operator applied to x equals that of x with the transpose applied to y, for all x and y.",
 ["inputs"],"all matrices of every storage format, all pairs of vectors",
 "Adjointness relates two different kernels on all pairs of vectors; tests compare a few dense expansions.",
 [F+"sparse.f90.j2",F+"module_operators.f90.j2",Y+"sparse.py"],
 [("transposition shares the data and swaps the row/column format","_transpose methods and SparseOperator._rule_transpose in sparse.py"),("paired kernels","fsc_* / fsr_* matvec kernels")],
 ["SparseOperator.T"])
add("C04","Coverage, back-projection and P^T P diagonal agree with the operator",
 "The coverage of a projection (transpose applied to ones), the joint back-projection and coverage, and the diagonal operator that replaces P^T P when each sample sees at most one pixel are the same as applying the projection and its transpose explicitly (for 2-d rotation storage the coverage adds each entry's modulus, for 3-d rotation storage it is that of the first component).",
 ["inputs"],"all projection matrices, all inputs, all supported types, all index contents including negative and repeated ones",
 "They are separate kernels with their own type dispatch; tests check a few random instances.",
 [F+"operators.f90.j2",F+"sparse.f90.j2",Y+"operators.py",Y+"sparse.py"],
 [("coverage kernels","fsr_pT1_*, fsr_rot2d_pT1_*, fsr_rot3d_pT1_*, fsr_pTx_pT1_*, fsr_rot3d_pTx_pT1_* in operators.f90.j2"),("P^T P kernels","fsc_fsr_ncolmax1_*, fsc_fsr_rot2d_ncolmax1_*, fsc_fsr_rot3d_ncolmax1_* in sparse.f90.j2"),("use","ProjectionOperator.pT1, pTx_pT1; SparseOperator._rule_pTp")],
 ["ProjectionOperator.pT1()","ProjectionOperator.pTx_pT1(x)","(P.T * P)"])
add("C05","The projection kernel is exactly the set of unobserved pixels",
 "A pixel is reported as being in the kernel of a projection if and only if no stored entry with a non-zero value refers to it; entries with a negative index or zero value never make a pixel observed, and flags already cleared in an accumulated buffer are never set again.",
 ["inputs"],"all projection matrices of all storages, all index types (8 to 64 bits), all index and value contents",
 "An observation missed in one storage/type combination corrupts the map only there; tests cover few combinations and contents.",
 [F+"sparse.f90.j2",F+"operators.f90.j2",Y+"operators.py"],
 [("kernel detection","fsr_kernel_i* in sparse.f90.j2; fsr_kernel_*, fsr_rot2d_kernel_*, fsr_rot3d_kernel_* in operators.f90.j2"),("use","ProjectionOperator.canonical_basis_in_kernel")],
 ["ProjectionOperator.canonical_basis_in_kernel()"])
add("C06","Restricting a projection renumbers the kept pixels in order",
 "Restricting a sparse operator to a set of pixels renumbers the kept pixels 0,1,2,... in increasing order and drops the entries of the removed ones, leaving values and everything else unchanged, so that the restricted operator applied to a packed map equals the original one applied to that map filled with zeros elsewhere. Corestricting keeps exactly the selected output rows, in order.",
 ["inputs"],"all matrices of all storages, all masks, all index types",
 "The renumbering must be right for every mask and index content; tests try a few masks.",
 [F+"sparse.f90.j2",F+"operators.f90.j2",Y+"sparse.py"],
 [("renumbering","fsr_restrict_i* in sparse.f90.j2, fsr_restrict_*, fsr_rot2d_restrict_*, fsr_rot3d_restrict_* in operators.f90.j2"),("use","SparseOperator.restrict, SparseOperator.corestrict")],
 ["SparseOperator.restrict(mask)","SparseOperator.corestrict(mask)"])
add("C07","In-memory pointing matrix: projection, adjoint and coverage are exact",
 "For a pointing matrix whose samples list their pixels up to the first -1, the projection gives each sample the sum of weight times map value over its listed pixels, the transpose is its exact adjoint, the weighted back-projection returns the transpose of the (unmasked) data and of ones, and P^T P is the exact product.",
 ["inputs"],"all pointing matrices (any number of pixels per sample, any fill), all maps and timelines, all masks",
 "The tests use tiny pointing matrices; early termination at -1 and the one-pixel special cases are content dependent.",
 [F+"module_pointingmatrix.f90",F+"pointingmatrix_old.f90",Y+"operators.py"],
 [("kernels","pmatrix_direct, pmatrix_direct_one_pixel_per_sample, pmatrix_transpose, pmatrix_transpose_one_pixel_per_sample, pmatrix_ptp, backprojection_weight in module_pointingmatrix.f90"),("wrappers","direct, transpose, ptp, ptp_one, backprojection_weight[_mask] in pointingmatrix_old.f90")],
 ["ProjectionInMemoryOperator","pysimulators._flib.pointingmatrix"])
add("C08","Pointing-matrix masks, packing and queries tell the truth",
 "The mask of a pointing matrix clears exactly the pixels seen with a non-zero weight, its validity test accepts exactly the matrices whose indices are -1 or inside the map, its intersection queries report exactly which samples or detectors see a pixel, and packing removes the masked and zero-weight entries and renumbers the others by their rank among the kept pixels, in order.",
 ["inputs"],"all pointing matrices, all masks, all pixels",
 "These are universally quantified questions over the matrix content; the tests ask them for a few fixed matrices.",
 [F+"module_pointingmatrix.f90",F+"pointingmatrix_old.f90",Y+"operators.py"],
 [("kernels","pmatrix_mask, pmatrix_pack in module_pointingmatrix.f90; intersects*, isvalid, mask, pack in pointingmatrix_old.f90"),("use","PointingMatrix.get_mask/isvalid/pack, ProjectionBaseOperator.intersects")],
 ["PointingMatrix.get_mask","PointingMatrix.pack","PointingMatrix.isvalid"])
add("C09","Exponential response: recurrence, exact adjoint, in-place equivalence",
 "The truncated-exponential convolution outputs its first sample unchanged and then w times the previous output plus (1-w) times the input with w = exp(-1/tau); its transpose is the exact adjoint. Applying either one in place gives the same result as out of place, each detector uses its own time constant, a zero time constant is the identity, and samples outside the requested block are untouched.",
 ["inputs"],"all numbers of samples (including 1) and detectors, all strides, all time constants, all signals, in place and out of place",
 "Tests run one out-of-place configuration; the in-place branch is selected by memory aliasing.",
 [F+"module_operators.f90.j2",F+"operators.f90.j2",Y+"operators.py"],
 [("kernels","trexp_direct_inplace_*, trexp_direct_outplace_*, trexp_transpose_inplace_*, trexp_transpose_outplace_* in module_operators.f90.j2"),("per-detector driver","trexp_direct_*, trexp_transpose_* in operators.f90.j2"),("use","ConvolutionTruncatedExponentialOperator")],
 ["ConvolutionTruncatedExponentialOperator(tau)(x)","its .T"])
add("C10","Parallel kernels give the same result under every thread schedule",
 "In every OpenMP-parallel loop of the compiled kernels, two different iterations never touch the same memory unless both only read it or every conflicting access is a protected accumulation, so the result does not depend on the number of threads or on how iterations are scheduled (beyond the rounding of reordered sums).",
 ["schedules","inputs"],"all interleavings of the iterations of every parallel loop, all sizes and contents of the arrays",
 "A race needs two particular iterations to interleave at a particular point; tests run with two threads on tiny inputs.",
 [F+"sparse.f90.j2",F+"module_operators.f90.j2",F+"operators.f90.j2",F+"module_pointingmatrix.f90",F+"projection.f90.j2",F+"geometry.f90",F+"datautils.f90.j2",F+"bi.f90.j2",F+"wcsutils.f90",F+"pointingmatrix_old.f90"],
 [("OpenMP directives","private/reduction clauses, atomic and critical sections on the parallel loops of src/flib")],
 ["any kernel with OMP_NUM_THREADS > 1"])
add("C11","Kernels never read or write outside the arrays they are given",
 "Given arguments that satisfy their documented conditions (sizes consistent with the arrays, stored indices below the number of columns or rows), the compiled kernels access only elements inside the arrays they are passed, whatever those arrays contain.",
 ["inputs"],"all sizes (including zero) and all array contents satisfying the stated preconditions",
 "Out-of-bounds accesses are silent in the release build and depend on the contents of index arrays.",
 [F+"sparse.f90.j2",F+"module_operators.f90.j2",F+"operators.f90.j2",F+"module_pointingmatrix.f90",F+"projection.f90.j2",F+"geometry.f90",F+"datautils.f90.j2",F+"bi.f90.j2",F+"pointingmatrix_old.f90",F+"wcsutils.f90"],
 [("negative-index guard before every indexed access","if (col < 0) cycle in the sparse kernels"),("clamped pixel loops","max(xmin,0) .. min(xmax,nx-1) in projection.f90.j2"),("declared array bounds","dummy argument declarations")],
 ["any kernel of pysimulators._flib"])
add("C12","Overlap area of a polygon with a pixel is exact",
 "The signed overlap area computed between a polygon and the unit pixel is, edge by edge, the signed area under that edge clipped to the pixel: it is additive over the edges, antisymmetric when an edge is reversed, zero when the polygon is outside, and for a simple polygon its absolute value is the area of the intersection, between 0 and 1.",
 ["inputs"],"all polygons (any number of vertices, any position relative to the pixel, vertical and horizontal edges, vertices on pixel corners and sides)",
 "The clipping has about twenty cases; tests sample a few polygons.",
 [F+"module_geometry.f90.j2"],
 [("edge clipping","intersection_segment_unity_square_*"),("sum over edges","intersection_polygon_unity_square_*")],
 ["SceneGrid.get_integration_operator","pysimulators._flib.projection"])
add("C13","Integrating detectors over a pixel grid finds every overlapped pixel",
 "For each detector polygon, the projection lists once every grid pixel it overlaps with a non-zero area, in raster order with the overlap area as weight, then pads with -1 and zero weight; the reported number of pixels needed is the true maximum, so the two-pass sizing loses nothing, and the out-of-grid flag is raised if and only if some polygon reaches outside the grid.",
 ["inputs"],"all polygons inside, straddling or outside the grid, all grid sizes, all capacities (including zero and too small)",
 "The result depends on the bounding-box rounding and on the capacity passed; tests try a few detectors.",
 [F+"projection.f90.j2",F+"module_pointingmatrix.f90",F+"pointingmatrix_old.f90",F+"module_math.f90.j2",Y+"packedtables/scenes.py"],
 [("projection","matrix_polygon_integration_* in projection.f90.j2, roi2pmatrix_cartesian, xy2roi, xy2pmatrix in module_pointingmatrix.f90"),("pixel bounds","round_htmi/round_htpi in module_math.f90.j2"),("two passes","SceneGrid.get_integration_operator")],
 ["SceneGrid.get_integration_operator(vertices)"])
add("C14","Polygon surface and point-in-polygon are exact",
 "The surface of a polygon is its signed shoelace area: it changes sign when the vertices are reversed, is unchanged by translation and by rotating the vertex list. The point test answers on-vertex and on-edge points as on the border, and otherwise inside exactly when a rightward ray crosses the boundary an odd number of times.",
 ["inputs"],"all polygons, all points, all starting vertices, any number of polygons",
 "Degenerate positions (on vertices, edges, horizontal edges) are measure-zero for sampled tests.",
 [F+"geometry.f90",F+"module_geometry.f90.j2",Y+"geometry.py"],
 [("shoelace","surface_simple_polygon in geometry.f90"),("ray crossing","point_in_polygon_* in module_geometry.f90.j2")],
 ["surface_simple_polygon(polygon)"])
add("C15","Detector grids, squares and plane rotations have the stated geometry",
 "A detector grid has its rows and columns evenly spaced by the given spacing, is centred on the given centre, and is reflected and rotated counter-clockwise as requested; each square detector has side spacing times the square root of the filling factor, its four corners in counter-clockwise order (before reflections) around the centre of the corresponding grid point. A plane rotation preserves lengths and is the same in place and out of place.",
 ["inputs"],"all numbers of rows and columns, spacings, filling factors, reflections, angles and centres",
 "Eight combinations of reflection and rotation times any size; tests compare a few.",
 [F+"geometry.f90",Y+"geometry.py"],
 [("grids","create_grid, create_grid_squares in geometry.f90"),("rotation","rotate_2d, rotate_2d_inplace in geometry.f90"),("use","create_grid, create_grid_squares, rotate in geometry.py")],
 ["create_grid","create_grid_squares","rotate"])
add("C16","Polarisation projection stores the rotation implied by the pointing",
 "For every pointing rotation and viewing direction off the poles, the stored polarisation coefficients of a projection are the weight times the cosine and the sine of twice the angle between the local meridians, so that their squares add up to the weight squared, and the intensity coefficient is the weight itself.",
 ["inputs"],"all rotation matrices, unit viewing directions off the poles, weights, numbers of pixels, times and detectors",
 "It is an algebraic identity over all directions and rotations; tests check one configuration against stored values.",
 [F+"bi.f90.j2"],
 [("local basis","en2ephi, en2etheta_ephi"),("frame rotation","rot_ephi, rotinv_e, eni2rotation"),("matrix filling","matrix_rot2d_*, matrix_rot3d_*, weighted_matrix_rot3d_*")],
 ["pysimulators._flib.bi"])
add("C17","Distance maps, Gaussians and radial profiles follow their definition",
 "Distance maps hold at each pixel the scaled Euclidean distance to the origin, Gaussian maps are the normalised product of the two one-dimensional Gaussians, and the radial profile puts every valid pixel in the one bin that contains its distance, returning the bin's count, mean distance and mean value, with empty bins marked as missing.",
 ["inputs"],"all shapes, origins, scales, widths and bin sizes, all map contents including missing values",
 "Tests compare a few shapes against a slow formula.",
 [F+"datautils.f90.j2",F+"module_math.f90.j2",Y+"datautils.py"],
 [("kernels","distance_1d_*, distance2_1d_*, distance_2d_*, distance2_2d_*, gaussian_2d_*, profile_axisymmetric_2d_*"),("use","distance, distance2, gaussian, airy_disk, profile in datautils.py")],
 ["distance","gaussian","profile"])
add("C18","Averages and extrema of angles are right across the 0/360 boundary",
 "The mean of angles within a half-circle is the mean of the angles unwrapped around any of them, modulo 360; the extrema returned with it bound every angle on the short arc around the mean and are attained. Missing values are ignored, an input without valid values gives a missing result, and adding full turns to any input changes nothing.",
 ["inputs"],"all numbers of angles, all angles including the boundaries, missing values anywhere",
 "The wrap-around logic depends on which quadrants the inputs fall in; tests try a few lists.",
 [F+"wcsutils.f90",F+"module_math_old.f90",Y+"wcsutils.py"],
 [("wrap-around logic","mean_degrees, minmax_degrees in wcsutils.f90"),("missing and infinite constants","NaN, pInf, mInf in module_math_old.f90")],
 ["mean_degrees","minmax_degrees"])
add("C19","Selecting in a packed table picks the same elements as array indexing",
 "Selecting elements of a packed table with an integer, a list of integers, a boolean mask or a slice (any start, stop and step, negative or out of range included), possibly several times in a row, keeps exactly the elements, in the same order, that the same selection would keep in an array; the length is their number, every element index lies in the layout, and the attributes follow.",
 ["inputs","histories"],"all table sizes, all slices and index lists, all sequences of selections",
 "Slices have an unbounded, case-rich argument space (sign of the step, clamping, emptiness) and selections compose; tests use a few.",
 [Y+"packedtables/core.py"],
 [("slice normalisation","PackedTable._normalize_slice"),("regular lists compressed to slices","PackedTable._normalize_int_selection"),("composition","PackedTable.__getitem__, __len__, index, _get_index")],
 ["PackedTable(shape, selection=...)","table[selection]","len(table)","table.index"])
add("C20","Packing and unpacking are inverse on the selected elements",
 "Unpacking a packed array and packing it again returns it; packing an unpacked array and unpacking it returns it on the selected elements and the missing value on all the others; neither changes its argument.",
 ["inputs"],"all layouts, all selections and orderings, all arrays",
 "It depends on which representation (everything, slice, list) the selection got; tests try a few.",
 [Y+"packedtables/core.py"],
 [("pack/unpack","PackedTable.pack, PackedTable.unpack, UnpackedTable.__getattribute__"),("representation","PackedTable._index, PackedTable._indexable")],
 ["table.pack(x)","table.unpack(x)","table.all.attr"])
add("C21","Distributing work and maps over processes is an exact partition",
 "For any number of processes and any size, scattering a map header gives the processes consecutive row ranges that tile the global map, with reference pixels shifted accordingly, and gathering it back restores the global header; splitting a table or distributing an observation gives every (valid detector, observation) pair to exactly one process.",
 ["inputs","configurations"],"all sizes, all numbers of processes including more processes than work, all ranks",
 "The tests run with one and two processes only.",
 [Y+"mpiutils.py",Y+"packedtables/core.py"],
 [("header scatter/gather","scatter_fitsheader, gather_fitsheader in mpiutils.py"),("work distribution","distribute_observation in mpiutils.py"),("table partition","PackedTable.split, PackedTable.scatter")],
 ["scatter_fitsheader","gather_fitsheader","distribute_observation","PackedTable.split"])
add("C22","Unit algebra obeys the laws of exponents",
 "Multiplying, dividing and raising units adds, subtracts and scales the exponent of each elementary unit, never keeps an elementary unit with exponent zero, never modifies its operands, and therefore dividing undoes multiplying and a unit divided by itself is dimensionless.",
 ["inputs"],"all units (any set of elementary units with any exponents), all powers",
 "Cancellation depends on which exponents meet; tests try a few units.",
 [Y+"quantities.py"],
 [("exponent arithmetic","_multiply_unit, _divide_unit, _power_unit, _multiply_unit_inplace in quantities.py")],
 ["Quantity arithmetic"])
add("C23","One-sided and two-sided noise spectra convert without losing power",
 "Folding a two-sided spectrum of even length into a one-sided one keeps the total power and the zero and Nyquist frequency values, and unfolding it gives back the original symmetric spectrum; unfolding then folding is the identity.",
 ["inputs"],"all lengths, all spectra, any number of leading dimensions",
 "Boundary bins (zero and Nyquist) are easily mishandled; the repository does not test the pair at all.",
 [Y+"noises.py"],
 [("fold/unfold","_fold_psd, _unfold_psd in noises.py")],
 ["_gaussian_psd_1f","_psd2invntt"])
# candidates that this family cannot decide here
add("C24","FITS maps survive a round trip to disk",
 "Writing a map, time-ordered data or quantity to a FITS file and reading it back returns the same data, header, units and derived units.",
 ["inputs"],"all maps and headers","Only a few files are written by the tests.",
 [Y+"datatypes.py",Y+"mpiutils.py"],[("I/O","FitsArray.save, read_fits, write_fits")])
add("C25","Simulated noise has the requested power spectrum",
 "The noise realisations drawn for a given power spectral density have that density in expectation.",
 ["inputs","histories"],"all spectra, all random streams","A statistical property of an unbounded number of draws.",
 [Y+"noises.py"],[("sampling","_gaussian_sample")])
add("C26","Conversions and operations in mixed units keep the physical value",
 "Converting a quantity to SI or to a compatible unit (in place or not, there and back) multiplies every value by the ratio of the two units, also when a derived unit takes one value per row or column, and an incompatible unit is refused, leaving the quantity as it was. Sums, differences, remainders, extrema, clipping, comparisons, choices and concatenations of quantities in compatible but different units give the result that they would give in one unit, expressed in the unit of the first operand that has one (no unit for comparisons), and refuse incompatible operands. Element-wise functions and reductions that keep the dimension keep the unit, the variance squares it, products and quotients combine the units, and no operand is modified.",
 ["inputs","programs"],"all values, shapes and units built from the table of units and from derived units attached to the quantity, all combinations of operands with and without unit",
 "Every numpy function goes through one dispatch that decides which operands to convert; tests try one function with one pair of units.",
 [Y+"quantities.py"],
 [("conversion","Quantity.SI, tounit, inunit, _check_du, _get_du"),("dispatch","Quantity.__array_ufunc__, __array_function__, _get_inputs_with_common_units, _convert_function_inputs, _convert_function_outputs, table FUNCTIONS")],
 ["Quantity(3, 'km').tounit('m')","Quantity(3, 'km') + Quantity(3, 'm')"])
add("C27","Results are accurate to rounding error",
 "Every kernel's floating-point result differs from the exact real result by no more than a small multiple of the rounding unit times the magnitude of its terms.",
 ["inputs"],"all finite inputs","Rounding accumulates differently for every input.",
 [F+"sparse.f90.j2"],[("floating point","all kernels")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s); assert len(p['title'])<=80
print(len(P))
