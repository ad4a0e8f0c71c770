# Single source for properties.jsonl:  python3 tools/mkprops.py
# (id, title, statement, over, quantifier text, why tests cannot, files, mechanisms[(name, where)])
P = []
def add(*a): P.append(a)

add("P01", "Index selections follow NumPy semantics on every axis",
    "Selecting part of a field by index (ints, slices with any start/stop/step, Ellipsis, newaxis, missing trailing axes, or the equivalent text form such as 'y=1:3, x=::2' with axes named in any order) returns exactly the values NumPy slicing of the field's array would return for that axis-ordered selection (a single value left over is returned as a number). Equivalent spellings of one selection (tuple of slices, one comma separated string, named axes) give the same result, and a selection naming a nonexistent axis or too many axes is rejected.",
    ["inputs"], "every array length 1..N per axis, every in- and out-of-range integer start/stop/step (any sign), every axis order",
    "Tests check a few literal slices on one grid; off-by-one and sign mistakes only show at particular start/stop/step/length combinations.",
    ["viscid/sliceutil.py", "viscid/field.py", "viscid/coordinate.py"],
    [("selection parsing and standardization", "viscid/sliceutil.py: raw_sel2sel_list, standardize_sel, fill_nd_sel_list"), ("field slicing", "viscid/field.py: slice, slice_reduce, slice_and_keep")])
add("P02", "Selecting by location picks exactly the points in the interval",
    "For ascending coordinates, a slice given by coordinate values start..stop (either end may be missing, and the two ends may lie anywhere, including off the grid or between points) with a given stride selects exactly the points from the first one not before start, in steps of the stride (forward or backward), up to and including the last one not beyond stop, points within a ten thousandth of the smallest spacing of an end counting as on it. Mixing a location on one end with an index on the other gives the same end point as the equivalent pure selection.",
    ["inputs"], "every strictly ascending coordinate array up to N points, every real start/stop, strides of either sign",
    "Boundary cases (bound equal to a point, bound outside the grid, negative strides) are measure-zero for sampled tests.",
    ["viscid/sliceutil.py"],
    [("value to index translation", "viscid/sliceutil.py: std_sel2index, sel2index")])
add("P03", "Selecting a single location returns the nearest point",
    "Selecting one coordinate value returns the data and coordinate of a grid point whose distance to the requested value is minimal, for ascending and descending, uniform and nonuniform coordinates, including requested values outside the grid.",
    ["inputs"], "every strictly monotonic coordinate array up to N points, every real location",
    "Ties, end intervals and uneven spacings are only sampled by tests.",
    ["viscid/sliceutil.py", "viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx"],
    [("nearest index", "viscid/sliceutil.py: std_sel2index / cycalc closest_ind"), ("nearest interpolation", "viscid/cython/cycalc.pyx: interp_nearest")])
add("P04", "Forward-slice rewriting is equivalent to the original slice",
    "The helper that turns an arbitrary slice (negative stride, reversed dimension) into a forward slice on the stored order plus a post-load slice selects the same elements in the same order as applying the original slice directly to the (optionally reversed) array, for start and stop within [-L, L].",
    ["inputs"], "every length, start, stop, nonzero stride and reversal flag within the bound",
    "Four interacting sign conventions; tests try a few constants.",
    ["viscid/sliceutil.py"], [("forward slice", "viscid/sliceutil.py: make_fwd_slice")])
add("P05", "Sliced data stay attached to their own coordinates",
    "After any slice of a field, by index or by location, for node and cell centered fields on uniform and nonuniform coordinates, every remaining value is found at the same coordinates it had before slicing, and number of points, axis order and dropped axes of coordinates and data agree. Cell centered fields keep cells bounded by the same nodes for unit stride slices and keep their cell centers for strided ones.",
    ["inputs"], "every coordinate array, slice start/stop/stride in range, both centerings, all retained-axis modes",
    "Tests compare shapes or a handful of slices; misalignment by half a cell or by one point appears only for some centering/stride/uniformity combination.",
    ["viscid/coordinate.py", "viscid/field.py"],
    [("coordinate slicing", "viscid/coordinate.py: make_slice, make_slice_reduce, make_slice_keep, slice_*"), ("field slicing", "viscid/field.py: _finalize_slice")])
add("P06", "Cell centers are midpoints of adjacent nodes, for every grid type",
    "Cell centered coordinates are the midpoints of neighbouring nodes, there is exactly one cell fewer than nodes in every dimension with more than one node, and lower/upper bounds, lengths and minimum spacings reported for nodes or cells agree with the coordinate arrays themselves. A uniform grid given by (low, high, count) reports the same values for all of these as the nonuniform grid holding the same node positions.",
    ["inputs"], "every node array up to N points and every uniform (low, high, n)",
    "Tests look at shapes on a few grids, never at bounds/extents for every size or across grid types.",
    ["viscid/coordinate.py"], [("uniform crds", "viscid/coordinate.py: UniformCrds"), ("nonuniform crds", "viscid/coordinate.py: NonuniformCrds")])
add("P07", "Axis reflection reverses data and coordinates together and is an involution",
    "Reflecting coordinates about the origin along chosen axes negates and reverses exactly those axes, keeps them ascending, and applying the same reflection twice restores the original coordinates; data of fields on reflected coordinates are reversed with them. Transposing or reordering axes moves each coordinate together with its data axis.",
    ["inputs"], "every node array and every subset of axes / permutation of axes",
    "Only specific files exercise reflections today.",
    ["viscid/coordinate.py", "viscid/field.py"], [("reflection", "viscid/coordinate.py: reflect/apply_reflections"), ("transpose", "viscid/field.py: transpose, spatial_transpose, swapaxes")])
add("P08", "Vector layout changes preserve every component value",
    "Converting a vector field between component-first and component-last layouts (in either direction, repeatedly, or on request when wrapping) keeps the value of every component at every point, component access by name, index or view returns that component's scalar data in either layout, and assigning through a component changes only that component. (An array whose shape fits both layouts is taken as component-first.)",
    ["inputs"], "every shape up to the bound and every (symbolic) data value",
    "Tests compare sums on single fields, not element identity for every shape.",
    ["viscid/field.py"], [("layout change", "viscid/field.py: change_layout, as_layout, component_views, __getitem__")])
add("P09", "Field arithmetic is elementwise and keeps metadata",
    "Arithmetic, comparison and ufunc results on fields equal the same operation on the underlying arrays point by point, component by component, whatever the operand order (field op field, field op number, number op field), and carry the coordinates and centering of the operands; reductions along an axis drop that axis only. In-place assignment of a selection changes exactly the selected elements, also through loc and iloc.",
    ["inputs"], "every value, every shape and operator within the bound",
    "Operand-order and reflected-operator mistakes appear only for specific operators.",
    ["viscid/field.py"], [("operators", "viscid/field.py: Field.__add__ ... __array_wrap__, __setitem__, set_slice")])
add("P10", "Lazily sliced data equal loading everything and slicing afterwards",
    "For a field whose data live in a lazy source (transposed storage order, component-by-component sources, files that must be read forward), slicing before the data are loaded gives exactly the values of loading the full field and slicing it, and a cache clear and reload gives the same values.",
    ["inputs", "configurations"], "every slice in range, storage order and layout, symbolic data",
    "Tests load whole files of one layout; the pre-load slicing path multiplies with storage order, layout and reversed axes.",
    ["viscid/field.py", "viscid/readers/hdf5.py", "viscid/readers/ggcm_jrrle.py"], [("lazy slicing", "viscid/field.py: _fill_cache, _dat_to_ndarray"), ("hdf5 slicing", "viscid/readers/hdf5.py: H5pyDataWrapper")])
add("P11", "Trilinear interpolation is exact, bounded and continuous",
    "Trilinear interpolation at any point inside the grid returns exactly the trilinear combination of the eight surrounding values: it equals the field at grid points, reproduces any function linear in each coordinate, never leaves the range of the surrounding values, and agrees between uniform and nonuniform descriptions of the same grid. Dimensions with a single point are constant, and outside the grid the value at the nearest border point is used. Nearest neighbour interpolation returns the value of a closest grid point.",
    ["inputs"], "every point inside the grid, every field value, every monotonic coordinate array within the bound",
    "Tests interpolate one smooth field at random points with loose tolerances.",
    ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx"], [("trilinear weights", "viscid/cython/cycalc.pyx: _c_interp_trilin")])
add("P12", "Grid index lookup is memory safe and correct from any cached start",
    "Whatever the query location (inside or outside the grid) and whatever cell was found last, the grid cell lookup terminates, yields a valid cell index, and inside the grid that cell contains the location. Interpolation never reads outside the coordinate or data arrays, for any query point.",
    ["inputs", "histories"], "every monotonic array up to N points, every location, every cached starting index",
    "Bounds checks are compiled out, so an out-of-range read is silent in tests.",
    ["viscid/cython/cycalc.pyx", "viscid/cython/cyfield.pyx"], [("cell search", "viscid/cython/cycalc.pyx: closest_preceeding_ind, closest_ind")])
add("P13", "Streamline integrators take consistent steps along the field",
    "Every streamline integrator advances a point along the local direction of the field, with displacement exactly step length times direction in a constant field, forward and backward steps being opposite, and in any smooth field with the order of accuracy of its method (1 for euler1, euler1a and rk12, 2 for rk2, 4 for rk4 and rk45). A field that vanishes (at the seed or further on) ends the line, reported as zero length, instead of producing undefined coordinates.",
    ["inputs"], "every field direction, step length (either sign), and start point; linear fields with symbolic coefficients",
    "Tests integrate one dipole and only look at pictures or end classifications.",
    ["viscid/cython/integrate.pyx"], [("steppers", "viscid/cython/integrate.pyx: _c_euler1, _c_rk2, _c_rk12, _c_euler1a, _c_rk45")])
add("P14", "Adaptive step control respects its limits",
    "Starting from a step within the limits, adaptive integrators never take a step longer than largest_ds or shorter than smallest_ds, keep the direction of travel, accept a step only when its error estimate is within max_error (or the smallest step was reached), and shorten every rejected step so that they always terminate.",
    ["inputs"], "every error estimate, tolerance and current step size within limits",
    "Controller corner cases (estimate zero, estimate huge, limits hit) are not reached by smooth test fields.",
    ["viscid/cython/integrate.pyx"], [("step control", "viscid/cython/integrate.pyx: adaptive steppers")])
add("P15", "Streamlines stop for the right reason and inside the limits",
    "A streamline passes through its seed, lists points in order along the field with the seed once, and stops at the first point that leaves the outer box or sphere, enters the inner sphere or reaches the length, time or step-count limit, reporting (topo_style generic) exactly that reason for each direction. With a fixed step, a line that ends for its length or time is cut at exactly max_length or max_t, and each direction has at most maxit steps. Lines of several seeds do not influence each other and are returned in seed order, and in AMR fields every step uses the patch it starts in.",
    ["inputs"], "every seed, step outcome sequence within the step bound, every boundary and limit value",
    "Tests check aggregate topology colors on one field.",
    ["viscid/cython/streamline.pyx"], [("line tracing", "viscid/cython/streamline.pyx: _streamline_fixed_ds / classify_endpoint")])
add("P16", "Topology codes are a faithful function of the two line ends",
    "The topology value of a line traced in both directions depends only on how its two ends terminated and not on their order: closed when both ends reach the inner boundary, open-north or open-south when one end reaches it on that side and the other an outer boundary, solar wind when both reach outer boundaries, and none of these when an end stopped for another reason; the generic style is the combination of both end flags. topology2color maps each class to its documented color and other values to bad_color.",
    ["inputs"], "every combination of end flags",
    "Tests see only the flag combinations of one dipole.",
    ["viscid/cython/streamline.pyx", "viscid/calculator/topology.py"], [("topology mapping", "viscid/cython/streamline.pyx: end_flags_to_topology")])
add("P17", "AMR point lookup always uses the patch that contains the point",
    "For any set of non-overlapping patches covering a region and any query point in it, whatever patch was used last, interpolation (trilinear or nearest) uses a patch whose bounds contain the point, and the value is that patch's own interpolation. Points outside all patches take the value of the patch with the closest center.",
    ["inputs", "histories"], "symbolic patch bounds and query points; every previously active patch",
    "Tests interpolate on two fixed patches.",
    ["viscid/cython/cyamr.pyx", "viscid/amr_grid.py"], [("patch activation", "viscid/cython/cyamr.pyx: activate_patch")])
add("P18", "AMR neighbor discovery is symmetric and complete",
    "Two patches of a non-overlapping set are recorded as neighbors exactly when their closed boxes touch (at a face, edge or corner), each neighbor once, with the directions of contact recorded and opposite sides seen from the two patches; the relation is symmetric, and no patch neighbors itself.",
    ["inputs"], "symbolic boxes for up to N patches",
    "Only one fixed patch layout is tested.",
    ["viscid/cython/cyamr.pyx", "viscid/amr_grid.py"], [("neighbors", "viscid/cython/cyamr.pyx: discover_neighbors")])
add("P19", "Slicing an AMR field keeps exactly the patches overlapping the selection",
    "Slicing an AMR field by location returns the slices of every patch whose extent overlaps the selected region, drops those that do not, and never returns data from outside it. Arithmetic on AMR fields acts patch by patch.",
    ["inputs"], "symbolic selection bounds and patch boxes",
    "Tests use one selection on one file.",
    ["viscid/amr_field.py"], [("patch selection", "viscid/amr_field.py: _prepare_amr_slice")])
add("P20", "The null finder reports exactly the cells that contain a null",
    "For a 3D vector field linear in the coordinates with a single null, find_nulls reports exactly the grid cell that contains the null, by its indices and the coordinates of its lower corner, for every position of the null and any orientation, spacing, layout and centering; a null outside the grid, or a field without any null, gives an empty result. A cell where some component has one strict sign at all corners is never reported, and cells whose lower corner is closer to the origin than ibound are ignored. A null on the face between two cells is reported in one of them or both.",
    ["inputs"], "every position of the null (eight field matrices), every corner value of one component",
    "One analytic field is tested; which of the face roots matter depends on where the null is and on how the components depend on each coordinate.",
    ["viscid/cython/null_tools.pyx"], [("face roots", "viscid/cython/null_tools.pyx: find_roots_face, _py_find_null_cells_from_candidates"), ("candidate cells", "viscid/cython/null_tools.pyx: _py_reduce_candidates")])
add("P21", "Gradient, divergence and curl are exact on linear fields",
    "On any rectilinear 3D grid (uneven spacing included, node or cell centered, either vector layout, every backend) gradient, divergence, curl and convective derivative of fields linear in the coordinates are exact at all interior points, and at the outermost points when boundaries are included, and every result is located at the coordinates and centering of its inputs. For any values, each interior result is the central difference quotient of that point's own neighbours. Curl of a discrete gradient and divergence of a discrete curl vanish on uniform grids away from boundaries.",
    ["inputs"], "symbolic coordinates, coefficients and values on grids up to the bound",
    "Tests use one analytic function on one grid with large tolerances, which hide swapped components or spacings.",
    ["viscid/calculator/calc.py", "viscid/calculator/necalc.py"], [("numpy backends", "viscid/calculator/calc.py: _grad_np, _div_np, _curl_np"), ("numexpr backends", "viscid/calculator/necalc.py")])
add("P22", "Vector algebra obeys its identities and all backends agree",
    "Dot, cross, magnitude, normalization and (scalar or vector) projection satisfy their defining identities at every point for either layout and any centering (a cross b is orthogonal to both, magnitude squared is dot with itself, normalizing gives unit vectors, projection times magnitude is the dot product), and keep the coordinates and centering of their first operand. Every available backend returns the same values, also for neg, scale, add, diff, mul, axpby, abs_val, abs_diff, abs_max, abs_min and relative_diff ((a - b) / a), on scalar and vector fields.",
    ["inputs"], "symbolic vectors at every point, both layouts, every backend",
    "Tests compare backends on sample data with one layout.",
    ["viscid/calculator/calc.py", "viscid/calculator/necalc.py"], [("operations", "viscid/calculator/calc.py: Operation implementations")])
add("P23", "Staggered fields convert to cell centers conservatively",
    "Face and edge centered fields converted to cell centers give, at each cell, the mean of that cell's own two faces or four edges, and the divergence of a face centered field is the flux through each cell's own faces over its size, so that summed with the cell volumes it equals the net flux through the outer faces; this holds for leading and trailing staggering, flipped axes and single-cell axes, and the results sit at the coordinates of their cells. Extending the boundaries of a field by any number of points on any axes repeats (order 0) or linearly continues (order 1) the edge values and leaves interior values and coordinates unchanged.",
    ["inputs"], "symbolic face/edge values and spacings, all staggering conventions",
    "Tests use one file with one staggering.",
    ["viscid/calculator/ecfc.py", "viscid/calculator/calc.py"], [("ec/fc averaging", "viscid/calculator/ecfc.py: fc2cc, ec2cc, div_fc"), ("boundaries", "viscid/calculator/calc.py: extend_boundaries")])
add("P24", "Jacobian, divergence and curl at a point or index agree with the field",
    "The Jacobian at an interior index is the central difference quotient of that point's own neighbours, and Jacobian, divergence and curl at an arbitrary point (integer or float location, sample distances given or taken from the grid) of a cell centered field linear in the coordinates are its exact derivatives as long as the sample points lie inside the grid. For any field, at the same point and distances, the divergence is the trace and the curl the antisymmetric part of the Jacobian.",
    ["inputs"], "every linear field, every interior point and sample distance, every set of values",
    "Not tested; errors are index permutations that only some components reveal.",
    ["viscid/calculator/calc.py"], [("point derivatives", "viscid/calculator/calc.py: local_vector_points, jacobian_at_point, jacobian_at_ind, div_at_point, curl_at_point")])
add("P25", "Integrals and projections along lines use each line's own segments",
    "Integrating a field along lines gives, for every line, the sum over its segments of segment length times the mean of the two end values (for vectors the component along the segment, or the magnitude on request), whatever other lines are processed with it; reversing a line reverses the sign of the component form. Projecting along a line gives at each vertex the component along the direction from the previous to the next vertex, end vertices using the direction of the vertex next to them. Linearly resampling a line of N points gives ceil(factor * (N - 1)) + 1 points on it, evenly spaced in vertex number, with the same end points.",
    ["inputs"], "every vertex value, symbolic vertices, sets of lines in any order",
    "Not tested beyond running.",
    ["viscid/calculator/calc.py"], [("line integral", "viscid/calculator/calc.py: integrate_along_lines"), ("projection", "viscid/calculator/calc.py: project_along_line"), ("resample", "viscid/calculator/calc.py: resample_lines")])
add("P26", "Run-length encoded output decodes back to what was encoded",
    "Encoding an integer sequence with the run-length text codec used by simulation output and decoding it gives the original sequence, for any run structure and values in range; decoding never writes past the requested count, whatever the text.",
    ["inputs"], "every integer sequence up to the bound in the codec's value range; arbitrary text lines up to the bound",
    "One sample file is decoded.",
    ["viscid/readers/_jrrle.f90"], [("codec", "viscid/readers/_jrrle.f90: wrnenc, wrndec")])
add("P27", "Bulk lookup by name or alias is consistent after any edit history",
    "After any sequence of insertions (by set_item or assignment, under any handles), replacements, removals (by handle or item), dropped references and emptying of the ordered item container, each live handle resolves to the item last stored under it, every stored item is reachable by at least one handle, and removed items, their handles and items that lost their last handle are not found. Iteration lists each item once in insertion order, and every newly stored item also gets the next integer (0, 1, 2, ... in order of insertion, not reused) as handle unless that is declined. The caller's list of handles is not changed.",
    ["histories"], "every sequence of operations up to the bound over a symbolic choice of handles and items",
    "History dependent; tests only insert.",
    ["viscid/bucket.py"], [("bucket", "viscid/bucket.py: set_item, remove_item, __delitem__, remove_reference, contains_handle, contains_item, items")])
add("P28", "Inherited information resolves to the nearest ancestor",
    "Looking up information or attributes (find_info, find_info_owner, get_all_info, find_attr) on a field, grid, dataset or file returns the object's own value when it has one and otherwise the value of a nearest ancestor that has it, for any parent graph including cycles; missing keys give the default or an error. Setting a value affects only that object and what descendants inherit, and updating changes only the nearest owner. A node's time, set on an existing node or while creating it, as number, time delta or date, is the number of seconds since the inherited base time.",
    ["inputs", "configurations"], "every parent graph up to N nodes and every placement of values",
    "Tests use linear chains from sample files.",
    ["viscid/tree.py"], [("info lookup", "viscid/tree.py: _parent_bfs, find_info, find_info_owner, get_all_info, update_info, find_attr"), ("times", "viscid/tree.py: Node.time, Node.__init__")])
add("P29", "Temporal datasets stay time ordered and select the right times",
    "A temporal data set holds every grid added to it exactly once, in ascending time order whatever the order of insertion (equal times in insertion order). Selecting by one time value (directly, through a parent data set, or when getting a child, grid or field, or activating) gives the step nearest that time, a time interval with an optional stride gives exactly the steps inside it (ends included) in order, and integer positions and slices behave as on a list of the ordered steps. Time deltas are taken in the requested unit (seconds, minutes, hours), and each position 0 .. n-1 is contained in the data set.",
    ["histories", "inputs"], "symbolic times and insertion orders up to the bound, symbolic query times",
    "Tests use one sorted sample series.",
    ["viscid/dataset.py", "viscid/sliceutil.py"], [("temporal dataset", "viscid/dataset.py: DatasetTemporal.add, _slice_time")])
add("P30", "Work is partitioned completely and without overlap",
    "Splitting a sequence or a length into chunks for parallel execution produces consecutive disjoint pieces whose concatenation is exactly the input, with the requested number or size of pieces and sizes differing by at most one when balanced, and parallel results come back in input order.",
    ["inputs"], "every length and chunk count / size within the bound",
    "Tests use a few lengths.",
    ["viscid/parallel.py"], [("chunking", "viscid/parallel.py: chunk_list, chunk_slices, chunk_interslices, chunk_sizes")])
add("P31", "Seed generators produce the advertised points",
    "Every seed generator yields exactly the number of points it reports, all of them on the described line, plane, box or sphere with the described extent and end points, in the order of its own local coordinates, so that values computed per point and wrapped as a field or mesh sit at their own seed location. Local to 3D transforms invert where both are provided.",
    ["inputs"], "symbolic origins, directions and extents; all point counts within the bound",
    "Tests plot seeds only.",
    ["viscid/seed.py"], [("seed generators", "viscid/seed.py: Line, Plane, Volume, Sphere, SphericalCap, Circle, SphericalPatch")])
add("P32", "Rotation conversions describe the same rotation and invert each other",
    "Rotation matrices built from angles (right handed rotations about x, y, z, combined in the documented order for the angle* and eul* functions, for all 12 axis orders), from an axis of any length and an angle, or from a quaternion of any length are orthonormal with determinant one and equal the textbook matrix; the dcm variants are their transposes. Converting a matrix or quaternion to Euler angles (also at the singular angles), axis and angle, or quaternion and back gives the same rotation, products and rotate / quat_rotate apply the last factor first, for single values and for every member of a stack, in radians or degrees. angle_between lies in 0..180 degrees, a2b_rot takes a to the direction of b (parallel and opposite too), then applies the roll around b or turns x towards new_x, and quaternions given stay unchanged.",
    ["inputs"], "every angle up to 172 degrees and multiples of 90, every axis, quaternion and vector with bounded components (sine and cosine through their algebraic identities)",
    "Tests sample random rotations; degenerate branches (180 degrees, parallel vectors, trace zero) and stacks of unequal members are not hit.",
    ["viscid/rotation.py"], [("rotations", "viscid/rotation.py: quat2rot, rot2quat, quatmul, wxyz2rot, rot2wxyz, quat2wxyz, a2b_rot, e_rot, angle2rot, rot2angle")])
add("P33", "Geophysical frame transforms are rotations that compose and invert",
    "At every time, and for every dipole tilt and gsm angle given by hand, transforming between any two of gei, geo, gse, gsm, sm, mag and mhd is a rotation (mhd is gse with x and y reversed), transforming back restores the vector, going via any third system equals the direct transform whatever was asked for before, and stacks of vectors, 3x3 and 4x4 matrices and upper case names give the same; the gei, geo and gse transforms are Hapgood's. The northern dipole axis (from the IGRF coefficients, linear in time between table years and constant outside) is z in sm and mag and lies in the gsm x-z plane at the dipole tilt, positive tilt points it sunward and positive gsm angle duskward, and the dipole moment is opposite to it with the requested strength; dipole_moment2cotr gives back the frame of a gse or mhd moment. On Jan 1 1967 (unless notilt1967 is off) all of these systems but mhd coincide.",
    ["inputs"], "every ordered pair and triple of systems, symbolic time, dipole and ecliptic angles, coefficients and vectors",
    "Tests compare a few dates to stored numbers.",
    ["viscid/cotr.py"], [("frames", "viscid/cotr.py: Cotr.get_transform_matrix, XFORM_LOOKUP, _get_emat, Q_g, dip_gsm, dip_tilt"), ("elementary rotations", "viscid/cotr.py: make_rotation"), ("dipole", "viscid/cotr.py: get_dipole_moment, dipole_moment2cotr, _igrf_interpolate")])
add("P34", "Spherical, map and Cartesian representations convert back and forth",
    "Cartesian to spherical or latitude/longitude and back returns the original points in degrees or radians, colatitude and latitude are complementary in the units in use, and converting a field between spherical and map coordinates (either axis order, any centering and layout) keeps each value at its own place and inverts exactly. A polar view keeps exactly the points within the bounding angle of the pole, by their angle from it, and a great circle starts and ends at the two points, in their plane and the short way round.",
    ["inputs"], "symbolic points and coordinate arrays, both units",
    "Only plotting tests exercise these.",
    ["viscid/mapfield.py"], [("conversions", "viscid/mapfield.py: cart2sph, sph2cart, latlon2cart, cart2latlon, as_mapfield, as_spherefield, as_polar_mapfield, pts2polar_mapfield, great_circle")])
add("P35", "The dipole formulas agree with each other",
    "The dipole field computed at scattered points and the one filled on a grid (node or cell centered, any layout) are both the analytic dipole, for any moment and number of points. Mapping points along the dipole keeps their field line, azimuth and hemisphere and ends at the requested radius. Filling or blending with a mask (scalar, vector or between two radii) changes exactly the masked values.",
    ["inputs"], "symbolic moments, points and radii",
    "Tests plot one dipole.",
    ["viscid/dipole.py"], [("dipole", "viscid/dipole.py: calc_dip, fill_dipole, dipole_map, set_in_region, make_spherical_mask")])
add("P36", "Derived quantities evaluate as the written equation",
    "Evaluating an equation of arithmetic, sqrt, abs, where, dot and cross over a grid's fields gives, at every point, the value of that equation with each name replaced by that field's value there, with or without numexpr and for field names that contain one another or are also names of functions. The result is a field with the requested name and the centering and coordinates of its operands, vectors combine as in field arithmetic, and the grid's own fields keep their names and values. Slicing before a pointwise evaluation or after it gives the same values and coordinates, and equations are refused unless evaluation is enabled.",
    ["inputs"], "a grammar of equations with symbolic field values",
    "Tests evaluate one equation.",
    ["viscid/calculator/evaluator.py", "viscid/grid.py"], [("evaluator", "viscid/calculator/evaluator.py")])
add("P37", "Line collections flatten to matching vertices, scalars and connections",
    "prepare_lines lists the vertices of all lines in order, and its connections join exactly the consecutive vertices of the same line (one point lines have none). A single number, one number per line or per vertex (list, tuple, row, column or field), rows carried by the lines themselves, or a field to be interpolated end up on the vertices they belong to, and so do rgb(a) colors given once, per line or per vertex as tuples, arrays, extra rows of the lines, hex strings or color names, as 0 .. 255 integers. Other arrays with one column per line or vertex are spread the same way, and the caller's lines and lists stay as they were.",
    ["inputs"], "every list of lines with lengths within the bound, symbolic scalars",
    "Only plotted.",
    ["viscid/vutil.py"], [("flattening", "viscid/vutil.py: prepare_lines")])
add("P38", "Times convert between units without losing the instant",
    "Rounding, regularizing, adding and subtracting times keeps the represented instant whenever the target unit can hold it, rounds only to coarser units otherwise, and reports overflow or truncation to zero instead of returning a wrong time.",
    ["inputs"], "every 64-bit count and unit pair",
    "Tests print a few dates.",
    ["viscid/npdatetime.py"], [("time units", "viscid/npdatetime.py: regularize_time, round_time, time_sum, time_diff")])
add("P39", "Lazy file readers place every stored value at its own grid point",
    "Readers that reorder, reverse, unpack or join stored blocks (simulation text tables, binary meshes, multi-block and transposed files) return each stored value at the grid index the format assigns to it, for every grid size.",
    ["inputs"], "symbolic payloads for every small grid size and block layout",
    "One sample per format.",
    ["viscid/readers/athena_bin.py", "viscid/readers/athena_tab.py", "viscid/readers/hdf5.py", "viscid/readers/ggcm_fortbin.py", "viscid/readers/gkeyll.py"], [("readers", "viscid/readers")])
add("P40", "Minimum variance frames are orthonormal and ordered",
    "Minimum variance analysis of a vector series ignores samples that are not finite, needs three finite ones, and returns the variances in ascending order, each with a unit vector along its direction, whatever order and signs the eigenvalue solver uses; between two points or around a point it samples the field at equal distances on exactly that line. Boundary normal frames are right handed orthonormal triads (columns l, m, n) whose n lies along the least variance and whose l is the reference vector of any length projected perpendicular to n, or the direction of largest variance if the reference is missing or along n, with either sign.",
    ["inputs"], "symbolic asymptotic field vectors",
    "Tests compare one case numerically.",
    ["viscid/calculator/minvar_tools.py"], [("lmn frames", "viscid/calculator/minvar_tools.py")])
