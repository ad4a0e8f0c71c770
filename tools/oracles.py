ORACLE = {
'P01': "NumPy's own indexing of an index array of the same shape; every element of the result has to be the very symbolic term of the selected element, coordinates likewise.",
'P02': "the set of grid points inside the closed interval, from comparisons of symbolic interval ends with the coordinates (forward and reversed, with steps).",
'P03': "minimality: no coordinate is closer to the (symbolic) location than the one returned.",
'P04': "Python's slice semantics on the original array: arr[slice] element by element.",
'P05': "the location of every value before slicing (one symbolic value per cell) compared with the location reported after slicing.",
'P06': "(x[i] + x[i+1]) / 2 and the differences of the node array, for uniform, nonuniform, cylindrical and spherical types.",
'P07': "index arithmetic on the original values: value at (n-1-i), negated coordinates; applying it twice gives the original terms.",
'P08': "component k of the original symbolic data at every point, for all layouts and transitions between them.",
'P09': "the Python operator on the pair of elements, with the layouts lined up by component; metadata of the left operand.",
'P10': "the same selection applied to a loaded copy; stand-in data wrappers record that only the selection is read.",
'P11': "the interpolated polynomial itself (exact on trilinear functions), min/max of the eight corners, equality from both sides of a face.",
'P12': "the cell that brackets the symbolic coordinate; every array access inside its array, from any symbolic cached start index.",
'P13': "Taylor expansion of the exact solution in linear fields, |step| = ds, direction cosines of the field at the point.",
'P14': "the statement's inequalities on the step sequence produced for symbolic error estimates.",
'P15': "reachability of each stop reason restated from the limits: the last vertex inside, the next step outside, the budget used up.",
'P16': "a table of end codes, written from the documentation, over all pairs of ends.",
'P17': "the patch bounds themselves: the interpolated value equals that patch's trilinear function.",
'P18': "face adjacency of the boxes, computed from the symbolic bounds, both ways.",
'P19': "overlap of box and selection; per patch result of the plain field operation.",
'P20': "the analytic null of a linear field and the corner sign test of the trilinear interpolant.",
'P21': "the coefficients of the linear field.",
'P22': "vector identities over terms and equality of the NumPy and numexpr branches.",
'P23': "mean of the two faces / four edges named by the staggering convention; telescoped fluxes for the divergence.",
'P24': "central differences of the linear field, i.e. its coefficient matrix.",
'P25': "sums over a line's own segments with exact lengths.",
'P27': "a list of (item, handles, references) maintained alongside every history of operations.",
'P28': "shortest distance over the chosen parent links.",
'P29': "sorted order of the symbolic times and nearest / bracketing selection.",
'P30': "each index in exactly one chunk, sizes differ by at most one.",
'P32': "textbook matrices (products of elementary rotations, Rodrigues' formula, quaternion matrix) as rational functions of half-angle tangents.",
'P33': "the chain of elementary rotations written from the definition of each frame, orthonormality, there-and-back identity.",
'P34': "textbook spherical formulas; values followed by location through every conversion.",
'P35': "(3 (m.p) p / r^2 - m) / r^3 and r = L cos^2(lat) for mapping along field lines.",
'P36': "the expression tree that produced the text, evaluated element by element.",
'P37': "vertex by vertex bookkeeping of the lines given.",
'P40': "the variances and directions the series was built from; triad identities; the points p1 + t (p2 - p1).",
}
