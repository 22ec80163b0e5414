# per property: (oracle: what the assertions compare with, why this reaches what tests cannot)
N = {
'B01': ('The result is compared with `v + k1 a1 + k2 a2 + k3 a3` where the integers are derived from the input by floor on each fractional coordinate in exact arithmetic; idempotence and invariance under a symbolic lattice translation are relational (two runs of the code, equal outputs). `wrap_rounding` uses bit-exact float32 with values next to the faces.',
        'coordinates up to three cells away in every direction in skewed boxes with all 8 periodicities, including points on the faces.'),
'B02': ('Formulas of the box matrix over symbolic values (absolute/fractional), round trips, and image = the integers by which the point was moved. Broadcasting of `unwrap` compared row by row.', 'every image index and cell.'),
'B03': ('Norm of the wrapped displacement; in orthorhombic boxes the minimum over the 27 images, written with ite.', 'every pair of lattice points rather than random pairs.'),
'B04': ('Strict inequalities on exact fractional coordinates.', 'corners and rims of skewed boxes.'),
'B05': ('The circular mean written with the same tables of sin and cos at 1e-4; single particle = its own centre is exact.', 'all cross combinations of positions and masses incl. 0.'),
'B06': ('Every form is compared with the six numbers it was made from; matrix/angle forms by round trips; equality against equality of the tuples; refusals against the written list of invalid inputs.', 'all combinations of lengths, tilts, dimension and periodicity.'),
'N01': ('The set {(i, j): r_min <= |wrap(p_j - q_i)| < r_max} computed by brute force over the symbolic positions; membership of every pair decided by z3 on each path of the tree walk.', 'one path covers all positions following it, so images at rims and corners are not sampled but covered.'),
'N02': ('as N01, with four cell widths (cells smaller and larger than the cutoff).', 'cell borders.'),
'N03': ('as N01, against CellQuery (ghost layers, grid of cells).', 'ghost layers in skewed cells.'),
'N04': ('The k smallest squared distances among the eligible points; every point left out must be at least as far as every one returned (ties free).', 'r_guess/scale/cell width combinations with few points, where the termination rules matter.'),
'N05': ('A decision table written from the documentation: for every combination of arguments either "refused" or the equivalent ball/nearest specification.', 'the complete product of the arguments around all limits.'),
'N06': ('Order, distance and segment relations over symbolic bond arrays (indices are symbolic integers, so all index multisets are covered).', 'query points without bonds, ties and duplicates.'),
'N07': ('Order-preserving selection from the symbolic bonds.', 'all masks and ranges, filtered twice.'),
'N08': ('The double loop over pairs.', 'every position; vectors and weights, not just indices.'),
'N09': ('Results of the same query on a fresh object (relational), over operation histories chosen by the solver.', 'interleavings of iterators; one open finding (see below).'),
'N10': ('The SANN inequality evaluated in exact arithmetic on the sorted lengths.', 'every tie and every m.'),
'N11': ('The documented blocking inequality, decided exactly, equality within 1e-5 left open.', 'all positions of one neighbour against the others.'),
'N12': ('All images -3..3 tested for membership in the enlarged box in exact fractional coordinates.', 'rims of skewed boxes, different buffers per axis.'),
'N13': ('The lengths, tilts and points the form was made of. Objects of other packages are stand-ins with the attributes freud reads (their class names and modules included).', 'the readers for packages that are not installed are skipped by the tests.'),
'C01': ('Transitive closure of the bond relation as boolean matrix powers over symbolic bonds; order of ids by size and, for equal sizes, not constrained; cluster_keys by membership.', 'all graphs within the bound on five schedules, including all ways the union-find can be entered.'),
'C02': ('Documented formulas (minimum image from the circular mean centre; gyration and inertia tensors; masses).', 'clusters across the boundary with any id order and masses.'),
'D01': ('Bin k counts values v with edge_k <= v < edge_(k+1), the last edge excluded, nothing outside.', 'values on edges and around them.'),
'D02': ('g(r) = counts / (n_query * density * shell volume * frames) for both normalisations, n(r) the cumulative mean.', 'frames, reset, reading in between, 2D/3D.'),
'D03': ('Mean over the pairs of a bin of conj(value) * value, real and complex.', 'argument roles with complex values on either side.'),
'D04': ('Documented weight 1 / linear / 0 by distance, divided by the volume of the sphere or disc.', 'every position in the linear zone.'),
'D05': ('Sum of normalised Gaussians over the points within r_max of each grid position under the minimum image.', 'voxels at the rim of the cutoff, axes with different numbers of bins.'),
'D06': ('Voxel set iff some point within r_max.', 'as D05.'),
'P01': ('Coordinates of the property computed from vectors and orientations (angles through exact tables of atan2), bin by edges, PCF by the documented normalisation; pmft = -log.', 'every displacement and both orientations varied independently, so frames cannot be confused.'),
'P02': ('as P01 for (x, y, theta).', 'as P01.'), 'P03': ('as P01 for (x, y).', 'as P01.'),
'P04': ('as P01 for (x, y, z), equivalent orientations and shift vectors.', 'as P01.'),
'O01': ('Mean of exp(i k theta) with exact angle tables, multiplied by the total weight so that weights may have any sign; default neighbours from exact ranks.', 'every position on the lattice.'),
'O03': ('Chebyshev polynomial of the second kind by its recurrence. For l = 2, 4 with all real quaternions as the variables.', 'large l and every pair of unit quaternions.'),
'O04': ('The tensors from their definition over the reported orientation; relational assertions for replicates, schedules and lower temperatures.', 'a race or an order dependence shows as a difference between schedules.'),
'E01': ('max over the group of |scalar part|, compared with cos(angle/2) (acos is ill-conditioned).', 'distinct orientations for points and query points; groups seen from another frame.'),
'E02': ('max over the group of the rotated projection.', 'as E01.'),
'E03': ('Angles from exact tables; every bond is in exactly one bin; counts / solid angle / frames.', 'all modes with different orientations on both sides, poles and bin borders.'),
'F02': ('The real Python layer on symbolic positions and weights: cells of the histogram by solver decisions, transforms as their defining sums, scipy image operations (linear) through their matrices. Oracle: the intensity at the pixel\'s wave vector from its definition. `anywhere` takes a real-valued position in the whole cell.', 'views, transposition, zoom and parity.'),
'F01': ('Double sum of sinc (J0 in 2D) at the documented k. `any_distance` leaves sin and J0 uninterpreted and holds for every real position.', 'frames with different boxes; read between frames.'),
'M01': ('Definition of both modes over unwrapped positions. Real coordinates are free reals, so these assertions are about all trajectories of the given size; the FFT is replaced by the exact DFT.', 'all real coordinates.'),
'I01': ('Sets of indices occurring in the bonds.', 'all lists of bonds, positions around the cutoff.'),
'U01': ('All translates of the basis in the cells, as a set up to a common translation; documented nearest neighbour numbers and distances of the structures.', 'different numbers of replicas per axis, skewed cells, basis points at and outside the rim.'),
'A01': ('Relational: the same object used again against a new object; arrays obtained before are compared after. All 20 odd compute classes from the zoo (`props/zoo.py`).', 'pairs of different systems.'),
'A02': ('The parameters themselves; `eval(repr(obj))`; histogram geometry by formula; default neighbours by all pairs within reach.', 'every class and property.'),
'A03': ('Relational: strided, reversed or double arrays against contiguous ones; wrong lengths must raise (an out of bounds access of the compiled code is an error of the machine by itself).', 'every class and array argument, every bond in the wrong list.'),
'T01': ('Relational between four schedules and one worker; in addition the machine records all loads and stores per iteration and reports two iterations touching the same memory, one of them changing it, outside locks and TBB containers.', 'schedules no machine may ever run; races are reported without native interleaving, being schedule independent (the native run then compares results only).'),
}
FINDINGS = '''## Findings

Everything found on the way was confirmed on the native build and, after the repair, by reverting the repair and watching the check report it again. Repairs are
the `fix:` commits of /repo; the list is in known_findings.jsonl. One finding is open:

* **N09 interleaved_other_cutoff**: two lazily consumed CellQuery results with different cutoffs: the second query rebuilds the grid the first one walks
  (use after free). Repairing it means giving every iterator a share of the grid, which changes ownership across three classes: not small.

False alarms met while building, and what was done: half-box ties (either image allowed), values on float32-rounded bin edges (edges chosen off the lattice,
or assumed away), k nearest in skewed boxes beyond half the smallest height (the documentation promises nothing: outside N04), grids of skewed boxes (D05/D06
limited to orthorhombic boxes), circular mean with vanishing resultant (B05/C02 assume 0.1), annealing at high temperature (O04 assumes low ones), the
representation of structure factors (k_min is rounded: left out of A02), Debye with one k value (NaN k: unspecified).

Not covered: LinkCell with the default cell width refuses small systems with an error (nothing silent); `NeighborList.all_pairs` with query points as a list,
and lists for RotationalAutocorrelation raise errors (A03 speaks about numpy arrays); keep-alive of memory owned by numpy arrays after the object is gone is not modelled;
assertions over finite tables may fold to constants before they reach z3 (they still quantify over the path's inputs, since the table is indexed by solver variables).

'''
MISSED = {}
STRENGTHENED = '''Changes that were missed at first and what was added: d05-dims-from-grid (a 3D grid with one bin along z), o04-skip-second (replicates that are best in turn), a02-periodic-z (partly periodic boxes of results), d01-upper-edge-lost (single precision lengths around the upper limit), f02-abs-weights (weights of both signs), d02-finite-size-frames (frames were accumulated in exact mode only), o01-weights (weights were positive only),
e02-no-identity (groups were given in their own frame only), box plane distances with one sign of a tilt wrong (N05: boxes with all three tilts, narrowest along each direction in turn), b02-narrow-images (images beyond 16 bits), n07-shared-weights (copies that are sorted or filtered afterwards), n02-shell-row (cells much narrower than the cutoff: shells beyond the first), n04-long-box (boxes long along y or z whose k-th neighbour lies many cells away).

Further changes (not kept as planted bugs) were tried in rounds of 10 to 30, each written from the text of a property; those that were missed led to: paths that never end are reported as hangs (CPU limit per path, replayed natively), boxes flat along y and z, grids with cutoffs beyond the box (D05, D06), masks that alias the list and copies (N07), arrays of every length for classes with two sets of points (A03), 18 coincident points and trees of several levels (N01 to N03), projection vectors that are not unit vectors (E02), cutoffs that leave almost a whole cell over with points at the corners of the cell (N03: the grid of CellQuery one cell too small), lists with weights other than 1 for every class that is to ignore them (D04 and others), SANN shells of fewer than four neighbours (N10), displacements along rows of skewed boxes (B03: a shortcut for short vectors), bonds of zero length or weight (I01).
Lengths are compared up to rounding, so that replacing a square root by an equivalent expression stays quiet; about 45 refactorings (helpers extracted, loops rewritten, statements reordered, in C++ and Python) were run through the checks without an alarm.
'''
