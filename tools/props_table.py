BOX = ['freud/box/Box.h', 'freud/box/export-Box.cc', 'freud/box.py']

prop('B01', 'Wrapping moves a vector into the cell by whole box vectors',
     'Wrapping any vector into any box (2D or 3D, cubic or triclinic, any combination of periodic directions) returns the vector shifted by an integer number of box vectors along periodic directions only, with every periodic fractional coordinate inside the cell [-1/2, 1/2). Wrapping again changes nothing, adding any lattice translation before wrapping does not change the result, a fully aperiodic box returns the input, and z is 0 in 2D. Each row of an array is wrapped like a single vector, the input is never modified, and a given output array receives the result.',
     'every vector, every box shape, every periodicity setting, every array length',
     'Tests wrap a few literal vectors in a few boxes; the guarantee is for every vector however many cells away, and for all eight periodicity settings.',
     BOX, [('wrap', 'freud/box/Box.h: wrapSingle, wrap'), ('python layer', 'freud/box.py: wrap')])
prop('B02', 'Fractional, absolute, image and unwrap conversions are mutually inverse',
     'Converting absolute to fractional coordinates gives the box-vector coefficients measured from the lower corner of the box, and converting back returns the original vector, for any vector inside or outside the box. Image indices name the cell a vector lies in, so unwrapping a wrapped vector with its own image indices gives the original vector back (points on a cell face aside). Unwrapping adds the image indices times the box vectors, with one vector and many images or many vectors and one image broadcast against each other.',
     'every vector, box and image index',
     'Tests convert a handful of points in one or two boxes.',
     BOX, [('conversions', 'freud/box/Box.h: makeFractional, makeAbsolute, getImages, unwrap'), ('broadcast', 'freud/box.py: unwrap')])
prop('B03', 'Periodic distances are lengths of wrapped displacements',
     'The distance between two points reported by the box is the length of their displacement wrapped into the cell, for any periodicity setting; row-wise distances pair equal rows and refuse different lengths. In an orthorhombic periodic box it is symmetric and the least over all periodic images. The all-pairs form has one row per query point and one column per point.',
     'every pair of points, box and periodicity',
     'Tests use random points in one box and compare against the same wrap; the minimum-image claim ranges over all pairs.',
     BOX, [('distances', 'freud/box/Box.h: computeDistances, computeAllDistances'), ('python layer', 'freud/box.py: compute_distances, compute_all_distances')])
prop('B04', 'Containment marks exactly the points inside the box',
     'The containment mask is true for a point whose fractional coordinates all lie strictly inside the box and false for a point with any coordinate strictly outside, whatever the periodicity of the box (points exactly on a face aside). In 2D only x and y count.',
     'every point and box',
     'Tests sample random points; the faces and corners of skewed boxes are measure-zero for them.',
     BOX, [('contains', 'freud/box/Box.h: contains'), ('python layer', 'freud/box.py: contains')])
prop('B05', 'Centre of mass is the weighted circular mean; centring subtracts it',
     'The periodic centre of mass is the mass-weighted circular mean of the fractional coordinates along each box axis, so a single particle (of any mass) is its own centre, massless particles do not count and the result lies inside the box. Centring returns the wrapped vectors minus that centre and does not modify its input.',
     'every set of positions and masses, box shape',
     'Tests use two or three hand-picked configurations, most with equal masses.',
     BOX, [('center of mass', 'freud/box/Box.h: centerOfMass, center'), ('python layer', 'freud/box.py: center_of_mass, center')])
prop('B06', 'Every description of a box yields the same box',
     'A box built from its lengths and tilts, a list, a dictionary, an object with box attributes, a 3x3 matrix, or lengths and angles has the same lengths, tilts and dimensionality, and converting to any of these forms and back returns an equal box; invalid forms (zero lengths, wrong list sizes, contradicting dimensions) are refused with an error. Boxes are equal exactly when lengths, tilts, dimensionality and periodicity all agree. Setting one parameter, periodic direction or the dimensions leaves the others alone, a box changed by setters behaves like one made with the resulting parameters, and scaling a box multiplies its lengths only.',
     'every length, tilt, dimensionality and periodicity',
     'Tests convert a few boxes; equality and setters are tested for one or two parameters.',
     BOX, [('constructors', 'freud/box.py: from_box, from_matrix, from_box_lengths_and_angles, to_*'), ('state', 'freud/box/Box.h: setL, setPeriodic, operator==')])

EIG = 'The code needs Eigen/fsph/voro++, whose sources are empty submodules in this checkout: the extension is not built here, so neither encoding nor native replay is possible.'
prop('O10', 'Steinhardt order parameters are rotation invariant',
     'The Steinhardt order parameter of a particle depends only on the relative directions (and weights) of its neighbours: rotating the whole configuration or reordering neighbours leaves it unchanged.',
     'every neighbour environment and degree l', 'Tests check crystals at fixed orientations.',
     ['freud/order/Steinhardt.cc'], [('spherical harmonics accumulation', 'freud/order/Steinhardt.cc: baseCompute')], na=EIG)
prop('O11', 'Nematic order is the leading eigenvalue of the mean Q tensor',
     'The nematic order parameter is the largest eigenvalue of the average traceless orientation tensor and the director its eigenvector.',
     'every set of orientations', 'Tests check aligned and a few tilted systems.',
     ['freud/order/Nematic.cc', 'freud/util/diagonalize.cc'], [('diagonalisation', 'freud/util/diagonalize.cc: diagonalize33SymmetricMatrix')], na=EIG)
prop('O12', 'Solid-liquid clustering joins exactly the solid-like bonds',
     'Two neighbours are solid-like exactly when their (normalised) complex dot product exceeds the threshold, and clusters are the connected components of particles with enough solid-like bonds.',
     'every configuration and threshold', 'Tests use one crystal.',
     ['freud/order/SolidLiquid.cc'], [('thresholding', 'freud/order/SolidLiquid.cc: compute')], na=EIG)
prop('E10', 'Environment matching finds one-to-one correspondences within the threshold',
     'Two environments match exactly when a one-to-one pairing of their vectors within the distance threshold exists (after registration if asked), and clusters are transitive closures of matches.',
     'every pair of environments', 'Tests use a few crystals and random rotations.',
     ['freud/environment/MatchEnv.cc', 'freud/environment/Registration.h'], [('matching', 'freud/environment/MatchEnv.cc: isSimilar')], na=EIG)
prop('E11', 'Local descriptors are spherical harmonics of neighbour directions',
     'The descriptors hold the spherical harmonics of every neighbour vector in the chosen local reference frame.',
     'every neighbour environment', 'Tests check special orientations.',
     ['freud/environment/LocalDescriptors.cc'], [('descriptors', 'freud/environment/LocalDescriptors.cc: compute')], na=EIG)
prop('N20', 'Voronoi cells tile the box',
     'The Voronoi cell volumes are positive and sum to the box volume, and facet-sharing neighbours are listed symmetrically with equal weights.',
     'every set of distinct points', 'Tests use random systems and crystals.',
     ['freud/locality/Voronoi.cc'], [('tessellation', 'freud/locality/Voronoi.cc: compute')], na=EIG)
prop('F10', 'The direct structure factor follows its defining sum',
     'The direct structure factor is the normalised squared magnitude of the density Fourier amplitudes on reciprocal lattice vectors, averaged per wavenumber bin.',
     'every set of points', 'Tests compare with another implementation on one system.',
     ['freud/diffraction/StaticStructureFactorDirect.cc'], [('reciprocal sum', 'freud/diffraction/StaticStructureFactorDirect.cc: compute_S_k')], na=EIG)

LOC = ['freud/locality/AABBQuery.cc', 'freud/locality/LinkCell.cc', 'freud/locality/CellQuery.cc', 'freud/locality/NeighborQuery.h', 'freud/locality.py']
BALL = ('A ball query of {} returns, for every query point, exactly the points whose periodic distance lies in [r_min, r_max), each once, wherever points and query points lie in the cell. '
        'Every bond carries the wrapped displacement from the query point to the point as its vector, its length as the distance and weight 1. With exclude_ii the pairs of equal index, and only those, are left out.')
for n, c, f in (('N01', 'AABBQuery', 'AABBQuery.cc: AABBQueryBallIterator, AABBTree.h'), ('N02', 'LinkCell', 'LinkCell.cc: LinkCellQueryBallIterator, IteratorCellShell'), ('N03', 'CellQuery', 'CellQuery.cc, CellIterator.h')):
    prop(n, f'{c} ball queries find exactly the points within the cutoff', BALL.format(c),
         'every position of points and query points, cutoff, box shape',
         'Tests compare the finders with one another on random points in cubic boxes; missed images near corners, cell borders and in skewed cells need particular positions.',
         LOC, [('search', 'freud/locality/' + f), ('results', 'freud/locality.py: NeighborQueryResult')])
prop('N04', 'Nearest-neighbour queries find the k closest points',
     'A nearest-neighbour query of AABBQuery or LinkCell returns for every query point the num_neighbors closest points, or all eligible points if there are fewer, each once: no point left out is closer than one returned. Only points at a distance in [r_min, r_max) are eligible, and not the point itself under exclude_ii. r_guess, scale and cell width change the cost, never the result; in skewed boxes this holds while the k-th neighbour is within half the smallest box height.',
     'every position, k, search parameters', 'Tests use random points and default search parameters.',
     LOC, [('aabb', 'freud/locality/AABBQuery.cc: AABBQueryIterator'), ('link cell', 'freud/locality/LinkCell.cc: LinkCellQueryIterator')])
prop('N05', 'Query arguments mean what they say or are refused',
     'Without a mode, num_neighbors makes a query a nearest query and r_max alone a ball query; a ball query without r_max or with num_neighbors, a nearest query without num_neighbors (or on CellQuery), an unknown mode or argument name, r_max not positive or not above r_min, a scale of at most 1 and an r_max above half the smallest box height (AABBQuery, CellQuery) raise an error, and every other combination is answered as specified. Query objects refuse boxes that are not periodic in all directions; systems without points and 2D points off the plane are refused.',
     'every combination of arguments', 'Tests try a few invalid combinations.',
     LOC, [('arguments', 'freud/locality.py: _QueryArgs'), ('validation', 'freud/locality/NeighborQuery.h: validateQueryArgs, inferMode')])
NL = ['freud/locality/NeighborList.cc', 'freud/locality/NeighborBond.h', 'freud/locality.py']
prop('N06', 'Neighbour lists index and sort their bonds consistently',
     'A neighbour list built from arrays holds the given bonds in order with distances equal to the vector lengths and weights 1 by default, and unsorted or out of range indices are refused. neighbor_counts, segments and find_first_index agree with the bonds for every query point, including those without bonds. sort permutes whole bonds into the documented order: query point, then point and distance, or distance and point.',
     'every bond list', 'Tests use lists from queries in which every query point has neighbours.',
     NL, [('list', 'freud/locality/NeighborList.cc: constructor, updateSegmentCounts, find_first_index, sort')])
prop('N07', 'Filtering keeps exactly the selected bonds',
     'Filtering a neighbour list by a mask or by a distance range [r_min, r_max) keeps exactly the selected bonds, in order and with all their data, keeps the numbers of points and query points, and renews counts, segments and first indices. Invalid ranges and masks of another length are refused without changing the list. A copy shares nothing with its original.',
     'every list, mask and range', 'Tests filter a few lists and count the bonds.',
     NL, [('filter', 'freud/locality/NeighborList.cc: filter, filter_r, copy')])
prop('N08', 'The all-pairs list holds every pair once',
     'The all-pairs neighbour list holds each pair of query point and point once, sorted, leaving out equal indices if asked, with weight 1, the wrapped displacement from query point to point as the vector and its length as the distance.',
     'every set of points, query points and box', 'Tests check one random system and only indices and distances.',
     NL, [('all pairs', 'freud/locality/NeighborList.cc: all-pairs constructor')])
prop('N09', 'Query results are repeatable and independent of other queries',
     'Iterating over a query result yields the same bonds as converting it to a neighbour list, as often as one likes, and whatever queries are made before or in between. Query objects and results keep their own copies of points, query points and box, so later changes to the arrays do not matter. A query without query points has no bonds.',
     'every history of queries', 'Tests consume each result once, immediately.',
     LOC, [('iteration', 'freud/locality/NeighborQuery.h: NeighborQueryIterator'), ('grid', 'freud/locality/CellQuery.cc: buildGrid')])
prop('N10', 'The SANN filter keeps the closest neighbours filling the solid angle',
     'FilterSANN keeps for every query point its closest neighbours up to the smallest m of at least 3 with sum(r_1..r_m)/(m-2) not above r_(m+1), refusing query points whose neighbours run out first unless incomplete shells are allowed. Kept bonds keep their data and the lists keep the system sizes, even if empty; without given neighbours all pairs are filtered.',
     'every set of neighbour distances', 'Tests check a few crystals.',
     ['freud/locality/FilterSANN.cc', 'freud/locality/Filter.h', 'freud/locality.py'], [('rule', 'freud/locality/FilterSANN.cc: compute')])
prop('N11', 'The RAD filter keeps the neighbours no closer neighbour blocks',
     'FilterRAD keeps a neighbour j unless a closer neighbour k satisfies (R_j/r_j)^2 < cos(angle jk) (R_k/r_k)^2, where r are distances and R the radii of the points (1 unless given); the closed variant stops at the first blocked neighbour and refuses query points without one unless incomplete shells are allowed. Kept bonds keep their direction, distance and weight.',
     'every arrangement of neighbours', 'Tests check neighbour counts of a few crystals.',
     ['freud/locality/FilterRAD.cc', 'freud/locality/Filter.h'], [('rule', 'freud/locality/FilterRAD.cc: compute')])
prop('N12', 'The periodic buffer holds exactly the images inside the enlarged box',
     'With a distance, the periodic buffer holds every periodic image of every point inside the box enlarged by that distance on each side, once, labelled with the index of its original; with a number of images it holds all of them wrapped into the enlarged box. The original points are included only if asked, tilts and dimensionality stay, and negative distances are refused.',
     'every point, buffer and box', 'Tests use a few points in a square and a cubic box.',
     ['freud/locality/PeriodicBuffer.cc', 'freud/locality.py'], [('images', 'freud/locality/PeriodicBuffer.cc: compute')])

DEN = 'freud/density/'
prop('D01', 'Histogram bins count exactly the values within their edges',
     'A radial histogram (RDF, correlation function) divides [r_min, r_max) into equal bins and counts every distance in the one bin whose lower edge is not above it and whose upper edge is above it, and distances outside the range nowhere. Edges, centers, bounds and number of bins describe this division; histograms without bins or with an empty or negative range are refused.',
     'every distance, bin number and range', 'Tests check sums over random data; values at edges and just outside the range do not show.',
     ['freud/util/Histogram.h', DEN + 'RDF.cc', DEN + 'CorrelationFunction.cc', 'freud/density.py'], [('binning', 'freud/util/Histogram.h: RegularAxis::bin, Histogram::bin')])
prop('D02', 'The RDF is the normalised pair count',
     'bin_counts holds the number of pairs (query point, point) of all accumulated frames per distance bin, g(r) that number over the number expected of an ideal gas, 1/N_p * 1/(N_f * rho * shell) with rho the query point density (times (N-1)/N in finite_size mode) and shell the area or volume of the bin, and n(r) the running sum of counts per query point and frame. By default a point is not its own neighbour only when no query points are given; resetting discards earlier frames, reading changes nothing.',
     'every system and frame sequence', 'Tests check random systems where g(r) is near 1, within tolerances that hide single pairs.',
     [DEN + 'RDF.cc', DEN + 'RDF.h', 'freud/locality/BondHistogramCompute.h', 'freud/density.py'], [('normalisation', DEN + 'RDF.cc: reduce'), ('counting', DEN + 'RDF.cc: accumulate')])
prop('D03', 'The correlation function averages products of values per distance',
     'In every bin the correlation function is the mean, over all accumulated pairs at these distances, of the complex conjugate of the value of the point times the value of the query point, and zero in bins without pairs; query values default to the values of the points. The result is real exactly when all values of the accumulated frames are.',
     'every set of values and pairs', 'Tests use constant or random values whose mean is known.',
     [DEN + 'CorrelationFunction.cc', 'freud/density.py'], [('average', DEN + 'CorrelationFunction.cc: accumulate, reduce')])
prop('D04', 'The local density counts neighbours with the documented weights',
     'LocalDensity counts a neighbour 1 if it lies within r_max - diameter/2, 0 from r_max + diameter/2 on and in between with a weight that falls linearly, whether bonds come from the default query or a given list. The density is that number over the area (2D) or volume of the sphere of radius r_max; query points without neighbours have zero.',
     'every system, diameter and neighbour list', 'Tests check averages of random systems.',
     [DEN + 'LocalDensity.cc', 'freud/density.py'], [('weights', DEN + 'LocalDensity.cc: compute')])
prop('D05', 'The Gaussian density sums the Gaussians within the cutoff',
     'In orthorhombic boxes every grid value of GaussianDensity is the sum over the points whose closest periodic image lies within r_max of the grid cell centre of value * (2 pi sigma^2)^(-d/2) * exp(-r^2 / 2 sigma^2), without wrapping in directions that are not periodic. The grid has the requested shape, and an object refuses boxes of another dimension than its first.',
     'every point position, grid and cutoff', 'Tests compare total sums on fine grids, where a missed or doubled rim of cells is within the tolerance.',
     [DEN + 'GaussianDensity.cc', 'freud/density.py'], [('grid loop', DEN + 'GaussianDensity.cc: compute')])
prop('D06', 'Voxels are set exactly within the cutoff of a point',
     'In orthorhombic boxes a voxel of SphereVoxelization is 1 exactly when its centre lies within r_max of a periodic image of a point (not wrapping in directions that are not periodic), else 0. The grid has the requested shape, and an object refuses boxes of another dimension than its first.',
     'every point position, grid and cutoff', 'Tests compare with a reference of fine grids on few systems.',
     [DEN + 'SphereVoxelization.cc', 'freud/density.py'], [('voxel loop', DEN + 'SphereVoxelization.cc: compute')])

prop('C01', 'Clusters are the connected components of the bonds',
     'Two points get the same cluster index exactly if a chain of bonds connects them, whatever the bonds, their direction and the order in which threads handle them. Indices run from 0 by decreasing cluster size, equal sizes by their smallest point, and cluster_keys lists the keys (by default the indices) of the points of every cluster in order.',
     'every bond graph, position, key list and schedule', 'Tests use a few well separated groups of points.',
     ['freud/cluster/Cluster.cc', 'extern/dset/dset.h', 'freud/cluster.py'], [('union', 'freud/cluster/Cluster.cc: compute'), ('numbering', 'freud/cluster/Cluster.cc: sort_indexes_inverse'), ('disjoint sets', 'extern/dset/dset.h')])
prop('C02', 'Cluster properties follow from the points of each cluster',
     'For every cluster id, in whatever order points and ids come, size and mass are the sums over its points, centre and centre of mass their periodic mean and mass-weighted mean with the masses of these very points, the gyration tensor the mean product of wrapped components about the centre and the inertia tensor and radius of gyration the mass-weighted ones about the centre of mass. Ids or masses of another length than the points are refused.',
     'every assignment of points to clusters, masses and box', 'Tests order points by cluster and use equal masses.',
     ['freud/cluster/ClusterProperties.cc', 'freud/cluster.py'], [('accumulation', 'freud/cluster/ClusterProperties.cc: compute')])

PM = 'freud/pmft/'
PW = 'PMFT{} counts every bond (query point, point) of all accumulated frames in the one bin of its coordinates: {}. pmft is -log of the count over the count expected of an ideal gas (query point density times the volume element of the bin, per point and frame), infinite for empty bins; resetting discards earlier frames. {}'
for n, c, co, er in (
        ('P01', 'R12', 'the distance and the angles, modulo 2 pi, of the orientation of point and query point relative to the bond direction seen from query point (for the point: its angle minus that of the bond vector)', 'Boxes that are not 2D and orientations that are not one rotation about z per point are refused.'),
        ('P02', 'XYT', 'the bond vector in the frame of the query point and the angle, modulo 2 pi, of the orientation of the point relative to the direction towards the query point', 'Boxes that are not 2D and orientations that are not one rotation about z per point are refused.'),
        ('P03', 'XY', 'the bond vector in the frame of the query point', 'Boxes that are not 2D and orientations that are not one rotation about z per query point are refused.'),
        ('P04', 'XYZ', 'the bond vector from the query point (moved by -shiftvec) in the frame of the query point, once for each equivalent orientation', 'Boxes that are 2D, orientations that are not one per query point and a changed number of equivalent orientations while accumulating are refused.')):
    prop(n, f'PMFT{c} bins bonds in the right frame and normalises them', PW.format(c, co, er),
         'every displacement, orientation, frame sequence', 'Tests place particles in a few aligned positions, where frames and angles of points and query points can be confused without notice.',
         [PM + f'PMFT{c}.cc', PM + 'PMFT.h', 'freud/locality/BondHistogramCompute.h', 'freud/pmft.py'], [('coordinates', PM + f'PMFT{c}.cc: accumulate'), ('normalisation', PM + 'PMFT.h: reduce')])

OR = 'freud/order/'
prop('O01', 'The hexatic order parameter averages exp(i k theta) over the bonds of a point',
     "The k-atic order parameter of every point is the mean of exp(i k theta) over its bonds, theta being the angle of the wrapped vector to the neighbour with the x axis, weighted by the neighbour weights if weighted is set. Neighbours default to the k nearest others; given lists and query arguments are used as they are. 3D boxes are refused.",
     'every position of neighbours, k and weight', 'Tests use random points and perfect lattices, where wrong angles or a neighbour more or less cancel.',
     [OR + 'HexaticTranslational.cc', OR + 'HexaticTranslational.h', 'freud/order.py'], [('average', OR + 'HexaticTranslational.cc: computeGeneral')])
prop('O03', 'The rotational autocorrelation is the character of relative rotations',
     'For every even l the value of a particle is U_l(s)/(l+1), with U_l the Chebyshev polynomial of the second kind and s the scalar product of its reference and current orientation: the character of the relative rotation in the representation of order l. The order is the mean over particles. Odd and negative l and sets of orientations of different sizes are refused.',
     'every orientation and l', 'Tests compare a few hard-coded values for small l.',
     [OR + 'RotationalAutocorrelation.cc', OR + 'RotationalAutocorrelation.h', 'freud/order.py'], [('harmonics', OR + 'RotationalAutocorrelation.cc: hypersphere_harmonic, compute')])
prop('O04', 'The cubatic order parameters belong to the tensors and orientation reported',
     'The global tensor is the mean of the fourth order tensors of the particles, the cubatic tensor that of the reported unit orientation, and the order of the system and of each particle follow from them as documented. The result for a seed does not depend on the number of threads, more replicates are never worse, and cooling improves the order. Temperatures that rise or end below 1e-6 and scales outside (0, 1) are refused.',
     'every set of orientations and thread schedule', 'Tests check that order is high for aligned and low for random particles.',
     [OR + 'Cubatic.cc', OR + 'Cubatic.h', 'freud/order.py'], [('tensors', OR + 'Cubatic.cc: calculateGlobalTensor, calculateCubaticTensor'), ('annealing', OR + 'Cubatic.cc: compute')])
EV = 'freud/environment/'
prop('E01', 'Angular separations are the smallest over the equivalent orientations',
     'AngularSeparationGlobal gives for every orientation and global orientation, and AngularSeparationNeighbor for every bond, the rotation angle between the two orientations involved (that of the query point and that of the point), the smallest over the equivalent orientations, in whatever common frame these are given. One orientation is required per point and per query point; those of the query points default to the ones of the points.',
     'every orientation, symmetry group, bond and schedule', 'Tests compute angles among a single set of orientations, where the roles of point and query point cannot be confused.',
     [EV + 'AngularSeparation.cc', EV + 'AngularSeparation.h', 'freud/environment.py'], [('angles', EV + 'AngularSeparation.cc: computeSeparationAngle, computeMinSeparationAngle, compute')])
prop('E02', 'Local bond projections are the largest over the equivalent orientations',
     'For every bond and projection vector LocalBondProjection gives the largest projection, over the equivalent orientations (in whatever common frame these are given), of the bond vector in the frame of the point on the rotated projection vector, and the same divided by the length of the bond. One orientation is required per point.',
     'every bond, orientation and symmetry group', 'Tests use a few aligned bonds.',
     [EV + 'LocalBondProjection.cc', EV + 'LocalBondProjection.h', 'freud/environment.py'], [('projection', EV + 'LocalBondProjection.cc: computeMaxProjection, compute')])
prop('E03', 'The bond order diagram counts bond directions per solid angle',
     'BondOrder counts every bond in the one bin of its direction, by azimuth modulo 2 pi and polar angle: of the bond vector (bod), the bond vector in the frame of the point (lbod), that rotated by the orientation of the query point (obcd) or the z axis of the query point in the frame of the point (oocd). The diagram is the count per solid angle and accumulated frame. Fewer than two bins, unknown modes and orientations of another number than the points are refused.',
     'every bond direction, orientation and frame sequence', 'Tests use perfect crystals and compare few bins.',
     [EV + 'BondOrder.cc', EV + 'BondOrder.h', 'freud/environment.py', 'freud/util/Histogram.h'], [('directions', EV + 'BondOrder.cc: accumulate'), ('normalisation', EV + 'BondOrder.cc: reduce')])
DI = 'freud/diffraction/'
prop('F01', 'The Debye structure factor is the sum over all pairs of sinc(k r)',
     'StaticStructureFactorDebye gives at num_k_values evenly spaced k from k_min to k_max the sum over all pairs of query points and points (pairs of a point with itself included) of sinc(k r), or J0(k r) in 2D, r being the minimum image distance, divided by the number of points, averaged over the accumulated frames since the last reset. Looking at results in between or the number of threads change nothing, and min_valid_k belongs to the smallest box dimension seen. Empty ranges, negative k, no k values, and query points without N_total or the reverse are refused.',
     'every pair distance, k range, frame sequence and division among threads', 'Tests compare against one other implementation on random systems with loose tolerances and a single frame or box.',
     [DI + 'StaticStructureFactorDebye.cc', DI + 'StaticStructureFactorDebye.h', DI + 'StaticStructureFactor.h', 'freud/diffraction.py', 'freud/util/utils.h'], [('sum over pairs', DI + 'StaticStructureFactorDebye.cc: accumulate, reduce'), ('sinc', 'freud/util/utils.h: sinc')])
prop('F02', 'The diffraction pattern gives the intensities at its wave vectors',
     'DiffractionPattern gives at every pixel, S(0) = N in the middle one, the intensity (square of the sum of the normalised weights times phase factors of the binned points over N, damped by the Gaussian) at the wave vector k_vectors has for that pixel, interpolated linearly between those of the grid, also seen along a view orientation, averaged over the frames since the last reset. k_values are the components along the axes of the image. The weights are left unmodified; boxes that are not cubic are refused.',
     'every position, weight, view, zoom, parity of grid and image, and sequence of frames', 'Tests look at the central pixel, and at peaks of a symmetric crystal with the identity view, where transposed or rotated images cannot show.',
     ['freud/diffraction.py'], [('image', 'freud/diffraction.py: DiffractionPattern.compute, _transform, _calc_proj'), ('wave vectors', 'freud/diffraction.py: k_values, k_vectors')])
prop('M01', 'Mean squared displacements are those of the unwrapped trajectory',
     'MSD gives for every particle the squared displacement of its unwrapped positions (positions plus images times box vectors, if both are given): averaged over all windows of each length (mode window), or from the first frame (mode direct). msd is the mean over all particles of all calls since the last reset. Unknown modes and arrays of other shapes are refused, and inputs are left unmodified.',
     'every trajectory, set of images and sequence of calls', 'Tests compare one mode against a simple implementation on a few random walks without skewed boxes.',
     ['freud/msd.py'], [('windows', 'freud/msd.py: MSD.compute'), ('unwrapping', 'freud/msd.py: MSD.compute, freud/box.py: unwrap')])
prop('I01', 'The interface is the set of points with bonds between two sets',
     'Interface reports, sorted and each once, the indices of exactly the points and of the query points that have at least one bond, for query arguments and for neighbor lists; counts are the number of these. Results are not available before compute.',
     'every position near the cutoff and every list of bonds', 'Tests use two random sets and compare the two ways of asking with each other.',
     ['freud/interface.py', 'freud/locality.py'], [('ids', 'freud/interface.py: Interface.compute, point_ids, query_point_ids')])
prop('U01', 'Unit cells replicate to systems with one translate per cell',
     'generate_system gives the box scaled by replicas and scale, and for every basis point exactly one translate in each of the cells, in basis order and inside the box; numbers of replicas that are not positive integers are refused. Noise is of the size asked for, in all directions (not z in 2D) and fixed by the seed. The predefined structures have the documented cell and nearest neighbours, and make_random_system gives N points in the box that depend on the seed alone.',
     'every basis point, skewed cell and number of replicas', 'Tests look at the predefined structures and equal numbers of replicas, where a wrong axis or order cannot show.',
     ['freud/data.py', 'freud/locality/PeriodicBuffer.cc', 'freud/locality/PeriodicBuffer.h'], [('replication', 'freud/data.py: UnitCell.generate_system'), ('structures', 'freud/data.py: UnitCell')])
ALLC = ['freud/util.py', 'freud/util/ManagedArray.h', 'freud/util/Histogram.h', 'freud/util/ThreadStorage.h', 'freud/locality/BondHistogramCompute.h', 'freud/density.py', 'freud/pmft.py', 'freud/order.py', 'freud/environment.py', 'freud/cluster.py', 'freud/diffraction.py', 'freud/locality.py', 'freud/msd.py', 'freud/interface.py']
prop('A01', 'Results belong to the last computation and survive later ones',
     'For every compute class: results are not available (AttributeError) before the first compute, a second compute on the same object gives what a new object gives for that system alone, arrays obtained earlier keep their values when the object computes again, and arrays passed in are never modified.',
     'every class and every sequence of two systems, whether or not results were looked at in between', 'Tests recompute the same data with the same object, where leftovers of an earlier system cannot show.',
     ALLC, [('availability', 'freud/util.py: _Compute'), ('reset', 'freud/locality/BondHistogramCompute.h: reset'), ('memory', 'freud/util/export-ManagedArray.h: toNumpyArray')])
prop('T01', 'Results do not depend on threads, and parallel loops have no data races',
     'For every compute class, neighbor query and box function the results are the same (up to rounding of sums) however the runtime divides loops among threads, and no two iterations of a parallel loop access the same memory with one of them changing it, other than synchronised. NumThreads sets the number of threads within its context and restores on leaving the number that held when it was entered.',
     'every schedule of the parallel loops', 'Tests run one schedule at a time on whatever threads there are; races show in rare interleavings only.',
     ALLC + ['freud/util/utils.h', 'freud/locality/NeighborQuery.h', 'freud/locality/NeighborComputeFunctional.h', 'freud/parallel.py', 'freud/parallel/tbb_config.cc'],
     [('loops', 'freud/util/utils.h: forLoopWrapper'), ('thread local storage', 'freud/util/Histogram.h: ThreadLocalHistogram, freud/util/ThreadStorage.h'), ('number of threads', 'freud/parallel.py: NumThreads')])
prop('A02', 'Objects report the parameters they were made with',
     'Every class reports the parameters it was constructed with: cutoffs, widths, modes, seeds and the like as given, histograms their number of bins, bounds, evenly spaced bin edges and centers between them, neighbor queries their box, points and cell width, unit cells their basis and vectors. The representation of a box or compute object, evaluated, gives an object with the same parameters (structure factors excepted, whose k range is rounded). Reading any property of a computed object works and changes nothing, box is the box of the last system, and a compute without neighbors uses all bonds within reach (default_query_args).',
     'every value of every parameter', 'Tests look at a few attributes of a few classes; several could not be read at all.',
     ALLC + ['freud/data.py', 'freud/density/export-CorrelationFunction.cc', 'freud/environment/export-BondOrder.cc', 'freud/locality/export-NeighborQuery.cc', 'freud/locality/export-BondHistogramCompute.cc'],
     [('histograms', 'freud/locality.py: _SpatialHistogram, freud/util/Histogram.h: RegularAxis'), ('defaults', 'freud/locality.py: _PairCompute._resolve_neighbors'), ('properties', 'freud/*.py: properties and __repr__')])
prop('A03', 'Arrays are used as given or refused',
     'Numpy arrays of any memory layout (strided, reversed, Fortran order) or of another precision give the same results as contiguous single precision ones and are not modified. Arrays whose lengths disagree with the number of points or query points or that have the wrong number of components, and neighbor lists made for other numbers of points or query points, are refused with an error by every compute that looks up points by its bonds instead of being read out of bounds.',
     'every class, array argument, layout and length', 'Tests pass well-formed contiguous arrays.',
     ALLC + ['freud/locality/NeighborComputeFunctional.h', 'freud/locality/NeighborComputeFunctional.cc', 'freud/locality/NeighborList.cc'],
     [('arrays', 'freud/util.py: _convert_array'), ('lists', 'freud/locality/NeighborComputeFunctional.h: loopOverNeighbors, NeighborList.cc: validate')])
prop('N13', 'Every form of a system means the same box and points',
     'NeighborQuery.from_system takes a pair of box (or box-like values) and points, an object with box and points, or the frames of gsd, HOOMD-blue, garnett, OVITO and MDAnalysis, and gives a query of the class asked for with the box lengths, tilts, dimensionality and points of that system; a neighbor query is used as it is, and objects that are no systems are refused. A neighbor query owns its points and box: changing the array or box it was made from afterwards changes neither its results nor what it reports.',
     'every box, set of points and form of system', 'Tests use a few systems in the forms whose packages are installed; the readers are skipped.',
     ['freud/locality.py', 'freud/box.py', 'freud/locality/NeighborQuery.h'], [('forms', 'freud/locality.py: NeighborQuery.from_system'), ('ownership', 'freud/locality.py: AABBQuery, LinkCell, CellQuery, _RawPoints')])
