"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def where(m, files):
    import re
    cls, _, fn = m.rpartition(".")
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        if re.search(r"^class %s\b" % (cls or fn) if cls or fn[0].isupper() else r"^def %s\b" % fn, src, re.M):
            return f + ":" + m
    raise SystemExit("no anchor for " + m)
def prop(id, title, statement, over, text, why, files, mechanism):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": m, "where": where(m, files)} for m in mechanism]}})

B, S, L, D, SP, SH, U, A = ["lattpy/%s.py" % n for n in
                            ("basis", "structure", "lattice", "data", "spatial", "shape", "utils", "atom")]

prop("C01", "World and lattice coordinates convert into each other without loss",
 "Converting lattice coordinates to world coordinates and back (in either order) returns the original values, for a single point as well as for every row of an array of points. Translating a point by an integer cell vector adds exactly that integer combination of the basis vectors, and splitting a world position into a cell and a remainder yields an integer cell vector and a remainder whose lattice coordinates all lie in [0, 1) and which together reproduce the position. The inputs are never modified.",
 ["inputs"], "every regular basis of dimension 1, 2 or 3, every point, every integer cell vector and every number of points",
 "Tests use a handful of lattices (mostly orthogonal or hexagonal) with a few points; the identity has to hold for every regular basis and every point, including negative coordinates and cell boundaries.",
 [B], ["LatticeBasis.transform", "LatticeBasis.itransform", "LatticeBasis.translate", "LatticeBasis.itranslate", "LatticeBasis.__init__"])

prop("C02", "Reciprocal vectors are dual to the lattice vectors",
 "The reciprocal vectors b of every lattice satisfy a_i . b_j = 2*pi if i equals j and 0 otherwise, whatever the handedness of the basis, and the reciprocal lattice is spanned by exactly these vectors. The test for reciprocity accepts a set of vectors exactly when every one of these dot products is met within the tolerance. The cell volume is the absolute value of the determinant of the basis vectors.",
 ["inputs"], "every regular basis of dimension 1, 2 or 3 (right- and left-handed) and every candidate set of vectors",
 "Tests compare reciprocal vectors of a few named lattices with literal values; left-handed and skewed bases are not sampled.",
 [B, SP], ["LatticeBasis.reciprocal_vectors", "LatticeBasis.reciprocal_lattice", "LatticeBasis.is_reciprocal", "cell_volume"])

prop("C03", "Cell super-indices number the cells of a grid one-to-one",
 "For a grid of cells of given shape, the super-index of a cell is its row-major rank: it lies between 0 and the number of cells minus one, two different cells never share a super-index, and every super-index in the range belongs to a cell. Converting a super-index to a cell index and back, or a cell index to a super-index and back, returns the original, both for single values and for arrays.",
 ["inputs"], "every grid shape with positive extents in 1 to 3 dimensions, every cell in it and every number of cells",
 "A bijection over unbounded shapes cannot be established by sampling a few shapes.",
 [B], ["LatticeBasis.get_cell_superindex", "LatticeBasis.get_cell_index"])

prop("C04", "Shapes contain exactly the points of their geometric region",
 "The containment test of a box (optionally spanned by basis vectors), circle/sphere, ring/shell or convex hull accepts a point exactly when the point lies in the region, enlarged by the given tolerance, and judges every point independently of the others. The reported limits are the tight axis-aligned bounding box of the region. Neither call changes the shape or the points.",
 ["inputs"], "every position, size or radius, every regular basis (dimension 1 to 3), every number of points and every tolerance",
 "Tests check a few points against a few shapes; errors show only for particular offsets, tolerances, bases or boundary points.",
 [SH], ["Shape.contains", "Shape.limits", "Circle.contains", "Circle.limits", "Donut.contains", "Donut.limits", "ConvexHull.contains", "ConvexHull.limits"])

prop("C05", "Building a lattice yields exactly the sites inside the shape, each once",
 "Building a finite lattice in a shape given in world coordinates produces one entry for every site (cell vector, atom) of the infinite lattice whose position lies in the shape, no other entry, and no site twice, wherever the shape is placed and however the cell is skewed. The position stored for each entry is the atom position plus the cell vector times the basis vectors, and a user filter keeps exactly the entries it accepts.",
 ["inputs"], "every regular basis (dimension 1 to 3) whose cells are larger than the 1e-3 tolerance, every set of atoms inside the unit cell, every box, circle, ring or hull in world coordinates at any position (scalar and per-axis sizes count as boxes; primitive builds of sizes are included, shape objects with primitive=True are not), every filter",
 "Completeness depends on the enumeration covering the bounding box of the shape for every skew, offset and size; tests sample small shapes at the origin.",
 [S, SP, SH], ["LatticeStructure.build_indices", "LatticeStructure.build_translation_vectors", "LatticeStructure.check_points", "LatticeStructure.get_positions", "vindices", "interweave"])

prop("C06", "Neighbors of a built lattice are exactly the configured connections",
 "After building, site j is listed as a neighbor of site i exactly when their distance (rounded to six decimals) is one of the distance levels configured for their atom pair, and each such neighbor is listed exactly once with that distance. The relation is symmetric and no site is its own neighbor. Unused slots of the neighbor table are marked invalid and never show up as neighbors.",
 ["inputs"], "every lattice with a reduced basis (angles between 60 and 120 degrees) and sites more than 1e-5 apart, every atom basis and connection configuration, every shape and size",
 "Truncated queries, lost levels or mixed-up atom pairs appear only for particular combinations of atoms, connection numbers and system sizes.",
 [S, L, D, SP], ["LatticeStructure.compute_neighbors", "LatticeStructure._filter_neighbors", "KDTree.query", "LatticeData.set", "Lattice.build"])

prop("C07", "Neighbors in the infinite lattice are complete and translation invariant",
 "For every atom and distance level, the reported neighbors in the infinite lattice are exactly the sites connected to it at that distance, whichever cell is asked for: asking for another cell shifts all neighbor cells by that cell vector and changes nothing else. The neighbor positions are the positions of these sites, the neighbor vectors point from the atom to them, have the length of the distance level, and are the opposites of the vectors in the reverse direction. The distance levels are ascending and are the union of the first configured number of distances of every atom pair.",
 ["inputs"], "every lattice with a reduced basis (angles between 60 and 120 degrees), every atom basis, connection configuration, cell vector, atom and distance level",
 "Tests look at the neighbors of a few standard lattices in the home cell.",
 [S, B], ["LatticeStructure.analyze", "LatticeStructure._compute_base_neighbors", "LatticeStructure.get_neighbors", "LatticeStructure.get_neighbor_positions", "LatticeStructure.get_neighbor_vectors", "LatticeStructure.get_position", "LatticeBasis.get_neighbor_cells"])

prop("C08", "Removing sites leaves the induced, renumbered sub-lattice",
 "Removing a set of sites keeps all other sites in order with unchanged indices and positions, and two remaining sites are neighbors afterwards, at the same distance, exactly when they were before. No neighbor entry refers to a removed or non-existing site, periodic markers and translation vectors stay attached to their entries, and unused entries are marked with the new number of sites. Filtering sites with too few neighbors while building does the same for exactly the sites whose number of neighbors is below the requested minimum.",
 ["inputs", "histories"], "every neighbor table, every non-exhaustive set of sites to remove (any order, with repetitions) and every minimum number of neighbors",
 "The renumbering depends on the order and pattern of the removed sites relative to every neighbor entry; tests remove one or two fixed sites.",
 [D, L], ["LatticeData.remove", "_filter_dangling"])

prop("C09", "Sorting the lattice only relabels it",
 "Sorting the sites (along an axis, by a given permutation, or in reverse) produces a permutation of the sites under which indices, positions, neighbors, distances and periodic data are carried along consistently, so that the neighbor relation between the physical sites is unchanged and rows are ordered along the requested axis. Sorting the neighbors of each site by distance permutes the entries of each row only and keeps neighbor, distance and periodic data of an entry together.",
 ["inputs", "histories"], "every neighbor table of any size, every permutation or axis, with and without periodic neighbors",
 "A consistent relabeling is a statement about all pairs of sites under every permutation.",
 [D], ["LatticeData.sort", "LatticeData.sort_neighbors"])

prop("C10", "Appending, extending and repeating produce the union lattice",
 "Appending, extending or repeating a lattice along an axis and side yields the original sites unchanged plus the added sites shifted by one lattice translation that (for orthogonal cells) places them directly next to the original block without overlap or gap, and the neighbor table is the one of a lattice containing all these sites: exactly the configured connections, inside the blocks and across the seam, each with its correct distance. Periodic neighbors do not survive, the appended lattice is not modified, and joining two data sets renumbers the neighbors of the second by the size of the first.",
 ["inputs", "histories"], "every lattice, axis, side, number of repetitions and size, with or without earlier periodic boundary conditions or table widths; placement without overlap or gap for orthogonal cells and primitive builds",
 "Tests append square lattices at the origin on the right side and mostly compare shapes.",
 [L, D], ["Lattice.append", "Lattice.extend", "Lattice.repeat", "Lattice._append", "Lattice._compute_connection_neighbors", "LatticeData.append", "LatticeData.add_neighbors"])

prop("C11", "Periodic boundary conditions connect exactly the periodic images",
 "With periodic boundary conditions along some axes, site j becomes a periodic neighbor of site i exactly when they are not already neighbors and some image of j, displaced by a sum of the periods along these axes (each with sign -1, 0 or +1), has a configured distance to i; the entry carries the distance of the nearest image. The relation is symmetric with equal distances and opposite translation vectors, regular neighbors stay untouched, and switching the boundary conditions off or changing them restores the regular neighbor table. The period along an axis is the smallest lattice translation along it that avoids overlap for a lattice of orthogonal cells, i.e. the number of cells times the cell length.",
 ["inputs", "histories"], "every lattice, shape, set of axes (1 to 3) and every sequence of switching axes on and off",
 "Corner images, small systems and repeated switching are combinations that sampled tests miss; tests check a few chain and square lattices.",
 [L, D], ["Lattice.set_periodic", "Lattice._compute_pneighbors", "Lattice.periodic_translation_vectors", "LatticeData.set_periodic", "LatticeData.remove_periodic"])

prop("C12", "Neighbor queries return exactly the selected entries of the table",
 "Querying the neighbors of a site returns exactly the valid entries of its row that match the requested distance level, periodicity and uniqueness (only neighbors with a larger index), in table order. Iterating over the levels visits every valid neighbor exactly once in ascending order of distance, the nearest-neighbor query is the query of the first level, and checking a pair of sites returns the level at which they are neighbors or nothing if they are not.",
 ["inputs"], "every neighbor table of any size, every site, level, periodic flag and uniqueness flag",
 "The selection must be exact for every table content and flag combination, including invalid, periodic and self entries.",
 [D, L], ["LatticeData.neighbor_mask", "LatticeData.get_neighbors", "LatticeData.iter_neighbors", "Lattice.check_neighbors", "Lattice.nearest_neighbors"])

prop("C13", "Pair lists, data map and matrices mirror the neighbor table",
 "The pair list contains one entry (i, j, level) for each valid neighbor entry and nothing else; its unique variant contains exactly those with i smaller than j. The data map contains one on-site entry per site, labelled with its atom, plus exactly these pairs, and its on-site and hopping masks select exactly the entries of the requested atom or level. The adjacency matrix has one row and column per site and stores level + 1 at the neighbor pairs, and the sparse matrices built from the map place every value at the position of its entry.",
 ["inputs"], "every neighbor table of any size with up to 127 atoms in the unit cell and up to 126 distance levels (the map and the adjacency matrix store them as 8-bit integers)",
 "Tests compare maps of a few tiny lattices; type conversions, isolated sites and ordering matter only for particular tables.",
 [D, L], ["LatticeData.map", "DataMap", "Lattice.neighbor_pairs", "Lattice.adjacency_matrix"])

prop("C14", "The data map always reflects the current lattice",
 "After any sequence of operations on the lattice data (setting and removing periodic neighbors, removing or adding sites or neighbors, sorting, appending, resetting, rebuilding), the data map obtained equals the map computed from scratch for the current sites and neighbors. Requesting the map does not change the lattice data.",
 ["histories"], "every finite sequence of operations interleaved with map requests",
 "Staleness appears only for particular operation orders; tests request the map once after building.",
 [D, L], ["LatticeData.map", "LatticeData.set", "LatticeData.remove", "LatticeData.sort", "LatticeData.set_periodic", "LatticeData.remove_periodic", "LatticeData.add_neighbors", "LatticeData.sort_neighbors", "LatticeData.append"])

prop("C15", "Compact lookup tables and data types lose no value",
 "The lookup table of an array lists its distinct values in ascending order, and replacing each stored index by its value reproduces the array exactly, however many distinct values there are. The smallest data type determined for some integers can represent every one of them. The distances stored for a lattice are exactly the ones it was given, with a separate level reserved for invalid entries that is larger than all others.",
 ["inputs"], "every array of any shape and number of distinct values, every set of integers within the 64-bit range",
 "Overflow of the compact integer types occurs only beyond 127/255/65535 values, which tests never reach.",
 [U, D], ["create_lookup_table", "min_dtype", "LatticeData.set"])

prop("C16", "Atoms and connections are configured consistently",
 "Adding an atom at a free position appends it with that position (converted from lattice coordinates if requested) and keeps all earlier atoms, while an occupied position or a position of wrong dimension is rejected and changes nothing. A connection between two atoms, given as index, atom (of unique name) or name (which then means all atoms of that name), sets the number of distances symmetrically for exactly these pairs. After the atoms or connections have changed, a lattice cannot be built or its neighbors queried before it has been analyzed again (the attempt is refused with an error).",
 ["inputs", "histories"], "every sequence of adding atoms and connections, every number of atoms",
 "Order-dependent configuration states are not enumerated by tests.",
 [S, A], ["LatticeStructure.add_atom", "LatticeStructure.add_connection", "LatticeStructure.add_connections", "LatticeStructure.get_alpha", "LatticeStructure.get_atom", "LatticeStructure.analyze"])

prop("C17", "Site lookups and region queries select exactly the right sites",
 "Looking up a site by its position or by its lattice index returns the site with that position (within tolerance) or index, or nothing if there is none. Region queries return exactly the sites inside the given bounds (or outside, if inverted), missing bounds being unlimited; sites of one atom are returned completely and in order. Limits, center, relative positions and center of gravity are the extreme, middle, interpolated and mass-weighted positions of the sites.",
 ["inputs"], "every set of sites of any size and dimension 1 to 3, every bound, position and index",
 "Exactness of the selection for every bound and site set, including partially specified bounds, cannot be sampled.",
 [D, L], ["LatticeData.site_mask", "LatticeData.find_sites", "LatticeData.find_outer_sites", "LatticeData.get_positions", "LatticeData.get_limits", "LatticeData.get_index_limits", "LatticeData.get_cell_limits", "Lattice.superindex_from_pos", "Lattice.superindex_from_index", "Lattice.limits", "Lattice.center", "Lattice.relative_position", "Lattice.center_of_gravity"])

prop("C18", "Vector and grid helpers compute their mathematical definition",
 "Distances are Euclidean (rounded if requested); index grids contain every integer vector inside the limits exactly once, ordered along the sort axis; interleaving places element k of array i at position k times the number of arrays plus i; chaining lists all consecutive pairs, closing the cycle if requested. Rotations preserve lengths and angles, rotate about the requested axes by the requested angles, and cell sizes are the extents of the smallest axis-aligned box containing the origin and the tips of the vectors.",
 ["inputs"], "every input array of any length, all grid limits, all angles",
 "These helpers are used on arrays of arbitrary length, sign and magnitude; tests use a few literals.",
 [SP, U], ["distance", "distances", "vindices", "interweave", "chain", "cell_size", "rx", "ry", "rz", "rot", "rotate2d", "rotate3d"])

prop("C19", "Minimum distances respect the periodic images",
 "The minimum distances of a site to all sites are the smallest Euclidean distances over the site itself and all its images displaced by the periods of the active periodic axes (each with sign -1, 0 or +1). They are plain distances without periodic boundary conditions, symmetric between sites, and always follow the currently active boundary conditions, also after rebuilding or switching them.",
 ["inputs", "histories"], "every lattice, site, set of periodic axes and every order of building and switching",
 "Tests check single axes on a few lattices; diagonal images in three dimensions and stale axes are not covered.",
 [L], ["Lattice.minimum_distances", "Lattice.periodic_translation_vectors", "Lattice.set_periodic", "Lattice.build"])

prop("C20", "Dispersion paths interpolate linearly between the added points",
 "A path through given points in reciprocal space is built from one section per consecutive pair of points, each with the requested number of evenly spaced points from the first to the second point inclusive, in order. Ticks mark the section starts, labels stay attached to their points, edge distances are the Euclidean lengths of the sections, and closing the path adds its first point and label at the end.",
 ["inputs"], "every list of points of any dimension 1 to 3 and every number of points per section",
 "Tests contain no check of dispersion paths at all.",
 ["lattpy/disptools.py", U, SP], ["DispersionPath.build", "DispersionPath.add", "DispersionPath.add_points", "DispersionPath.cycle", "DispersionPath.distances", "DispersionPath.scales", "DispersionPath.get_ticks"])

prop("C21", "Copies and stored lattices are faithful and independent",
 "A copy of a lattice or of its data, or a lattice restored from a file, has the same basis, atoms (with their attributes), connections, analysis, sites, neighbors and boundary conditions as the original at that moment, and shares no modifiable state with it: changing one afterwards never changes the other. A lattice restored from its dictionary has the same basis, atoms and connections and is analyzed; adding atoms or connections to one of them afterwards never changes the other. Copying an atom keeps its name, weight and attributes and gives it its own attributes.",
 ["histories"], "every lattice of dimension 1 to 3 with one or two kinds of atoms, any sites and neighbors, and every later modification",
 "Aliasing between original and copy shows only under particular later modifications.",
 [L, S, D, A], ["Lattice.copy", "Lattice.dump", "Lattice.load", "LatticeStructure.dump", "LatticeStructure.load", "LatticeStructure.todict", "LatticeStructure.fromdict", "LatticeData.copy", "Atom.copy"])

prop("C22", "A Wigner-Seitz cell accepts exactly the points nearest to the origin",
 "A Wigner-Seitz cell built from a set of points that contains the origin accepts a point exactly when no point of the set is closer to it than the origin (a tie may be answered either way), for single points and arrays of points alike, wherever the origin is listed, and without modifying the points. The Wigner-Seitz cell of a lattice is built from lattice points including the origin, so for the lattices whose cell is bounded by their nearest neighbors (chain, square, triangular, simple and face-centered cubic) it accepts a point exactly when no lattice point is closer to it than the origin. The first Brillouin zone is the Wigner-Seitz cell of the reciprocal lattice.",
 ["inputs"], "every set of points of dimension 1 to 3 that contains the origin, every regular basis and every point",
 "Only a few named lattices are tested with single points.",
 [B, SP], ["LatticeBasis.wigner_seitz_cell", "LatticeBasis.brillouin_zone", "WignerSeitzCell.check"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
