"""per property: (how it is decided, oracle, what it reaches beyond tests); used by gen_design.py"""
TEXT = {
 'C01': ("A mesh with symbolic coordinates, connectivities, zones, state and variables is written with the real writers (v2, v3) into a file held in memory (its bytes are terms) and read back by the real reader; "
         "every value must be the same term, bit for bit. `rewrite` writes the mesh that was read and requires the same bytes.", "the symbolic input itself",
         "every 64-bit pattern (NaN payloads, -0.0), every node list and cell pair, every byte order"),
 'C02': ("`layout`: bytes produced by the writers are decoded by an independent model of the format (`ic3fmt.py`): header chain, codes, counts, sizes, payloads, zones covering each face once. "
         "`reader`: files encoded by this model with sections in many orders, unknown sections, both byte orders are given to the real reader.", "`checks/ic3fmt.py`", "files the writers never produce, all contents"),
 'C03': ("A conforming file is cut at a symbolic length (every length below the full one) and read: an exception is required on every path. Counts in the sections, and the nodes, cells, zone faces and partition sizes, are symbolic integers assumed to contradict the mesh.",
         "the reader must raise", "every crash point of a write, every wrong count"),
 'C04': ("Cells of symbolic node lists (free or glued layouts, symbolic rotations) go through the real face construction; faces must be exactly those of an independent table of cell faces, with the right cells, and orientation by geometry.",
         "`checks/shapes.py`, checked by its own geometry at import", "all conforming small connectivities, including those where node numbers are large or unordered"),
 'C05': ("Faces generated for one cell of every type of the tables (both numberings) with symbolic coordinates: sum of area vectors and flux identities are polynomial identities decided over the reals.",
         "divergence theorem", "every position of the nodes"),
 'C06': ("Meshes of one to three cells with symbolic marks (sets of nodes or lists of faces) are written by the real writers and the zones are read in the file by the independent model; each zone must hold exactly the faces entitled.",
         "sets of faces computed from the symbolic marks", "every mark, overlapping or empty ones included"),
 'C07': ("Sequences of operations on symbolic index lists, ranges, connectivities and compressed lists are compared with the plain sequences they represent after each operation.", "Python lists of terms", "all contents and operation orders within bounds"),
 'C08': ("2D meshes with symbolic coordinates, planes and direction are extruded by the real code; nodes, layers, orientation (volume sign as polynomials), marks and shared faces are compared with direct formulas.", "formulas over the input terms",
         "all coordinates, planes and mixed cells; nodes used by no cell"),
 'C09': ("Round trips through the real v4 writer and reader on a model of h5py (replayed on h5py): all values are 64 free bits. Conversions from and to v2/v3 go through both.", "the symbolic input", "all contents, zone orders, missing parts"),
 'C10': ("Gmsh files (2.2 and 4.1) whose numbers are symbolic tokens are parsed by the real reader; nodes, cells by type in file order and node sets of named boundaries are compared with what the file says.", "the symbolic file",
         "every node numbering, tag and connectivity within bounds"),
 'C11': ("CGNS trees are built in the model of h5py with symbolic coordinates, connectivities and point lists; what the real reader exports is compared with the tree.", "the symbolic tree", "orders of sections, marks by vertices or elements, families, several bases and zones"),
 'C12': ("Symbolic meshes are converted to grids (model of pyvista), saved, read, exported; dumped to HDF5 and imported; selections are symbolic lists. Nodes and cells are compared in both directions.", "the symbolic input", "all connectivities, selections, types"),
 'C13': ("Lists of files hold the same cells at symbolic positions in a symbolic permutation; the packed arrays must be those of the first file's order; other lists must be refused.", "the permutation", "every storage order, every displacement around the tolerance"),
 'C14': ("Stacks of planes of cells in symbolic order with exact real values; means, deviations, Fourier modes (exact roots of unity) and snapshots are compared with definitions; irregular stacks must be refused.", "definitions over the exact values",
         "every order of cells and planes, all values"),
 'C15': ("The existence of every candidate name is a symbolic Boolean; the tool runs on the modelled file system and the name used must be the first free one, every existing file being left intact.", "first free suffix", "every combination of existing names"),
 'C16': ("The real commands run on symbolic files (bits or exact reals) with symbolic factors and layers; the output is read again and compared with the requested changes only.", "formulas over the input", "all contents and combinations of options"),
 'C17': ("Boxes are generated for all sizes within bounds (symbolic sizes concretised by forks), numbering formulas are decided for symbolic sizes and indices, volumes by the determinant; the command writes and the file is read again for symbolic sizes.", "lattice formulas", "sizes other than the two tested, each index"),
 'C18': ("Weights at a symbolic evaluation point are polynomials of it: equality with each monomial and its derivative is decided over the whole interval up to 1e-9.", "monomials", "every point of the interval, every order to 14"),
 'C19': ("Every subset of files that may exist behind a quantity, symbolic samples: the stored quantity must satisfy its formula (square roots and logarithms through their defining equations), or an error is raised.", "definitions", "all subsets and request orders"),
 'C20': ("Pairs (and interleavings) of the operations of the tool run in one symbolic session and each result must equal the one of a session of its own on the same terms.", "the same operation alone", "all pairs, all contents: hidden module state, caches, shared arrays"),
 'C21': ("The clock returns symbolic times; every sequence of operations within bounds is explored and the elapsed and reported times compared with a reference accumulator.", "accumulator over symbolic times", "all histories and clock readings"),
 'C22': ("Spectra of symbolic samples with exact roots of unity (2, 3, 4, 6, 8, 12 samples): the square of the result must equal the polynomial of the definition. Spectrograms are compared with the transform of each window.", "definition of the transform", "all samples and windows"),
 'C23': ("The real command runs with a model of matplotlib recording what is drawn and saved (the real library is recorded in replays); arguments are compared with the symbolic data.", "symbolic data and C19/C22 definitions", "all data, sequences of maps"),
 'C24': ("Messages are recorded; symbolic numbers printed in them are tokens standing for their terms, so that counts, extents and ranges are compared with the mesh for all values; files and meshes must be intact.", "the mesh and file contents", "all contents, empty or unordered boundaries, every format"),
 "C25": ("Meshes are built from symbolic coordinates (arrays, lists, separate x, y, z), morphed by functions with exact real results, their faces and marks added and removed in symbolic sequences; what they hold is compared with a reference, and refusals must leave them intact.", "the given values and a reference of what is held", "all coordinates, every subset of marked faces, sequences of changes"),
 "C26": ("Sequences of additions with symbolic names and values; series are dumped to the model of h5py (the real one in replays) and the stored arrays compared bit for bit; headers have a symbolic version.", "the given values", "all values, sequences of additions, dictionaries reused by the caller"),
}
NOTES = """
False alarms met while building, and what was done:
- C09 first required that no periodicity is invented for zones of any type: too strong (the format stores none for cylindrical ones); the property speaks of the translation of periodic zones.
- C07 merged connectivities with duplicate indices in the harness (not a legal input): the harness now gives distinct ones.
- C13: centres of mixed cells were compared exactly by the harness though the library averages bounds for some types: modelled per type.
- C14: mixed cell types along the stack are outside (the library refuses or not depending on the centre).
- C16 compared -0.0 with 0.0 bit for bit after scaling by a factor: compared as numbers.
- C20: the IC3 reader hands its own data sets to the mesh it exports, so that a second export of the same reader shares them: by design, excluded (two readers are used).
- C21 read the digits of the task name as a reported time: the name has no digit now.
Machinery errors found and repaired: `SymArray.real` returned itself for complex values; square roots of a negative real take a nan path; the sizes of VTK cells were first a function of the index only.

Strengthened after a miss (planted bug missed at first, then caught): b08 (nodes used by no cell), b11 (merging of cell blocks), b15 and b16 (sharing of memory between results and inputs is modelled), b17 (options given after each other),
b25 (all ordered pairs of quantities), b28 (volumes depend on geometry), b24 (unsupported function, exit 2), b40, b41 and b50 (names which begin, end or spell like another name: now in every check which handles names), b44 (memory order of arrays is modelled),
b46 (as many boundary faces as nodes), b47 (node numbers far apart: order of Python sets), b53 (files drifting from the first one), b61 and b66 (faces in several marks, names of statistics), b69 (signals with two steps),
b74 (integers beyond 2**53 are rounded when they become floats), b77 (planes far apart), b79 (points outside the element), b80 (verbose), b82 (cells replaced after the faces were made), b84 (12 names to remove), b85 (more than 256 nodes extracted),
b86 (lists of marks keep their kind), b88 (families with a slash and a space), b96 (series of mixed variable types), b98 (timer stopped inside its with block), b101 (many cells and files), b104 (files replaced in the same session).
"""
