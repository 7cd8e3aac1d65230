"""claimed checks (extra trusted models, note) and reasons of the others"""
CLAIMED = {
    'C06': ('', 'Meshes of 1-3 cells, marks as symbolic node sets or face lists; observed in the written file.'),
    'C07': ('', 'Lists of up to 4 symbolic values and sequences of up to 4 operations; connectivities of up to 5 elements.'),
    'C08': ('', '2D meshes of 1-4 cells, up to 4 planes, coordinates, direction and planes as exact reals.'),
    'C09': ('symbolic-h5py', 'Symbolic meshes of up to 4 faces, 4 marks and 8 variables; h5py modelled in memory.'),
    'C10': ('', 'Version 2.2 and 4.1 files of up to 9 nodes, 4 cells and 5 boundary elements with symbolic numbers.'),
    'C11': ('symbolic-h5py', 'Zones of up to 9 nodes, 3 cells, 3 sections in several orders and 4 boundary conditions, all lists symbolic.'),
    'C12': ('symbolic-h5py, symbolic-pyvista', 'Grids of up to 9 nodes and 4 cells of 7 types; pyvista and h5py modelled in memory, replayed on the real ones.'),
    'C13': ('symbolic-h5py, symbolic-pyvista', 'Lists of 2-3 files of up to 4 cells at symbolic positions in a symbolic order.'),
    'C14': ('symbolic-pyvista', '2-6 planes of 1-3 cells in any order, exact reals and exact roots of unity; cKDTree modelled as nearest point.'),
    'C15': ('symbolic-h5py, symbolic-pyvista', 'Existence of up to 4 candidate names symbolic; file system modelled in memory.'),
    'C16': ('symbolic-pyvista', 'Small IC3 and Gmsh inputs, all floats symbolic; symbolic scale factors and numbers of layers.'),
    'C17': ('', 'Boxes up to 3 cells in each direction; numbering formulas for sizes up to 60.'),
    'C18': ('', 'Orders 1 to 8, both bases, every point of [-1, 1]; the floats of the Gauss points are those scipy gives, tolerance 1e-9.'),
    'C19': ('', 'Every subset of the files behind a quantity, 2 times and 2 points, exact reals; the text reader of numpy is modelled.'),
    'C20': ('symbolic-h5py, symbolic-pyvista', 'Every pair of 22 operations in one session, interleavings, repeated questions; small symbolic meshes.'),
    'C21': ('', 'Every sequence of 4 operations with symbolic times; the clocks are replaced, the report is read from the log.'),
    'C22': ('', '2, 3, 4, 6 or 8 selected samples with the exact factors of the transform, spectrogram windows of 5 and 7 samples.'),
    'C23': ('symbolic-matplotlib', 'Maps of 2-4 times (8 for spectra) and 2-3 points of exact reals; what matplotlib is asked to draw is recorded.'),
    'C24': ('symbolic-h5py, symbolic-pyvista', 'Meshes of up to 3 cells, files of every format of up to 8 nodes; messages are observed through logging and print.'),
    'C25': ('', 'Meshes of up to 5 nodes and 3 cells with symbolic coordinates, every subset of boundary faces in 1-2 marks.'),
    'C26': ('symbolic-h5py, symbolic-pyvista, symbolic-matplotlib', 'Data sets of up to 4 additions, series of up to 3 instants of 2 variables, any version.'),
}
NA = {}
