"""writes properties.jsonl (kept as code so that titles, anchors and wording stay in one place)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'IC3 v2/v3 restart files round-trip',
     "Writing a mesh to an IC3 version 2 or 3 restart file and reading it back gives the same node coordinates, faces (number, node lists "
     "in order), face-to-cell pairs, named boundary zones with type, face range and periodic transform, partition, simulation state and "
     "statistics weights, and every node and cell variable the version supports, bit for bit. This holds for every byte order, and a file "
     "that was read can be written again unchanged.",
     ['inputs', 'configurations'], "all mesh contents (connectivity, 64 bit floats including NaN payloads and infinities, integers), zone layouts, "
     "variable kinds and names, degrees of freedom per cell, byte orders, format versions",
     "The tests round-trip a few sample files and mostly compare nothing but that no exception is raised; values, byte orders and variable kinds are not enumerated.",
     ['cfdtools/ic3/writerV2.py', 'cfdtools/ic3/writerV3.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/_ic3.py'],
     [('header and payload packing', 'cfdtools/ic3/_ic3.py BinaryWrite/BinaryRead/restartSectionHeader'),
      ('section writers', 'cfdtools/ic3/writerV2.py write_data'), ('section readers', 'cfdtools/ic3/reader_legacy.py read_data/export_mesh')],
     ['mesh returned by the reader export', 'bytes of the restart file'])
prop('C02', 'IC3 v2/v3 restart layout is respected and read in any order',
     "Every IC3 v2/v3 file written starts with the magic number and version and is a chain of 256-byte headers whose skip leads exactly to the "
     "next section up to the end marker, with the documented codes, counts, payload sizes and contents, face zones covering every face once. "
     "Conversely the reader gets the same mesh, zones, state and variables (node, face and cell; integer, scalar, vector, tensor) from any "
     "conforming file of either byte order whatever the order of its sections and skips sections it does not know.",
     ['inputs', 'configurations'], "all contents, both byte orders, permutations of sections, unknown sections of any unused code and size",
     "Tests read two sample files in the order their solver wrote them and never look at the bytes that are produced.",
     ['cfdtools/ic3/_ic3.py', 'cfdtools/ic3/writerV2.py', 'cfdtools/ic3/writerV3.py', 'cfdtools/ic3/reader_legacy.py'],
     [('section search by code with skip', 'cfdtools/ic3/_ic3.py restartSectionHeader.readVar'),
      ('header fields', 'cfdtools/ic3/writerV2.py')], ['bytes of the restart file', 'mesh returned by the reader export'])
prop('C03', 'Truncated or self-contradicting restart files are refused',
     "Reading an IC3 v2/v3 restart file that was cut anywhere before its end (crash while writing, partial copy) never succeeds: it raises "
     "instead of returning a mesh with missing or invented values. A file whose section counts contradict the mesh sizes is refused as well, and so is one whose faces, zones or partition refer to nodes, cells or faces beyond them.",
     ['crash_points', 'inputs'], "every truncation length of the file, every wrong value of a count",
     "No test reads an incomplete file.",
     ['cfdtools/ic3/_ic3.py', 'cfdtools/ic3/reader_legacy.py'],
     [('record length check', 'cfdtools/ic3/_ic3.py BinaryRead'), ('end of file section', 'cfdtools/ic3/_ic3.py readVar'),
      ('count assertions', 'cfdtools/ic3/reader_legacy.py')], ['exception raised by reading'])
prop('C04', 'Faces built from cells are complete, unique and correctly linked',
     "From any conforming 2D or 3D cell connectivity, the generated faces contain every face of every cell exactly once: shared faces appear once "
     "as internal faces linked to their two cells, other faces once as boundary faces linked to their cell and -1. Node lists are those of the "
     "cell faces, with boundary faces ordered outward and internal faces ordered from their first to their second cell.",
     ['inputs'], "all node numberings, cell indices, cell orders and ways cells share faces, for all supported cell types and mixes of them",
     "Tests count faces of a few structured meshes of one cell type.",
     ['cfdtools/meshbase/_connectivity.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_elements.py'],
     [('face pairing by sorted nodes', 'cfdtools/meshbase/_connectivity.py create_faces_from_elems')],
     ['internal and boundary face connectivities'])
prop('C05', 'Faces of a cell of any type form a closed outward surface',
     "For every supported cell type, with CGNS or Gmsh node numbering, the faces generated for a cell enclose it: for any node coordinates their "
     "oriented area vectors sum to zero, each edge is used once in each direction, and for a cell with positive volume the outward flux of the "
     "position equals the dimension times its volume.",
     ['inputs', 'configurations'], "all node coordinates, all element types, both numbering conventions",
     "Tests compare a few tables with copies of themselves; no test checks geometry.",
     ['cfdtools/meshbase/_elements.py', 'cfdtools/meshbase/_connectivity.py'],
     [('element face tables', 'cfdtools/meshbase/_elements.py'), ('orientation reversal', 'cfdtools/meshbase/_connectivity.py create_faces_from_elems')],
     ['boundary faces of single cells'])
prop('C06', 'Boundary marks become contiguous zones that keep their faces',
     "When a mesh with node-based or face-based boundary marks is prepared for writing, each mark gets exactly the boundary faces whose nodes all "
     "belong to it (or the faces it listed), as one contiguous range, the ranges being disjoint and covering all boundary faces, with faces in no "
     "mark gathered in an extra zone. Renumbering keeps each face with its nodes and cell, and marks that overlap on a face are refused.",
     ['inputs'], "all node sets / face sets of marks, number and order of marks, face types mix",
     "Tests use one cube with six disjoint marks.",
     ['cfdtools/meshbase/_mesh.py', 'cfdtools/ic3/writerV2.py'],
     [('node to face marks', 'cfdtools/meshbase/_mesh.py bocomarks_set_node_to_face'), ('renumbering', 'cfdtools/meshbase/_mesh.py reindex_boundaryfaces'),
      ('unmarked faces', 'cfdtools/meshbase/_mesh.py make_unmarked_BC')], ['marks and boundary faces', 'zones of the written restart file'])
prop('C07', 'Connectivity containers lose and invent nothing',
     "Index lists and ranges, element connectivities and compressed lists behave as the sequences they represent: shift, append, concatenation, "
     "compression, merge, export to and import from compressed form keep every (index, node list) pair and their order semantics, whatever "
     "the internal representation.",
     ['inputs', 'histories'], "all index values, node values, sizes, operation sequences",
     "Tests use two or three literal examples.",
     ['cfdtools/meshbase/_connectivity.py'],
     [('index containers', 'cfdtools/meshbase/_connectivity.py indexlist/elem_connectivity/compressed_listofindex')],
     ['list(), size, range(), items()'])
prop('C08', 'Extrusion produces every layer once with consistent nodes and marks',
     "Extruding a 2D mesh over n planes gives n copies of its nodes displaced by the plane positions along the direction, and n-1 layers in which "
     "each 2D cell becomes the matching 3D cell between consecutive planes, all cells numbered once, positively oriented, so that the faces of "
     "the extruded mesh match up. Marks are extended to all planes and the first and last planes are marked.",
     ['inputs', 'configurations'], "all 2D connectivities and coordinates, plane positions, directions, numbers of planes, element mixes",
     "Tests check node counts for one mesh.",
     ['cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_connectivity.py', 'cfdtools/meshbase/_elements.py'],
     [('node and mark extrusion', 'cfdtools/meshbase/_mesh.py export_extruded'), ('cell extrusion', 'cfdtools/meshbase/_connectivity.py extrude')],
     ['extruded mesh'])
prop('C09', 'IC3 v4 (HDF5) files round-trip',
     "Writing a mesh and its solution to IC3 version 4 HDF5 files and reading them back gives the same coordinates, faces, face-to-cell pairs, "
     "boundary zones (name, type, face range, translation of periodic zones), conservative variables, averaged statistics with their weights, "
     "step and time. The mesh can be read without a solution.",
     ['inputs', 'configurations'], "all mesh contents, zone layouts, solution values, presence of a solution",
     "Tests convert one file and compare little.",
     ['cfdtools/ic3/writerV4.py', 'cfdtools/ic3/readerV4.py'],
     [('HDF5 groups', 'cfdtools/ic3/writerV4.py'), ('HDF5 reading', 'cfdtools/ic3/readerV4.py')], ['mesh returned by the reader export', 'HDF5 contents'])
prop('C10', 'Gmsh meshes are read faithfully',
     "Reading an ASCII Gmsh file of version 2 or 4 yields exactly the nodes (each coordinate at its node number), the cells of highest dimension with "
     "their node lists in file order per type, and for each named physical boundary the set of nodes of its elements; nothing else becomes a "
     "cell or a mark.",
     ['inputs'], "all coordinates, connectivities, tags, physical groups, block structures and entity tables of conforming files",
     "Tests read three sample files and only check that it works.",
     ['cfdtools/gmsh/reader.py', 'cfdtools/gmsh/_gmsh.py'],
     [('section parsing', 'cfdtools/gmsh/reader.py')], ['mesh returned by the reader export'])
prop('C11', 'CGNS meshes are read faithfully',
     "Reading an unstructured zone of any base of a CGNS/HDF5 file, the only one or the one named, yields exactly its node coordinates, its cells of the base dimension with 0-based nodes and consecutive "
     "cell indices, and for each boundary condition the set of nodes it covers, whether it is given by vertices or by boundary "
     "elements, under its family or own name; marks of the whole domain are not boundaries.",
     ['inputs', 'configurations'], "all coordinates, connectivities, element sections and their order, boundary condition kinds",
     "Tests read two sample files.",
     ['cfdtools/cgns/cgns.py', 'cfdtools/hdf5/_hdf5.py'],
     [('zone parsing', 'cfdtools/cgns/cgns.py')], ['mesh returned by the reader export'])
prop('C12', 'VTK and HDF5 mesh conversions keep nodes and cells',
     "Converting a mesh to a VTK grid, saving, reading it back and exporting it again, or dumping it to HDF5 and importing it, keeps node coordinates and "
     "the cells of every type with their node order. Extracting selected cells gives exactly these cells in the requested order with the same "
     "node positions.",
     ['inputs'], "all coordinates, connectivities, cell type mixes, selections",
     "Tests convert sample meshes and check counts.",
     ['cfdtools/vtk/_vtk.py', 'cfdtools/hdf5/_hdf5.py'],
     [('conversion', 'cfdtools/vtk/_vtk.py set_mesh/export_mesh/dumphdf/importhdfgroup/vtk_extract_cells')], ['VTK grid', 'HDF5 contents', 'exported mesh'])
prop('C13', 'Packing a VTK time series attaches each value to the right cell',
     "Packing a list of VTK files whose cells may be stored in different orders gives, for every file and variable, data arranged in the cell order "
     "of the first file, with the file's time, and refuses files whose cells do not coincide with the first one within tolerance, or that lack a selected variable. The written HDF5 "
     "(and XDMF) contain the common mesh and one entry per file.",
     ['inputs', 'histories'], "all permutations of cells between files, data values, times, variable selections",
     "Tests use two sample files in one order.",
     ['cfdtools/vtk/_vtkList.py', 'cfdtools/data.py', 'cfdtools/hdf5/_hdf5.py'],
     [('reordering by nearest cell centre', 'cfdtools/vtk/_vtkList.py read'), ('HDF5 dump', 'cfdtools/data.py DataSetList')], ['HDF5 file', 'data list'])
prop('C14', 'Plane averages combine exactly the cells above each other',
     "Averaging a VTK grid made of identical planes of cells stacked along a direction returns a one-plane grid on which each cell holds, for every selected "
     "variable, the mean, standard deviation, first Fourier modes or snapshot of the values of the cells aligned with it, whatever "
     "the order of the cells in the file. Grids that are not made of identical, evenly spaced planes are refused.",
     ['inputs', 'configurations'], "all cell orders, data values, option combinations",
     "Tests use one regular mesh in one order.",
     ['cfdtools/vtk/_vtk.py'],
     [('plane detection and matching', 'cfdtools/vtk/_vtk.py vtk_zconvolution')], ['resulting grid and its cell data'])
prop('C15', 'Conversions never overwrite an existing file',
     "The tools that pick an output name (conversion commands, HDF5 dumps without the overwrite option) never overwrite or delete an existing file: "
     "the name used did not exist, stays in the requested folder, and keeps the stem and extension with the first free numbered suffix. "
     "The input file is never modified.",
     ['inputs', 'histories', 'configurations'], "all sets of already existing files, output folders, file names",
     "Tests exercise one repetition.",
     ['cfdtools/api.py', 'cfdtools/_cli.py', 'cfdtools/data.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/vtk/_vtkList.py'],
     [('safe new name', 'cfdtools/api.py find_safe_newfile')], ['file system'])
prop('C16', 'Command-line conversion applies exactly the requested operations',
     "The conversion commands read the format given by the option or the file extension and write the mesh with only the requested changes: "
     "scaling multiplies each coordinate by its factor, extrusion builds the requested number of equal layers over a unit height, removed node, face and cell "
     "data are absent and all other data kept. Unknown formats are refused.",
     ['inputs', 'configurations'], "all contents, scale factors, combinations of options, formats",
     "Tests run a few option combinations without looking at the result.",
     ['cfdtools/_cli.py', 'cfdtools/api.py', 'cfdtools/meshbase/_mesh.py'],
     [('generic conversion', 'cfdtools/_cli.py write_generic')], ['written file'])
prop('C17', 'Cartesian boxes are valid meshes of the unit cube',
     "For any numbers of cells, the Cartesian box generator gives a mesh of the unit cube whose hexahedra are numbered once, positively oriented and share "
     "faces consistently, each node at its lattice position, with six marks holding exactly the nodes of each side. "
     "The command cfdwritecube writes that mesh with the requested numbers of cells, in the requested format and folder.",
     ['inputs'], "all numbers of cells within bounds",
     "Tests check two sizes by counting.",
     ['cfdtools/meshbase/simple.py', 'cfdtools/_cli.py'], [('generator', 'cfdtools/meshbase/simple.py Cube'), ('command', 'cfdtools/_cli.py cfdwritecube')], ['generated mesh'])
prop('C18', 'Spectral interpolation and derivative weights are exact on polynomials',
     "For each basis and order, interpolation weights at any point reproduce every polynomial of degree below the order from its values at the Gauss points, "
     "and derivative weights reproduce its derivative; interpolation weights sum to one, derivative weights to zero.",
     ['inputs'], "all evaluation points in the reference interval, all polynomials of the degree, orders",
     "Tests check end points for a few orders.",
     ['cfdtools/utils/polybase.py'], [('Vandermonde inverse', 'cfdtools/utils/polybase.py poly1d')], ['returned weights'])
prop('C19', 'Probe quantities follow their definitions',
     "Requesting a quantity of a probe line reads its file when there is one and otherwise computes it, through whatever chain of dependencies, from the files "
     "that exist with the documented formula; a missing dependency raises an error instead of giving a wrong value. Data keep the "
     "sampled order and times, and coordinates are taken once.",
     ['inputs', 'configurations'], "all sample values, sets of available files, order of requests",
     "Tests plot one sample line.",
     ['cfdtools/probes/data.py'], [('dependency resolution', 'cfdtools/probes/data.py check_data')], ['stored quantities'])
prop('C20', 'Results do not depend on what was done before',
     "Reading, writing or querying again, or after working with other meshes and formats in the same session, gives the same result as in a fresh session: "
     "writing a mesh twice gives identical files, asking the same quantity twice gives the same value, and reading "
     "one format does not change how another is interpreted.",
     ['histories'], "all contents; sequences of operations of the bounded kinds",
     "Tests run each operation once per mesh.",
     ['cfdtools/meshbase/_elements.py', 'cfdtools/gmsh/reader.py', 'cfdtools/ic3/writerV2.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/data.py', 'cfdtools/api.py'],
     [('module level tables', 'cfdtools/meshbase/_elements.py'), ('cached values', 'cfdtools/vtk/_vtk.py volumes')], ['repeated results'])
prop('C21', 'Timers report exactly the time spent running',
     "A timer accumulates the time between each start and pause or stop and nothing else, never goes backwards on a monotonic clock, and misuse (starting twice, stopping "
     "when not started) raises an error without changing what was measured. The report of a stopped timer is that time, given per element too when a number of elements is known.",
     ['histories', 'schedules'], "all clock readings, sequences of start/pause/stop within bounds",
     "Tests cannot control the clock.",
     ['cfdtools/api.py'], [('accumulation', 'cfdtools/api.py Timer')], ['elapsed'])
prop('C22', 'Spectra of sampled signals match the discrete Fourier transform',
     "The spectrum of a time series has one value per frequency, at the frequencies of its sampling step, equal to the modulus of the discrete Fourier transform of the "
     "selected samples, for every variable but time; a spectrogram has the logarithm of the spectrum of each half-overlapping window at the time of its centre; the source "
     "data are left unchanged.",
     ['inputs'], "all samples, window bounds, time steps",
     "Tests check shapes on one signal.",
     ['cfdtools/data.py'], [('transform', 'cfdtools/data.py dataSet_spectrum')], ['returned data set'])
prop('C23', 'Probe maps show the requested variable against axis and time',
     "The map saved for a probe line shows the values of the requested variable at every time and point against the requested axis (its average in time when it varies) and the times; the "
     "frequency map shows the modulus of the Fourier transform in time at each point against the first frequencies of the sampling step. It uses the requested colors and levels, shows nothing "
     "of maps drawn before, and alters neither the data nor the files.",
     ['inputs'], "all sampled data",
     "The images are not inspected by the tests.",
     ['cfdtools/probes/plot.py', 'cfdtools/plot.py'], [('plots', 'cfdtools/probes/plot.py')], ['image files'])
prop('C24', 'Summaries report what the files hold and change nothing',
     "The information commands (cfdinfo, ic3brief, vtkbrief) and the summaries of meshes accept everything their reader accepts and report its numbers of nodes, cells and faces, its cell "
     "and face types, the range of each coordinate, the boundaries with their extent, and the minimum, mean and maximum of each variable or component; neither the file nor the mesh is changed "
     "and nothing else is written.",
     ['inputs'], "all coordinates, marks and values within bounds, every format",
     "Tests only run the commands.",
     ['cfdtools/_cli.py', 'cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_connectivity.py', 'cfdtools/vtk/_vtk.py', 'cfdtools/ic3/reader_legacy.py', 'cfdtools/ic3/_ic3.py'],
     [('summaries', 'cfdtools/meshbase/_mesh.py printinfo')], ['messages', 'files'])

prop('C25', 'Meshes hold exactly what they are given and refuse the rest',
     "A mesh gives back the coordinates it was given, however they are given; morphing it by a function of x, y and z moves each node to the value of the function at its position "
     "and scaling multiplies the coordinates, and nothing else in the mesh changes. Its numbers of nodes, cells and faces are always those of what it holds, marks and data given "
     "again replace the first ones and those removed are gone while the others stay, and coordinates of the caller and of other meshes never change. Checking a mesh accepts exactly meshes with nodes and cells whose generated boundary faces are all marked, without changing it, and "
     "coordinates for another number of nodes and unknown kinds of faces, marks or types are refused leaving the mesh as it was.",
     ['inputs', 'histories'], "all coordinates, markings and sequences of changes within bounds",
     "Tests build a few meshes and look at their sizes.",
     ['cfdtools/meshbase/_mesh.py', 'cfdtools/meshbase/_connectivity.py', 'cfdtools/data.py'],
     [('mesh', 'cfdtools/meshbase/_mesh.py Mesh'), ('marks', 'cfdtools/meshbase/_mesh.py submeshmark')], ['mesh contents'])
prop('C26', 'Data sets and dumped series hold exactly the data given',
     "A data set gives back for each name the data last given, lists names in the order they were added, accepts only the kinds it knows and several degrees of freedom only for spectral "
     "data, and draws exactly the named data. A series written to HDF5 holds the mesh and, for each instant in order, its variables bit for bit and its time, whatever the caller does with "
     "the dictionaries afterwards. An HDF5 file records its kind and version which are given back when it is opened (0 without version); opening "
     "with a wrong kind or mode is refused and leaves the file untouched, and appending keeps what it holds.",
     ['inputs', 'histories'], "all values, names and sequences within bounds",
     "Tests write one series and do not read it again.",
     ['cfdtools/data.py', 'cfdtools/hdf5.py'],
     [('data sets', 'cfdtools/data.py DataSet'), ('series', 'cfdtools/data.py DataSetList'), ('header', 'cfdtools/hdf5.py h5File')], ['data sets', 'HDF5 files'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            assert len([s for s in p['statement'].replace('e.g.', '').split('. ') if s.strip()]) <= 3, p['id']
            f.write(json.dumps(p) + '\n')
