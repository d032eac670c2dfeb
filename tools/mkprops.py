"""Regenerates properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
P = []
SF='freesif/sequentialparser/sequentialfiles.py'; PA='freesif/sequentialparser/parsers.py'; CV='freesif/sequentialparser/sif2hdf5.py'
FI='freesif/data/file.py'; SD='freesif/data/sifdata.py'; ST='freesif/data/strucdata.py'; HY='freesif/data/hydrodata.py'; HE='freesif/data/helpers.py'
WR='freesif/utils/writers.py'
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {'files': files, 'mechanism': [dict(name=n, where=w) for n, w in mech]}
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p('C01', 'Numeric data are read identically however they are blocked or requested',
  'Reading the numeric values that follow a record header yields exactly the values on the file, in file order, with no value lost, repeated or reordered, for every sequence of request sizes (including zero) and for every way the values are split over physical lines or blocks. The same values are delivered for a formatted file and for an unformatted file holding the same data. Values left over from one record are never delivered as part of another record.',
  ['inputs', 'histories'], 'all float streams, all splits into physical records (4 per line formatted; 1..32 per block unformatted), all sequences of request sizes',
  'The tests read a handful of files produced by one program: the blocking, request sizes and remainders that occur are the ones in those files.',
  [SF], [('unformatted reader and its remainder buffer', SF+':UnformattedFile.read_floats/read_floatrec/read_stringrec'), ('formatted reader', SF+':FormattedFile.read_floats/tofloatrec')],
  [('hasrest/floatrest', 'values read from the file but not yet delivered', SF)])
p('C02', 'Skipping a record always lands exactly on the next record',
  'Skipping any record - one that is not implemented, one excluded by a record-name filter, a prologue record with a negative first value announcing a run of records, or one with text lines - ends exactly at the header of the record that follows it in the file, whatever the kind, length and blocking of the skipped record and whichever supported record comes next. Therefore unrecognised or excluded records never change what is stored for the other records, and records chosen by a filter (together with the records they depend on) are stored exactly as without the filter.',
  ['inputs'], 'all sequences of records: any mix of read, unknown, excluded, negative-first-value and text records, 0..n continuation lines, formatted and unformatted',
  'The test files contain few unknown records and never next to every kind of supported record; filters are only tested with one example.',
  [SF, PA], [('record skipping', SF+':SequentialFile.skip_restofrecord/skip_contrecs'), ('dispatch and only-filter', PA+':general_parser/parse_file'), ('header recognition', SF+':at_headerrec, allowed record names')])
p('C03', 'Every field of every supported record is stored under its own column',
  'After conversion each record of a supported type appears exactly once, in file order, as one row of the table of its type, and every column of that row holds the value at the position the record definition gives to that column (missing trailing optional values are zero). This holds for every supported record type, any field values, any number of records, and both file formats. Matrix-, vector- and complex-valued columns are assembled from the file values in the defined order.',
  ['inputs'], 'all record types with a reader, all field values representable on file, all record counts',
  'Tests compare a few derived quantities for a few models; most columns of most of the ~60 record types are never compared with the file.',
  [PA], [('record readers and column descriptors', PA+':*_reader, standard_record_reader, reader_optionalfields, *_rec'), ('continuation-line layout', SF+':read_floats/read_floatrec')])
p('C04', 'Variable-length data are linked to exactly their own record',
  'For every record type with variable-length parts, the start and stop indices stored with a record delimit exactly the values that belong to that record in the companion array: same values, same order, same length, and an empty range when the part is absent. Ranges of successive records are disjoint and follow file order, with nothing in the companion array outside them. This holds for lengths zero, one and many, whether or not the length is a multiple of the line length, and for data read in several runs of the same record type.',
  ['inputs'], 'all record types with companion arrays, all part lengths, all counts and all interleavings of record types',
  'Tests only see the lengths in the test models; absent parts and records split over several runs hardly occur.',
  [PA, SD], [('range bookkeeping', PA+':vldata.add/write, recdata.add'), ('variable-length readers', PA+':gelmnt1_reader .. WSURFACE_reader'), ('lookup of the range', SD+':SifData._get_varlendata')],
  [('start/stop', 'range of the companion array belonging to the current record', PA+':vldata')])
p('C05', 'Internal buffering is invisible for any number of records',
  'The stored tables and companion arrays are the same whatever the internal buffer size and however many records there are, including zero records left in the buffer, exactly a full buffer, one more than a full buffer and several full buffers. No record is lost, duplicated or reordered at a buffer boundary, and every record and its variable-length data are stored when reading of the record type ends.',
  ['inputs', 'configurations'], 'all record counts and all buffer sizes >= 1',
  'The buffer holds 100000 records; no test file comes near the boundary, so the flush path is never executed by a test.',
  [PA], [('record buffer', PA+':recdata.add/write'), ('variable-length buffer', PA+':vldata.add/write')],
  [('counter', 'number of valid rows in the buffer', PA+':recdata')])
p('C06', 'Converting a file never depends on files converted earlier in the session',
  'The result of converting a file is a function of that file, its lower-level files and the arguments only: converting any other files before it in the same process, in any order and of any type, leaves the result unchanged. In particular element types, result-point and component definitions, complex flags, hierarchy data, superelement numbers, name prefixes and file-type settings never carry over from one conversion to the next.',
  ['histories'], 'all finite sequences of conversions in one process',
  'Tests convert each file in a fixed order; leaked state usually agrees with the next file of the same model.',
  [PA, CV], [('state reset', PA+':reset'), ('per-conversion settings', CV+':sif2hdf5'), ('module globals', PA+': global variables and containers')])
p('C07', 'Superelement hierarchies are read completely, once, into the right groups',
  'Converting a top-level file also reads every lower-level file that the hierarchy data name and that exists in the same directory - one per superelement for input files, one per first-level superelement occurrence for result files - and nothing else; a missing file is reported and skipped. Each superelement is stored under the top-level group in a group named by its type (and, for results, its index), with its level, file type, superelement type, index and list of stored record types recorded on the group.',
  ['inputs'], 'all hierarchy tables (any depth, repetition, numbering) and all subsets of lower-level files present',
  'One three-level assembly is tested; other depths, repetitions, prefixes and missing files are not.',
  [CV, PA], [('lower level file names', CV+':sif2hdf5 (hierarchy part)'), ('group path and attributes', PA+':get_path/parse_file/set_current_ihref'), ('hierarchy record', PA+':hierarch_reader')])
p('C08', 'File name, prefix, append and sequence options select group names as documented',
  'The top-level group is named by the given prefix, then (unless disabled) the file-name prefix, then the file type letter and the superelement number; only valid interface file names are accepted and .SIN files are refused. Without appending, the output file contains the new data only; with appending, all earlier groups remain unchanged beside the new ones; a sequence of files gives the same groups as converting them one by one. Invalid combinations of arguments are rejected without touching any file.',
  ['inputs', 'configurations'], 'all file names, prefixes, append/only/sequence/in-memory combinations',
  'Tests cover a few fixed combinations and check only that groups exist.',
  [CV, PA, HE], [('argument handling and name pattern', CV+':sif2hdf5'), ('group name', PA+':get_path'), ('name parsing', HE+':parse_sifname')])
p('C09', 'Closed files and data objects refuse every operation and can be closed again',
  'After a file or any of its data objects has been closed, every data-access operation on the file and on every data object obtained from it raises the closed-file error, whatever the arguments, and the string forms say that the object is closed. Closing again is harmless, closing a data object closes its whole file, and closing all files closes exactly the files still open. Closing one file leaves other open files usable.',
  ['histories', 'inputs'], 'all sequences of open/close operations and all access operations with any arguments',
  'Tests call a few methods once after a close; sequences, repeated closes and several open files are not covered.',
  [FI, SD, ST, HY], [('closed checks', FI+':File._check_isopen, '+SD+':SifData._check_isopen'), ('closing', FI+':File.close/close_all_files, '+SD+':SifData.close/_close'), ('record access', SD+':SifData._get_record')],
  [('_isopen', 'open/closed state', FI+' and '+SD), ('_open_files', 'files to be closed by close_all_files', FI)])
p('C10', 'An opened file presents exactly its groups through a consistent mapping',
  'An opened file offers one data object per stored top-level group and per stored sub-group, keyed by the group path, of the kind matching the stored data type and level, and bound to its own group, its file and (for lower levels) its top-level object. Indexing, get with default, membership, keys, values, items, iteration and the string forms all agree on this set for any number and mix of groups.',
  ['inputs'], 'all sets of stored groups (any number, type, level, nesting)',
  'Tests open files with one or two groups and never iterate over or print several.',
  [FI, SD], [('construction of data objects', FI+':File.__init__'), ('mapping methods', FI+':File.__getitem__/get/keys/values/items/__contains__/__iter__')])
p('C11', 'Connectivity always refers to the nodes returned for the same selection',
  'For every selection of sets and element kinds, looking up the returned connectivity in the node coordinates (or node numbers) returned for the same selection gives, element by element, the nodes the model file lists for the selected elements; each node index is within range, and the offsets and element types correspond one to one with the selected elements. With disconnected nodes each element has its own consecutive nodes carrying the same coordinates.',
  ['inputs'], 'all models (numbering, element mixes) and all combinations of sets, kind and disconnected',
  'Tests compare stored arrays for two models and a few selections.',
  [ST, SD], [('connectivity renumbering', ST+':StrucData._update_connectivity/_get_connectivity'), ('node selection', ST+':StrucData._get_nodeindices'), ('public getters', ST+':FirstLevelData.get_nodes/get_nodenumbers/get_elements')])
p('C12', 'Selections by set and kind return exactly the selected elements, consistently',
  'Selecting elements by one or more set names gives the union of the members of those sets (each element once, in model order), selecting by kind gives exactly the beams or exactly the shells, and selecting by both gives the intersection; element numbers (external and internal), element types, section properties and thicknesses all refer to that same list in the same order. Unknown set names, kinds or number types raise an error rather than return other data.',
  ['inputs'], 'all set definitions (overlapping, split over several records, node and element sets), all kinds and combinations',
  'Tests use one set per model containing a single kind of element.',
  [ST, HE], [('set lookup', ST+':StrucData._get_setmember_indices'), ('kind filter', ST+':StrucData._get_elementkind_indices/_get_elementindices'), ('number getters', ST+':FirstLevelData.get_elementnumbers')])
p('C13', 'Node results are aligned with the nodes of the same selection',
  'For every result type, run, choice of result cases and selection, row i of the returned node results is the six-component result stored for node i of the node list returned for the same selection, per result case in increasing stored order, and only for the requested run and cases. Complex results are returned as complex numbers with all six components, real ones as real; mixing real and complex cases is refused. With disconnected nodes each element node gets the values of the node it came from.',
  ['inputs'], 'all result files (cases, runs, complex flags), selections and argument combinations',
  'Tests compare one real result case per model; complex node results and several cases are not checked against the file.',
  [ST, PA], [('node result getter', ST+':FirstLevelData.get_noderesults'), ('case selection', ST+':StrucData._get_resrefs/_check_complex_and_get_flag'), ('stored values', PA+':rvnodres_reader')])
p('C14', 'Element results are exact for linear stress fields at the element nodes',
  'Element results are returned for exactly the selected elements of the relevant kind, in stored order, one block per element with the documented shape. At nodes: thin shells and two-node beams return the stored values of the result points located at the nodes; thick shells and three-node beams return values that reproduce exactly every field the element type interpolates (linear through thickness, bilinear or linear in plane), with transverse shear zero on the surfaces for general stress. Decomposed stresses are the membrane (mean) and bending (half difference of the surfaces) parts of the surface stresses, plus transverse shear scaled to its mid-surface peak for thick shells.',
  ['inputs'], 'all stored stress/force values (real or complex), all element types, positions and result types',
  'Tests compare with stored arrays of one model per element type, for one load case.',
  [ST], [('per-type processing', ST+':FirstLevelData._process_eltyp15 .. _process_eltyp28'), ('extrapolation and decomposition', ST+':xquad/xtri/xbm3, _extrapolate_to_surface, _decompose_stresses_thin/_thick'), ('element result getter', ST+':FirstLevelData.get_elementresults')])
p('C15', 'Superelement coordinates are transformed along the hierarchy to any level',
  'The transformation of a first-level superelement occurrence to a level is the product, in order, of the transformations stored along its chain of parents up to that level (identity at level one), and node coordinates requested with a level, the top level or an explicit matrix are the untransformed coordinates multiplied as homogeneous row vectors by that matrix. Levels that do not exist or in which the occurrence is not present, unknown occurrences and data without a hierarchy raise an error instead of returning coordinates.',
  ['inputs'], 'all hierarchies (depth, skipped levels, repetitions), levels, indices and matrices',
  'No test requests transformed coordinates for a hierarchy.',
  [ST, FI], [('chain product', ST+':TopLevelData.get_transformation'), ('application', ST+':FirstLevelData.get_nodes'), ('top-level reference', FI+':File.__init__')])
p('C16', 'Hydrodynamic results have the documented axes for all counts',
  'For every number of directions, frequencies, sections, points and panels, each entry of a returned hydrodynamic result array is the stored value of the record with that direction, frequency (and section, point, panel or symmetry part) and component, with the axes in the documented order; wave elevation is pressure divided by density and gravity. Frequencies, periods and directions are listed in file order, each once, matching those axes, and directions are converted between radians and degrees.',
  ['inputs'], 'all counts of directions, frequencies, sections, points, panels and symmetry parts, all values',
  'One file is tested; swapped axes of equal length or wrong order for other counts go unnoticed.',
  [HY], [('reshaping', HY+':get_motion_raos/get_excitationforce_raos/get_sectionforce_raos/get_fluidkinematics_raos/get_meandrift/get_horiz_meandrift/get_panel_pressures'), ('axis values', HY+':HydroData.__init__')])
p('C17', 'Hydrodynamic data are those of the requested body and matrix type',
  'Matrices, motions, forces, drift forces, panel pressures and body properties are taken only from records of the requested body (and coupling body) and matrix type, in file order; frequency-dependent matrices are stacked along the last axis and the frequency-independent ones returned as a single six by six matrix. The named matrix getters return the matrix of their type. An unknown body, matrix type, unit or result kind raises an error.',
  ['inputs'], 'all numbers of bodies, numberings of body conditions, and interleavings of matrix records',
  'The only test file has a single body, so selection by body is never observable.',
  [HY, HE], [('body and matrix selection', HY+':_get_ibcond/_get_results/get_matrix/get_bodyproperties'), ('first matching row', HE+':getrow')])
p('C18', 'Principal, von Mises and signed extreme values follow their definitions',
  'For stress arrays of any shape, the two-dimensional principal stresses are the eigenvalues (larger first) of the plane stress tensor, the von Mises stress is the plane-stress von Mises expression, and the thick-shell principal stresses are the largest and smallest of the two principal stresses that remain when the one closest to zero is removed. The signed absolute maximum has the magnitude of the entry largest in magnitude and its sign, along any axis. The input arrays are not modified and the documented shapes are returned.',
  ['inputs'], 'all real stress values, all leading shapes, all axes',
  'Tests compare fixed arrays with stored results.',
  ['freesif/calc/principal.py', 'freesif/calc/vonmises.py', 'freesif/calc/general.py'], [('formulas', 'freesif/calc/principal.py:principal2d/principal_thickshell, freesif/calc/vonmises.py:vonmises2d, freesif/calc/general.py:absmax')])
p('C19', 'VTU output is well-formed whatever the order of writer calls',
  'For every sequence of writer operations, an operation that makes no sense in the current state (data before a piece, data outside a data section, arrays of more than two dimensions) raises an error, and after closing, the file is well-formed XML of the unstructured-grid layout: every element properly closed and nested, data arrays only inside points, cells, point-data or cell-data of some piece, at most one section open at a time. Names containing any characters that XML allows do not break the file.',
  ['histories', 'inputs'], 'all finite sequences of new_piece/start_pointdata/start_celldata/add_data/close, all names',
  'One happy-path sequence is tested and only the existence of the file is checked.',
  [WR], [('element stack and section flags', WR+':VtuWriter._open_element/_close_element/_open_data/_close_data/_close_piece')],
  [('_elements', 'stack of open XML elements', WR), ('_piece_open/_pointdata_open/_celldata_open', 'open sections', WR)])
p('C20', 'VTU files contain exactly the given data, reordered to VTK node order',
  'Decoding a written file gives back every point, cell, point-data and cell-data array exactly, with its declared type, component count and byte count; cell types are the VTK types of the element types, offsets are unchanged, and connectivity differs from the input only by the fixed node permutation within each three-node beam and eight-node shell, element-node results only by the one within each six-node shell. The arrays given by the caller are never modified, so the same data can be written any number of times.',
  ['inputs', 'histories'], 'all arrays (types, shapes, memory layouts, byte orders), element mixes and numbers of pieces',
  'The test does not read the file back.',
  [WR], [('array encoding', WR+':VtuWriter._write_array'), ('reordering', WR+':_reorder_data/_reorder_connectivity_vtk/_reorder_cellpointdata_vtk'), ('type map', WR+':sesam2vtk_elementtypeid')])
p('C21', 'Section properties, thicknesses and result case names match their references',
  'For every selection the i-th section property row is the stored section with the geometry number of the i-th selected beam, and the i-th thickness that of the i-th selected shell, whatever the order, gaps or sharing of geometry numbers. Result case names are returned for exactly the requested case numbers (all if none given), each with its own name.',
  ['inputs'], 'all geometry numberings and orders, all element selections, all sets of case numbers',
  'Tests use models whose geometry numbers are consecutive and in order.',
  [ST], [('reference lookup', ST+':FirstLevelData.get_section_properties/get_shell_thicknesses'), ('case names', ST+':FirstLevelData.get_resultcase_names')])
p('C22', 'Records written to a formatted file read back unchanged',
  'Any sequence of records and text lines written to a formatted interface file reads back with the same record names, the same number of values and the same values (to single precision), for every number of values per record and every split of the values over write calls. No spurious blank line, lost line break or misplaced column appears at any length.',
  ['inputs', 'histories'], 'all sequences of write operations with any number of values',
  'No test writes a formatted file.',
  [SF], [('line filling', SF+':FormattedFile._write_line/write_floats/write_record/write_string')],
  [('float_places_left', 'free value positions on the current line', SF)])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q) + '\n')
