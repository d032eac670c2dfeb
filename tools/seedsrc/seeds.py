SEEDS = []


def S(id, property, file, old, new, needs, breaks, demo, **k):
    SEEDS.append(dict(id=id, property=property, file=file, old=old, new=new,
                      needs=needs, breaks=breaks, demo=demo, **k))


SF = 'sequentialparser/sequentialfiles.py'
PA = 'sequentialparser/parsers.py'
S2 = 'sequentialparser/sif2hdf5.py'
SD = 'data/strucdata.py'
HD = 'data/hydrodata.py'
WR = 'utils/writers.py'

S('c01a', 'C01', SF, """        if n == 0:
            return ()
""", """        if n <= 0:
            self.hasrest = False
            return ()
""",
  'a formatted file: a request for zero values in the middle of a line, '
  'followed by further requests', 'the rest of the line is dropped',
  '''
p = fmt([R('TEXT', (1, 2, 3, 4), range(1, 11), (), 2), IEND], path('a.txt'))
f = fs.sequentialparser.sequentialfiles.FormattedFile(p)
f.read_headerrec()
v = f.read_floats(3) + f.read_floats(0) + f.read_floats(7)
assert v == tuple(map(float, range(1, 11))), v
n, _ = f.read_headerrec()
f.close()
assert n == 'IEND', n
''')

S('c02a', 'C02', SF, "'BEUSLO',", "", 'a formatted file where a section '
  'record without its optional values precedes BEUSLO',
  'the next header is taken for the optional values', '''
recs = [IDENT, R('GBARM', (1, 2, 3, 4), (5, 6), (), 2),
        R('BEUSLO', (1, 2, 0, 4), (5, 1, 7, 8, 9, 0, 0, 0)),
        R('GNODE', (5, 1, 6, 123456)), IEND]
h = convert(recs, 'T1.FEM')
assert len(table(h, '/T1/beuslo')) == 1 and len(table(h, '/T1/gnode')) == 1
''', nth=1, count=2)

S('c02b', 'C02', SF, "b'GIORHR',", "", 'an unformatted file where an '
  'unimplemented record without continuation lines precedes GIORHR',
  'GIORHR is not recognised as a header when the record before is skipped',
  '''
recs = [IDENT, R('BNTEMP', (7, 1, 2, 3), (), (), 2),
        R('GIORHR', (1, 2, 3, 4), range(10)), R('GNODE', (5, 1, 6, 123456)),
        IEND]
h = convert(recs, 'T1.FEM', True)
assert len(table(h, '/T1/giorhr')) == 1 and len(table(h, '/T1/gnode')) == 1
''')

S('c03a', 'C03', PA, "zip(f[::2], f[1::2])),)\n        else:\n            "
  "rec += in_file.read_floats(1) + (in_file.read_floats(3),)",
  "zip(f[:3], f[3:])),)\n        else:\n            "
  "rec += in_file.read_floats(1) + (in_file.read_floats(3),)",
  'a complex WFLUIDKN record', 'velocity components are assembled from the '
  'wrong values', '''
recs = [IDENT, R('WFLUIDKN', (12, 1, 1, 1), (1, 2, 3, 4, 5, 6, 7, 8), (), 2),
        IEND]
t = table(convert(recs, 'G1.SIF'), '/G1/wfluidkn')
assert list(t['v'][0]) == [3+4j, 5+6j, 7+8j], t
''')

S('c03b', 'C03', PA, """        rec += in_file.read_floats(1)
        if int(rec[4]):""", """        rec += in_file.read_floats(1)
        if int(rec[-2]):""", 'a W1SFORCE record with real data',
  'real data are read as complex', '''
recs = [IDENT, R('W1SFORCE', (11, 1, 1, 1), (0, 1, 2, 3, 4, 5, 6), (), 2),
        R('W1SFORCE', (11, 1, 1, 2), (0, 1, 2, 3, 4, 5, 6), (), 2), IEND]
t = table(convert(recs, 'G1.SIF'), '/G1/w1sforce')
assert len(t) == 2 and list(t['data'][0]) == [1, 2, 3, 4, 5, 6], t
''')

S('c04a', 'C04', PA, "            eccnos.add(in_file.read_floats(nnodes, "
  "skipfirst=8))\n        else:\n            eccnos.add(None)",
  "            eccnos.add(in_file.read_floats(nnodes, skipfirst=8))",
  'a GELREF1 record with one eccentricity for the element after one with '
  'eccentricities per node', 'the range of the previous record is stored',
  '''
recs = [IDENT] + [R('GELMNT1', (k, k, 15, 0), (1, 2)) for k in (1, 2)] + [
    R('GELREF1', (1, 1, 0, 0), (0, 0, 0, 0, 5, 0, -1, 0, 7, 8)),
    R('GELREF1', (2, 1, 0, 0), (0, 0, 0, 0, 5, 0, 3, 0)), IEND]
t = table(convert(recs), '/T1/gelref1')
assert t['eccno_start'][1] == t['eccno_stop'][1], t
assert t['eccno_stop'][0] - t['eccno_start'][0] == 2
''')

S('c04b', 'C04', PA, 'self.startindex = len(self.arr)',
  'self.startindex = 0', 'records of one type with variable-length data read '
  'in two separate runs', 'ranges of the second run point at the first run',
  '''
recs = [IDENT, R('GELMNT1', (1, 1, 15, 0), (1, 2)),
        R('GNODE', (5, 1, 6, 123456)), R('GELMNT1', (2, 2, 15, 0), (3, 4)),
        IEND]
t = table(convert(recs), '/T1/gelmnt1')
assert list(t['nodin_start']) == [0, 2] and list(t['nodin_stop']) == [2, 4], t
''')

S('c05a', 'C05', PA, "            self.table.append(self.recs)\n",
  "            self.table.append(self.recs[:-1])\n",
  'at least as many records of one type as the buffer holds (100000)',
  'the record that fills the buffer is lost', '''
n = 100003
p = path('T1.FEM')
with open(p, 'w') as f:
    f.write('IDENT   ' + '%16.8E'*4 % (1, 1, 3, 0) + '\\n')
    for i in range(1, n + 1):
        f.write('GNODE   ' + '%16.8E'*4 % (i, i, 6, 123456) + '\\n')
    f.write('IEND    ' + '%16.8E'*4 % (0, 0, 0, 0) + '\\n')
fs.sif2hdf5(p, path('a.h5'))
t = table(path('a.h5'), '/T1/gnode')
assert list(t['nodeno']) == list(range(1, n + 1)), len(t)
''')

S('c06a', 'C06', PA, "    rdpoints_data = {}\n    nsp_data = {}\n    "
  "rdresref_data = {}", "    nsp_data = {}\n    rdresref_data = {}",
  'a file with RDPOINTS followed by a conversion of a file with RDIELCOR '
  'but no RDPOINTS', 'the grid of the first file is used for the second',
  '''
a = [IDENT, R('RDPOINTS', (10, 1, 1, 15), (15, 4, 10104, 0, 0, -1, -2, -3,
                                           -4), (), 2), IEND]
b = [IDENT, R('RDIELCOR', (9, 15, 0, .5), (1, 2, 3, 4), (), 2), IEND]
h0 = convert(b, 'R2.SIF')
r0 = [list(map(float, table(h0, '/R1/rdielcor_' + c)))
      for c in ('beta', 'alpha')]
convert(a, 'R3.SIF')
h1 = convert(b, 'R4.SIF')
r1 = [list(map(float, table(h1, '/R1/rdielcor_' + c)))
      for c in ('beta', 'alpha')]
assert r0 == r1 == [[1.], [2., 3., 4.]], (r0, r1)
''')

S('c07a', 'C07', PA, "if current_hrec['islevl'] > 1:",
  "if current_hrec['islevl'] > 2:",
  'an input hierarchy with a superelement on level two', 'the level-two '
  'superelement is stored as first level data', '''
def hier(row):
    ihref, sel, ind, lev, par, subs = row
    return R('HIERARCH', (8 + len(subs), ihref, sel, ind),
             (lev, 0, par, len(subs)) + subs, (), 2)
T = [hier((1, 9, 1, 3, 0, (2,))), hier((2, 5, 1, 2, 1, (3,))),
     hier((3, 4, 1, 1, 2, ()))]
def idt(lev, sel):
    return R('IDENT', (lev, sel, 3, 0))
N = R('GNODE', (5, 1, 6, 123456))
fmt([idt(3, 9)] + T + [N, IEND], path('T9.FEM'))
fmt([idt(2, 5), N, IEND], path('T5.FEM'))
fmt([idt(1, 4), N, IEND], path('T4.FEM'))
fs.sif2hdf5(path('T9.FEM'), path('a.h5'))
import tables as tb
with tb.open_file(path('a.h5')) as f:
    assert f.get_node_attr('/T9/T5', 'LEVEL') == 'INTERLEVEL'
    assert f.get_node_attr('/T9/T4', 'LEVEL') == 'FIRSTLEVEL'
''')

S('c08a', 'C08', S2, 'parsers.set_groupname_prefix(prefix + fileprefix)',
  'parsers.set_groupname_prefix(fileprefix + prefix)',
  'both a prefix argument and a file name prefix', 'group is named with the '
  'two prefixes in the wrong order', '''
import tables as tb
p = fmt([IDENT, IDENT, R('GNODE', (5, 1, 6, 123456)), IEND],
        path('abc_T1.FEM'))
fs.sif2hdf5(p, path('a.h5'), prefix='new_')
with tb.open_file(path('a.h5')) as f:
    g = [x._v_name for x in f.root._f_iter_nodes()]
assert g == ['new_abc_T1'], g
''')

S('c08b', 'C08', S2, 'sif2hdf5(name, hdf5name, True, usefileprefix, prefix, '
  'only)', 'sif2hdf5(name, hdf5name, True, usefileprefix, prefix)',
  'a sequence of files with an hdf5name and a record filter', 'the filter '
  'only applies to the first file', '''
import tables as tb
a = fmt([IDENT, R('GNODE', (5, 1, 6, 123456)), IEND], path('T1.FEM'))
b = fmt([R('IDENT', (1, 2, 3, 0)), R('GNODE', (5, 1, 6, 123456)), IEND],
        path('T2.FEM'))
fs.sif2hdf5([a, b], path('a.h5'), only=['IDENT'])
with tb.open_file(path('a.h5')) as f:
    g = sorted(x._v_pathname for x in f.walk_nodes())
assert g == ['/', '/T1', '/T1/ident', '/T2', '/T2/ident'], g
''')

S('c09a', 'C09', 'data/file.py', '''        for data in self._data.values():
            data._close()''', '''        for name, data in self._data.items():
            if '/' not in name:
                data._close()''', 'a file with lower-level groups; using one '
  'of those data objects after the file is closed', 'lower-level data objects '
  'stay open', '''
import tables as tb
def hier(row):
    ihref, sel, ind, lev, par, subs = row
    return R('HIERARCH', (8 + len(subs), ihref, sel, ind),
             (lev, 0, par, len(subs)) + subs, (), 2)
N = R('GNODE', (5, 1, 6, 123456))
fmt([R('IDENT', (2, 9, 3, 0)), hier((1, 9, 1, 2, 0, (2,))),
     hier((2, 4, 1, 1, 1, ())), N, IEND], path('T9.FEM'))
fmt([R('IDENT', (1, 4, 3, 0)), N, IEND], path('T4.FEM'))
fs.sif2hdf5(path('T9.FEM'), path('a.h5'))
f = fs.open_hdf5(path('a.h5'))
d = f['T9/T4']
d.get_nodenumbers()
f.close()
assert 'losed' in str(d), str(d)
try:
    d.get_nodenumbers()
except fs.exceptions.ClosedFileError:
    pass
else:
    raise AssertionError
''')

S('c10a', 'C10', 'data/file.py', """            self._data[gr._v_name] = data
""", """            self._data[gr._v_title or gr._v_name] = data
""", 'a group with a title', 'the key is not the group name', '''
import tables as tb
h = convert(model([(15, (1, 2), 1)]))
with tb.open_file(h, 'a') as f:
    f.root.T1._v_title = 'The model'
f = fs.open_hdf5(h)
assert list(f.keys()) == ['T1']
f.close()
''')

S('c11a', 'C11', SD, 'return indexmapper(con)',
  'return con - (nodeindices[0] if len(nodeindices) == nodeindices[-1] - '
  'nodeindices[0] + 1 else 0) if len(con) < 6 else indexmapper(con)',
  'a selection of few elements whose nodes have gaps in their numbering',
  'node indices point outside the returned nodes', '''
import numpy as np
h = convert(model([(24, (1, 2, 3, 4), 1), (15, (9, 12), 2),
                   (15, (12, 20), 2)]))
f = fs.open_hdf5(h)
d = f['T1']
con, off, typ = d.get_elements(kind='beam')
xyz = d.get_nodes(kind='beam')
assert con.max() < len(xyz), con
assert list(xyz[con][:, 0]) == [9, 12, 12, 20]
f.close()
''')

S('c12a', 'C12', SD, 'return np.unique(np.concatenate(setmembs)) - 1',
  'return (np.concatenate(setmembs) if len(setmembs) == 1 else '
  'np.unique(np.concatenate(setmembs))) - 1',
  'one set whose members are stored in another order than the model',
  'elements are not returned in model order', '''
h = convert(model([(15, (1, 2), 1), (15, (2, 3), 1), (15, (3, 4), 1)],
                  sets=[('A', (3, 1))]))
f = fs.open_hdf5(h)
assert list(f['T1'].get_elementnumbers('A', numbertype='internal')) == [1, 3]
f.close()
''')

S('c13a', 'C13', SD, "if row['irno'] == run and row['ieres'] in rescases:",
  "if row['ieres'] in rescases:",
  'two runs using the same external result case numbers, cases chosen '
  'explicitly', 'results of other runs are returned too', '''
def rr(ires, irno, ie):
    return R('RDRESREF', (7, ires, irno, ie), (1, 0, 0), (), 2)
def dis(ires, n, v):
    return R('RVNODDIS', (11, ires, n, 1), (0,) + (v,)*6, (), 2)
recs = model([(15, (1, 2), 1)], nn=2, extra=[
    rr(1, 1, 5), rr(2, 2, 5)] + [dis(i, n, 10*i + n) for i in (1, 2)
                                 for n in (1, 2)])
f = fs.open_hdf5(convert(recs, 'R1.SIF'))
r = f['R1'].get_noderesults('displacement', run=2, rescases=5)
assert r.shape == (2, 6) and list(r[:, 0]) == [21, 22], r
f.close()
''')

S('c14a', 'C14', SD,
  'return np.dot(self.x_decomp_thin, d.reshape(-1,6).T).T',
  'return np.dot(self.x_decomp_thin, d.reshape(-1,6).conj().T).T',
  'decomposed complex stresses of thin shells',
  'the imaginary parts have the wrong sign', '''
import numpy as np
from freesif.data.strucdata import FirstLevelData
o = FirstLevelData.__new__(FirstLevelData)
d = np.ones(30, 'c8')*(1 + 2j)
r = o._process_eltyp24('decomposedstress', 'nodes', d)
assert np.allclose(r[:, :3], 1 + 2j), r
''')

S('c15a', 'C15', SD, 't = np.dot(t, t2)', 't = np.dot(t2, t)',
  'a hierarchy of three levels with transformations that do not commute',
  'transformations are multiplied in the wrong order', '''
import numpy as np
def hier(row):
    ihref, sel, ind, lev, par, subs, itref = row
    return R('HIERARCH', (8 + len(subs), ihref, sel, ind),
             (lev, itref, par, len(subs)) + subs, (), 2)
A = np.array([[0, 1, 0, 0], [-1, 0, 0, 0], [0, 0, 1, 0], [5, 6, 7, 1.]])
B = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, -1, 0, 0], [1, 2, 3, 1.]])
def tr(i, m):
    return R('HSUPTRAN', (18, i) + tuple(m.ravel()[:2]), m.ravel()[2:], (), 2)
T = [hier((1, 9, 1, 3, 0, (2,), 0)), hier((2, 5, 1, 2, 1, (3,), 2)),
     hier((3, 4, 1, 1, 2, (), 1))]
fmt([R('IDENT', (3, 9, 3, 0))] + T + [tr(1, A), tr(2, B), IEND],
    path('T9.FEM'))
fs.sif2hdf5(path('T9.FEM'), path('a.h5'))
f = fs.open_hdf5(path('a.h5'))
t = f['T9'].get_transformation(4, 1)
assert np.allclose(t, A.dot(B)), t
f.close()
''')

S('c16a', 'C16', HD, '''            pressures.shape = (self._ndirs, self._nfreqs,  _nsymm, _npanels)
            return np.moveaxis(pressures, [2, 3], [1, 0])''',
  '''            pressures.shape = (self._ndirs, self._nfreqs, _npanels, _nsymm)
            return np.moveaxis(pressures, [2, 3], [0, 1])''',
  'panel pressures with more than one symmetry part and more than one panel',
  'values are filed under the wrong panel and symmetry part', '''
nd, nf = 2, 2
dirs, freqs = [0., .5], [1., 2.]
recs = [IDENT, R('WGLOBDEF', (5, 9.81, 1025, 0), (), (), 2),
        R('WBODCON', (4, 1, 1, 0), (), (), 2)]
k = 0
for d in dirs:
    for w in freqs:
        k += 1
        recs.append(R('WDRESREF', (4, k, 1, 2), (1, 1, d, 2, 1, w), (), 2))
for k in range(1, 5):
    for sy in (1, 2):
        for pan in (1, 2, 3):
            recs.append(R('W1PANPRE', (11, 1, k, 1),
                          (sy, 1, 100*k + 10*sy + pan, 0, pan, sy), (), 2))
recs.append(IEND)
f = fs.open_hdf5(convert(recs, 'G1.SIF'))
p = f['G1'].get_panel_pressures()
for a in range(3):
    for b in range(2):
        for i in range(2):
            for j in range(2):
                assert p[a, b, i, j] == 100*(2*i+j+1) + 10*(b+1) + a + 1
f.close()
''')

S('c17a', 'C17', HD, 'ibconj = self._get_ibcond(bodyid2)',
  'ibconj = ibconi if bodyid2 == 1 else self._get_ibcond(bodyid2)',
  'a coupling matrix asked for with body 2 first and body 1 second',
  'the matrix of body 2 with itself is returned', '''
recs = [IDENT, R('WGLOBDEF', (5, 9.81, 1025, 0), (), (), 2)]
for b in (1, 2):
    recs.append(R('WBODCON', (4, b + 4, b, 0), (), (), 2))
recs.append(R('WDRESREF', (4, 1, 1, 2), (1, 1, .5, 2, 1, 2.), (), 2))
for b in (1, 2):
    for c in (1, 2):
        recs.append(R('W1MATRIX', (42, 1, b + 4, c + 4),
                      (1, 11) + (10*b + c,)*36, (), 2))
recs.append(IEND)
f = fs.open_hdf5(convert(recs, 'G1.SIF'))
for b in (1, 2):
    for c in (1, 2):
        assert f['G1'].get_bodymass(b, c)[0, 0] == 10*b + c, (b, c)
f.close()
''')

S('c18a', 'C18', 'calc/principal.py', 'tyz = arr[...,4]',
  'tyz = arr[...,-1]', 'arrays with more than five components on the last '
  'axis', 'another component is taken for TAUYZ', '''
import numpy as np
a = np.array([[100., 80., 10., 5., 20., 55., 66.]])
r = fs.calc.principal_thickshell(a)
w = fs.calc.principal_thickshell(a[:, :5])
assert np.allclose(r, w), (r, w)
''')

S('c19a', 'C19', WR, '        self._close_data()\n        self._open_element('
  'datatype)', "        if datatype == 'CellData':\n            "
  "self._close_data()\n        self._open_element(datatype)",
  'point data started while cell data are open', 'sections are nested and '
  'not closed properly', '''
import numpy as np
import xml.etree.ElementTree as ET
w = fs.utils.VtuWriter(path('a.vtu'))
con = np.array([0, 1]), np.array([2]), np.array([15])
w.new_piece(np.zeros((2, 3)), con)
w.start_celldata()
w.add_data(np.zeros(1), 'c')
w.start_pointdata()
w.add_data(np.zeros(2), 'p')
w.close()
t = ET.parse(path('a.vtu'))
assert [e.tag for e in t.getroot()[0][0]] == ['Points', 'Cells', 'CellData',
                                              'PointData']
''')

S('c20a', 'C20', WR, 'header = pack(\'<Q\', nbytes)',
  'header = pack(\'<Q\', nbytes + 0)\n        arr = arr if '
  'arr.flags.c_contiguous else arr.T', 'an array that is not stored in C order, such as a slice of a '
  'larger one', 'components are written in the wrong order', '''
import numpy as np
import base64
con = np.array([0, 1]), np.array([2]), np.array([15])
w = fs.utils.VtuWriter(path('a.vtu'))
x = np.arange(8.).reshape(2, 4)
w.new_piece(x[:, :3], con)
w.close()
t = open(path('a.vtu')).read().split('<DataArray')[1].split('>')[1]
v = np.frombuffer(base64.b64decode(t.split('<')[0].strip())[8:], 'f8')
assert list(v) == [0, 1, 2, 4, 5, 6], v
''')

S('c21a', 'C21', SD, 'gelth_indices = dict(zip(gelth.col(\'geono\'), '
  'range((len(gelth)))))', 'gelth_indices = dict((g, i) for i, g in '
  'enumerate(np.sort(gelth.col(\'geono\'))))',
  'thickness records that are not in increasing order of geometry number',
  'shells get the thickness of another geometry', '''
h = convert(model([(24, (1, 2, 3, 4), 7), (24, (2, 3, 4, 5), 3)],
                  extra=[R('GELTH', (7, 70, 0, 0)), R('GELTH', (3, 30, 0, 0))]))
f = fs.open_hdf5(h)
assert list(f['T1'].get_shell_thicknesses()) == [70, 30]
f.close()
''')

S('c22a', 'C22', SF, '            elif fpl == len(floats):\n                '
  'self.float_places_left = 0\n                self.f.write(\'\\n\')\n'
  '                return',
  '            elif fpl == len(floats):\n                '
  'self.float_places_left = 0\n                return',
  'a write that fills exactly the free places of a line started by an '
  'earlier write', 'the next line is joined to the full one', '''
from freesif.sequentialparser.sequentialfiles import FormattedFile
f = FormattedFile(path('a'), 'w')
f.write_record('GNODE', (1, 2, 3))
f.write_floats((4,))
f.write_record('GNODE', (5, 6, 7, 8))
f.close()
t = open(path('a')).read().split('\\n')
assert len(t) == 3 and t[1].startswith('GNODE'), t
''')
