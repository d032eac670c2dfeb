"""C09 - closed files and data objects refuse every operation and can be
closed again"""
import os
import io
import contextlib
import itertools
import numpy as np
import tables as tb
from vlib import strucmodel, siffile, hydromodel, hiermodel
from vlib.conv import fs
from vlib.strucapi import raises
from freesif.exceptions import ClosedFileError

SEL = [None, 'beams_1', 'nosuch', ['PLATES', 'x'], (), 5]
KIND = [None, 'beam', 'shell', 'nosuch', 7]
NUM = ['external', 'internal', 'nosuch', None]
M4 = np.eye(4)

FIRST = {
    'get_setnames': [()],
    'get_nodes': list(itertools.product(SEL, KIND, [False, True],
                                        [None, 1, 'top', 'x', M4, M4[:3]],
                                        [1, 9])),
    'get_nodenumbers': list(itertools.product(SEL, KIND, [False, True], NUM)),
    'get_elements': list(itertools.product(SEL, KIND, [False, True])),
    'get_elementnumbers': list(itertools.product(SEL, KIND, NUM)),
    'get_noderesults': list(itertools.product(
        ['displacement', 'velocity', 'acceleration', 'nosuch', None], [1, 9],
        [None, 1, [1, 2]], SEL[:4], KIND[:4], [False, True])),
    'get_elementresults': list(itertools.product(
        ['beamforce', 'generalstress', 'decomposedstress', 'nosuch', None],
        ['nodes', 'respts', 'nosuch'], [1, 9], [None, 1, [1, 2]], SEL[:4])),
    'get_section_properties': [(s,) for s in SEL],
    'get_shell_thicknesses': [(s,) for s in SEL],
    'get_resultcase_names': [(None,), (1,), ([1, 2],), ('x',)],
}
TOP = {'get_setnames': [()],
       'get_transformation': list(itertools.product(
           [1, 999, 'x'], [1, 99], ['top', 1, 2, 0, 99, 'x']))}
B = [1, 2, 99, 0, None, 'x']
HYDRO = {k: [(b,) for b in B] for k in (
    'get_bodyproperties', 'get_motion_raos', 'get_excitationforce_raos',
    'get_sectionforce_raos', 'get_meandrift', 'get_horiz_meandrift',
    'get_pressure_panel_ids', 'get_panel_pressures')}
HYDRO.update({k: list(itertools.product(B, B)) for k in (
    'get_bodymass', 'get_addedmass', 'get_potentialdamping',
    'get_viscousdamping', 'get_hydrostatic_restoring',
    'get_mooring_restoring')})
HYDRO.update({
    'get_angular_freqs': [()], 'get_periods': [()], 'get_timesteps': [()],
    'get_sections': [()], 'get_points': [()],
    'get_directions': [(), ('degrees',), ('radians',), ('x',)],
    'get_fluidkinematics_raos': [(), ('elevation',), ('pressure',),
                                 ('velocity',), ('x',)],
    'get_matrix': [(t, a, b) for t in (11, 12, 21, 22, 31, 32, 5, 'x')
                   for a in (1, 99) for b in (1, 99)]})
METH = {'FirstLevelData': FIRST, 'TopLevelData': TOP,
        'InterLevelData': {'get_setnames': [()]}, 'HydroData': HYDRO}
KEYS = ['T1', 'nosuch', '', 3, None]
FILEM = {'__getitem__': [(k,) for k in KEYS],
         'get': [(k,) for k in KEYS] + [(k, 'd') for k in KEYS],
         'keys': [()], 'values': [()], 'items': [()], '__iter__': [()],
         '__contains__': [(k,) for k in KEYS]}


def deductive(ctx):
    from pyvc import closed
    return closed.tasks(), closed.TRUSTED


def make_files(ctx, rng):
    out = []
    h = hiermodel.make(rng, 'T', missing=0)
    d = ctx.path('hier')
    os.mkdir(d)
    with contextlib.redirect_stdout(io.StringIO()):
        p = ctx.path('a.h5')
        fs.sif2hdf5(hiermodel.write(h, d, True, rng), p)
        m = strucmodel.make(rng)
        s = siffile.write(strucmodel.records(m), ctx.path('T1.FEM'), True)
        fs.sif2hdf5(s, p, append=True)
        hy = siffile.write(hydromodel.records(hydromodel.make(rng)),
                           ctx.path('G1.SIF'), True)
        fs.sif2hdf5(hy, p, append=True)
        q = ctx.path('b.h5')
        fs.sif2hdf5(s, q)
        r = ctx.path('c.h5')
        fs.sif2hdf5(hy, r)
    return p, q, r


def check_closed(ctx, obj, methods, what, step=1):
    n = 0
    for meth, argss in methods.items():
        for a in argss[::step] or argss:
            n += 1
            try:
                r = getattr(obj, meth)(*a)
            except ClosedFileError:
                continue
            except Exception as e:
                ctx.fail('%s.%s%r after close raises %s instead of '
                         'ClosedFileError' % (what, meth, a, repr(e)[:80]))
                break
            ctx.fail('%s.%s%r after close returns %s' % (what, meth, a,
                                                         repr(r)[:80]))
            break
    ctx.count('operations on closed objects', n)
    for f in (str, repr):
        try:
            s = f(obj)
        except Exception as e:
            ctx.fail('%s(%s) after close raises %r' % (f.__name__, what, e))
            continue
        if 'closed' not in s.lower():
            ctx.fail('%s(%s) after close is %r' % (f.__name__, what, s))
    for k in range(2):
        e = raises(obj.close)
        if e is not None:
            ctx.fail('closing %s again raises %r' % (what, e))


def is_open(f):
    return raises(f.keys) is None


def scenario(ctx, paths, rng, how, step):
    files = [fs.open_hdf5(p) for p in paths]
    datas = [dict(f.items()) for f in files]
    mem = None
    if rng.random() < .5:
        d = fs.open_sif(ctx.path('T1.FEM'))
        mem = d.file
        files.append(mem)
        datas.append({'T1': d})
    n = len(files)
    k = int(rng.integers(0, n))
    closed = {k}
    if how == 'file':
        files[k].close()
    elif how == 'data':
        key = str(rng.choice(list(datas[k])))
        datas[k][key].close()
    elif how == 'all':
        files[k].close()
        fs.data.file.close_all_files()
        closed = set(range(n))
    ctx.count('histories')
    for i in range(n):
        if i in closed:
            check_closed(ctx, files[i], FILEM, 'File')
            for key, d in datas[i].items():
                cls = type(d).__name__
                check_closed(ctx, d, METH[cls], cls, step)
                if d in (None,):
                    continue
        else:
            if not is_open(files[i]) or list(files[i].keys()) != \
                    list(datas[i]):
                ctx.fail('closing one file (%s) closed another one' % how)
                continue
            for key, d in datas[i].items():
                e = raises(d._get_record, d.rec_names[0]) \
                    if d.rec_names else None
                if e is not None:
                    ctx.fail('data object of an open file unusable after '
                             'another file was closed (%s): %r' % (how, e))
    # the files still open can be closed, also all at once
    rest = [i for i in range(n) if i not in closed]
    if rng.random() < .5:
        e = raises(fs.data.file.close_all_files)
        if e is not None:
            ctx.fail('close_all_files raises %r' % (e,))
    else:
        for i in rest:
            e = raises(files[i].close)
            if e is not None:
                ctx.fail('close raises %r' % (e,))
    for i in range(n):
        if is_open(files[i]):
            ctx.fail('file still open after closing all files (%s)' % how)
    e = raises(fs.data.file.close_all_files)
    if e is not None:
        ctx.fail('close_all_files with nothing open raises %r' % (e,))
    # nothing stays open in the HDF5 library: the files can be rewritten
    left = [h for h in tb.file._open_files.filenames
            if os.path.dirname(h) == ctx.tmp]
    if left:
        ctx.fail('HDF5 files left open: %s' % left)
        tb.file._open_files.close_all()
    # and can be opened again
    f = fs.open_hdf5(paths[0])
    if not is_open(f):
        ctx.fail('file cannot be opened again')
    f.close()


def same_file_twice(ctx, paths):
    """two File objects on one file are independent"""
    f, g = fs.open_hdf5(paths[1]), fs.open_hdf5(paths[1])
    f.close()
    ctx.count('histories')
    if not is_open(g) or raises(g['T1'].get_nodes) is not None:
        ctx.fail('closing a File closed another File of the same path')
    g.close()


def bounded(ctx):
    rng = np.random.default_rng(ctx.seed + 9)
    paths = make_files(ctx, rng)
    hows = ['file', 'data', 'all']
    for k in range(ctx.budget(9, 90)):
        scenario(ctx, paths, rng, hows[k % 3], 1 if k < 3 else 5)
    same_file_twice(ctx, paths)
