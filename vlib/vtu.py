"""Independent reader of .vtu files."""
import base64
import struct
import xml.etree.ElementTree as ET
import numpy as np

DT = {'Int8': 'i1', 'UInt8': 'u1', 'Int16': 'i2', 'UInt16': 'u2',
      'Int32': 'i4', 'UInt32': 'u4', 'Int64': 'i8', 'UInt64': 'u8',
      'Float32': 'f4', 'Float64': 'f8'}


class Malformed(Exception):
    pass


def need(c, msg):
    if not c:
        raise Malformed(msg)


def array(e):
    need(e.tag == 'DataArray', 'element %s instead of DataArray' % e.tag)
    need(len(e) == 0, 'DataArray has child elements')
    a = e.attrib
    need(a.get('format') == 'binary', 'format %r' % a.get('format'))
    need(a.get('type') in DT, 'type %r' % a.get('type'))
    txt = (e.text or '').strip()
    try:
        raw = base64.b64decode(txt, validate=True)
    except Exception as x:
        raise Malformed('base64: %r' % x)
    need(len(raw) >= 8, 'no header')
    n, = struct.unpack('<Q', raw[:8])
    need(len(raw) == 8 + n, '%d bytes declared, %d present' % (n,
                                                               len(raw) - 8))
    v = np.frombuffer(raw[8:], '<' + DT[a['type']])
    nc = int(a['NumberOfComponents'])
    need(v.size % nc == 0, 'byte count does not fit component count')
    names = {k: x for k, x in a.items() if k.startswith('ComponentName')}
    return dict(name=a['Name'], type=a['type'], ncomp=nc, data=v,
                compnames=[names['ComponentName%d' % i]
                           for i in range(len(names))])


def parse(path):
    """-> list of pieces; raises Malformed"""
    try:
        root = ET.parse(path).getroot()
    except ET.ParseError as e:
        raise Malformed('not well-formed: %s' % e)
    need(root.tag == 'VTKFile', 'root %s' % root.tag)
    need(root.attrib.get('type') == 'UnstructuredGrid', 'file type')
    need(root.attrib.get('byte_order') in ('LittleEndian',), 'byte order')
    need(root.attrib.get('header_type') == 'UInt64', 'header type')
    need(len(root) == 1 and root[0].tag == 'UnstructuredGrid',
         'children of VTKFile: %s' % [c.tag for c in root])
    out = []
    for p in root[0]:
        need(p.tag == 'Piece', '%s inside UnstructuredGrid' % p.tag)
        need(len(p) >= 2 and p[0].tag == 'Points' and p[1].tag == 'Cells',
             'children of Piece: %s' % [c.tag for c in p])
        need(len(p[0]) == 1, 'number of point arrays')
        cells = [array(e) for e in p[1]]
        need([c['name'] for c in cells] == ['connectivity', 'offsets',
                                            'types'], 'cell arrays')
        piece = dict(npoints=int(p.attrib['NumberOfPoints']),
                     ncells=int(p.attrib['NumberOfCells']),
                     points=array(p[0][0]), cells=cells, data=[])
        for s in p[2:]:
            need(s.tag in ('PointData', 'CellData'), '%s inside Piece' %
                 s.tag)
            piece['data'].append((s.tag, [array(e) for e in s]))
        out.append(piece)
    return out
