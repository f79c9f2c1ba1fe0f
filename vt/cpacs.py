"""
CPACS files equivalent to native projects, for the stand-ins of TiXI and TiGL.

A wing has one or more component segments, each covering a run of segments. The
relation between component segment and segment coordinates is the one below (the
stand-in of TiGL and the generator share it; the code under test must ask TiGL).
"""

import math
import xml.etree.ElementTree as ET

import numpy as np

SYMMETRY = {0: None, 1: 'x-y-plane', 2: 'x-z-plane', 3: 'y-z-plane'}
MODEL = ['vehicles', 'aircraft', 'model']


def component_to_segment(first, count, eta, xsi):
    """Segment index and coordinates of a point of a component segment"""
    u = eta*count
    k = min(int(math.floor(u)), count - 1)
    local = u - k
    return first + k, local, xsi + .08*math.sin(2 + 3*eta)*xsi*(1 - xsi)


def surface_point(segment, eta, xsi, side):
    v = {k: np.array(p) for k, p in segment['vertices'].items()}
    mid = (1 - eta)*(1 - xsi)*v['a'] + eta*(1 - xsi)*v['b'] + eta*xsi*v['c'] + (1 - eta)*xsi*v['d']
    normal = np.cross(v['c'] - v['a'], v['b'] - v['d'])
    normal /= np.linalg.norm(normal)
    # Blunt leading and trailing edges
    thick = .01 + .05*xsi*(1 - xsi)
    return [float(x) for x in mid + side*thick*normal]


def text(parent, tag, value, **attrib):
    node = ET.SubElement(parent, tag, attrib)
    node.text = value if isinstance(value, str) else repr(value)
    return node


def vector(parent, tag, values):
    return text(parent, tag, ';'.join(repr(float(x)) for x in values), mapType='vector')


def path(parent, names):
    for n in names:
        found = parent.find(n)
        parent = ET.SubElement(parent, n) if found is None else found
    return parent


def border(parent, tag, b, trailing):
    node = ET.SubElement(parent, tag)
    text(ET.SubElement(node, 'etaLE'), 'eta', b['etaLE'])
    text(ET.SubElement(node, 'etaTE'), 'eta', b['etaTE'])
    if trailing:
        text(ET.SubElement(node, 'xsiLE'), 'xsi', b['xsi'])
        text(ET.SubElement(node, 'xsiTE'), 'xsi', 1.0)
    else:
        text(ET.SubElement(node, 'xsiTE'), 'xsi', b['xsi'])


def build(model):
    """
    XML tree of a model:

      uid, refs {area, length, point}, wings [{uid, symmetry, segments [{uid, vertices}], profiles [name],
      components [{uid, first, count, controls [{uid, inner {etaLE, etaTE, xsi, hinge}, outer {...}}], slats [...]}]}],
      airfoils {name: (x, z)}, maps [{uid, altitude, machNumber, angleOfAttack, angleOfSideslip, extra {tag: values}}],
      map_uid (or None), deflections [{uid, deflection, deflectionMirror}]
    """
    root = ET.Element('cpacs')
    header = ET.SubElement(root, 'header')
    text(header, 'name', 'generated')
    text(header, 'cpacsVersion', '3.0')
    node = path(root, MODEL)
    node.set('uID', model['uid'])
    refs = ET.SubElement(node, 'reference')
    text(refs, 'area', model['refs']['area'])
    text(refs, 'length', model['refs']['length'])
    point = ET.SubElement(refs, 'point')
    for k, x in zip('xyz', model['refs']['point']):
        text(point, k, x)
    wings = ET.SubElement(node, 'wings')
    for w in model['wings']:
        wing = ET.SubElement(wings, 'wing', uID=w['uid'])
        if w.get('anonymous'):
            del wing.attrib['uID']
        if SYMMETRY[w['symmetry']]:
            wing.set('symmetry', SYMMETRY[w['symmetry']])
        text(wing, 'name', 'name of ' + w['uid'])
        stand = ET.SubElement(wing, 'standIn')
        for name in w['profiles']:
            text(stand, 'profile', name)
        segments = ET.SubElement(wing, 'segments')
        for s in w['segments']:
            seg = ET.SubElement(segments, 'segment', uID=s['uid'])
            if s.get('anonymous'):
                del seg.attrib['uID']
            stand = ET.SubElement(seg, 'standIn')
            for k, p in s['vertices'].items():
                vector(stand, k, p)
        comps = ET.SubElement(wing, 'componentSegments')
        for c in w['components']:
            comp = ET.SubElement(comps, 'componentSegment', uID=c['uid'])
            text(comp, 'first', c['first'])
            text(comp, 'count', c['count'])
            if c['controls'] or c.get('slats'):
                surfaces = ET.SubElement(comp, 'controlSurfaces')
            for kind, controls in (('leading', c.get('slats', [])), ('trailing', c['controls'])):
                if not controls:
                    continue
                devices = ET.SubElement(surfaces, f'{kind}EdgeDevices')
                for ctl in controls:
                    dev = ET.SubElement(devices, f'{kind}EdgeDevice', uID=ctl['uid'])
                    shape = ET.SubElement(dev, 'outerShape')
                    border(shape, 'innerBorder', ctl['inner'], kind == 'trailing')
                    border(shape, 'outerBorder', ctl['outer'], kind == 'trailing')
                    hinge = ET.SubElement(dev, 'path')
                    text(ET.SubElement(hinge, 'innerHingePoint'), 'hingeXsi', ctl['inner']['hinge'])
                    text(ET.SubElement(hinge, 'outerHingePoint'), 'hingeXsi', ctl['outer']['hinge'])
    maps = path(node, ['analyses', 'aeroPerformance'])
    for m in model['maps']:
        amap = ET.SubElement(maps, 'aeroMap', uID=m['uid'])
        text(amap, 'name', 'name of ' + m['uid'])
        data = ET.SubElement(amap, 'aeroPerformanceMap')
        for tag in ('altitude', 'machNumber', 'angleOfSideslip', 'angleOfAttack'):
            if tag in m:
                vector(data, tag, m[tag])
        for tag, values in m.get('extra', {}).items():
            vector(data, tag, values)
    foils = path(root, ['vehicles', 'profiles', 'wingAirfoils'])
    for i, (name, (x, z)) in enumerate(model['airfoils'].items()):
        foil = ET.SubElement(foils, 'wingAirfoil', uID=f'airfoil_uid_{i}')
        if name:
            text(foil, 'name', name)
        points = ET.SubElement(foil, 'pointList')
        vector(points, 'x', x)
        vector(points, 'y', np.zeros(len(x)))
        vector(points, 'z', z)
    tool = path(root, ['toolspecific', 'otherTool'])
    text(tool, 'note', 'belongs to another tool')
    if model.get('map_uid'):
        text(path(root, ['toolspecific', 'pytornado']), 'aeroMapUID', model['map_uid'])
    if model['deflections']:
        devices = path(root, ['toolspecific', 'pytornado', 'controlDevices'])
        for d in model['deflections']:
            dev = ET.SubElement(devices, 'controlDevice', uID=d['uid'])
            for key in ('deflection', 'deflectionMirror'):
                if d.get(key) is not None:
                    text(dev, key, d[key])
    return ET.ElementTree(root)


def read_wings(root):
    """What the stand-in of TiGL knows about the wings"""
    out = []
    floats = lambda node: [float(x) for x in node.text.split(';')]
    for wing in root.findall('/'.join(MODEL) + '/wings/wing'):
        sym = {v: k for k, v in SYMMETRY.items()}[wing.attrib.get('symmetry')]
        out.append({
            'uid': wing.attrib.get('uID', ''), 'symmetry': sym,
            'profiles': [p.text for p in wing.findall('standIn/profile')],
            'segments': [{'uid': s.attrib.get('uID', ''), 'vertices': {n.tag: floats(n) for n in s.find('standIn')}}
                         for s in wing.findall('segments/segment')],
            'components': [{'uid': c.attrib['uID'], 'first': int(c.find('first').text), 'count': int(c.find('count').text)}
                           for c in wing.findall('componentSegments/componentSegment')]})
    return out
