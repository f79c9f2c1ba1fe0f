"""
Stand-in for the TiGL library: the functions used by the code under test. The
geometry is not built from CPACS sections but read from <standIn> elements, which
the generator (vt/cpacs.py) adds to every segment.
"""

import collections

from vt import cpacs

CALLS = collections.Counter()


class Tigl3Exception(Exception):
    pass


def record(func):
    def wrapped(self, *args, **kwargs):
        CALLS[func.__name__] += 1
        return func(self, *args, **kwargs)
    return wrapped


class Tigl3:
    def open(self, tixi, uid=''):
        CALLS['open'] += 1
        self.wings = cpacs.read_wings(tixi.tree.getroot())

    def _wing(self, i):
        if not 1 <= i <= len(self.wings):
            raise Tigl3Exception(f'wing index {i}')
        return self.wings[i - 1]

    def _segment(self, i, j):
        w = self._wing(i)
        if not 1 <= j <= len(w['segments']):
            raise Tigl3Exception(f'segment index {j}')
        return w['segments'][j - 1]

    @record
    def wingGetSymmetry(self, idx_wing):
        return self._wing(idx_wing)['symmetry']

    @record
    def wingGetLowerPoint(self, idx_wing, idx_segment, eta, xsi):
        return cpacs.surface_point(self._segment(idx_wing, idx_segment), eta, xsi, -1)

    @record
    def wingGetUpperPoint(self, idx_wing, idx_segment, eta, xsi):
        return cpacs.surface_point(self._segment(idx_wing, idx_segment), eta, xsi, +1)

    @record
    def wingGetInnerSectionAndElementIndex(self, idx_wing, idx_segment):
        self._segment(idx_wing, idx_segment)
        return idx_segment, 1

    @record
    def wingGetOuterSectionAndElementIndex(self, idx_wing, idx_segment):
        self._segment(idx_wing, idx_segment)
        return idx_segment + 1, 1

    @record
    def wingGetProfileName(self, idx_wing, idx_section, idx_element):
        profiles = self._wing(idx_wing)['profiles']
        if idx_element != 1 or not 1 <= idx_section <= len(profiles):
            raise Tigl3Exception('section')
        return profiles[idx_section - 1]

    @record
    def wingGetComponentSegmentCount(self, idx_wing):
        return len(self._wing(idx_wing)['components'])

    @record
    def wingGetComponentSegmentUID(self, idx_wing, idx_component):
        return self._wing(idx_wing)['components'][idx_component - 1]['uid']

    @record
    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        for w in self.wings:
            for comp in w['components']:
                if comp['uid'] == uid:
                    k, eta_s, xsi_s = cpacs.component_to_segment(comp['first'], comp['count'], eta, xsi)
                    return w['uid'], w['segments'][k]['uid'], eta_s, xsi_s
        raise Tigl3Exception('uid')
