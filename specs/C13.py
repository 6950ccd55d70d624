"""C13: an XML file written and read back yields the same splines."""
from iofile import *

TU = 'io'
LINK = ('src/baf', 'src/io', 'external/pugixml/pugixml.cpp')
ASSUME = ('pugixml: a saved document is read back as the same tree', 'formatting and parsing of numbers: the text of a number parses back to it up to the digits printed', 'shape-bounded proofs: degrees, knots and weights are the listed numbers, control points are arbitrary')


def tasks():
    T = []; BND = 'given numbers of splines, degrees, knots and weights; arbitrary control points'
    lists = {'no splines': []}
    for D in (1, 2, 3, 4):
        for w in (False, True):
            for dim in (1, 2, 3, 4) if D < 3 else (2, 3): lists[f'{"NURBS" if w else "BSpline"}<{D}> in dimension {dim}'] = [shape(D, dim, w)]
            if D < 4: lists[f'{"NURBS" if w else "BSpline"}<{D}>, other knots'] = [shape(D, 2, w, True)]
    lists['mixed list'] = [shape(2, 3, True), shape(1, 2, False), shape(1, 3, True), shape(3, 1, False)]
    lists['mixed list in another order'] = [shape(1, 3, False, True), shape(3, 2, True), shape(1, 1, True), shape(2, 2, False, True), shape(1, 3, False)]
    for n, sh in lists.items():
        def rt(a, sh=sh):
            ss = build(a, sh); compare(a, write_read(a, 'XML', ss, 'scratch.xml'), ss, HALF)
        T.append(Task('write and read: ' + n, rt, bounded=BND, limit=120))
    return T
