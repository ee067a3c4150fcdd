"""C22: composite and displaced shapes contain exactly the points which their parts and operations say."""
import itertools, math, sys
import pbpy
import numpy as np
import _pybinding as cpp
import pybinding as pb
from pybinding.shape import CompositeShape

# Every coordinate of a shape and of an offset is a multiple of 1/4 (exact in single precision), every tested point is an
# odd multiple of 1/16 off that grid: no point lies on a side (dx + dy of no sloping side is an integer),
# and the points are exact as well.
AXIS = np.arange(-4, 4.01, 0.5) + 0.0625
ZS = np.array([-1.4375, -0.4375, 0.0625, 0.5625, 1.5625])
POINTS = np.array([(x, y, z) for z in ZS for y in AXIS + 0.125 for x in AXIS])
COLUMNS = tuple(np.ascontiguousarray(POINTS[:, k], dtype=np.float32) for k in range(3))
DIRECTIONS = np.array([d for d in itertools.product((-2, -1, 0, 1, 2), repeat=3) if any(d)], float)


def inside_polygon(vertices, p):
    """Even-odd rule, ray along +y (the implementation shoots along x)"""
    x, y = p[:, 0], p[:, 1]
    r = np.zeros(len(p), bool)
    for (x1, y1), (x2, y2) in zip(vertices, vertices[1:] + vertices[:1]):
        if x1 == x2:
            continue
        between = (x1 > x) != (x2 > x)
        r ^= between & ((y - y1) * abs(x2 - x1) < (y2 - y1) * (x - x1) * (1 if x2 > x1 else -1))
    return r


class Ref:
    """What a shape is to contain: a predicate on points (m, 3) and the boxes (predicate, low corner, high corner) of its parts"""
    def __init__(self, contains, parts):
        self.contains, self.parts = contains, parts

    def offset(self, v):
        return Ref(lambda p: self.contains(p - v), [(lambda p, f=f: f(p - v), lo + v, hi + v) for f, lo, hi in self.parts])

    def combine(self, other, op):
        return Ref(lambda p: op(self.contains(p), other.contains(p)), self.parts + other.parts)


def ref(contains, lo, hi):
    return Ref(contains, [(contains, np.array(lo, float), np.array(hi, float))])


def polygon_ref(v):
    xs, ys = zip(*v)
    return ref(lambda p: inside_polygon(v, p), (min(xs), min(ys), 0), (max(xs), max(ys), 0))


def leaves():
    tri = [(-1.5, -1.0), (2.25, -0.5), (0.25, 2.0)]
    ell = [(-2.0, -2.0), (2.0, -2.0), (2.0, -0.5), (0.0, -0.5), (0.0, 1.5), (-2.0, 1.5)]
    bow = [(-2.0, -1.5), (2.25, 1.5), (2.25, -1.5), (-2.0, 1.25)]
    far = [(1.5, 1.5), (1.5, 3.5), (3.5, 3.5), (3.5, 1.5)]
    box = [(1.25, 0.75), (1.25, -0.75), (-1.25, -0.75), (-1.25, 0.75)]
    yield 'rectangle', lambda: pb.rectangle(2.5, 1.5), polygon_ref(box)
    yield 'triangle', lambda: pb.Polygon(tri), polygon_ref(tri)
    yield 'L', lambda: pb.Polygon(ell), polygon_ref(ell)
    yield 'crossed', lambda: pb.Polygon(bow), polygon_ref(bow)
    yield 'far square', lambda: pb.rectangle(2).with_offset([2.5, 2.5]), polygon_ref(far)
    yield 'circle', lambda: pb.circle(1.75), ref(lambda p: p[:, 0]**2 + p[:, 1]**2 < 1.75**2, (-1.75, -1.75, 0), (1.75, 1.75, 0))
    yield 'circle off center', lambda: pb.circle(1.25, (-1.0, 0.5)), ref(lambda p: (p[:, 0] + 1)**2 + (p[:, 1] - 0.5)**2 < 1.25**2, (-2.25, -0.75, 0), (0.25, 1.75, 0))
    yield 'ball', lambda: pb.FreeformShape(lambda x, y, z: x**2 + y**2 + z**2 < 4, [4, 4, 4]), ref(lambda p: (p**2).sum(axis=1) < 4, (-2, -2, -2), (2, 2, 2))
    yield ('slab', lambda: pb.FreeformShape(lambda x, y, z: (abs(x - 0.5) < 1) & (abs(y) < 2) & (abs(z - 1) < 1), (2, 4, 2), (0.5, 0, 1)),
           ref(lambda p: (abs(p[:, 0] - 0.5) < 1) & (abs(p[:, 1]) < 2) & (abs(p[:, 2] - 1) < 1), (-0.5, -2, 0), (1.5, 2, 2)))


LEAVES = list(leaves())
OPS = {'&': (lambda a, b: a & b, np.logical_and), '|': (lambda a, b: a | b, np.logical_or), '^': (lambda a, b: a ^ b, np.logical_xor),
       '+': (lambda a, b: a + b, np.logical_or), '-': (lambda a, b: a - b, lambda a, b: np.logical_and(a, np.logical_not(b)))}
OFFSETS = [[0.75], [-1.0, 0.5], (0.25, -1.5), [0.5, 0.25, 0.5], np.array([1.0, -0.75]), np.array([-0.25, 0.5, -1.0]), [1, 1], np.array([2, -1, 1])]


def pad(v):
    return np.array([float(c) for c in v] + [0.0] * (3 - len(v)))


def agree(w, shape, r, text=''):
    got = shape.contains(*COLUMNS)
    want = r.contains(POINTS)
    w.count('points', len(POINTS))
    if not w.check(np.array_equal(got, want), 'contains', lambda: f'{text}: wrong at points (x, y, z) {POINTS[got != want][:5].tolist()}, '
                   f'contained: {got[got != want][:5].tolist()}'):
        return
    # the bounding vertices have to enclose everything that is contained, part by part
    v = np.array(shape.vertices, float)
    inside = np.zeros(len(POINTS), bool)
    for f, lo, hi in r.parts:
        flat = hi[2] == lo[2]
        q = POINTS.copy()
        if flat:
            q[:, 2] = lo[2]  # a 2D part: its own plane
        inside_part = want & f(POINTS) & np.all((q >= lo) & (q <= hi), axis=1)
        if inside_part.any():
            reach = (q[inside_part] @ DIRECTIONS.T).max(axis=0)
            w.check(np.all(reach <= (v @ DIRECTIONS.T).max(axis=0) + 1e-5), 'vertices', lambda: f'{text}: the vertices {v.tolist()} do not enclose the contained points')
    lo = np.min([p[1] for p in r.parts], axis=0)
    hi = np.max([p[2] for p in r.parts], axis=0)
    w.check(np.all(v >= lo - 1e-5) and np.all(v <= hi + 1e-5), 'vertices', lambda: f'{text}: the vertices {v.tolist()} reach beyond the parts')


def offset(w, shape, r, vector, text):
    """with_offset, checked: a displaced copy, the original as it was"""
    before = np.array(shape.vertices)
    v = vector.copy() if isinstance(vector, np.ndarray) else vector
    moved = shape.with_offset(v)
    if isinstance(v, np.ndarray):
        v *= 0  # the copy must not depend on what happens to the argument
        v += 3
    elif isinstance(v, list):
        v = list(v)
    w.check(isinstance(moved, type(shape)) and moved is not shape, 'offset', lambda: f'{text}: {moved!r}')
    w.check(np.array_equal(np.array(shape.vertices), before), 'offset', lambda: f'{text}: the original was moved')
    w.check(np.allclose(np.array(moved.vertices), before + pad(vector), atol=1e-6), 'offset', lambda: f'{text}: vertices {moved.vertices} instead of {before + pad(vector)}')
    return moved, r.offset(pad(vector))


def leaf_case(w, i, vectors):
    name, make, r = LEAVES[i]
    shape = make()
    agree(w, shape, r, name)
    for vector in vectors:
        shape, r = offset(w, shape, r, vector, name)
        agree(w, shape, r, f'{name} + {vector}')


def tree_case(w, spec):
    """spec: a leaf number, ('op', left, right) or ('move', vector, child); every node is checked"""
    cache = {}

    def build(s):
        if isinstance(s, int):
            if s not in cache:
                name, make, r = LEAVES[s]
                cache[s] = (make(), r)
            return cache[s]
        if s[0] == 'move':
            shape, r = build(s[2])
            return offset(w, shape, r, OFFSETS[s[1]], show(s))
        (a, ra), (b, rb) = build(s[1]), build(s[2])
        shape = OPS[s[0]][0](a, b)
        w.check(type(shape) is CompositeShape, 'type', lambda: f'{type(shape)}')
        r = ra.combine(rb, OPS[s[0]][1])
        return shape, r

    shape, r = build(spec)
    agree(w, shape, r, show(spec))
    for i, (leaf, lr) in cache.items():
        w.check(np.array_equal(leaf.contains(*COLUMNS), lr.contains(POINTS)), 'part changed', lambda: f'{LEAVES[i][0]} changed')


def show(s):
    if isinstance(s, int):
        return LEAVES[s][0]
    if s[0] == 'move':
        return f'({show(s[2])} by {list(OFFSETS[s[1]])})'
    return f'({show(s[1])} {s[0]} {show(s[2])})'


def line_case(w, a, b, vectors):
    def full(p):
        p = np.atleast_1d(p)
        return np.array([float(c) for c in p[:2]] + [0.0] * (2 - min(2, len(p))))

    def want(a, b):
        d = b - a
        t = (POINTS[:, :2] - a) @ d
        s = (POINTS[:, :2] - b) @ -d
        return (t >= 0) & (s >= 0)
    line = pb.line(a, b)
    fa, fb = full(a), full(b)
    for k, v in enumerate([None] + vectors):
        if v is not None:
            old = line
            vertices = np.array(old.vertices)
            line = line.with_offset(v)
            fa, fb = fa + pad(v)[:2], fb + pad(v)[:2]
            w.check(np.array_equal(np.array(old.vertices), vertices), 'offset', 'the original line was moved')
        w.check(np.allclose(np.array(line.vertices)[:, :2], [fa, fb], atol=1e-6), 'line', lambda: f'ends {line.vertices} instead of {fa}, {fb}')
        w.check(np.allclose(line.a, fa) and np.allclose(line.b, fb), 'line', lambda: f'a, b = {line.a}, {line.b} instead of {fa}, {fb}')
        got = line.contains(*COLUMNS)
        w.check(np.array_equal(got, want(fa, fb)), 'line', lambda: f'contains differs after {k} offsets')


def regular_case(w, n, radius, angle, vector):
    s = pb.regular_polygon(n, radius, angle)
    c = np.zeros(3)
    if vector is not None:
        s = s.with_offset(vector)
        c = pad(vector)
    v = np.array(s.vertices, float) - c
    w.check(len(v) == n, 'regular polygon', f'{len(v)} vertices')
    w.check(np.allclose(np.hypot(v[:, 0], v[:, 1]), radius, atol=1e-5) and np.allclose(v[:, 2], 0), 'regular polygon', 'radius')
    w.check(np.allclose(np.linalg.norm(v - np.roll(v, 1, axis=0), axis=1), 2 * radius * math.sin(math.pi / n), atol=1e-5), 'regular polygon', 'sides')
    w.check(np.allclose(v[0, :2], [radius * math.sin(angle), radius * math.cos(angle)], atol=1e-5), 'regular polygon', 'the first corner')
    inner = radius * math.cos(math.pi / n)
    middles = [angle + (2 * k + 1) * math.pi / n for k in range(n)]
    p = POINTS - c
    d = np.max([p[:, 0] * math.sin(a) + p[:, 1] * math.cos(a) for a in middles], axis=0) - inner
    got = s.contains(*COLUMNS)
    clear = abs(d) > 1e-4
    w.check(np.array_equal(got[clear], d[clear] < 0), 'regular polygon', lambda: f'{n} sides, radius {radius}, angle {angle}: contains differs')


def rectangle_case(w, x, y):
    s = pb.rectangle(x) if y is None else pb.rectangle(x, y)
    hx, hy = x / 2, (x if y is None else y) / 2
    v = sorted(tuple(float(c) for c in p) for p in s.vertices)
    w.check(v == sorted((a * hx, b * hy, 0.0) for a in (1, -1) for b in (1, -1)), 'rectangle', lambda: f'{v}')
    w.check(np.array_equal(s.contains(*COLUMNS), (abs(POINTS[:, 0]) < hx) & (abs(POINTS[:, 1]) < hy)), 'rectangle', 'contains')


def freeform_case(w, dims, width, center, vectors):
    """The box of a freeform shape in 1 to 3 dimensions"""
    c, h = pad(center), pad(width) / 2

    def contains(x, y, z):
        return (abs(x - c[0]) < max(h[0], 0.5)) & (abs(y - c[1]) < max(h[1], 0.5)) & (abs(z - c[2]) < max(h[2], 0.5))
    s = pb.FreeformShape(contains, width, center)
    big = np.maximum(h, 0.5)
    r = Ref(lambda p: np.all(abs(p - c) < big, axis=1), [(lambda p: np.all(abs(p - c) < h, axis=1), c - h, c + h)])
    agree(w, s, r, 'freeform')
    for v in vectors:
        s, r = offset(w, s, r, v, 'freeform')
        agree(w, s, r, 'freeform')
        mid = (np.array(s.vertices).min(axis=0) + np.array(s.vertices).max(axis=0)) / 2
        w.check(np.allclose(pad(np.atleast_1d(s.center)), mid, atol=1e-6), 'center', lambda: f'center {s.center} of {mid}')


def symmetry_case(w, values):
    s = pb.translational_symmetry(*values)
    want = tuple(-1.0 if v is False else 0.0 if v is True else float(v) for v in values) + (0.0,) * (3 - len(values))
    w.check(s.lengths == want, 'symmetry', lambda: f'{s.lengths} instead of {want}')
    named = pb.translational_symmetry(**dict(zip(('a1', 'a2', 'a3'), values)))
    w.check(named.lengths == want, 'symmetry', lambda: f'{named.lengths} instead of {want}')


def primitive_case(w, values):
    p = pb.primitive(*values)
    want = tuple(values) + (1,) * (3 - len(values))
    w.check(p.size == want, 'primitive', lambda: f'{p.size} instead of {want}')
    p = pb.primitive(**dict(zip(('a1', 'a2', 'a3'), values)))
    w.check(p.size == want, 'primitive', lambda: f'{p.size} instead of {want}')


def refused(w):
    for v in ([], [(0, 0)], [(0, 0), (1, 1)]):
        w.raises(RuntimeError, lambda: pb.Polygon(v), 'refused', f'a polygon of {len(v)} vertices')


def body(w):
    thorough = w.thorough
    n = len(LEAVES)
    k = len(OFFSETS)
    for i in range(n):
        for length in (0, 1, 2):
            for vs in itertools.product(range(k), repeat=length):
                w.distinct(('leaf', i, vs))
                w.case(f'{LEAVES[i][0]} displaced by {[list(OFFSETS[v]) for v in vs]}', leaf_case, i, [OFFSETS[v] for v in vs])
    trees = []
    for op in OPS:
        for a in range(n):
            for b in range(n):
                trees.append((op, a, b))
                for v in range(k):
                    trees += [(op, ('move', v, a), b), (op, a, ('move', v, b)), ('move', v, (op, a, b))]
                    if thorough or v < 4:
                        trees.append(('move', (v + 1) % k, ('move', v, (op, a, b))))
                        trees.append((op, ('move', v, a), ('move', (v + 3) % k, a)))
    count = 0
    for op in OPS:
        for op2 in OPS:
            for a in range(n):
                for b in range(n):
                    for c in range(n):
                        count += 1
                        v = count % k
                        trees += [(op2, (op, a, b), c), (op2, c, (op, a, b))]
                        if thorough or count % 3 == 0:
                            trees += [(op2, ('move', v, (op, a, b)), c), ('move', v, (op2, a, ('move', (v + 5) % k, (op, b, c))))]
                        if thorough:
                            trees += [(op, (op2, a, b), (op2, ('move', v, b), c))]
    for t in trees:
        w.distinct(t)
        w.case(show(t), tree_case, t)
    ends = [0, 1.5, -2, [0.5], [-1.0, 0.5], (1.5, -2.0), [2, 1], np.array([0.25, -0.75]), [-1.5, 1.0, 0.0]]
    for a in ends:
        for b in ends:
            if np.array_equal(pad(np.atleast_1d(a)), pad(np.atleast_1d(b))):
                continue
            for vs in [[]] + [[v] for v in OFFSETS] + [[u, v] for u in OFFSETS[::2] for v in OFFSETS[1::2]]:
                w.distinct(('line', str(a), str(b), str(vs)))
                w.case(f'line from {a} to {b} displaced by {[list(v) for v in vs]}', line_case, a, b, vs)
    for sides in range(3, 9 if not thorough else 14):
        for radius in (0.75, 1.5, 2.25, 3):
            for angle in (0, math.pi / sides, 0.3, -1.1, 2 * math.pi / sides):
                for v in [None] + OFFSETS:
                    w.distinct(('regular', sides, radius, angle, str(v)))
                    w.case(f'regular polygon, {sides} sides, radius {radius}, angle {angle:.3f}, offset {v}', regular_case, sides, radius, angle, v)
    for x in (0.5, 1, 1.75, 3):
        for y in (None, 0.5, 1, 2.5, 4):
            w.distinct(('rectangle', x, y))
            w.case(f'rectangle {x} x {y}', rectangle_case, x, y)
    for dims, widths in ((1, [1.5, [2.0], [1]]), (2, [[1.5, 2.0], (3, 1)]), (3, [[1.5, 2.0, 1.0], (2, 2, 2)])):
        for width in widths:
            for center in ((0, 0, 0), [0.5], [0.25, -0.5], (1, -1), [0.5, 0.25, 0.75], np.array([1, 0, -1])):
                for vs in [[]] + [[v] for v in OFFSETS] + [[u, v] for u in OFFSETS for v in OFFSETS]:
                    w.distinct(('freeform', str(width), str(center), str(vs)))
                    w.case(f'freeform shape of width {width} at {list(center)} displaced by {[list(v) for v in vs]}', freeform_case, dims, np.atleast_1d(width), center, vs)
    values = [True, False, 1, 2, 0.5, 3.75]
    for length in range(4):
        for vs in itertools.product(values, repeat=length):
            w.distinct(('symmetry', vs, tuple(map(type, vs))))
            w.case(f'translational symmetry {vs}', symmetry_case, vs)
        for vs in itertools.product((1, 2, 5), repeat=length):
            w.distinct(('primitive', vs))
            w.case(f'primitive {vs}', primitive_case, vs)
    w.case('polygons of too few vertices', refused)


sys.exit(pbpy.run('C22', body, rule='one case per expression tree over the basic shapes (all pairs and triples, every operation, offsets at any node), per line, regular polygon, '
    'freeform box, symmetry and primitive; distinct = different expressions; points = point memberships compared', states='distinct', transitions='points', traces='cases',
    assumptions=['the compiled extension module is replaced by a stand-in with the membership rules of the core (pybind11 is not installed); the core itself is checked by C02',
                 'points on a boundary are not tested']))
