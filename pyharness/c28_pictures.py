"""C28: the pictures of lattices, Brillouin zones, shapes, models and contacts show what they are pictures of."""
import itertools, sys, types
import pbpy
import numpy as np
import matplotlib
import _pybinding as cpp
import pybinding as pb
from pybinding.leads import Lead

SPACE = 'xyz'


# ------------------------------------------------------------------------------------------------ pictures
class Picture:
    """Everything that f draws"""

    def __init__(self, f):
        ax = matplotlib.current_axes[0] = matplotlib.Axes()
        del matplotlib.calls[:]
        try:
            self.result = f()
        finally:
            matplotlib.current_axes[0] = None
        self.calls = list(matplotlib.calls)
        self.circles = [c for c in ax.drawn if not isinstance(c, matplotlib.LineCollection)]
        self.lines = [c for c in ax.drawn if isinstance(c, matplotlib.LineCollection)]

    def of(self, *names):
        return [(a, k) for n, a, k in self.calls if n in names]

    def texts(self):
        return [(str(a[0] if a else k.get('text', k.get('s'))), np.array([float(v) for v in (a[1] if len(a) > 1 else k['xy'])])) for a, k in self.of('annotate', 'text')]

    def arrows(self):
        return [tuple(float(v) for v in (*a, *(k[n] for n in ('x', 'y', 'dx', 'dy')[len(a):]))) for a, k in self.of('arrow')]

    def patches(self):
        return [np.array(a[0].xy, float)[:, :2] for a, _ in self.of('add_patch')]

    def sites(self):
        return sorted((key(p), float(v)) for c in self.circles for p, v in zip(np.asarray(c.offsets, float), np.asarray(c.array)))

    def bonds(self):
        return sorted(tuple(sorted((key(a), key(b)))) for c in self.lines for a, b in c.segments)


def key(p):
    return tuple(int(round(float(v) * 4096)) for v in p)


def flat(v, axes='xy'):
    return np.array([float(v[SPACE.index(a)]) for a in axes[:2]])


def same(a, b, tolerance=1e-4):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, atol=tolerance, rtol=1e-4)


def same_loop(a, b, tolerance=1e-4):
    """The same closed curve: any first vertex, any direction"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) == len(b) + 1 and same(a[0], a[-1]):
        a = a[:-1]
    if a.shape != b.shape:
        return False
    return any(same(np.roll(d, k, axis=0), b, tolerance) for d in (a, a[::-1]) for k in range(len(a)))


def in_pi(v):
    n = v / np.pi
    return '0' if abs(n) < 1e-8 else '$\\pi$' if abs(n - 1) < 1e-5 else '-$\\pi$' if abs(n + 1) < 1e-5 else f'{n:.2g}$\\pi$'


def arrows_check(w, p, vectors, position, name, what):
    """An arrow for every vector which is not seen head-on, with its name in the middle"""
    want = [(i, v) for i, v in enumerate(vectors) if not np.allclose(v, 0)]
    got = p.arrows()
    if w.check(len(got) == len(want), what, lambda: f'{len(got)} arrows for {want}'):
        for i, v in want:
            w.check(any(same(g, (*position, *v)) for g in got), what, lambda: f'no arrow {(*position, *v)} in {got}')
    for i, v in want:
        label = f'${name}_{i + 1}$'
        at = [xy for t, xy in p.texts() if t == label]
        w.check(len(at) == 1 and same(at[0], position + v / 2), what, lambda: f'{label} at {at} instead of {position + v / 2}')
    names = [t for t, _ in p.texts() if t.startswith('$' + name)]
    w.check(len(names) == len(want), what, lambda: f'labels {names}')


# ------------------------------------------------------------------------------------------------- lattices
def lattice(vectors, sites, hops):
    lat = pb.Lattice(*[list(map(float, v)) for v in vectors])
    names = 'ABCD'
    for n, p in zip(names, sites):
        lat.add_one_sublattice(n, list(map(float, p)))
    for k, (cell, a, b) in enumerate(hops):
        lat.add_one_hopping(list(cell), names[a], names[b], float(k % 2 + 1))
    return lat


def lattice_case(w, vectors, sites, hops, axes, where):
    lat = lattice(vectors, sites, hops)
    p = Picture(lambda: lat.plot(axes, **({} if where == 'default' else dict(vector_position=where))))
    full = axes + ''.join(a for a in SPACE if a not in axes)
    middle = np.mean([flat(s, full) for s in sites], axis=0)
    vs = [flat(v, full) for v in np.array([np.append(v, [0, 0])[:3] for v in vectors])]
    if where is None:
        w.check(not p.arrows(), 'vectors', 'no arrows')
    else:
        arrows_check(w, p, vs, np.array(where if isinstance(where, tuple) else middle, float), 'a', 'vectors')
    # sites and hoppings of the cell and of those next to it
    model = pb.Model(lat, pb.translational_symmetry())
    other = Picture(lambda: model.system.plot(axes=axes))
    w.check(p.sites() == other.sites() and {v for _, v in p.sites()} == set(map(float, range(len(sites)))), 'cell', lambda: f'sites {p.sites()} instead of {other.sites()}')
    w.check(p.bonds() == other.bonds() and bool(p.bonds()) == bool(hops), 'cell', lambda: f'bonds {p.bonds()} instead of {other.bonds()}')
    seen = {s for s, _ in p.sites()}
    w.check(all(key(flat(s, full)) in seen for s in sites), 'cell', lambda: f'{sites} are not in {seen}')
    # the names of the sublattices: one at each place, the closest one to the eye
    spots = {}
    for n, s in zip('ABCD', sites):
        spots.setdefault(key(flat(s, full)), []).append((float(s[SPACE.index(full[2])]), n))
    got = sorted((key(xy), t) for t, xy in p.texts() if t in ('A', 'B', 'C', 'D'))
    w.check([k for k, _ in got] == sorted(spots), 'names', lambda: f'{got} instead of {spots}')
    for k, t in got:
        top = max(h for h, _ in spots.get(k, [(0, '')]))
        w.check(t in [n for h, n in spots.get(k, ()) if h == top], 'names', lambda: f'{t} of {spots.get(k)}')
    # the indices of the neighbouring cells
    want, maybe = {}, {}
    for cell, _, _ in hops:
        cell = np.append(cell, [0, 0])[:3]
        for sign in (1, -1):
            c = sign * cell
            at = middle + sum(n * v for n, v in zip(c, vs))
            text = '[' + ', '.join(str(int(n)) for n in c[:len(vectors)]) + ']'
            if any(c[:2]):
                want[text] = at
            elif any(c):
                maybe[text] = at
    got = [(t, xy) for t, xy in p.texts() if t.startswith('[')]
    w.check(set(want) <= {t for t, _ in got} <= set(want) | set(maybe), 'cells', lambda: f'{[t for t, _ in got]} instead of {sorted(want)}')
    for t, xy in got:
        at = {**maybe, **want}.get(t)
        if at is not None:
            w.check(np.linalg.norm(xy - at) <= 0.06 * np.linalg.norm(at) + 1e-4, 'cells', lambda: f'{t} at {xy} instead of {at}')


def vectors_case(w, vectors, position, scale):
    lat = lattice(vectors, [(0, 0, 0)], [])
    p = Picture(lambda: lat.plot_vectors(position, scale=scale) if scale != 1 else lat.plot_vectors(position))
    arrows_check(w, p, [scale * np.append(v, [0, 0])[:2].astype(float) for v in vectors], np.array(position, float), 'a', 'vectors')


def zone_case(w, vectors, decorate):
    lat = lattice(vectors, [(0, 0, 0)], [])
    zone = lat.brillouin_zone()
    p = Picture(lambda: lat.plot_brillouin_zone(decorate=decorate))
    if len(vectors) == 1:
        lines = p.of('plot')
        w.check(len(lines) == 1 and same(lines[0][0][0], zone) and len(set(lines[0][0][1])) == 1, 'zone', lambda: f'{lines}')
        ticks = p.of('xticks')
        if w.check(len(ticks) == 1, 'zone', 'ticks'):
            at, names = ticks[0][0]
            w.check(same(at, [zone[0], 0, zone[1]]) and list(names) == [in_pi(v) for v in (zone[0], 0, zone[1])], 'zone', lambda: f'ticks {at} {names}')
        return
    patches = p.patches()
    w.check(len(patches) == 1 and same_loop(patches[0], zone), 'zone', lambda: f'{patches} instead of {zone}')
    a = np.array([np.append(v, [0, 0])[:2] for v in vectors], float)
    b = 2 * np.pi * np.linalg.inv(a)
    if not decorate:
        w.check(not p.arrows() and not p.texts(), 'zone', lambda: f'decorations {p.texts()}')
        return
    arrows_check(w, p, [b[:, 0], b[:, 1]], np.zeros(2), 'b', 'reciprocal vectors')
    got = [(t, xy) for t, xy in p.texts() if t.startswith('[')]
    w.check(len(got) == len(zone), 'corners', lambda: f'{len(got)} labels')
    for v in zone:
        text = '[' + ', '.join(map(in_pi, v)) + ']'
        w.check(any(t == text and np.linalg.norm(xy - v) <= 0.08 * np.linalg.norm(v) for t, xy in got), 'corners', lambda: f'no {text} at {v}: {got}')


# --------------------------------------------------------------------------------------------------- shapes
def polygon_case(w, points, shift):
    s = pb.Polygon([list(p) for p in points])
    if shift:
        s = s.with_offset(shift)
    p = Picture(s.plot)
    lines = p.of('plot')
    want = np.array(points, float) + np.array(shift or (0, 0))
    if w.check(len(lines) == 1, 'polygon', 'one line'):
        x, y = lines[0][0][:2]
        w.check(len(x) == len(points) + 1 and same_loop(np.column_stack([x, y]), want), 'polygon', lambda: f'{x}, {y} instead of {want}')


def line_case(w, a, b, shift):
    s = pb.line(a, b)
    if shift:
        s = s.with_offset(shift)
    lines = Picture(s.plot).of('plot')
    want = np.array([np.append(v, 0)[:2] for v in (a, b)], float) + np.array(shift or (0, 0))
    if w.check(len(lines) == 1, 'line', 'one line'):
        got = np.column_stack(lines[0][0][:2])
        w.check(same(got, want) or same(got[::-1], want), 'line', lambda: f'{got} instead of {want}')


SHAPES = {
    'circle': (lambda: pb.circle(1.5, (0.5, -1)), lambda x, y: (x - 0.5) ** 2 + (y + 1) ** 2 < 2.25, (-1, 2, -2.5, 0.5)),
    'upper half': (lambda: pb.FreeformShape(lambda x, y, z: y > 0.3 * x, [4, 2]), lambda x, y: y > 0.3 * x, (-2, 2, -1, 1)),
    'corner': (lambda: pb.FreeformShape(lambda x, y, z: (x > 1) & (y < 1), [2, 3], [1, 2]), lambda x, y: (x > 1) & (y < 1), (0, 2, 0.5, 3.5)),
    'square and circle': (lambda: pb.rectangle(2, 3) & pb.circle(1.4, (0.3, 0.6)), lambda x, y: (abs(x) < 1) & (abs(y) < 1.5) & ((x - 0.3) ** 2 + (y - 0.6) ** 2 < 1.96), (-1.1, 1.7, -1.5, 2.0)),
    'square without circle': (lambda: pb.rectangle(2, 3) - pb.circle(1.0, (0.3, 0.6)), lambda x, y: (abs(x) < 1) & (abs(y) < 1.5) & ~((x - 0.3) ** 2 + (y - 0.6) ** 2 < 1), (-1, 1.3, -1.5, 1.6)),
    'triangle or square': (lambda: pb.Polygon([(0, 0), (3, 0), (0, 2)]) + pb.rectangle(1.5), lambda x, y: ((x > 0) & (y > 0) & (2 * x + 3 * y < 6)) | ((abs(x) < 0.75) & (abs(y) < 0.75)), (-0.75, 3, -0.75, 2)),
    'either square': (lambda: pb.rectangle(2, 3) ^ pb.rectangle(3, 1), lambda x, y: ((abs(x) < 1) & (abs(y) < 1.5)) ^ ((abs(x) < 1.5) & (abs(y) < 0.5)), (-1.5, 1.5, -1.5, 1.5)),
}


def silhouette_case(w, name, resolution, shift, colour):
    make, inside, (x0, x1, y0, y1) = SHAPES[name]
    s = make()
    if shift:
        s = s.with_offset(shift)
    dx, dy = shift or (0, 0)
    p = Picture(lambda: s.plot(resolution, **({'color': colour} if colour else {})))
    images = p.of('imshow')
    if not w.check(len(images) == 1, 'silhouette', 'one image'):
        return
    a, k = images[0]
    image = a[0]
    e = [float(v) for v in k['extent']]
    w.check(same(e, (x0 + dx, x1 + dx, y0 + dy, y1 + dy)), 'silhouette', lambda: f'extent {e}')
    shown = np.ma.filled(image, 0).astype(bool)
    if not w.check(shown.shape == (resolution[1], resolution[0]), 'silhouette', lambda: f'{shown.shape}'):
        return
    if k.get('origin', 'upper') == 'upper':
        shown = shown[::-1]
    xs, ys = np.meshgrid(np.linspace(x0, x1, resolution[0]), np.linspace(y0, y1, resolution[1]))
    want = inside(xs, ys)
    near = np.zeros(want.shape, bool)
    for ex, ey in itertools.product((-1e-4, 0, 1e-4), repeat=2):
        near |= inside(xs + ex, ys + ey) != want
    bad = (shown != want) & ~near
    w.count('pixels', shown.size)
    w.check(not bad.any(), 'silhouette', lambda: f'{bad.sum()} of {bad.size} pixels, the first at {xs[bad][0]}, {ys[bad][0]}')


# ------------------------------------------------------------------------------------------- models and leads
def contact_case(w, vectors, axis, sign, a, b, length, shade):
    lat = lattice(vectors, [(0, 0, 0)], [])
    spec = types.SimpleNamespace(shape=cpp.Line(list(a), list(b)), axis=axis, sign=sign)
    lead = Lead(types.SimpleNamespace(spec=spec), 0, lat)
    p = Picture(lambda: lead.plot_contact(arrow_length=length, shade_width=shade))
    a, b, v = np.array(a, float), np.array(b, float), sign * np.array(vectors[axis], float)[:2]
    arrow = v / np.linalg.norm(v) * length * np.linalg.norm(a - b)
    got = p.arrows()
    w.check(len(got) == 1 and same(got[0], (*((a + b) / 2), *arrow)), 'direction', lambda: f'{got} instead of {(*((a + b) / 2), *arrow)}')
    texts = p.texts()
    want = ('-' if sign < 0 else '') + f'a_{axis + 1}'
    w.check(len(texts) == 1 and texts[0][0] == f'${want}$', 'direction', lambda: f'{texts} instead of {want}')
    patches = p.patches()
    w.check(any(len(q) == 2 and (same(q, [a, b]) or same(q, [b, a])) for q in patches), 'contact', lambda: f'{patches}: no line {a}-{b}')
    area = [a - shade * arrow, a + shade * arrow, b + shade * arrow, b - shade * arrow]
    w.check(any(len(q) == 4 and same_loop(q, area) for q in patches), 'contact', lambda: f'{patches}: no area {area}')
    w.check(len(patches) == 2, 'contact', lambda: f'{patches}')


def plain_lead(k):
    xyz = [(4.0 + 2 * k, 0.25 * k + 1, -0.5), (4.5 + 2 * k, 1.75 + 0.25 * k, 0.5)]
    return cpp.System(xyz, [(k % 2, 2, 1)], [(0, 1, 0)], [((1.0, 0.5 - k, 0.125), [(0, 1, 1), (1, 1, 0)])], {'A': 0, 'B': 1}, {'s': 0, 't': 1})


def model_case(w, leads, periods, length, axes):
    """A model is drawn as its structure and all of its leads"""
    lat = lattice([(1, 0, 0), (0, 1, 0)], [(0, 0, 0), (0.5, 0.25, 0)], [((0, 0), 0, 1), ((1, 0), 1, 0)])
    model = pb.Model(lat)
    model.system_impl = cpp.System([(0, 0, 0.25), (1, 0.0625, -0.5), (0.5, 1, 0.375)], [(0, 2, 1), (1, 1, 1)], [(0, 1, 0), (1, 2, 1)],
                                   [((8, 0.5, 0.25), [(2, 0, 1)])] if not leads else [], {'A': 0, 'B': 1}, {'s': 0, 't': 1})
    one = np.array([[1.0]])
    model.lead_list = cpp.Leads(cpp.Lead(one, one, [0], plain_lead(k)) for k in range(leads))
    p = Picture(lambda: model.plot(num_periods=periods, lead_length=length, axes=axes))
    parts = [Picture(lambda: model.system.plot(periods, axes=axes))] + [Picture(lambda: model.leads[k].plot(length, axes=axes)) for k in range(leads)]
    w.check(p.sites() == sorted(s for q in parts for s in q.sites()), 'model', 'sites')
    w.check(p.bonds() == sorted(s for q in parts for s in q.bonds()), 'model', 'hoppings')
    if (periods, length, axes) == (1, 6, 'xy'):
        q = Picture(model.plot)
        w.check(q.sites() == p.sites() and q.bonds() == p.bonds(), 'model', 'one period, leads of 6 cells and the xy plane unless told otherwise')
    names = [t for t, _ in p.texts() if t.startswith('lead')]
    w.check(sorted(names) == sorted(f'lead {k}' for k in range(leads)), 'model', lambda: f'labels {names}')
    w.check(len(model.leads) == leads, 'model', lambda: f'{len(model.leads)} leads')


def parts_case(w, order):
    """The parameters of a model are added to it in their order"""
    lat = lattice([(1, 0, 0), (0, 1, 0)], [(0, 0, 0)], [])
    shape, symmetry = pb.rectangle(2), pb.translational_symmetry(True, 2.5)
    onsite = pb.onsite_energy_modifier(lambda energy: energy)
    position = pb.site_position_modifier(lambda x, y, z: (x, y, z))
    hopping = pb.hopping_energy_modifier(lambda energy: energy)
    parts = [shape, symmetry, onsite, position, hopping, pb.primitive(2, 3)]
    for group in (lambda ps: ps, lambda ps: [tuple(ps)], lambda ps: [ps[:1], *ps[1:]], lambda ps: [[ps[:1], ps[1:]]]):
        chosen = [parts[i] for i in order]
        m = pb.Model(lat, *group(chosen))
        w.check(len(m.added) == len(chosen) and all(a is b for a, b in zip(m.added, chosen)), 'parts', lambda: f'{m.added} instead of {chosen}')
        shapes = [c for c in chosen if isinstance(c, cpp.Shape)]
        w.check(m.lattice is lat and (not shapes or m.shape is shapes[-1]), 'parts', 'the lattice and the shape')
        extra = pb.onsite_energy_modifier(lambda energy: energy)
        m.add(extra)
        w.check(len(m.added) == len(chosen) + 1 and m.added[-1] is extra, 'parts', 'one more')
        w.raises(RuntimeError, lambda: m.add(None), 'parts', 'nothing')
        m.attach_lead(-1, 'contact')
        w.check(m.added[-1] == (-1, 'contact'), 'parts', 'a lead')


def path_case(w, points, step):
    """The arrows of a path in reciprocal space"""
    path = pb.results.make_path(*points, step=step)
    names = [f'P{i}' for i in range(len(points))]
    ends = np.array(points, float)
    bands = pb.results.Bands(path, np.zeros((len(path), 2)))
    for f in (path.plot, lambda: path.plot(names), lambda: path.plot(point_labels=names), lambda: bands.plot_kpath(names)):
        p = Picture(f)
        got = p.of('quiver')
        if w.check(len(got) == 1, 'path', 'one set of arrows'):
            x, y, u, v = got[0][0][:4]
            w.check(same(np.column_stack([x, y]), ends[:-1]) and same(np.column_stack([u, v]), np.diff(ends, axis=0)), 'path', lambda: f'{got[0][0]} instead of {ends}')
        texts = p.texts()
        want = [] if f == path.plot else names
        w.check([t for t, _ in texts] == want and all(np.linalg.norm(xy - e) <= 0.08 * np.linalg.norm(e) + 1e-6 for (_, xy), e in zip(texts, ends)), 'path', lambda: f'{texts} instead of {want} at {ends}')


def lead_bands_case(w, n, index, start, end, step):
    from scipy.sparse import csr_matrix
    rng = np.arange(n * n, dtype=float).reshape(n, n)
    h0, h1 = csr_matrix(rng + rng.T), csr_matrix(np.triu(rng) / 4 + 0.5j)
    lead = Lead(cpp.Lead(h0, h1), index, None)
    want = lead.calc_bands(start, end, step)
    p = Picture(lambda: lead.plot_bands(start, end, step))
    lines, title = p.of('plot'), p.of('title')
    w.check(len(lines) == 1 and same(np.ravel(lines[0][0][0]), np.ravel(want.k_path)) and same(lines[0][0][1], want.energy), 'lead bands', lambda: f'{lines}')
    w.check([a[0] for a, _ in title] == [f'lead {index}'], 'lead bands', lambda: f'{title}')
    # the bands of the infinite lead at the ends of the path
    for k, e in ((start, want.energy[0]), (float(np.ravel(want.k_path)[-1]), want.energy[-1])):
        a, b = h0.toarray(), h1.toarray()
        h = a + b * np.exp(1j * k) + b.conj().T * np.exp(-1j * k)
        w.check(same(np.sort(e), np.linalg.eigvalsh(h)), 'lead bands', lambda: f'{e} at {k} instead of {np.linalg.eigvalsh(h)}')


# ----------------------------------------------------------------------------------------------------- space
VECTORS = {
    1: [((1, 0, 0),), ((0.5, 0.75, 0),), ((0.25, -0.5, 1),), ((0, 0, 1.5),)],
    2: [((1, 0, 0), (0, 1, 0)), ((1, 0, 0), (0.5, 0.875, 0)), ((0.5, -0.875, 0), (0.5, 0.875, 0)), ((2, 0.25, 0), (-0.5, 0.75, 0)), ((1, 0, 0), (0, 0, 2)), ((1, 0.5, 0.25), (0, 1, -0.5)), ((0, 1, 0), (1, 0, 0))],
    3: [((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, 1, 1), (1, 0, 1), (1, 1, 0)), ((2, 0, 0.25), (0.5, 1, 0), (0, 0.25, 3))],
}
SITES = [[(0, 0, 0)], [(0.25, -0.125, 0.5)], [(0, 0, 0), (0.25, 0.125, 0)], [(0.125, 0.25, 0.25), (0.125, 0.25, -0.25)], [(0, 0.25, 0.125), (0.375, 0.25, 0), (0, 0.25, 0.5)], [(0.5, 0, 0), (0.25, 0, 0.125), (0.25, 0, 0.125), (0, 0.375, 0.25)]]
CELLS = {
    1: [(0,), (1,), (2,), (-1,)],
    2: [(0, 0), (1, 0), (0, 1), (1, 1), (1, -1), (-2, 1)],
    3: [(0, 0, 0), (1, 0, 0), (0, 0, 1), (0, -1, 1), (1, 1, 1)],
}


def body(w):
    thorough = w.thorough

    def case(label, fn, *a):
        w.distinct((fn.__name__, label))
        w.case(label, fn, *a)

    for n in (1, 2, 3):
        for vs in VECTORS[n]:
            for sites in SITES:
                ends = [(a, b) for a in range(len(sites)) for b in range(len(sites))]
                for cells in itertools.chain.from_iterable(itertools.combinations(CELLS[n], m) for m in range(4 if thorough else 3)):
                    choices = [(c, *ends[(k + i) % len(ends)]) for i, (k, c) in enumerate(zip(range(1, 9), cells))]
                    hops = [(c, a, b if any(c) or a != b else (a + 1) % len(sites)) for c, a, b in choices if any(c) or len(sites) > 1]
                    hops = [h for i, h in enumerate(hops) if not any(h in (g, (tuple(-v for v in g[0]), g[2], g[1])) for g in hops[:i])]
                    for axes in ('xy', 'yx', 'xz', 'zx', 'yz', 'zy', 'xyz', 'zxy') if thorough or n < 3 else ('xy', 'zx', 'yz'):
                        for where in ('default', 'center', None, (0.5, -0.25)) if thorough or axes in ('xy', 'zx') else ('default',):
                            case(f'lattice {vs} with sites {sites} and hoppings {hops} along {axes}, vectors at {where}', lattice_case, vs, sites, hops, axes, where)
    for n in (1, 2, 3):
        for vs in VECTORS[n]:
            for position in ((0, 0), (0.5, -2), (1, 2)):
                for scale in (1, 0.5, 3):
                    case(f'vectors {vs} at {position}, scale {scale}', vectors_case, vs, position, scale)
    corner = [v for v in itertools.product((-1, 0, 0.5, 1, 2), repeat=2)]
    for v in corner:
        if any(v):
            case(f'zone of {v}', zone_case, (v,), True)
    for a, b in itertools.product(corner, repeat=2):
        if abs(a[0] * b[1] - a[1] * b[0]) > 0.1:
            for decorate in (True, False):
                case(f'zone of {a}, {b}, decorated {decorate}', zone_case, (a, b), decorate)
    spots = [(0, 0), (1, 0), (0, 2), (-1, 0.5), (0.5, -1.5)]
    for n in (3, 4, 5):
        for points in itertools.permutations(spots, n):
            for shift in (None, (0.5, -1)):
                case(f'polygon {points}, shifted by {shift}', polygon_case, points, shift)
    for a, b in itertools.permutations(spots + [(2,), (-3,)], 2):
        for shift in (None, (0.5, -1)):
            case(f'line from {a} to {b}, shifted by {shift}', line_case, a, b, shift)
    for name in SHAPES:
        for resolution in itertools.product((2, 3, 10, 31), repeat=2):
            for shift in (None, (0.75, -1.5)):
                for colour in (None, '#ff0000'):
                    case(f'{name}, {resolution}, shifted by {shift}, colour {colour}', silhouette_case, name, resolution, shift, colour)
    for vs in [v for v in VECTORS[2] if all(x[2] == 0 for x in v)]:
        for axis, sign in itertools.product((0, 1), (1, -1)):
            for a, b in itertools.permutations(spots, 2):
                for length in (0.5, 1.25):
                    for shade in (0.3, 1):
                        case(f'contact of lattice {vs}, axis {axis}, sign {sign}, from {a} to {b}, {length}, {shade}', contact_case, vs, axis, sign, a, b, length, shade)
    for leads, periods, length in itertools.product((0, 1, 2, 3), (0, 1, 2), (1, 2, 6)):
        for axes in ('xy', 'yx', 'xz', 'zx', 'yz', 'zy'):
            case(f'model with {leads} leads, {periods} periods, leads of {length}, along {axes}', model_case, leads, periods, length, axes)
    for n in (2, 3, 4):
        for points in itertools.product(spots, repeat=n):
            if all(a != b for a, b in zip(points, points[1:])):
                case(f'path along {points}', path_case, points, 0.3)
    for n in range(0, 5):
        for order in itertools.permutations(range(6), n):
            case(f'model of parts {order}', parts_case, order)
    for n, index in itertools.product((1, 2, 3, 4), (0, 1, 5)):
        for start, end in ((-np.pi, np.pi), (0, 1), (1.5, -0.5)):
            for step in (0.05, 0.3, 2):
                case(f'bands of lead {index} with {n} states from {start} to {end}, {step}', lead_bands_case, n, index, start, end, step)


sys.exit(pbpy.run('C28', body, rule='one case per (lattice, sites, hoppings, axes, place of the vectors), per lattice of a zone, per shape (offset, resolution, colour), per contact (lattice, direction, ends, sizes), per '
    'model (leads, periods, axes) and list of its parts, per path and per lead whose bands are drawn; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['matplotlib is replaced by a recorder of its calls; what it does with them is not checked', 'the compiled extension module is replaced by a stand-in (pybind11 is not installed)',
                 'the labels of cells and corners may be up to 6-8% further from the origin than what they label']))
