"""C26: the drawing of a structure shows every site and hopping of every image at its own place, in its own colour; so do those of results."""
import itertools, sys
import pbpy
import numpy as np
import matplotlib
import _pybinding as cpp
import pybinding as pb
from pybinding.leads import Lead
from pybinding.results import Bands, Eigenvalues, Series, SpatialMap, Structure, Sweep, make_path
from pybinding.support.structure import Boundary, Hoppings, Sites
from pybinding.system import System, plot_hopping_values, plot_hoppings, plot_site_indices, plot_sites

SITE_NAMES = {'A': 0, 'B|left': 1, 'C': 2}
HOP_NAMES = {'t': 0, 't1|near': 1, 't2': 2}
PALETTE = ['#377ec8', '#ff7f00', '#41ae76', '#e41a1c', '#984ea3', '#ffff00', '#a65628', '#f781bf']
HOP_PALETTE = ['#666666', '#1b9e77', '#e6ab02', '#7570b3', '#e7298a', '#66a61e', '#a6761d']


# ------------------------------------------------------------------------------------------------ systems
def zoo():
    """(label, xyz, families, hoppings, boundaries): no two bonds of any images coincide in any projection"""
    yield 'one site', [(0.25, 1.375, -1)], [(0, 1, 1)], [], []
    yield 'one site, chain', [(0.25, 1.375, -1)], [(1, 1, 1)], [], [((3, 1, 2), [(0, 0, 1)])]
    chain = [(0.5 * i, 0.125 * i * i, 0.375 * i - 0.0625 * i * i) for i in range(4)]
    yield 'chain of 4', chain, [(0, 4, 1)], [(0, 1, 0), (1, 2, 1), (2, 3, 0)], [((4, -1, 2), [(3, 0, 2), (2, 0, 0)])]
    zig = [(0, 0, 0.25), (1, 0.0625, -0.5), (2, 0.1875, 0.375), (0.5625, 1, 0.875), (1.625, 1.125, -0.25)]
    bonds = [(0, 3, 0), (1, 3, 0), (1, 4, 1), (2, 4, 0), (3, 4, 2)]
    two = [((8, 0, 1), [(2, 0, 2), (4, 3, 0)]), ((1, 9, -3), [(3, 0, 1), (4, 1, 0)])]
    yield 'ribbon of 5', zig, [(0, 3, 1), (1, 2, 2)], bonds, two[:1]
    yield 'sheet of 5', zig, [(0, 3, 1), (2, 2, 2)], bonds, two
    yield 'sheet of 5 with diagonals', zig, [(0, 3, 1), (1, 1, 1), (2, 1, 1)], bonds, two + [((9, 9, -2), [(4, 0, 2)]), ((7, -9, 4), [(2, 3, 1)])]
    yield 'crystal of 2', [(0.25, 0.5, -0.125), (0.75, -0.25, 0.375)], [(1, 1, 1), (0, 1, 1)], [(0, 1, 0)], [((4, 0, 1), [(0, 1, 1)]), ((1, 5, 0), [(1, 1, 0)]), ((0, 1, 6), [(0, 0, 2), (1, 0, 0)])]


ZOO = list(zoo())


def make(i):
    label, xyz, families, triples, boundaries = ZOO[i]
    return System(cpp.System(xyz, families, triples, boundaries, SITE_NAMES, HOP_NAMES), lattice=pb.Lattice.from_impl(LATTICE))


LATTICE = cpp.Lattice([1, 0], [0, 1])
LATTICE.add_sublattice('A', [0, 0], 0)
LATTICE.add_sublattice('B', [0.5, 0.5], 0)
for name in HOP_NAMES:
    LATTICE.register_hopping_energy(name, len(LATTICE.hoppings) + 1)


class Plain:
    def __init__(self, i):
        label, xyz, families, triples, boundaries = ZOO[i]
        self.xyz = np.array(xyz, float)
        self.ids = [a for a, n, _ in families for _ in range(n)]
        self.hop, self.bounds = list(triples), [(np.array(s, float), list(t)) for s, t in boundaries]

    def pick(self, where):
        r = Plain.__new__(Plain)
        new = {old: k for k, old in enumerate(where)}
        r.xyz, r.ids = self.xyz[where], [self.ids[k] for k in where]
        keep = lambda ts: [(new[a], new[b], c) for a, b, c in ts if a in new and b in new]
        r.hop, r.bounds = keep(self.hop), [(s, keep(t)) for s, t in self.bounds]
        return r


# ------------------------------------------------------------------------------------------------ pictures
def draw(three, f):
    """Everything that was drawn by f: (circles, lines)"""
    ax = matplotlib.Axes('3d' if three else 'rectilinear')
    matplotlib.current_axes[0] = ax
    try:
        f()
    finally:
        matplotlib.current_axes[0] = None
    circles, lines = [], []
    for c in ax.drawn:
        (lines if isinstance(c, matplotlib.LineCollection) else circles).append(c)
    return circles, lines


def key(p):
    return tuple(int(round(float(v) * 4096)) for v in p)


def colour_of(c, value):
    """What the colour map and norm make of a value (as matplotlib does)"""
    norm, cmap = c.kwargs['norm'], c.kwargs['cmap']
    i = int(np.searchsorted(np.asarray(norm.boundaries, float), float(value), side='right')) - 1
    return tuple(cmap.colors[min(max(i, 0), len(cmap.colors) - 1)])


def circle_list(c, three):
    """[(place, value, radius)] of a collection of circles"""
    offsets = np.asarray(c.offsets, float)
    places = [tuple(p) for p in offsets]
    if three:
        x, y, z = c._offsets3d
        z = np.broadcast_to(np.asarray(z, float), (len(places),))
        places = [(float(a), float(b), float(q)) for a, b, q in zip(x, y, z)]
    values = np.asarray(c.array)
    radii = np.broadcast_to(np.asarray(c.radius, float), (len(places),)) * (8 if three else 1)
    assert len(values) == len(places), 'as many values as circles'
    return [(key(p), float(v), float(r)) for p, v, r in zip(places, values, radii)]


def line_list(c):
    """[(one end, other end, value)]: the ends in a fixed order"""
    s = np.asarray(c.segments, float)
    if s.size == 0:
        return []
    values = [None] * len(s) if c.array is None else np.asarray(c.array)
    assert len(values) == len(s), 'as many values as lines'
    return [tuple(sorted((key(a), key(b)))) + (None if v is None else int(v),) for (a, b), v in zip(s, values)]


def project(axes, three):
    full = axes + ''.join(a for a in 'xyz' if a not in axes)
    order = ['xyz'.index(a) for a in full][:3 if three else 2]
    return lambda p: tuple(float(p[k]) for k in order)


def depth(axes):
    full = axes + ''.join(a for a in 'xyz' if a not in axes)
    return 'xyz'.index(full[2])


def image_layers(shifts, n):
    """Translations which need 0, 1, ... n of the given ones (or opposites)"""
    shifts = [tuple(int(v) for v in s) for s in shifts]
    steps = shifts + [tuple(-v for v in s) for s in shifts]
    seen, front, layers = {(0, 0, 0)}, {(0, 0, 0)}, [{(0, 0, 0)}]
    for _ in range(n):
        front = {tuple(a + b for a, b in zip(p, s)) for p in front for s in steps} - seen
        seen |= front
        layers.append(front)
    return layers


AXES = [''.join(p) for n in (2, 3) for p in itertools.permutations('xyz', n)]
OFFSETS = [(0, 0, 0), (0.5, -1.25, 2)]


# --------------------------------------------------------------------------------------------------- cases
def sites_case(w, i, axes, offset, three, radius, cmap, picked):
    s, p = make(i), Plain(i)
    if picked is not None:
        s, p = s[picked], p.pick(picked)
    n = len(p.ids)
    data = {'ids': s.sublattices, 'real': np.linspace(-1, 2, n)}['ids' if cmap in ('auto', 'pairs') or isinstance(cmap, list) else 'real']
    before, xyz = np.array(data), s.xyz.copy()
    r = {'number': 0.25, 'each': np.linspace(0.1, 0.4, n), 'zero': 0}[radius]
    kw = dict(radius=r, axes=axes, offset=np.array(offset), cmap=cmap)
    circles, lines = draw(three, lambda: plot_sites(s.positions, data, **kw))
    w.check(np.array_equal(np.array(data), before) and np.array_equal(s.xyz, xyz), 'arguments', 'the data or positions were changed')
    if radius == 'zero':
        w.check(not circles and not lines, 'hidden sites', lambda: f'{len(circles)} collections')
        return
    if not w.check(len(circles) == 1 and not lines, 'sites', lambda: f'{len(circles)} collections of circles'):
        return
    got = circle_list(circles[0], three)
    to = project(axes, three)
    radii = np.broadcast_to(r, (n,))
    want = [(key(to(np.add(p.xyz[k], offset))), float(before[k]), float(radii[k])) for k in range(n)]
    w.count('sites', n)
    if radius == 'number' and not three:  # one radius for all is adjusted to the size of the picture
        same = len({g[2] for g in got}) == 1 and 0.8 < got[0][2] / r < 1.4
        w.check(same, 'sites', lambda: f'radius {got[0][2]} instead of {r}')
        got, want = [g[:2] for g in got], [g[:2] for g in want]
    w.check(sorted(got) == sorted(want), 'sites', lambda: f'{sorted(got)} instead of {sorted(want)}')
    if not three:
        heights = {key(to(np.add(p.xyz[k], offset))): p.xyz[k][depth(axes)] for k in range(n)}
        h = [heights.get(g[0], 0) for g in got]
        w.check(all(a <= b for a, b in zip(h[:-1], h[1:])), 'sites', lambda: f'sites which are higher are drawn first: {h}')
    if cmap == 'auto' or isinstance(cmap, list):
        names = PALETTE if cmap == 'auto' else cmap
        for v in (g[1] for g in got):
            w.check(np.allclose(colour_of(circles[0], v), matplotlib.to_rgb(names[int(v)]), atol=1e-6), 'site colour', lambda: f'family {v}: {colour_of(circles[0], v)}')
    elif cmap not in ('auto', 'pairs'):
        w.check(circles[0].kwargs['cmap'] == cmap, 'site colour', 'another colour map')


TURNS = [np.eye(3), np.diag([1, 1, -1.0]), np.array([[0, 1, 0], [0, 0, 1], [1.0, 0, 0]]), np.array([[0, 0, -1], [1, 0, 0], [0, -1.0, 0]])]


def turn_case(w, i, axes, offset, radius, order):
    """A 3D picture seen from several directions, one after the other"""
    import types
    s, p = make(i), Plain(i)
    n = len(p.ids)
    r = {'number': np.full(n, 0.25), 'each': np.linspace(0.1, 0.4, n)}[radius]
    circles, _ = draw(True, lambda: plot_sites(s.positions, np.linspace(-1, 2, n), radius=0.25 if radius == 'number' else r, axes=axes, offset=np.array(offset), cmap='viridis'))
    to = project(axes, True)
    for k in order:
        m = TURNS[k]
        circles[0].do_3d_projection(types.SimpleNamespace(M=m))
        seen = m @ np.array([to(np.add(x, offset)) for x in p.xyz]).T
        want = sorted((key(seen[:2, a]), float(np.linspace(-1, 2, n)[a]), float(r[a])) for a in range(n))
        radii = np.broadcast_to(np.asarray(circles[0].radius, float) * 8, (n,))
        got = [(key(x), float(v), float(q)) for x, v, q in zip(np.asarray(circles[0].offsets, float), np.asarray(circles[0].array), radii)]
        w.check(sorted(got) == want, 'turned sites', lambda: f'view {k}: {sorted(got)} instead of {want}')
        heights = {key(seen[:2, a]): seen[2, a] for a in range(n)}
        h = [heights.get(g[0], 0) for g in got]
        w.check(all(a >= b for a, b in zip(h[:-1], h[1:])), 'turned sites', lambda: f'view {k}: far sites must be drawn first: {h}')


def labels_case(w, i):
    """The number of each site and the energy of each hopping are written where they are"""
    s, p = make(i), Plain(i)
    for what in ('indices', 'values'):
        del matplotlib.calls[:]
        (plot_site_indices if what == 'indices' else plot_hopping_values)(s)
        got = sorted((str(a[0]), key(a[1])) for name, a, k in matplotlib.calls if name == 'annotate')
        if what == 'indices':
            want = sorted((str(k), key(x[:2])) for k, x in enumerate(p.xyz))
        else:
            name = {0: 't', 1: 't1|near', 2: 't2'}
            want = [(name[c], key((p.xyz[a] + p.xyz[b])[:2] / 2)) for a, b, c in p.hop]
            for shift, ts in p.bounds:
                want += [(name[c], key((p.xyz[a] + p.xyz[b] + sign * shift)[:2] / 2)) for a, b, c in ts for sign in (1, -1)]
            want.sort()
        w.check(got == want, 'labels', lambda: f'{what}: {got} instead of {want}')


def hoppings_case(w, i, axes, offset, three, boundary, only, colours, form):
    """boundary: None or (sign, number of the boundary)"""
    s, p = make(i), Plain(i)
    source, triples = (s.hoppings, p.hop) if boundary is None else (s.boundaries[boundary[1]].hoppings, p.bounds[boundary[1]][1])
    shift = np.zeros(3) if boundary is None else p.bounds[boundary[1]][0]
    if form == 'coo':
        source = source.tocoo()
    elif form == 'csr':
        source = source.tocsr()
    before = source.tocoo().copy()
    kw = dict(axes=axes, offset=np.array(offset), draw_only=only)
    if boundary is not None:
        kw['boundary'] = (boundary[0], shift)
    if colours == 'cmap':
        kw['cmap'] = 'auto'
    circles, lines = draw(three, lambda: plot_hoppings(s.positions, source, **kw))
    after = source.tocoo()
    w.check(np.array_equal(before.row, after.row) and np.array_equal(before.col, after.col) and np.array_equal(np.asarray(before.data), np.asarray(after.data)),
            'arguments', 'the hoppings were changed')
    numbers = {0: 't', 1: 't1|near', 2: 't2'}
    keep = [t for t in triples if not only or any(t[2] == o if isinstance(o, int) else numbers[t[2]] == o or numbers[t[2]].split('|')[0] == o for o in only)]
    to = project(axes, three)
    want = []
    for a, b, c in keep:
        pa, pb_ = p.xyz[a] + offset, p.xyz[b] + offset
        if boundary is not None:
            pa, pb_ = (pa + shift, pb_) if boundary[0] > 0 else (pa, pb_ - shift)
        want.append(tuple(sorted((key(to(pa)), key(to(pb_))))) + (c if colours == 'cmap' else None,))
    got = [x for c in lines for x in line_list(c)]
    w.count('hoppings', len(want))
    w.check(not circles and sorted(got, key=str) == sorted(want, key=str), 'hoppings', lambda: f'{got} instead of {want}')
    if colours == 'cmap':
        for c in lines:
            for x in line_list(c):
                w.check(np.allclose(colour_of(c, x[2]), matplotlib.to_rgb(HOP_PALETTE[x[2]]), atol=1e-6), 'hopping colour', lambda: f'{x}: {colour_of(c, x[2])}')


def structure_case(w, i, how, periods, axes, three, picked, hidden):
    """The whole picture with its periodic images"""
    s, p = make(i), Plain(i)
    if picked is not None:
        s, p = s[picked], p.pick(picked)
    elif how == 'structure':
        s = s[list(range(len(p.ids)))]
    data = np.linspace(1, 2, len(p.ids))
    if how == 'map':
        s = s.with_data(data) if picked is not None or isinstance(s, System) else s
    elif how == 'reference':
        hop = lambda ts: Hoppings(matrix(len(p.ids), ts))
        s = Structure(Sites(p.xyz.T, np.array(p.ids)), hop(p.hop), [Boundary(x, hop(t)) for x, t in p.bounds])
    kw = dict(num_periods=periods, axes=axes)
    if 'sites' in hidden:
        kw['site'] = dict(radius=0)
        if how == 'map':
            kw['site_radius'] = 0
    elif how == 'map':
        kw['site_radius'] = (0.1, 0.3)
    if 'hoppings' in hidden:
        kw['hopping'] = dict(width=0)
        kw['boundary'] = dict(width=1)
    if 'boundaries' in hidden:
        kw['boundary'] = dict(width=0)
    if 'only' in hidden:
        kw['hopping'] = dict(draw_only=[0, 2])
    xyz = s.xyz.copy()
    for again in range(2):
        circles, lines = draw(three, lambda: s.plot(**kw))
        layers = image_layers([b[0] for b in p.bounds], periods)
        to = project(axes, three)
        level = {img: k for k, l in enumerate(layers) for img in l}
        shown = lambda t: 'only' not in hidden or t[2] in (0, 2)
        if 'sites' not in hidden:
            values = data if how == 'map' else p.ids
            want = sorted((key(to(p.xyz[k] + img)), float(values[k])) for img in level for k in range(len(p.ids)))
            got = sorted(x[:2] for c in circles for x in circle_list(c, three))
            w.count('sites', len(want))
            w.check(got == want, 'images of sites', lambda: f'{len(got)} circles instead of {len(want)}, missing {[x for x in want if x not in got][:4]}, extra {[x for x in got if x not in want][:4]}')
        else:
            w.check(not circles, 'hidden sites', lambda: f'{len(circles)} collections')
        want = set()
        if 'hoppings' not in hidden:
            for img in level:
                want |= {tuple(sorted((key(to(p.xyz[a] + img)), key(to(p.xyz[b] + img))))) for a, b, c in p.hop if shown((a, b, c))}
        inner = len(want)
        every = [x[:2] for c in lines for x in line_list(c)]
        first = [x for x in every if x in want]
        w.check(len(first) == len(set(first)), 'images of hoppings', 'a hopping was drawn twice')
        if 'boundaries' not in hidden:
            for img in level:
                for shift, ts in p.bounds:
                    other = tuple(int(v) for v in np.add(img, shift))
                    # a bond is part of the picture if it joins two images, at least one of which is not in the last layer
                    if other in level and min(level[img], level[other]) < periods:
                        want |= {tuple(sorted((key(to(p.xyz[a] + other)), key(to(p.xyz[b] + img))))) for a, b, c in ts if shown((a, b, c))}
        w.count('hoppings', len(want))
        w.check(set(every) == want, 'images of hoppings', lambda: f'{len(set(every))} lines instead of {len(want)} ({inner} inside of images), missing {[x for x in want if x not in every][:4]}, extra {[x for x in every if x not in want][:4]}')
    w.check(np.array_equal(s.xyz, xyz) and [len(b.hoppings.tocoo().data) for b in s.boundaries] == [len(t) for _, t in p.bounds] and len(s.hoppings.tocoo().data) == len(p.hop),
            'arguments', 'the structure was changed by drawing it')


def matrix(n, ts):
    from scipy.sparse import coo_matrix
    return coo_matrix((np.array([t[2] for t in ts], np.int8), ([t[0] for t in ts], [t[1] for t in ts])), shape=(n, n))


class LeadImpl:
    def __init__(self, system):
        self.system = system


def lead_case(w, i, length, axes, three):
    p = Plain(i)
    lead = Lead(LeadImpl(make(i).impl), 0, pb.Lattice.from_impl(LATTICE))
    circles, lines = draw(three, lambda: lead.plot(length, axes=axes, site=dict(radius=0.1)))
    to = project(axes, three)
    along = p.bounds[0][0]
    want = sorted((key(to(p.xyz[k] + c * along)), float(p.ids[k])) for c in range(length) for k in range(len(p.ids)))
    got = sorted(x[:2] for c in circles for x in circle_list(c, three))
    w.check(got == want, 'lead sites', lambda: f'{got} instead of {want}')
    bonds = []
    for c in range(length):
        at = c * along
        bonds += [tuple(sorted((key(to(p.xyz[a] + at)), key(to(p.xyz[b] + at))))) for a, b, _ in p.hop]
        bonds += [tuple(sorted((key(to(p.xyz[a] + at)), key(to(p.xyz[b] + at - along))))) for a, b, _ in p.bounds[0][1]]
    got = [x[:2] for c in lines for x in line_list(c)]
    w.check(sorted(got) == sorted(bonds), 'lead hoppings', lambda: f'{sorted(got)} instead of {sorted(bonds)}')


# ------------------------------------------------------------------------------------- pictures of results
def calls(f, *names):
    """The calls of plotting functions which f makes, and the collections it draws"""
    ax = matplotlib.current_axes[0] = matplotlib.Axes()
    del matplotlib.calls[:]
    try:
        f()
    finally:
        matplotlib.current_axes[0] = None
    return [(a, k) for name, a, k in matplotlib.calls if name in names], ax.drawn


def annotations(f):
    return [(str(a[0] if a else k.get('text', k.get('s'))), tuple(float(v) for v in (a[1] if len(a) > 1 else k['xy']))) for a, k in calls(f, 'annotate')[0]]


def states_case(w, gaps, probability, mark, numbers):
    values = np.cumsum(gaps) * 1.0
    n = len(values)
    e = Eigenvalues(values.copy(), None if probability is None else np.array(probability[:n], float))
    heat = probability is not None
    f = lambda: (e.plot_heatmap if heat else e.plot)(mark_degenerate=mark, show_indices=numbers)
    got, drawn = calls(f, 'scatter')
    if w.check(len(got) == 1, 'states', 'one set of points'):
        a, k = got[0]
        c = np.asarray(k['c'], float) if heat and np.any(probability[:n]) else np.zeros(n)
        pts = sorted(zip(map(float, a[0]), map(float, a[1]), map(float, c)))
        want = [(float(i), float(v), float(probability[i]) if heat else 0.0) for i, v in enumerate(values)]
        w.check(pts == want, 'states', lambda: f'{pts} instead of {want}')
        if heat and np.any(probability[:n]):
            w.check(all(x <= y for x, y in zip(c[:-1], c[1:])), 'states', 'likely states must not be hidden by unlikely ones')
            s = np.asarray(k['s'], float)
            w.check(np.allclose(s, 7 + 77 * c / c.max()), 'states', lambda: f'sizes {s} for {c}')
    lines = [[tuple(map(float, p)) for p in seg] for c in drawn for seg in c.segments]
    groups, start = [], 0
    for i in range(1, n + 1):
        if i == n or values[i] - values[i - 1] > 1e-5:
            if i - start > 1:
                groups.append([(float(start), float(values[start])), (float(i - 1), float(values[i - 1]))])
            start = i
    w.check(lines == (groups if mark else []), 'states', lambda: f'degenerate states {lines} instead of {groups}')
    labels = annotations(f)
    want = [(str(i), (float(i), float(v))) for i, v in enumerate(values)] if numbers else []
    w.check(labels == want, 'states', lambda: f'labels {labels} instead of {want}')


def in_pi(v):
    n = v / np.pi
    return '0' if abs(n) < 1e-8 else '$\\pi$' if abs(n - 1) < 1e-5 else '-$\\pi$' if abs(n + 1) < 1e-5 else f'{n:.2g}$\\pi$'


def bands_plot_case(w, points, step, nbands):
    path = make_path(*points, step=step)
    energy = np.arange(len(path) * nbands, dtype=float).reshape(len(path), nbands)
    b = Bands(path, energy)
    got, _ = calls(lambda: b.plot(), 'plot')
    at = list(path.point_indices)
    if w.check(len(got) == 1, 'bands', 'one set of lines'):
        x, y = (np.asarray(v, float) for v in got[0][0])
        w.check(np.array_equal(y, energy) and x.shape == (len(path),), 'bands', 'energies')
        flat = np.asarray(path, float).reshape(len(path), -1)
        if len(points) == 2:
            moving = [c for c in range(flat.shape[1]) if abs(flat[0, c] - flat[-1, c]) > 0]
            w.check(any(np.array_equal(x, flat[:, c]) for c in moving), 'bands', lambda: f'places {x}')
        else:
            w.check(np.array_equal(x, np.arange(len(path))), 'bands', lambda: f'places {x}')
        for labels in (None, [f'P{i}' for i in range(len(points))]):
            ticks, _ = calls(lambda: b.plot(point_labels=labels), 'xticks')
            name = lambda p: '[' + ', '.join(map(in_pi, p)) + ']' if len(p) > 1 else in_pi(p[0])
            want = labels or [name(np.atleast_1d(p)) for p in points]
            if w.check(len(ticks) == 1, 'bands', 'ticks'):
                w.check(np.array_equal(np.asarray(ticks[0][0][0], float), x[at]) and list(ticks[0][0][1]) == want, 'bands', lambda: f'ticks {ticks[0][0]} instead of {x[at]} {want}')
        lines, _ = calls(lambda: b.plot(), 'axvline')
        w.check([float(a[0]) for a, _ in lines] == [float(v) for v in x[at]], 'bands', lambda: f'lines at {[a[0] for a, _ in lines]}')


def sweep_plot_case(w, nx, ny, at):
    x, y = np.cumsum(np.arange(1.0, nx + 1)), np.cumsum(np.arange(2.0, ny + 2)) - 4
    data = np.arange(nx * ny, dtype=float).reshape(nx, ny) ** 1.5
    s = Sweep(x, y, data, dict(title='T', x='X (eV)', y='Y (nm)', data='D'))
    got, _ = calls(s.plot, 'pcolormesh')
    if w.check(len(got) == 1, 'sweep', 'one mesh'):
        a = got[0][0]
        w.check(np.array_equal(a[0], x) and np.array_equal(a[1], y) and np.asarray(a[2]).shape == (ny, nx) and np.array_equal(np.asarray(a[2]).T, data), 'sweep', lambda: f'mesh {a}')
    for axis, own, other in (('x', x, y), ('y', y, x)):
        v = own[0] + at * (own[-1] - own[0])
        near = np.abs(own - v)
        picks = [k for k in range(len(own)) if near[k] == near.min()]
        f = lambda: getattr(s, f'plot_slice_{axis}')(v)
        got, _ = calls(f, 'plot')
        if w.check(len(got) == 1, 'sweep', 'one line'):
            a = got[0][0]
            rows = [data[k, :] if axis == 'x' else data[:, k] for k in picks]
            w.check(np.array_equal(a[0], other) and any(np.array_equal(a[1], r) for r in rows), 'sweep', lambda: f'slice {a} at {axis} = {v}')
        for call, want in (('title', None), ('xlabel', 'Y (nm)' if axis == 'x' else 'X (eV)'), ('ylabel', 'D')):
            texts, _ = calls(f, call)
            if w.check(len(texts) == 1, 'sweep', call):
                names = [want] if want else [f'T, {axis.upper()} = {own[k]:.2g} {"eV" if axis == "x" else "nm"}' for k in picks]
                w.check(texts[0][0][0] in names, 'sweep', lambda: f'{call} {texts[0][0][0]} instead of {names}')


def map_plot_case(w, n, what):
    xyz = np.array([(0.5 * i, 0.25 * i * i, -i) for i in range(n)], float).reshape(n, 3)
    data = np.array([3, 1, 4, 1, 5, 9][:n], float)
    m = SpatialMap(data, Sites(xyz.T, np.zeros(n, int)))
    got, _ = calls(getattr(m, 'plot_' + what), {'pcolor': 'tripcolor', 'contourf': 'tricontourf', 'contour': 'tricontour'}[what])
    if w.check(len(got) == 1, 'map', 'one picture'):
        a, k = got[0]
        w.check(np.array_equal(a[0], xyz[:, 0]) and np.array_equal(a[1], xyz[:, 1]) and np.array_equal(a[2], data), 'map', lambda: f'{a}')
        if what == 'contourf':
            lv = np.asarray(k['levels'], float)
            w.check(len(lv) == 50 and lv[0] == data.min() and lv[-1] == data.max(), 'map', lambda: f'levels {lv}')


def radii_case(w, i, data, sizes):
    """The size of each site of a map follows its own value"""
    s, p = make(i), Plain(i)
    n = len(p.ids)
    values = np.array(data[:n], float)
    m = s.with_data(values)
    circles, _ = draw(False, lambda: m.plot(site_radius=sizes, num_periods=1))
    span = values.max() - values.min()
    low, high = sizes
    each = {key(x[:2]): (low + (high - low) * (v - values.min()) / span if span > 1e-8 else None, v) for x, v in zip(p.xyz, values)}
    got = circle_list(circles[0], False) if circles else []
    w.check(len(got) == n, 'sizes of sites', lambda: f'{len(got)} sites')
    for place, v, r in got:
        size, value = each.get(place, (None, None))
        w.check(value is not None and v == value and (abs(r - size) < 1e-9 if size is not None else 0.8 * high < r < 1.4 * high), 'sizes of sites', lambda: f'site at {place}: value {v}, radius {r} instead of {value}, {size}')


def series_plot_case(w, n, columns):
    x = np.cumsum(np.arange(1.0, n + 1))
    data = np.arange(n * columns, dtype=float).reshape(n, columns) if columns > 1 else np.arange(n, dtype=float)
    s = Series(x, data, dict(variable='V', data='D', columns='C'))
    got, _ = calls(s.plot, 'plot')
    if w.check(len(got) == 1, 'series', 'one set of lines'):
        w.check(np.array_equal(got[0][0][0], x) and np.array_equal(got[0][0][1], data), 'series', lambda: f'{got[0][0]}')
    for call, want in (('xlabel', 'V'), ('ylabel', 'D')):
        texts, _ = calls(s.plot, call)
        w.check([a[0] for a, _ in texts] == [want], 'series', lambda: f'{call} {texts}')


def text_case(w, a, b):
    v = a * np.pi / b
    w.check(pb.utils.x_pi(v) == in_pi(v), 'numbers', lambda: f'{pb.utils.x_pi(v)} for {a}/{b} pi')


def body(w):
    thorough = w.thorough
    def case(label, fn, *a):
        w.distinct((fn.__name__, label))
        w.case(label, fn, *a)

    for n in range(1, 7):
        for gaps in itertools.product((0, 1), repeat=n):
            for probability in (None, (0.5, 0.125, 1, 0.25, 0.75, 0), (0, 0, 0, 0, 0, 0), (1, 1, 2, 2, 3, 3)):
                for mark, numbers in itertools.product((True, False), repeat=2):
                    case(f'states with gaps {gaps}, probability {probability}, marks {mark}, numbers {numbers}', states_case, gaps, probability, mark, numbers)
    for n in (2, 3, 4):
        for points in itertools.product((-1.0, 0.0, 0.5, 1.0), repeat=n):
            if all(a != b for a, b in zip(points[:-1], points[1:])):
                for step, nb in ((0.1, 1), (0.35, 3)):
                    case(f'bands along {points} pi in steps of {step}, {nb} bands', bands_plot_case, tuple(np.pi * p for p in points), step, nb)
    corners = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 2.0), (-0.5, 1.0)]
    for n in (2, 3):
        for points in itertools.permutations(corners, n):
            case(f'bands along {points} pi', bands_plot_case, tuple(tuple(np.pi * c for c in p) for p in points), 0.3, 2)
    for nx, ny in itertools.product(range(1, 7), repeat=2):
        for at in (-0.25, 0, 0.2, 0.5, 0.55, 0.875, 1, 1.5):
            case(f'sweep of {nx} x {ny}, slices at {at}', sweep_plot_case, nx, ny, at)
    for n in range(1, 7):
        for what in ('pcolor', 'contourf', 'contour'):
            case(f'map of {n} sites, {what}', map_plot_case, n, what)
        for columns in (1, 2, 3):
            case(f'series of {n}, {columns} columns', series_plot_case, n, columns)
    for a in range(-12, 13):
        for b in range(1, 13):
            case(f'{a}/{b} pi', text_case, a, b)
    for i in range(len(ZOO)):
        for data in itertools.permutations((0.5, -1, 2, 3, 0.25)) if len(ZOO[i][1]) == 5 else ((0.5, -1, 2, 3), (2, 2, 2, 2), (-3, -1, -2, -5)):
            for sizes in ((0.03, 0.05), (0.2, 0.1)):
                case(f'sizes {sizes} of {ZOO[i][0]}, data {data}', radii_case, i, data, sizes)
    for i, (label, xyz, _, hops, bounds) in enumerate(ZOO):
        n = len(xyz)
        picks = [None] + ([list(c) for c in itertools.permutations(range(n), 2)] + [[n - 1]] if n > 1 else [])
        w.distinct(('labels', i))
        w.case(f'labels of {label}', labels_case, i)
        for axes in AXES:
            for offset in OFFSETS:
                for radius in ('number', 'each'):
                    for order in itertools.product(range(len(TURNS)), repeat=3 if thorough else 2):
                        w.distinct(('turn', i, axes, offset, radius, order))
                        w.case(f'{label} in 3D, axes {axes}, offset {offset}, radius {radius}, seen from {order}', turn_case, i, axes, offset, radius, order)
            for three in (False, True):
                for offset in OFFSETS:
                    for radius in ('number', 'each', 'zero'):
                        for cmap in ('auto', 'pairs', ['#ff0000', '#00ff00', '#0000ff'], 'viridis'):
                            for picked in picks if thorough else picks[:4]:
                                w.distinct(('sites', i, axes, three, offset, radius, str(cmap), str(picked)))
                                w.case(f'sites of {label}{"" if picked is None else f" {picked}"}, axes {axes}{", 3D" * three}, offset {offset}, radius {radius}, colours {cmap}', sites_case, i, axes, offset, three, radius, cmap, picked)
                    for boundary in [None] + [(sign, b) for b in range(len(bounds)) for sign in (1, -1)]:
                        for only in ([], [0], [1], [2, 0], ['t'], ['t1'], ['t1|near', 't2'], [7]):
                            for colours in ('plain', 'cmap'):
                                for form in ('blocks', 'csr', 'coo') if thorough or axes in ('xy', 'zyx') else ('blocks',):
                                    w.distinct(('hoppings', i, axes, three, offset, boundary, str(only), colours, form))
                                    w.case(f'hoppings of {label}, boundary {boundary}, axes {axes}{", 3D" * three}, offset {offset}, only {only}, {colours}, {form}', hoppings_case, i, axes, offset, three, boundary, only, colours, form)
                for periods in (0, 1, 2, 3) if thorough else (0, 1, 2):
                    for how in ('system', 'structure', 'map', 'reference'):
                        for picked in [None] + ([[n - 1, 0], list(range(n))[::-1], [1]] if n > 1 else []):
                            for hidden in ((), ('sites',), ('hoppings',), ('boundaries',), ('only',)):
                                if (how == 'structure' and picked) or (not thorough and axes not in ('xy', 'xyz', 'zx', 'yzx') and hidden):
                                    continue
                                w.distinct(('structure', i, how, periods, axes, three, str(picked), hidden))
                                w.case(f'{how} of {label}{"" if picked is None else f" {picked}"}, {periods} periods, axes {axes}{", 3D" * three}, hidden {hidden}', structure_case, i, how, periods, axes, three, picked, hidden)
                if len(bounds) == 1:
                    for length in (1, 2, 5):
                        w.distinct(('lead', i, length, axes, three))
                        w.case(f'lead of {label}, length {length}, axes {axes}{", 3D" * three}', lead_case, i, length, axes, three)


sys.exit(pbpy.run('C26', body, rule='one case per (structure, selection, way to draw it, number of periods, axes, 2D or 3D, hidden parts), per collection of sites (offset, radius, colours) and of hoppings '
    '(boundary, filter, colours, format) and per lead; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['matplotlib is replaced by a recorder of collections; what matplotlib does with them is not checked', 'the bonds between two images of the same layer may be drawn twice',
                 'the compiled extension module is replaced by a stand-in (pybind11 is not installed)']))
