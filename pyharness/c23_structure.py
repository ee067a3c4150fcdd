"""C23: slicing, cropping, naming, reducing and storing the structure of a system keeps everything with its own site."""
import itertools, os, pickle, shutil, sys, tempfile
import pbpy
import numpy as np
import _pybinding as cpp
import pybinding as pb
from scipy.sparse import coo_matrix, csr_matrix
from pybinding.results import SpatialMap, Structure, StructureMap
from pybinding.support.alias import AliasArray, AliasCSRMatrix, SplitName
from pybinding.support.fuzzy_set import FuzzySet
from pybinding.support.pickle import load, pickleable, save
from pybinding.support.structure import Boundary, Hoppings, Sites
from pybinding.system import System, _CppSites, _make_shift_set

SITE_NAMES = {'A': 0, 'B|left': 1, 'C': 2}
HOP_NAMES = {'t': 0, 't1|near': 1, 't2': 2, 'far': 125}


# ------------------------------------------------------------------------------------------------ systems
def zoo():
    """(label, xyz, families, hoppings, boundaries)"""
    yield 'one site', [(0.5, 1, -1)], [(0, 1, 1)], [], []
    yield 'chain of 4', [(i * 1.0, 0, 0) for i in range(4)], [(0, 4, 1)], [(0, 1, 0), (1, 2, 0), (2, 3, 0)], [((4, 0, 0), [(3, 0, 0)])]
    yield ('zigzag of 5', [(0, 0, 0), (1, 0, 0), (2, 0, 0), (0.5, 1, 0), (1.5, 1, 0)], [(0, 3, 1), (1, 2, 2)],
           [(0, 3, 0), (1, 3, 0), (1, 4, 1), (2, 4, 0), (3, 4, 2)], [((3, 0, 0), [(2, 0, 2), (4, 3, 0)]), ((0, 2, 0), [(3, 0, 1), (4, 1, 0)])])
    yield ('cube of 6', [(0, 0, 0), (0, 0, 1.5), (1, 0, 0.5), (1, 2, 0), (-1, 2, 1), (-2, -0.5, -1)], [(1, 2, 2), (0, 1, 1), (2, 3, 3)],
           [(i, j, (0, 1, 2, 125)[(i * 3 + j) % 4]) for i in range(6) for j in range(i + 1, 6) if (i + j) % 3 != 1], [((0, 0, 4), [(0, 0, 125), (1, 4, 0), (5, 2, 1)])])


ZOO = list(zoo())


def make(i):
    label, xyz, families, triples, boundaries = ZOO[i]
    return System(cpp.System(xyz, families, triples, boundaries, SITE_NAMES, HOP_NAMES), lattice=('lattice', i))


class Plain:
    """The same content in the plainest form: lists and dictionaries"""
    def __init__(self, i):
        label, xyz, families, triples, boundaries = ZOO[i]
        self.xyz = np.array(xyz, np.float32)
        self.ids = np.array([a for a, n, _ in families for _ in range(n)])
        self.hop = self.dense(len(xyz), triples)
        self.bounds = [(np.array(s, np.float32), self.dense(len(xyz), t)) for s, t in boundaries]

    @staticmethod
    def dense(n, triples):
        d = np.full((n, n), -1)
        for i, j, k in triples:
            d[i, j] = k
        return d

    def pick(self, where):
        """where: list of site numbers"""
        r = Plain.__new__(Plain)
        w = np.array(where, int)
        r.xyz, r.ids, r.hop = self.xyz[w], self.ids[w], self.hop[np.ix_(w, w)]
        r.bounds = [(s, d[np.ix_(w, w)]) for s, d in self.bounds]
        return r


def dense_of(csr, n):
    d = np.full((n, n), -1)
    coo = csr.tocoo()
    for i, j, k in zip(coo.row, coo.col, np.asarray(coo.data)):
        assert d[i, j] == -1
        d[i, j] = k
    return d


def same_names(array, ids, names):
    """Every way to compare with a name"""
    for name in list(names) + ['B', 't1', 'nothing', 'left', '']:
        want = np.zeros(np.shape(ids), bool)
        for k, v in names.items():
            if k == name or k.split('|')[0] == name:
                want |= np.asarray(ids) == v
        if not (np.array_equal(array == name, want) and np.array_equal(array != name, ~want)):
            return False
    return all(np.array_equal(array == v, np.asarray(ids) == v) and np.array_equal(array != v, np.asarray(ids) != v) for v in names.values())


def agree_hoppings(w, h, dense, text, names=True):
    n = len(dense)
    w.check(h.tocsr().shape == (n, n), 'hoppings', lambda: f'{text}: shape {h.tocsr().shape} instead of {n}')
    got = dense_of(h.tocsr(), n)
    w.check(np.array_equal(got, dense), 'hoppings', lambda: f'{text}: hoppings\n{got}\ninstead of\n{dense}')
    w.check(np.array_equal(dense_of(h.tocoo(), n), dense), 'hoppings', lambda: f'{text}: tocoo')
    w.check(h.nnz == (dense >= 0).sum(), 'hoppings', lambda: f'{text}: {h.nnz} hoppings instead of {(dense >= 0).sum()}')
    for m in (h.tocsr(), h.tocoo()) if names else ():
        w.check(same_names(m.data, np.asarray(m.data), HOP_NAMES), 'hopping names', lambda: f'{text}: comparison of {m.data} with the names')


def agree(w, s, p, text, boundaries=True):
    """s: Structure, StructureMap or SpatialMap"""
    n = len(p.xyz)
    w.check(s.num_sites == n, 'sites', lambda: f'{text}: {s.num_sites} sites instead of {n}')
    for k, c in enumerate('xyz'):
        v = getattr(s, c)
        w.check(v.shape == (n,) and np.array_equal(v, p.xyz[:, k]), 'positions', lambda: f'{text}: {c} = {v} instead of {p.xyz[:, k]}')
        w.check(np.array_equal(getattr(s.positions, c), p.xyz[:, k]), 'positions', lambda: f'{text}: positions.{c}')
    w.check(s.xyz.shape == (n, 3) and np.array_equal(s.xyz, p.xyz), 'positions', lambda: f'{text}: xyz')
    for ids in (s.sublattices, s.sub):
        w.check(np.array_equal(np.asarray(ids), p.ids), 'sublattices', lambda: f'{text}: sublattices {ids} instead of {p.ids}')
        w.check(same_names(ids, p.ids, SITE_NAMES), 'sublattice names', lambda: f'{text}: comparison of {ids} with the names')
    if boundaries:
        agree_hoppings(w, s.hoppings, p.hop, text)
        w.check(len(s.boundaries) == len(p.bounds), 'boundaries', lambda: f'{text}: {len(s.boundaries)} boundaries')
        for b, (shift, dense) in zip(s.boundaries, p.bounds):
            w.check(np.array_equal(b.shift, shift), 'boundaries', lambda: f'{text}: shift {b.shift} instead of {shift}')
            agree_hoppings(w, b.hoppings, dense, text + ' (boundary)')


class Area:
    def __init__(self, f):
        self.f = f

    def contains(self, x, y, z):
        return self.f(x, y, z)


def selections(n, depth):
    """(text, index object, site numbers)"""
    full = list(range(n))
    for bits in itertools.product((0, 1), repeat=n):
        m = np.array(bits, bool)
        yield f'mask {bits}', m, [i for i in full if bits[i]]
    if depth:
        return
    for start in [None] + list(range(-n, n)):
        for stop in [None] + list(range(-n, n + 2)):
            for step in (None, 1, 2, -1, -2, 3):
                yield f'[{start}:{stop}:{step}]', slice(start, stop, step), full[slice(start, stop, step)]
    for k in range(-n, n):
        yield f'[[{k}]]', [k], [k % n]
    for length in range(0, 4):
        for c in itertools.product(range(n), repeat=length):
            yield f'list {c}', np.array(c, int), list(c)
            if length == 2:
                yield f'negative list {c}', np.array(c, int) - n, list(c)
                yield f'python list {c}', list(c), list(c)
    yield 'everything', slice(None), full


def slice_case(w, i, index, where, index2, where2):
    label = ZOO[i][0]
    p = Plain(i)
    s = make(i)
    # the coordinates themselves tell the sites apart; the data must follow them
    values = np.arange(len(p.xyz)) * 10.0 + 7
    m = s.with_data(values.copy()) if s.num_sites else None
    t, tm, ts, td = s, m, m.spatial_map, values
    for k, (ix, wh) in enumerate(((index, where), (index2, where2))):
        if ix is None:
            break
        text = f'{label}, slice {k + 1}'
        before, before_map = p, td
        t2, tm2, ts2 = t[ix], tm[ix], ts[ix]
        w.check(type(t2) is Structure and type(tm2) is StructureMap and type(ts2) is SpatialMap, 'type', lambda: f'{type(t2)}, {type(tm2)}, {type(ts2)}')
        p2, td2 = p.pick(wh), td[np.array(wh, int)]
        agree(w, t2, p2, text)
        agree(w, tm2, p2, text + ', map')
        agree(w, ts2, p2, text + ', spatial map', boundaries=False)
        for q in (tm2, ts2):
            w.check(np.shape(q.data) == td2.shape and np.array_equal(q.data, td2), 'data', lambda: f'{text}: data {q.data} instead of {td2}')
        w.check(t2.lattice == ('lattice', i), 'lattice', 'the lattice was lost')
        agree(w, t, before, text + ': original')
        w.check(np.array_equal(tm.data, before_map), 'original changed', 'data')
        w.count('slices')
        t, tm, ts, p, td = t2, tm2, ts2, p2, td2


def single_parts(w, i, index, where):
    """Sites, Hoppings and Boundary on their own"""
    p, s = Plain(i), make(i)
    q = p.pick(where)
    for sites in (s._sites, Sites(s.positions, s.sub), Sites(iter(s.positions), s.sub)):
        r = sites[index]
        w.check(np.array_equal(r.xyz, q.xyz) and np.array_equal(np.asarray(r.ids), q.ids) and same_names(r.ids, q.ids, SITE_NAMES), 'sites', lambda: f'{r.xyz} {r.ids}')
        w.check(len(r) == r.size == len(q.xyz), 'sites', lambda: f'size {r.size} instead of {len(q.xyz)}')
    bare = Sites(s.positions)
    r = bare[index]
    w.check(np.array_equal(r.xyz, q.xyz) and np.array_equal(r.ids, np.zeros(len(q.xyz))), 'sites', 'without sublattices')
    bare = SpatialMap(list(range(len(p.xyz))), s.positions)[index]
    w.check(np.array_equal(bare.data, where) and np.array_equal(bare.x, q.xyz[:, 0]), 'sites', 'map without sublattices')
    for h in (s.hoppings, Hoppings(s.hoppings.tocsr()), Hoppings(s.hoppings.tocoo())):
        r = h[index]
        agree_hoppings(w, r, q.hop, 'hoppings on their own', names=type(h) is not Hoppings or isinstance(h.tocsr(), AliasCSRMatrix))
        agree_hoppings(w, h, p.hop, 'hoppings on their own: original', names=False)
    # any values, zeros included, in any type
    for dtype, offset in ((np.int8, -1), (np.float64, -1), (np.complex128, 0), (np.int32, -125), (np.float32, -0.5)):
        c = p.hop
        rows, cols = np.nonzero(c >= 0)
        m = csr_matrix((c[rows, cols].astype(dtype) + np.array(offset, dtype), (rows, cols)), c.shape)
        r = Hoppings(m)[index].tocoo()
        got = {(a, b): v for a, b, v in zip(r.row, r.col, r.data)}
        want = {(a, b): dtype(v + offset) for (a, b), v in np.ndenumerate(q.hop) if v >= 0}
        w.check(got == want, 'values', lambda: f'{got} instead of {want}')
    for b, (shift, dense) in zip(s.boundaries, q.bounds):
        for v in (b, Boundary(b.shift, Hoppings(b.hoppings.tocsr()))):
            r = v[index]
            w.check(np.array_equal(r.shift, shift), 'boundaries', 'shift')
            agree_hoppings(w, r.hoppings, dense, 'boundary on its own')


def crop_case(w, i, limits):
    p, s = Plain(i), make(i)
    where = [k for k, r in enumerate(p.xyz) if all(lo <= r['xyz'.index(c)] < hi for c, (lo, hi) in limits.items())]
    q = p.pick(where)
    values = np.arange(len(p.xyz)) * 10.0 + 7
    m = s.with_data(values)
    agree(w, s.cropped(**limits), q, 'cropped')
    for r in (m.cropped(**limits), m.spatial_map.cropped(**limits)):
        agree(w, r, q, 'cropped', boundaries=type(r) is StructureMap)
        w.check(np.array_equal(r.data, values[where]), 'data', lambda: f'{r.data} instead of {values[where]}')
    area = Area(lambda x, y, z: np.all([(lo <= {'x': x, 'y': y, 'z': z}[c]) & ({'x': x, 'y': y, 'z': z}[c] < hi) for c, (lo, hi) in limits.items()] or [np.ones(len(x), bool)], axis=0))
    for r in (s[area], m[area], m.spatial_map[area]):
        agree(w, r, q, 'shape', boundaries=type(r) is not SpatialMap)


def data_case(w, i):
    p, s = Plain(i), make(i)
    n = len(p.xyz)
    values = np.arange(n) * 2.0 - 3
    m = s.with_data(values)
    for r, kind in ((m, StructureMap), (m.spatial_map, SpatialMap)):
        other = r.with_data(values * 5)
        w.check(type(other) is kind and np.array_equal(other.data, values * 5) and np.array_equal(r.data, values), 'data', 'with_data')
        agree(w, other, p, 'with_data', boundaries=kind is StructureMap)
        for lo, hi in ((-1, 2), (0, 0), (-10, 10), (-2.5, 0.5)):
            c = r.clipped(lo, hi)
            w.check(np.array_equal(c.data, np.minimum(np.maximum(values, lo), hi)) and np.array_equal(r.data, values), 'data', 'clipped')
            agree(w, c, p, 'clipped', boundaries=kind is StructureMap)
    for size in (0, n - 1, n + 1, 2 * n + 1):
        if size not in (n, s.hamiltonian_size):
            w.raises(RuntimeError, lambda: s.with_data(np.zeros(size)), 'refused', f'{size} values for {n} sites')
            w.raises(RuntimeError, lambda: SpatialMap(np.zeros(size), s.positions, s.sub), 'refused', f'{size} values for {n} sites')
    w.check(np.array_equal(np.stack([s.expanded_positions.x, s.expanded_positions.y, s.expanded_positions.z], axis=1),
                           np.repeat(p.xyz, [f[2] for f in ZOO[i][2] for _ in range(f[1])], axis=0)), 'expanded', 'positions')
    neighbors = [(p.hop[k] >= 0).sum() + (p.hop[:, k] >= 0).sum() for k in range(n)]
    w.check(np.array_equal(s.count_neighbors(), neighbors), 'neighbors', lambda: f'{s.count_neighbors()}')
    for t in (s, s[:], m):
        name = os.path.join(tempfile.mkdtemp(prefix='c23-'), 'file')
        try:
            save(t, name)
            u = load(name)
            w.check(type(u) is type(t), 'stored', lambda: f'{type(u)}')
            agree(w, u, p, 'stored')
            u = pickle.loads(pickle.dumps(t))
            agree(w, u, p, 'pickled')
        finally:
            shutil.rmtree(os.path.dirname(name))


def nearest_case(w, i, target, family):
    p, s = Plain(i), make(i)
    t = np.zeros(3)
    t[:len(target)] = target
    k = len(target)
    d = np.linalg.norm((p.xyz - t)[:, :k], axis=1)
    for sites in (s._sites, Sites(s.positions, s.sub)):
        w.check(np.allclose(sites.distances(target), d, atol=1e-6), 'distances', lambda: f'{sites.distances(target)} instead of {d}')
        allowed = np.arange(len(d)) if family is None else np.flatnonzero(p.ids == SITE_NAMES[family])
        if not len(allowed):
            continue
        best = sites.find_nearest(target) if family is None else sites.find_nearest(target, family)
        w.check(best in allowed and abs(d[best] - d[allowed].min()) < 1e-6, 'nearest', lambda: f'site {best} of the distances {d}, allowed {allowed}')
        order = sites.argsort_nearest(target) if family is None else sites.argsort_nearest(target, family)
        w.check(sorted(order) == list(range(len(d))), 'order', lambda: f'{order} is not a permutation')
        head = list(order[:len(allowed)])
        w.check(sorted(head) == sorted(allowed) and np.all(np.diff(d[head]) > -1e-6), 'order', lambda: f'{order} for the distances {d}, allowed {allowed}')
    if k == 3:
        r = s[:].find_nearest(target) if family is None else s[:].find_nearest(target, family)
        if len(allowed):
            w.check(abs(d[r] - d[allowed].min()) < 1e-6 and r in allowed, 'nearest', 'Structure')


# ------------------------------------------------------------------------------------------------ orbitals
def orbitals_case(w, families):
    n = sum(f[0] for f in families)
    s = System(cpp.System([(k, 0, 0) for k in range(n)], [(k, c, o) for k, (c, o) in enumerate(families)]))
    size = sum(c * o for c, o in families)
    data = 2.0 ** np.arange(size)
    want, h = [], 0
    for c, o in families:
        for _ in range(c):
            want.append(data[h:h + o].sum())
            h += o
    w.check(s.hamiltonian_size == size, 'orbitals', 'size')
    for values, expected in ((data, want), (data * 1j, np.array(want) * 1j), (list(data), want)):
        got = s.reduce_orbitals(values)
        w.check(np.array_equal(got, expected), 'orbitals', lambda: f'{got} instead of {expected}')
        w.check(np.array_equal(s.with_data(values).data, expected), 'orbitals', 'with_data')
    per_site = np.arange(n) + 0.5
    w.check(np.array_equal(s.reduce_orbitals(per_site), per_site), 'orbitals', 'values per site')
    for bad in (size + 1, max(0, size - 1), n + 1):
        if bad not in (n, size):
            w.raises(RuntimeError, lambda: s.reduce_orbitals(np.zeros(bad)), 'orbitals', f'{bad} values')
    if size != n:
        w.raises(RuntimeError, lambda: s.reduce_orbitals(np.zeros((size, 1))), 'orbitals', 'two-dimensional')
    seen = []
    for k in range(n):
        seen += list(np.atleast_1d(s.to_hamiltonian_indices(k)))
    w.check(seen == list(range(size)), 'orbitals', lambda: f'indices {seen}')


# ------------------------------------------------------------------------------------------------ names
def alias_case(w, shape, values, mapping):
    a = AliasArray(np.array(values).reshape(shape), mapping)
    forms = {'itself': a, 'pickled': pickle.loads(pickle.dumps(a)), 'copy': a.copy()}
    if a.ndim == 1:
        forms['reversed'] = a[::-1]
        forms['mask'] = a[np.ones(len(a), bool)]
    if a.ndim:
        forms['transposed'] = a.T
    for text, b in forms.items():
        w.check(same_names(b, np.asarray(b), mapping), 'names', lambda: f'{text}: {values} with {mapping}')
    w.check(np.array_equal(np.asarray(a), np.array(values).reshape(shape)), 'names', 'values')


def split_case(w, a, b):
    x, y = SplitName(a), b
    equal = a == b or a.split('|')[0] == b
    w.check((x == y) == equal and (x != y) == (not equal), 'split name', lambda: f'{a!r} == {b!r}')
    w.check(str(x) == a and x.first == a.split('|')[0], 'split name', lambda: f'{a!r}')
    w.check({x: 1}.get(SplitName(a)) == 1, 'split name', 'not found in a dictionary')


# ------------------------------------------------------------------------------------------------ sets with tolerance
def fuzzy_case(w, left, right, more):
    """Values are far apart or nearer than a tenth of the tolerance"""
    def value(v):
        k, e = v
        return np.array([k * 1.0, -k, 2.0]) + e * 1e-6

    def model(*lists):
        out = []
        for v in itertools.chain(*lists):
            if v[0] not in [o[0] for o in out]:
                out.append(v)
        return out
    a, b = FuzzySet([value(v) for v in left]), FuzzySet([value(v) for v in right])

    def same(s, m):
        return len(s) == len(m) and all(np.array_equal(x, value(v)) for x, v in zip(s, m)) and all(np.array_equal(s[k], value(v)) for k, v in enumerate(m))
    w.check(same(a, model(left)) and same(b, model(right)), 'fuzzy set', 'construction')
    c = a + b
    w.check(same(c, model(left, right)), 'fuzzy set', lambda: f'sum {list(c)}')
    w.check(same(a, model(left)) and same(b, model(right)), 'fuzzy set', lambda: f'the operands of a sum changed: {list(a)} {list(b)}')
    for v in more:
        c.add(value(v))
    w.check(same(c, model(left, right, more)), 'fuzzy set', 'add')
    w.check(same(a, model(left)) and same(b, model(right)), 'fuzzy set', 'an operand changed with the sum')
    d = sum([a, b], FuzzySet())
    e = sum([a, b])
    w.check(same(d, model(left, right)) and same(e, model(left, right)) and same(a, model(left)), 'fuzzy set', 'sum()')
    e.add(value((77, 0)))
    w.check(same(a, model(left)), 'fuzzy set', 'an operand changed with the sum()')
    a += b
    w.check(same(a, model(left, right)) and same(b, model(right)), 'fuzzy set', '+=')
    for k in range(4):
        for t in (-1, 0, 1):
            w.check((value((k, t)) in a) == (k in [v[0] for v in left + right]), 'fuzzy set', 'in')


def shift_case(w, vectors, level):
    """The periodic images at a distance of exactly `level` translations"""
    boundaries = [Boundary(np.array(v, float), None) for v in vectors]
    steps = [tuple(v) for v in vectors] + [tuple(-c for c in v) for v in vectors]
    reached, front = {(0, 0, 0)}, {(0, 0, 0)}
    layers = [front]
    for _ in range(level):
        front = {tuple(a + b for a, b in zip(p, s)) for p in front for s in steps} - reached
        reached |= front
        layers.append(front)
    got = [tuple(np.round(s).astype(int)) for s in _make_shift_set(boundaries, level)]
    w.check(len(got) == len(set(got)) and set(got) == layers[level], 'periodic images', lambda: f'{sorted(got)} instead of {sorted(layers[level])}')


# ------------------------------------------------------------------------------------------------ storage
@pickleable(props='size tag', version=3)
class WithProps:
    def __init__(self, size, tag, note):
        self._box = [size, tag]
        self.note = note

    size = property(lambda self: self._box[0], lambda self, v: self._box.__setitem__(0, v))
    tag = property(lambda self: self._box[1], lambda self, v: self._box.__setitem__(1, v))


@pickleable
class Without:
    def __init__(self, note):
        self.note = note


def storage_case(w, name, form, exists):
    import pathlib
    directory = tempfile.mkdtemp(prefix='c23-')
    try:
        if exists:
            open(os.path.join(directory, 'other.pbz'), 'w').close()
        full = os.path.join(directory, name)
        target = {'str': full, 'path': pathlib.Path(full)}.get(form)
        data = dict(a=np.arange(3), b='text', c=AliasArray([0, 1], {'A': 0, 'B|x': 1}))
        if form == 'file':
            with open(full, 'wb') as f:
                save(data, f)
            with open(full, 'rb') as f:
                got = load(f)
            files = [name]
        else:
            save(data, target)
            got = load(target)
            files = [name if '.' in name else name + '.pbz']
        w.check(np.array_equal(got['a'], data['a']) and got['b'] == 'text' and same_names(got['c'], [0, 1], {'A': 0, 'B|x': 1}), 'stored', lambda: f'{got}')
        w.check(sorted(os.listdir(directory)) == sorted(files + ['other.pbz'] * exists), 'stored', lambda: f'{os.listdir(directory)}')
    finally:
        shutil.rmtree(directory)


def props_case(w, size, tag):
    a = WithProps(size, tag, [1, 2])
    b = pickle.loads(pickle.dumps(a))
    w.check((b.size, b.tag, b.note) == (size, tag, [1, 2]), 'stored', lambda: f'{b.__dict__}')
    # the values of the properties are what counts
    state = a.__getstate__()
    state['props'] = dict(size=size + 1, tag=tag, unknown=5)
    c = WithProps.__new__(WithProps)
    c.__setstate__(state)
    w.check((c.size, c.tag) == (size + 1, tag) and not hasattr(c, 'unknown'), 'stored', lambda: f'{c.__dict__}')
    state = a.__getstate__()
    state['version'] = 4
    w.raises(RuntimeError, lambda: WithProps.__new__(WithProps).__setstate__(state), 'stored', 'another version')
    d = Without.__new__(Without)
    d.__setstate__({'note': tag})
    w.check(d.note == tag, 'stored', 'data without version')


def body(w):
    thorough = w.thorough
    for i in range(len(ZOO)):
        n = len(ZOO[i][1])
        masks = list(selections(n, 1))
        for text, index, where in selections(n, 0):
            w.distinct((i, text))
            w.case(f'{ZOO[i][0]}: {text}', slice_case, i, index, where, None, None)
            w.case(f'{ZOO[i][0]}: {text}, parts', single_parts, i, index, where)
        for text, index, where in masks if n < 6 or thorough else masks[::5]:
            for text2, index2, where2 in selections(len(where), 1):
                w.distinct((i, text, text2))
                w.case(f'{ZOO[i][0]}: {text} then {text2}', slice_case, i, index, where, index2, where2)
        for text, index, where in masks[::7 if n > 4 else 1]:
            if len(where) > 4:
                continue
            for text2, index2, where2 in selections(len(where), 0) if where else ():
                w.distinct((i, text, text2, 'any'))
                w.case(f'{ZOO[i][0]}: {text} then {text2}', slice_case, i, index, where, index2, where2)
        axes = []
        for c in range(3):
            vs = sorted({float(r[c]) for r in np.array(ZOO[i][1], float)})
            ends = sorted(set(vs + [vs[0] - 1, vs[-1] + 1]))
            axes.append([None] + [(a, b) for a in ends for b in ends if a < b])
        for combo in itertools.product(*axes):
            limits = {c: v for c, v in zip('xyz', combo) if v is not None}
            w.distinct((i, str(limits)))
            w.case(f'{ZOO[i][0]}: cropped to {limits}', crop_case, i, limits)
        w.case(f'{ZOO[i][0]}: data', data_case, i)
        targets = [(a, b, c) for a in (-2.1, -0.2, 0.45, 1.3, 2.9) for b in (-0.6, 0.3, 1.6) for c in (-1.2, 0.1, 0.9)]
        targets += [t[:2] for t in targets[::3]] + [t[:1] for t in targets[::9]]
        for t in targets:
            for family in [None] + list(SITE_NAMES):
                w.distinct((i, t, family))
                w.case(f'{ZOO[i][0]}: nearest to {t} of {family}', nearest_case, i, t, family)
    options = [(c, o) for c in (1, 2, 3) for o in (1, 2, 3, 5)]
    for length in (1, 2, 3):
        for families in itertools.product(options if length < 3 or thorough else options[1::2], repeat=length):
            w.distinct(families)
            w.case(f'sites and orbitals per family {families}', orbitals_case, families)
    maps = [{'A': 0, 'B': 1, 'C': 2}, {'A|1': 0, 'B': 1, 'A|2': 2}, {'A|1': 0, 'A|2': 1, 'A|3': 2}, {'B|': 0, '|A': 1}, {'A': 2}]
    for m in maps:
        for length in range(0, 5):
            for values in itertools.product(range(3), repeat=length):
                w.distinct((str(m), values))
                w.case(f'names {m} of {values}', alias_case, (length,), values, m)
                if length == 4:
                    w.case(f'names {m} of {values}, 2 x 2', alias_case, (2, 2), values, m)
                if length == 2:
                    w.case(f'names {m} of {values}, 1 x 2', alias_case, (1, 2), values, m)
                if length == 1:
                    w.case(f'names {m} of {values}, a single one', alias_case, (), values, m)
    words = ['A', 'B', 'A|', '|A', 'A|B', 'A|C', 'B|A', 'A|B|C', 'AB', 'AB|C']
    for a in words:
        for b in words:
            w.distinct(('split', a, b))
            w.case(f'split name {a!r} and {b!r}', split_case, a, b)
    letters = [(k, e) for k in range(3) for e in (0, 1)]
    lists = [c for n in range(3) for c in itertools.product(letters, repeat=n)]
    for left in lists:
        for right in lists:
            for more in ([], [(0, 1), (3, 0)]):
                w.distinct(('fuzzy', left, right, bool(more)))
                w.case(f'sets {left} and {right}, then {more}', fuzzy_case, list(left), list(right), more)
    for vectors in ([(3, 0, 0)], [(2, 0, 0), (0, 3, 0)], [(2, 0, 0), (0, 3, 0), (2, 3, 0), (2, -3, 0)], [(2, 0, 0), (1, 2, 0), (3, 2, 0)],
                    [(2, 0, 0), (0, 2, 0), (0, 0, 2)], [(2, 0, 0), (-1, 2, 0), (0, 1, 3)], [(4, 1, 0), (1, 4, 0)]):
        for level in range(0, 4 if len(vectors) < 4 or thorough else 3):
            w.distinct(('shift', str(vectors), level))
            w.case(f'periodic images, translations {vectors}, level {level}', shift_case, vectors, level)
    for name in ('plain', 'with.ext', 'with.pbz', 'two.dots.x'):
        for form in ('str', 'path', 'file'):
            for exists in (0, 1):
                w.distinct(('file', name, form, exists))
                w.case(f'stored as {name} ({form}), other file {exists}', storage_case, name, form, exists)
    for size in (0, 1, 5):
        for tag in ('', 'x', 'size'):
            w.distinct(('props', size, tag))
            w.case(f'stored properties {size} {tag!r}', props_case, size, tag)


sys.exit(pbpy.run('C23', body, rule='one case per (system, selection[, second selection]), per set of limits, per list of orbital counts, per array of named values, per pair of sets '
    'with tolerance and per stored form; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['the compiled extension module is replaced by a stand-in (pybind11 is not installed): the systems are given, not built']))
