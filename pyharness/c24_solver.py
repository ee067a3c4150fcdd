"""C24: what the Python solvers, leads and converters report follows from the Hamiltonian of the current model."""
import itertools, math, sys
import pbpy
import numpy as np
import scipy.sparse as sp
import _pybinding as cpp
import pybinding as pb
from pybinding.chebyshev import SpatialLDOS, _kpm_python
from pybinding.leads import Lead
from pybinding.solver import Solver, _SolverPythonImpl
from pybinding.support.kwant import tokwant

ENERGIES = np.linspace(-7, 7, 57)

# (families: alias id, sites, orbitals; kind of the matrix)
SYSTEMS = [
    ([(0, 1, 1)], 'real'), ([(0, 2, 1)], 'real'), ([(0, 4, 1)], 'ring'), ([(0, 3, 1), (1, 3, 1)], 'ring'), ([(0, 5, 1)], 'dense'),
    ([(1, 2, 1), (0, 2, 2)], 'dense'), ([(1, 1, 1), (0, 1, 3)], 'complex'), ([(0, 2, 2)], 'copies'), ([(2, 1, 1), (0, 2, 2), (1, 1, 3)], 'complex'),
    ([(0, 3, 2)], 'zero'), ([(1, 3, 1), (0, 1, 2)], 'diagonal'), ([(0, 6, 1)], 'complex'), ([(1, 2, 2), (0, 1, 3)], 'copies'),
]
NAMES = {'A': 0, 'B': 1, 'C': 2}


def positions(n):
    return np.array([(0.5 * i, (i * i) % 5 - 1.0, 0.25 * (i % 3)) for i in range(n)])


def matrix(kind, size, k, variant):
    """Hermitian for every wave vector, the same when asked again"""
    i, j = np.meshgrid(np.arange(size), np.arange(size), indexing='ij')
    if kind == 'zero':
        h = np.zeros((size, size))
    elif kind == 'diagonal':
        h = np.diag((np.arange(size) * 7 % 5 - 2.0))
    elif kind == 'ring':
        h = np.zeros((size, size))
        for a in range(size):
            h[a, (a + 1) % size] = h[(a + 1) % size, a] = -2.0
    elif kind == 'copies':
        block = np.array([[1.0, -1.5], [-1.5, 0.5]])
        h = np.zeros((size, size))
        for a in range(0, size - 1, 2):
            h[a:a + 2, a:a + 2] = block
    else:
        h = np.sin(1.0 + 3 * i + 3 * j + i * j)
        if kind == 'complex':
            h = h + 1j * np.sin(i - j + 0.5 * (i - j)**3)
    h = h + variant * np.diag(np.cos(np.arange(size)))
    if np.any(k) and size > 1:
        h = h.astype(complex)
        h[0, size - 1] += np.exp(1j * k[0]) * (1 + k[1])
        h[size - 1, 0] += np.exp(-1j * k[0]) * (1 + k[1])
    return h


class Model(pb.Model):
    """The real Python class over the stand-in, with a given system and Hamiltonian"""
    def __init__(self, families, kind, variant=0):
        lattice = pb.Lattice([1, 0], [0, 1])
        lattice.add_sublattices(*[(n, [0, 0]) for n in NAMES])
        super().__init__(lattice)
        n = sum(f[1] for f in families)
        self.families = families
        self.system_impl = cpp.System(positions(n), families, site_names=NAMES)
        self.size = self.system_impl.hamiltonian_size
        self.dense = lambda k: matrix(kind, self.size, k, variant)
        self.asked = 0

        def make(k):
            self.asked += 1
            return sp.csr_matrix(self.dense(k))
        self.make_hamiltonian = make

    def now(self):
        return self.dense(self.wave_vectors[-1] if self.wave_vectors else np.zeros(3))

    def rows(self, site):
        return np.arange(self.size)[self.system_impl.start[site]:][:self.system_impl.norb[site]]

    def ids(self):
        return np.array([f[0] for f in self.families for _ in range(f[1])])


def groups(values, tol=1e-5):
    g = [[0]]
    for k in range(1, len(values)):
        if abs(values[k] - values[k - 1]) < tol:
            g[-1].append(k)
        else:
            g.append([k])
    return g


def gauss(x, s):
    return np.exp(-0.5 * (x / s)**2) / (s * math.sqrt(2 * math.pi))


def solvers(m, e):
    yield 'lapack', pb.solver.lapack(m)
    if m.size > 3 and np.diff(e).min() > 0.01:  # ARPACK itself is not reliable with degenerate states
        yield 'arpack', pb.solver.arpack(m, k=min(3, m.size - 2), sigma=0.137, v0=np.cos(np.arange(m.size)))


def solver_case(w, families, kind, variant, k):
    m = Model(families, kind, variant)
    if k is not None:
        m.set_wave_vector(k)
    h = m.now()
    e, v = np.linalg.eigh(h)
    norm = max(1, abs(e).max())
    for name, s in solvers(m, e):
        vals, vecs = s.eigenvalues, s.eigenvectors
        w.check(len(vals) == vecs.shape[1] and vecs.shape[0] == m.size and np.all(np.diff(vals) >= 0), 'eigenvalues', lambda: f'{name}: not ascending: {vals}')
        w.check(np.allclose(h @ vecs, vecs * vals, atol=1e-7 * norm), 'eigenvectors', lambda: f'{name}: not the eigenvectors of the eigenvalues {vals}')
        w.check(np.allclose(vecs.conj().T @ vecs, np.eye(len(vals)), atol=1e-7), 'eigenvectors', lambda: f'{name}: not orthonormal')
        if name == 'arpack':
            near = np.sort(e[np.argsort(abs(e - 0.137), kind='stable')[:len(vals)]])
            gap = np.sort(abs(e - 0.137))[len(vals) - 1:len(vals) + 1]
            if gap[1] - gap[0] > 1e-3:
                w.check(np.allclose(vals, near, atol=1e-7 * norm), 'eigenvalues', lambda: f'{name}: {vals} instead of {near}')
            continue
        w.check(np.allclose(vals, e, atol=1e-9 * norm), 'eigenvalues', lambda: f'{name}: {vals} instead of {e}')
        g = groups(e)
        # degenerate states: the projections on the whole groups are unique
        weight = np.zeros((m.size, m.size))
        for q in g:
            weight[:, q] = (abs(v[:, q])**2).sum(axis=1)[:, None] / len(q)
        sites = range(m.system_impl.num_sites)
        per_site = np.array([weight[m.rows(i)].sum(axis=0) for i in sites])
        r = s.calc_eigenvalues()
        w.check(np.allclose(r.values, e) and np.array_equal(r.indices, np.arange(m.size)), 'eigenvalues', 'calc_eigenvalues')
        for i in sites:
            for at in (list(positions(len(sites))[i]), positions(len(sites))[i] + 0.01):
                r = s.calc_eigenvalues(map_probability_at=at)
                w.check(np.allclose(r.values, e) and np.allclose(r.probability, per_site[i], atol=1e-8), 'probability',
                        lambda: f'at site {i}: {r.probability} instead of {per_site[i]}')
        for n in range(m.size):
            q = [x for x in g if n in x][0]
            r = s.calc_probability(n)
            want = per_site[:, n] * len(q)
            w.check(np.allclose(r.data, want, atol=1e-8) and r.num_sites == len(sites), 'probability', lambda: f'state {n}: {r.data} instead of {want}')
            for t in (dict(n=n, reduce=0), dict(n=[n]), dict(n=np.array([n]))):
                r = s.calc_probability(**t)
                want = [(abs(vecs[m.rows(i), n])**2).sum() for i in sites]
                w.check(np.allclose(r.data, want, atol=1e-8), 'probability', lambda: f'{t}: {r.data} instead of {want}')
            for n2 in range(n):
                r = s.calc_probability([n, n2])
                want = [(abs(vecs[np.ix_(m.rows(i), [n, n2])])**2).sum() for i in sites]
                w.check(np.allclose(r.data, want, atol=1e-8), 'probability', lambda: f'states {n}, {n2}')
        for s_ in (0.3, 1.0):
            dos = s.calc_dos(ENERGIES, s_)
            want = sum(gauss(ENERGIES - x, s_) for x in e)
            w.check(np.array_equal(dos.variable, ENERGIES) and np.allclose(dos.data, want, atol=1e-9), 'DOS', lambda: f'broadening {s_}')
            ldos_of = lambda i: sum(weight[i, q] * gauss(ENERGIES - e[q], s_) for q in range(m.size))
            for i in sites:
                p = positions(len(sites))[i]
                orbitals = np.array([ldos_of(row) for row in m.rows(i)]).T
                for sub in ('', 'ABC'[m.ids()[i]]):
                    r = s.calc_ldos(ENERGIES, s_, p + 0.005, sub)
                    w.check(r.data.shape == ENERGIES.shape and np.allclose(r.data, orbitals.sum(axis=1), atol=1e-8), 'LDOS', lambda: f'site {i}, sublattice {sub!r}')
                    r = s.calc_ldos(ENERGIES, s_, p + 0.005, sub, reduce=False)
                    w.check(np.allclose(r.data, orbitals.squeeze(), atol=1e-8) and r.data.shape == orbitals.squeeze().shape, 'LDOS', lambda: f'site {i}, by orbitals')
                    if orbitals.shape[1] > 1:
                        w.check(np.allclose(r.reduced().data, orbitals.sum(axis=1), atol=1e-8), 'LDOS', 'reduced')
            # the nearest site of a sublattice, wherever the position is
            for a in set(m.ids()):
                allowed = np.flatnonzero(m.ids() == a)
                p = np.array([0.8, 0.3, 0.1])
                d = np.linalg.norm(positions(len(sites)) - p, axis=1)
                i = allowed[np.argmin(d[allowed])]
                r = s.calc_ldos(ENERGIES, s_, p, 'ABC'[a])
                w.check(np.allclose(r.data, sum(ldos_of(row) for row in m.rows(i)), atol=1e-8), 'LDOS', lambda: f'nearest site of sublattice {a}')
            for x in (-1.3, 0.0, 2.2):
                r = s.calc_spatial_ldos(x, s_)
                want = [sum(weight[row, q] * gauss(x - e[q], s_) for row in m.rows(i) for q in range(m.size)) for i in sites]
                w.check(np.allclose(r.data, want, atol=1e-8), 'spatial LDOS', lambda: f'energy {x}: {r.data} instead of {want}')
    diagonal = np.real(np.diag(h))
    want = [diagonal[m.rows(i)].sum() for i in range(m.system_impl.num_sites)]
    w.check(np.allclose(m.onsite_map.data, want), 'onsite map', lambda: f'{m.onsite_map.data} instead of {want}')
    w.count('models')


def bands_case(w, families, kind, points, step, which):
    m = Model(families, kind)
    s = pb.solver.lapack(m) if which == 'lapack' else pb.solver.arpack(m, k=2, sigma=0.137, v0=np.cos(np.arange(m.size)))
    s.eigenvalues  # something old to be dropped
    b = s.calc_bands(*points, step=step)
    ks = [np.atleast_1d(np.array(p, float)) for p in points]
    w.check(np.allclose([b.k_path[i] for i in b.k_path.point_indices], ks), 'bands', lambda: f'the path {b.k_path} does not go through {ks}')
    w.check(b.energy.shape == (len(b.k_path), m.size if which == 'lapack' else 2) and b.num_bands == b.energy.shape[1], 'bands', 'shape')
    for q, e in zip(b.k_path, b.energy):
        k3 = np.zeros(3, np.float32)
        k3[:len(q)] = q
        want = np.linalg.eigvalsh(m.dense(k3))
        if which == 'lapack':
            w.check(np.allclose(e, want, atol=1e-6), 'bands', lambda: f'at {q}: {e} instead of {want}')
        else:
            w.check(all(abs(want - x).min() < 1e-5 for x in e), 'bands', lambda: f'at {q}: {e} instead of {want}')


OPS = ['values', 'vectors', 'solve', 'clear', 'other model', 'k1', 'k2', 'dos', 'report']


def sequence_case(w, ops):
    """Whatever happened before, the results are those of the current model and wave vector"""
    families, kind = SYSTEMS[8]
    models = [Model(families, kind), Model(families, 'dense', 1)]
    calls = [0]

    def solve(h, **kw):
        calls[0] += 1
        e, v = np.linalg.eigh(h.toarray())
        order = np.argsort(np.sin(np.arange(len(e)) * 2.0))  # in no order
        return e[order], v[:, order]
    s = Solver(_SolverPythonImpl(solve, models[0]))
    current, fresh, expected = 0, False, 0
    for n, op in enumerate(ops):
        m = models[current]
        if op == 'clear':
            s.clear()
            fresh = False
        elif op == 'other model':
            current = 1 - current
            s.model = models[current]
            fresh = False
        elif op in ('k1', 'k2'):
            s.set_wave_vector([0.7, 0.2] if op == 'k1' else [-1.1])
            fresh = False
        elif op == 'report':
            s.report()
            s.report(True)
        else:
            if not fresh:
                expected += 1
            fresh = True
            h = m.now()
            e = np.linalg.eigvalsh(h)
            if op == 'values':
                w.check(np.allclose(s.eigenvalues, e, atol=1e-9), 'stale', lambda: f'step {n}: {s.eigenvalues} instead of {e}')
            elif op == 'vectors':
                v = s.eigenvectors
                w.check(np.allclose(h @ v, v * e, atol=1e-9), 'stale', lambda: f'step {n}: eigenvectors of something else')
            elif op == 'dos':
                w.check(np.allclose(s.calc_dos(ENERGIES, 0.5).data, sum(gauss(ENERGIES - x, 0.5) for x in e)), 'stale', lambda: f'step {n}: DOS of something else')
            else:
                s.solve()
            w.check(calls[0] == expected, 'repeated', lambda: f'step {n}: solved {calls[0]} times instead of {expected}')
        w.check(s.model is models[current], 'model', f'step {n}')
        w.count('operations')


def degenerate_case(w, gaps, tol):
    e = np.concatenate([[-1.0], -1.0 + np.cumsum(gaps)])
    want = [g for g in groups(e, tol or 1e-5) if len(g) > 1]
    got = Solver.find_degenerate_states(e, abs_tolerance=tol) if tol else Solver.find_degenerate_states(e)
    w.check([[int(i) for i in g] for g in got] == want, 'degenerate', lambda: f'{got} instead of {want} for {e}')


def lead_case(w, n, kind, start, end, step):
    h0 = matrix(kind, n, np.zeros(3), 0.3)
    i, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
    h1 = np.cos(2.0 * i + 0.7 * j) + (1j * np.sin(i + 2 * j) if kind == 'complex' else 0)
    lead = Lead(cpp.Lead(sp.csr_matrix(h0), sp.csr_matrix(h1)), 0, None)
    for b in ([lead.calc_bands(start, end, step)] + ([lead.calc_bands()] if step == 0.05 else [])):
        w.check(b.energy.shape == (len(b.k_path), n), 'lead bands', 'shape')
        if b is not None:
            ends = np.asarray(b.k_path).flatten()[[0, -1]]
        for k, e in zip(np.asarray(b.k_path).flatten(), b.energy):
            want = np.linalg.eigvalsh(h0 + h1 * np.exp(1j * k) + h1.conj().T * np.exp(-1j * k))
            w.check(np.allclose(e, want, atol=1e-9), 'lead bands', lambda: f'at k = {k}: {e} instead of {want}')
    b = lead.calc_bands(start, end, step)
    w.check(np.allclose(np.asarray(b.k_path).flatten()[[0, -1]], [start, end]), 'lead bands', lambda: f'the path goes from {b.k_path[0]} to {b.k_path[-1]}')


def kwant_case(w, families, kind):
    m = Model(families, kind)
    h0, h1 = sp.csr_matrix(matrix('dense', 2, np.zeros(3), 0)), sp.csr_matrix(matrix('complex', 2, np.zeros(3), 1))
    m.lead_list = [cpp.Lead(h0, h1, [0]), cpp.Lead(h1, h0, [1, 0])]
    k = tokwant(m)
    n = m.system_impl.num_sites
    h = m.now()
    w.check(np.array_equal(np.asarray(k.hamiltonian_submatrix()), h), 'kwant', 'matrix')
    w.check(np.array_equal(k.hamiltonian_submatrix(sparse=True).toarray(), h), 'kwant', 'sparse matrix')
    for sparse in (False, True):
        _, a, b = k.hamiltonian_submatrix(sparse=sparse, return_norb=True)
        want = m.system_impl.norb
        w.check(list(a) == want and list(b) == want and sum(want) == m.size, 'kwant', lambda: f'orbitals {a}, {b} instead of {want}')
    w.check(k.graph.num_nodes == n, 'kwant', 'number of nodes')
    for i in range(n):
        w.check(np.allclose(k.pos(i), positions(n)[i][:2]), 'kwant', 'positions')
    for i in range(m.size):
        for j in range(m.size):
            w.check(k.hamiltonian(i, j) == h[i, j], 'kwant', 'element')
    for lead, (a, b), idx in zip(k.leads, ((h0, h1), (h1, h0)), ([0], [1, 0])):
        w.check(np.array_equal(np.asarray(lead.cell_hamiltonian()), a.toarray()) and np.array_equal(lead.cell_hamiltonian(sparse=True).toarray(), a.toarray()), 'kwant', 'cell')
        w.check(np.array_equal(np.asarray(lead.inter_cell_hopping()), b.toarray()) and np.array_equal(lead.inter_cell_hopping(sparse=True).toarray(), b.toarray()), 'kwant', 'hopping')
        w.check(lead.hamiltonian(0, 1) == a[0, 1], 'kwant', 'lead element')
    w.check([list(i) for i in k.lead_interfaces] == [[0], [1, 0]], 'kwant', 'interfaces')


def kpm_case(w, families, kind, kernel, broadening, bounds):
    """The KPM in Python against the expansion written down with the exact eigenstates"""
    m = Model(families, kind)
    h = m.now()
    e, v = np.linalg.eigh(h)
    lo, hi = bounds
    k = _kpm_python(m, energy_range=(lo, hi), kernel=kernel)
    a, b = 0.5 * (hi - lo) * 1.01, 0.5 * (hi + lo)
    count = kernel.required_num_moments(broadening / a)
    damping = kernel.damping_coefficients(count)
    x = np.linspace(lo, hi, 23)
    t = (e - b) / a
    ns = np.arange(count)
    orders = np.where(ns == 0, 0.5, 1) * damping
    cos_x = np.cos(np.outer(np.arccos((x - b) / a), ns))
    cos_e = np.cos(np.outer(np.arccos(np.clip(t, -1, 1)), ns))
    for i in range(m.system_impl.num_sites):
        want = np.array([(2 / (a * np.pi) / np.sqrt(1 - ((x - b) / a)**2)) * (cos_x @ (orders * (abs(v[row])**2 @ cos_e))) for row in m.rows(i)]).T
        p = positions(m.system_impl.num_sites)[i]
        r = k.calc_ldos(x, broadening, p, 'ABC'[m.ids()[i]])
        w.check(np.allclose(r.data, want.sum(axis=1), atol=1e-7), 'KPM', lambda: f'site {i}: {r.data} instead of {want.sum(axis=1)}')
        r = k.calc_ldos(x, broadening, p, reduce=False)
        w.check(np.allclose(r.data, want.squeeze(), atol=1e-7), 'KPM', lambda: f'site {i}, by orbitals')


class FakeKPM:
    """Records what the Python interface asks for"""
    def __init__(self, m, data):
        self.model, self.system, self.data, self.calls = m, m.system_impl, data, []

    def calc_spatial_ldos(self, *a):
        self.calls.append(a)
        return self.data

    def calc_conductivity(self, *a):
        self.calls.append(a)
        return self.data.copy()

    def calc_ldos(self, *a):
        self.calls.append(a)
        return self.data

    calc_dos = calc_greens = deferred_ldos = calc_ldos

    def moments(self, n, alpha, beta, op):
        self.calls.append((n, alpha, beta, op))
        return self.data


def spatial_kpm_case(w, families, mask, sub):
    m = Model(families, 'dense')
    n = m.system_impl.num_sites

    class Area:
        def contains(self, x, y, z):
            return np.array(mask, bool)
    where = [i for i in range(n) if mask[i] and (not sub or m.ids()[i] == NAMES[sub])]
    energy = np.array([-1.0, 0.5, 2.0])
    data = np.arange(3 * len(where)).reshape(3, len(where)) + 0.5
    k = pb.chebyshev.KPM(FakeKPM(m, data))
    area = Area()
    r = k.calc_spatial_ldos(energy, 0.2, area, sub)
    w.check(k.impl.calls[0][2] is area and k.impl.calls[0][3] == sub and k.impl.calls[0][1] == 0.2, 'spatial KPM', 'the question')
    w.check(np.allclose(r.structure.xyz, positions(n)[where]), 'spatial KPM', lambda: f'{r.structure.xyz} instead of {positions(n)[where]}')
    for x, row in ((-3, 0), (-1, 0), (-0.3, 0), (-0.2, 1), (0.6, 1), (1.3, 2), (9, 2)):
        t = r.structure_map(x)
        w.check(np.array_equal(t.data, data[row]) and np.allclose(t.xyz, positions(n)[where]), 'spatial KPM', lambda: f'at {x}')
    for c, i in enumerate(where):
        t = r.ldos(positions(n)[i])
        w.check(np.array_equal(t.data, data[:, c]) and np.array_equal(t.variable, energy), 'spatial KPM', lambda: f'LDOS of site {i}')
        name = 'ABC'[m.ids()[i]]
        t = r.ldos(positions(n)[i], name)
        w.check(np.array_equal(t.data, data[:, c]), 'spatial KPM', lambda: f'LDOS of site {i} of {name}')


def kpm_interface(w):
    m = Model(*SYSTEMS[4])
    data = np.array([1.0, 2.0, 4.0])
    for volume in (1.0, 2.0, 0.5):
        k = pb.chebyshev.KPM(FakeKPM(m, data))
        mu = np.array([0.0, 1, 2])
        for direction in ('xx', 'xy'):
            r = k.calc_conductivity(mu, 0.1, 300, direction, volume, num_random=3, num_points=70)
            w.check(np.allclose(r.data, data / volume) and np.array_equal(r.variable, mu), 'conductivity', lambda: f'volume {volume}: {r.data}')
            w.check(k.impl.calls[-1][1:] == (0.1, 300, direction, 3, 70), 'conductivity', lambda: f'{k.impl.calls[-1]}')
    k = pb.chebyshev.KPM(FakeKPM(m, data))
    r = k.calc_dos(data, 0.3, 7)
    w.check(np.array_equal(r.data, data) and k.impl.calls[-1][1:] == (0.3, 7), 'KPM', 'calc_dos')
    r = k.calc_ldos(data, 0.3, [1, 2], 'B', False)
    w.check(k.impl.calls[-1][1:] == (0.3, [1, 2], 'B', False), 'KPM', 'calc_ldos')
    k.calc_greens(3, 4, data, 0.2)
    w.check(k.impl.calls[-1][:2] == (3, 4) and k.impl.calls[-1][3] == 0.2, 'KPM', 'calc_greens')
    k.deferred_ldos(data, 0.2, [0], 'A')
    w.check(k.impl.calls[-1][1:] == (0.2, [0], 'A'), 'KPM', 'deferred_ldos')
    op = sp.coo_matrix(np.diag([1.0, 2, 3]))
    k.moments(6, data, op=op)
    c = k.impl.calls[-1]
    w.check(c[0] == 6 and c[1] is data and len(c[2]) == 0 and np.array_equal(c[3].toarray(), op.toarray()), 'KPM', 'moments')
    k.moments(6, data, beta=data * 2)
    c = k.impl.calls[-1]
    w.check(np.array_equal(c[2], data * 2) and c[3].nnz == 0, 'KPM', 'moments')


def add_case(w, tree, flat, bad):
    """Everything in nested lists arrives, in order, once"""
    m = Model(*SYSTEMS[0])
    m.added.clear()
    if bad:
        w.raises((TypeError, RuntimeError), lambda: m.add(*tree), 'add', f'{tree}')
        return
    m.add(*tree)
    w.check(len(m.added) == len(flat) and all(a is b for a, b in zip(m.added, flat)), 'add', lambda: f'{m.added} instead of {flat}')
    shapes = [f for f in flat if isinstance(f, cpp.Shape)]
    w.check(m.shape is (shapes[-1] if shapes else None), 'add', 'shape')


def body(w):
    thorough = w.thorough
    ks = [None, [0.4], [1.0, 0.5], [-2.0, 0.25, 1.0]]
    for i, (families, kind) in enumerate(SYSTEMS):
        for variant in (0, 0.5, 1e-3):
            for k in ks:
                w.distinct(('solver', i, variant, str(k)))
                w.case(f'solver of {kind} {families}, variant {variant}, k {k}', solver_case, families, kind, variant, k)
        for points in ([0, 3], [0.5, -1, 2], [[0, 0], [1, 2]], [[0.3, 0.1], [1, 1], [-0.5, 0]], [[0, 0, 0], [0.02, 0.01, 0], [1, 0, 1], [1, 0, 1]]):
            for step in (0.1, 0.5, 2):
                for which in ('lapack', 'arpack') if kind in ('dense', 'complex') and sum(f[1] * f[2] for f in families) > 3 and step > 0.2 else ('lapack',):
                    w.distinct(('bands', i, str(points), step, which))
                    w.case(f'bands of {kind} {families} along {points}, step {step}, {which}', bands_case, families, kind, points, step, which)
        w.distinct(('kwant', i))
        if sum(f[1] for f in families) > 1:
            w.case(f'kwant: {kind} {families}', kwant_case, families, kind)
        for kn, kernel in (('jackson', pb.chebyshev.jackson_kernel()), ('lorentz', pb.chebyshev.lorentz_kernel()), ('dirichlet', pb.chebyshev.dirichlet_kernel())):
            for broadening in (0.3, 1):
                for bounds in ((-6, 6), (-7, 9)):
                    w.distinct(('kpm', i, kn, broadening, bounds))
                    w.case(f'KPM in Python: {kind} {families}, {kn}, broadening {broadening}, bounds {bounds}', kpm_case, families, kind, kernel, broadening, bounds)
        n = sum(f[1] for f in families)
        for mask in itertools.product((0, 1), repeat=n) if n <= 4 or thorough else itertools.islice(itertools.product((0, 1), repeat=n), 0, None, 3):
            for sub in ['', 'A', 'B']:
                if all(f[2] == 1 for f in families) and (not sub or NAMES[sub] in [f[0] for f in families]) and any(
                        mask[q] and (not sub or a == NAMES[sub]) for q, a in enumerate([f[0] for f in families for _ in range(f[1])])):
                    w.distinct(('spatial', i, mask, sub))
                    w.case(f'spatial LDOS of {families}, area {mask}, sublattice {sub!r}', spatial_kpm_case, families, mask, sub)
    for length in range(1, 6 if not thorough else 7):
        for ops in itertools.product(OPS, repeat=length):
            if length > 3 and (ops[-1] not in ('values', 'vectors', 'dos') or 'report' in ops or (not thorough and length > 4 and 'solve' in ops)):
                continue
            w.distinct(ops)
            w.case(f'operations {ops}', sequence_case, ops)
    for length in range(0, 7):
        for gaps in itertools.product((0, 4e-6, 3e-5, 0.5), repeat=length):
            if length == 6 and not thorough and 3e-5 in gaps:
                continue
            for tol in (None, 1e-6, 1e-4):
                w.distinct(('gaps', gaps, tol))
                w.case(f'states with the gaps {gaps}, tolerance {tol}', degenerate_case, gaps, tol)
    for n in (1, 2, 3):
        for kind in ('dense', 'complex', 'ring') if n > 2 else ('dense', 'complex'):
            for start, end in ((-math.pi, math.pi), (0, 1), (2, -1), (0.5, 0.52)):
                for step in (0.05, 0.3, 1.1):
                    w.distinct(('lead', n, kind, start, step))
                    w.case(f'lead of {n} {kind}, from {start:.2f} to {end:.2f}, step {step}', lead_case, n, kind, start, end, step)
    w.case('the interface of the KPM', kpm_interface)
    parts = [pb.rectangle(1), pb.primitive(2, 3), pb.onsite_energy_modifier(lambda energy: energy), pb.circle(2)]
    trees = [([p], [p]) for p in parts] + [([], []), ([[]], []), ([()], [])]
    for a, b in itertools.product(parts, repeat=2):
        trees += [([a, b], [a, b]), ([[a], b], [a, b]), ([a, (b,)], [a, b]), ([[a, [b]]], [a, b]), ([[[a]], [b, []]], [a, b])]
        for c in parts:
            trees += [([a, [b, c]], [a, b, c]), ([[a, b], c], [a, b, c]), ([[a, [b, [c]]]], [a, b, c])]
    def show(t):
        return '[' + ', '.join(show(x) for x in t) + ']' if isinstance(t, (list, tuple)) else type(t).__name__
    for q, (tree, flat) in enumerate(trees):
        w.distinct(('add', q))
        w.case(f'add {show(tree)}', add_case, tree, flat, False)
    for tree in ([None], [[None]], [5], [['x']], [parts[0], None], [parts[0], [3]], [lambda energy: energy]):
        w.case(f'add {show(tree)}', add_case, tree, None, True)


sys.exit(pbpy.run('C24', body, rule='one case per (system, matrix, wave vector), per band path, per sequence of solver operations, per list of level gaps, per lead, per kwant conversion, '
    'per (system, kernel, broadening) of the KPM in Python and per nesting of model parts; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['the compiled extension module is replaced by a stand-in (pybind11 is not installed): systems and Hamiltonians are given, the core that builds them is checked by C01-C20',
                 'kwant is not installed: only the conversion itself is checked']))
