"""Stand-in for the compiled extension module (pybind11 is not installed, so the real one cannot be built here).

It has the interface of cppmodule/src/*.cpp as far as the Python layer under test uses it: the same argument conversions
(vectors are padded with zeros and stored in single precision), the same memory layouts of the arrays which are handed to
modifiers, and the same way of reading their results (raw memory). What the core does with the results is checked
separately, on the real core.
"""
import ctypes
import numpy as np


def cartesian(v, dtype=np.float32):
    a = np.asarray(v)
    if a.ndim > 1 or a.size > 3:
        raise TypeError('incompatible function arguments')
    r = np.zeros(3, dtype)
    r[:a.size] = a
    return r


def eigen_1d(v, dtype):
    """An Eigen 1D array made of an argument"""
    a = np.ascontiguousarray(v, dtype=dtype)
    if a.ndim > 1 and a.size != max(a.shape):
        raise TypeError('incompatible function arguments')
    return a.reshape(-1)


class Shape:
    def __init__(self, vertices, contains=None):
        self._vertices = [cartesian(v) for v in vertices]
        if len(self._vertices) < 2:
            raise RuntimeError('Shape: The bounding box must contain at least two vertices.')
        self._contains = contains
        self._lattice_offset = np.zeros(3, np.float32)

    def contains(self, x, y, z):
        x, y, z = (eigen_1d(v, np.float32) for v in (x, y, z))
        r = np.asarray(self._contains(x, y, z))
        if r.ndim > 1:
            raise RuntimeError('Unable to cast Python instance to C++ type')
        return np.array(r, dtype=bool).reshape(-1)

    vertices = property(lambda self: [v.copy() for v in self._vertices])

    @property
    def lattice_offset(self):
        return self._lattice_offset

    @lattice_offset.setter
    def lattice_offset(self, v):
        self._lattice_offset = cartesian(v)


class Line(Shape):
    def __init__(self, a, b):
        a, b = cartesian(a), cartesian(b)

        def contains(x, y, z):
            p = np.stack([x, y, z], axis=1)
            return ((p - a) @ (b - a) >= 0) & ((p - b) @ (a - b) >= 0)
        super().__init__([a, b], contains)


class Polygon(Shape):
    def __init__(self, vertices):
        vs = [cartesian(v) for v in vertices]

        def contains(x, y, z):
            r = np.zeros(x.shape, bool)
            for i in range(len(vs)):
                (x1, y1), (x2, y2) = vs[i][:2], vs[i - 1][:2]
                if y1 != y2:
                    r ^= ((y1 > y) != (y2 > y)) & (x > (x2 - x1) / (y2 - y1) * (y - y1) + x1)
            return r
        super().__init__(vs, contains)


class FreeformShape(Shape):
    def __init__(self, contains, width, center=(0, 0, 0)):
        w, c = cartesian(width), cartesian(center)
        lo, hi = c - np.float32(0.5) * w, c + np.float32(0.5) * w
        box = [(x, y, z) for z in (lo[2], hi[2]) for y in (lo[1], hi[1]) for x in (lo[0], hi[0])]
        super().__init__(box, contains)


class Primitive:
    def __init__(self, a1, a2, a3):
        if min(a1, a2, a3) <= 0:
            raise RuntimeError('Primitive: The size must be at least 1 in every direction.')
        self.size = (a1, a2, a3)


class TranslationalSymmetry:
    def __init__(self, a1, a2, a3):
        self.lengths = (float(a1), float(a2), float(a3))


# -------------------------------------------------------------------------------------------------- modifiers
class ComplexOverride(Exception):
    pass


def byte_bounds(a):
    lo = hi = a.__array_interface__['data'][0]
    for n, s in zip(a.shape, a.strides):
        if n == 0:
            return lo, lo
        if s < 0:
            lo += (n - 1) * s
        else:
            hi += (n - 1) * s
    return lo, hi + a.itemsize


class OutOfBounds(Exception):
    pass


def extract(target, result):
    """ExtractModifierResult of cppmodule/src/modifiers.cpp: `size` elements from the data pointer on"""
    if not isinstance(result, np.ndarray) or result.dtype != target.dtype:
        if target.dtype.kind == 'f':
            raise ComplexOverride()
        raise RuntimeError('Unexpected modifier result size')
    if result.size != target.size:
        raise RuntimeError('Unexpected modifier result size')
    p, q = result.__array_interface__['data'][0], target.__array_interface__['data'][0]
    if p != q and target.size:
        lo, hi = byte_bounds(result)
        if p < lo or p + target.nbytes > hi:
            raise OutOfBounds(f'strides {result.strides}, shape {result.shape}: the memory behind the result would be read')
        raw = ctypes.string_at(p, target.nbytes)
        target.reshape(-1)[:] = np.frombuffer(raw, target.dtype)


class SiteStateModifier:
    def __init__(self, apply, min_neighbors=0):
        self._apply, self.min_neighbors = apply, min_neighbors

    def run(self, state, x, y, z, sub):
        r = self._apply(state.view(), x.view(), y.view(), z.view(), sub)
        extract(state, r)


class PositionModifier:
    def __init__(self, apply):
        self._apply = apply

    def run(self, x, y, z, sub):
        t = tuple(self._apply(x.view(), y.view(), z.view(), sub))
        for v, r in zip((x, y, z), t):
            extract(v, r)


class _EnergyModifier:
    def __init__(self, apply, is_complex=False, is_double=False):
        self._apply, self.is_complex, self.is_double = apply, is_complex, is_double

    def run(self, energy, *args):
        args = [a.view() if isinstance(a, np.ndarray) else a for a in args]
        extract(energy, self._apply(energy.view(), *args))


class OnsiteModifier(_EnergyModifier):
    pass


class HoppingModifier(_EnergyModifier):
    pass


class SiteGenerator:
    def __init__(self, name, energy, make):
        self.name, self.energy, self._make = name, energy, make

    def run(self, system):
        from pybinding.system import System
        t = tuple(self._make(System(system)))
        return tuple(eigen_1d(v, np.float32) for v in t[:3])


class HoppingGenerator:
    def __init__(self, name, energy, make):
        self.name, self.energy, self._make = name, energy, make

    def run(self, system):
        from pybinding.system import System
        t = tuple(self._make(System(system)))
        return tuple(eigen_1d(v, np.int32) for v in t[:2])


# -------------------------------------------------------------------------------------------------- lattice
class _Record:
    def __init__(self, **k):
        self.__dict__.update(k)


def _matrix(e):
    e = np.asarray(e)
    if e.ndim == 0:
        return np.array([[e]], dtype=complex)
    if e.ndim == 1:
        return np.diag(e).astype(complex)
    return e.astype(complex)


class Lattice:
    """Keeps what it was told, in the form which the core keeps it"""

    def __init__(self, a1, a2=(0, 0, 0), a3=(0, 0, 0)):
        vs = [cartesian(v) for v in (a1, a2, a3)]
        while len(vs) > 1 and not np.any(vs[-1]):
            vs.pop()
        self.vectors = vs
        self.sublattices, self.hoppings = {}, {}
        self._offset, self.min_neighbors = np.zeros(3, np.float32), 0

    ndim = property(lambda self: len(self.vectors))
    nsub = property(lambda self: len(self.sublattices))
    nhop = property(lambda self: len(self.hoppings))

    @property
    def offset(self):
        return self._offset

    @offset.setter
    def offset(self, v):
        self._offset = cartesian(v)

    def add_sublattice(self, name, position, energy):
        if name in self.sublattices:
            raise RuntimeError('already exists')
        n = len(self.sublattices)
        self.sublattices[name] = _Record(position=cartesian(position), energy=_matrix(energy), unique_id=n, alias_id=n)

    def add_alias(self, name, original, position):
        n = len(self.sublattices)
        o = self.sublattices[original]
        self.sublattices[name] = _Record(position=cartesian(position), energy=o.energy, unique_id=n, alias_id=o.alias_id)

    def register_hopping_energy(self, name, energy):
        self.hoppings[name] = _Record(energy=_matrix(energy), family_id=len(self.hoppings), terms=[])

    def add_hopping(self, relative_index, from_sub, to_sub, energy):
        r = tuple(int(v) for v in cartesian(relative_index, np.int32))
        f, t = self.sublattices[from_sub].unique_id, self.sublattices[to_sub].unique_id
        if isinstance(energy, str):
            family = self.hoppings[energy]
        else:
            m = _matrix(energy)
            for family in self.hoppings.values():
                if family.energy.shape == m.shape and np.allclose(family.energy, m):
                    break
            else:
                name = f'__anonymous__{len(self.hoppings)}'
                self.register_hopping_energy(name, m)
                family = self.hoppings[name]
        for other in self.hoppings.values():
            for term in other.terms:
                if (tuple(term.relative_index), term.from_id, term.to_id) in ((r, f, t), (tuple(-v for v in r), t, f)):
                    raise RuntimeError('The specified hopping already exists.')
        family.terms.append(_Record(relative_index=np.array(r, np.int32), from_id=f, to_id=t))


# -------------------------------------------------------------------------------------------------- systems
class CompressedSublattices:
    def __init__(self, alias_ids, site_counts, orbital_counts):
        self.alias_ids, self.site_counts, self.orbital_counts = (np.array(v, np.int32) for v in (alias_ids, site_counts, orbital_counts))

    def decompressed(self):
        return np.repeat(self.alias_ids, self.site_counts)


class HoppingBlocks:
    def __init__(self, num_sites, triples, name_map):
        self.num_sites, self.triples, self.name_map = num_sites, list(triples), dict(name_map)

    nnz = property(lambda self: len(self.triples))

    def count_neighbors(self):
        n = np.zeros(self.num_sites, np.int32)
        for i, j, _ in self.triples:
            n[i] += 1
            n[j] += 1
        return n

    def tocsr(self):
        from scipy.sparse import csr_matrix
        from pybinding.support.alias import AliasCSRMatrix
        n = self.num_sites
        rows = [[] for _ in range(n)]
        for i, j, k in self.triples:
            rows[i].append((j, k))
        indptr, indices, data = [0], [], []
        for r in rows:
            for j, k in sorted(r):
                indices.append(j)
                data.append(k)
            indptr.append(len(indices))
        m = csr_matrix((np.array(data, np.int8), np.array(indices, np.int32), np.array(indptr, np.int32)), (n, n), copy=False)
        return AliasCSRMatrix(m, mapping=self.name_map)

    def tocoo(self):
        return self.tocsr().tocoo()

    def __getitem__(self, item):
        from pybinding.support import structure
        return structure.Hoppings(structure._slice_csr_matrix(self.tocsr(), item))


class Boundary:
    def __init__(self, hoppings, shift):
        self.hoppings, self.shift = hoppings, cartesian(shift)

    def __getitem__(self, item):
        from pybinding.support.structure import Boundary
        return Boundary(self.shift, self.hoppings[item])


class _Positions:
    def __init__(self, xyz):
        xyz = np.array(xyz, np.float32).reshape(-1, 3)
        self.x, self.y, self.z = (np.ascontiguousarray(c) for c in xyz.T)


class System:
    """alias ids and counts must be grouped as in the core: one entry per family"""

    def __init__(self, xyz, families, triples=(), boundaries=(), site_names=None, hop_names=None):
        # families: list of (alias id, number of sites, number of orbitals)
        self.positions = _Positions(xyz)
        self.compressed_sublattices = CompressedSublattices(*zip(*families))
        n = self.positions.x.size
        assert n == sum(f[1] for f in families)
        self.site_registry = _Record(name_map=dict(site_names or {}))
        self.hopping_registry = _Record(name_map=dict(hop_names or {}))
        self.hopping_blocks = HoppingBlocks(n, triples, hop_names or {})
        self.boundaries = [Boundary(HoppingBlocks(n, t, hop_names or {}), s) for s, t in boundaries]
        self.num_sites = n
        self.start, self.norb = [], []
        h = 0
        for _, count, norb in families:
            for _ in range(count):
                self.start.append(h)
                self.norb.append(norb)
                h += norb
        self.hamiltonian_size = h

    @property
    def expanded_positions(self):
        p = self.positions
        return _Positions(np.repeat(np.stack([p.x, p.y, p.z], axis=1), self.norb, axis=0))

    def to_hamiltonian_indices(self, i):
        if not 0 <= i < self.num_sites:
            raise IndexError('out of range')
        return np.arange(self.start[i], self.start[i] + self.norb[i], dtype=np.int32)

    def find_nearest(self, position, sublattice=''):
        c = cartesian(position)
        p = np.stack([self.positions.x, self.positions.y, self.positions.z], axis=1)
        d = np.linalg.norm(p - c, axis=1)
        if sublattice:
            ids = self.compressed_sublattices.decompressed()
            d = np.where(ids == self.site_registry.name_map[sublattice], d, np.inf)
        return int(np.argmin(d))


def unit_cell(lattice):
    """The system of a periodic model without a shape: one cell"""
    lattice = getattr(lattice, 'impl', lattice)
    subs = list(lattice.sublattices.values())
    aliases = sorted({s.alias_id for s in subs})
    order = sorted(subs, key=lambda s: s.alias_id)
    at = {s.unique_id: k for k, s in enumerate(order)}
    families = [(a, sum(s.alias_id == a for s in subs), len(next(s for s in subs if s.alias_id == a).energy)) for a in aliases]
    inner, outer = [], {}
    for family in lattice.hoppings.values():
        for t in family.terms:
            r, a, b = tuple(int(v) for v in t.relative_index), at[t.from_id], at[t.to_id]
            if not any(r):
                inner.append((a, b, family.family_id))
            elif r in outer or tuple(-v for v in r) not in outer:
                outer.setdefault(r, []).append((a, b, family.family_id))
            else:
                outer[tuple(-v for v in r)].append((b, a, family.family_id))
    boundaries = [(sum((n * np.asarray(v, float) for n, v in zip(r, lattice.vectors)), np.zeros(3)), ts) for r, ts in outer.items()]
    return System([s.position for s in order], families, inner, boundaries, {n: s.alias_id for n, s in lattice.sublattices.items()},
                  {n: f.family_id for n, f in lattice.hoppings.items()})


class Model:
    """Not a builder (except for one cell of a periodic system): everything it has is put into it by the harness"""

    def __init__(self, lattice):
        self.raw_lattice = lattice
        self.added = []
        self.wave_vectors = []
        self.make_hamiltonian = None
        self.system_impl = None
        self.lead_list = []

    def add(self, arg):
        if not isinstance(arg, (Primitive, Shape, TranslationalSymmetry, SiteStateModifier, PositionModifier, OnsiteModifier,
                                HoppingModifier, SiteGenerator, HoppingGenerator)):
            raise TypeError('add(): incompatible function arguments')
        self.added.append(arg)

    def attach_lead(self, direction, contact):
        self.added.append((direction, contact))

    def set_wave_vector(self, k):
        self.wave_vectors.append(cartesian(k))

    @property
    def hamiltonian(self):
        return self.make_hamiltonian(self.wave_vectors[-1] if self.wave_vectors else np.zeros(3, np.float32))

    @property
    def system(self):
        if self.system_impl is None:
            assert [type(a) for a in self.added] == [TranslationalSymmetry]
            self.system_impl = unit_cell(self.raw_lattice)
        return self.system_impl

    @property
    def leads(self):
        return self.lead_list


class Lead:
    def __init__(self, h0, h1, indices=(), system=None):
        self.h0, self.h1, self.indices, self.system = h0, h1, np.array(indices, np.int32), system


class Leads(list):
    pass


class Solver:
    pass


class KPM:
    pass


# -------------------------------------------------------------------------------------------------- KPM
class Kernel:
    def __init__(self, damping, moments):
        self.damping_coefficients, self.required_num_moments = damping, moments


def jackson_kernel():
    def damping(n):
        i = np.arange(n)
        m = n + 1
        return ((m - i) * np.cos(np.pi * i / m) + np.sin(np.pi * i / m) / np.tan(np.pi / m)) / m

    def moments(broadening):
        n = int(np.pi / broadening) + 1
        while (n - 2) % 4:
            n += 1
        return n
    return Kernel(damping, moments)


def lorentz_kernel(l=4.0):
    return Kernel(lambda n: np.sinh(l * (1 - np.arange(n) / n)) / np.sinh(l), lambda b: int(l / b) // 4 * 4 + 2)


def dirichlet_kernel():
    return Kernel(np.ones, lambda b: int(np.pi / b) // 4 * 4 + 2)


def parallel_for(sequence, produce, retire, num_threads, queue_size):
    raise NotImplementedError('set by the harness')
