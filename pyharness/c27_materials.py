"""C27: lattice geometry (reciprocal vectors, Brillouin zone, visible sublattices) and the ready-made materials."""
import itertools, sys
from math import pi, sqrt
import pbpy
import numpy as np
import pybinding as pb
from pybinding.constants import hbar, phi0
from pybinding.repository import examples, graphene, group6_tmd, phosphorene


# ------------------------------------------------------------------------------------------ lattice geometry
def lattice(vectors):
    return pb.Lattice(*[list(v) for v in vectors])


def reciprocal_case(w, vectors):
    lat = lattice(vectors)
    a = np.array(vectors, float)
    b = np.array([np.asarray(v, float) for v in lat.reciprocal_vectors()])
    if not w.check(b.shape == a.shape, 'reciprocal vectors', lambda: f'{b.shape}'):
        return
    w.check(np.allclose(b @ a.T, 2 * pi * np.eye(len(a)), atol=1e-5), 'reciprocal vectors', lambda: f'products with the lattice vectors {(b @ a.T / 2 / pi).tolist()} (2 pi)')
    # they lie in the space which the lattice vectors span
    q = np.linalg.qr(a.T)[0]
    w.check(np.allclose(b @ q @ q.T, b, atol=1e-5), 'reciprocal vectors', lambda: f'{b.tolist()} are not in the span of the lattice vectors')


def wigner_seitz(b1, b2):
    """Corners of the cell of points which are nearer to the origin than to any other point of the lattice"""
    n = 14
    near = sorted((m * b1 + k * b2 for m in range(-n, n + 1) for k in range(-n, n + 1) if m or k), key=lambda g: g @ g)[:40]
    size = 4 * max(np.linalg.norm(b1), np.linalg.norm(b2))
    poly = [np.array(p) * size for p in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    for g in near:
        new, half = [], g @ g / 2
        for p, q in zip(poly, poly[1:] + poly[:1]):
            fp, fq = p @ g - half, q @ g - half
            if fp <= 1e-9 * half:
                new.append(p)
            if (fp < -1e-9 * half and fq > 1e-9 * half) or (fq < -1e-9 * half and fp > 1e-9 * half):
                new.append(p + (q - p) * fp / (fp - fq))
        poly = new
    return poly


def unique_points(ps, eps):
    out = []
    for p in ps:
        if not any(np.linalg.norm(p - q) < eps for q in out):
            out.append(p)
    return out


def zone_case(w, vectors):
    lat = lattice(vectors)
    a = np.array(vectors, float)
    zone = lat.brillouin_zone()
    if len(a) == 1:
        k = pi / np.linalg.norm(a[0])
        w.check(len(zone) == 2 and np.allclose(zone, [-k, k], rtol=1e-5), 'zone', lambda: f'{zone} instead of {[-k, k]}')
        return
    b = (2 * pi * np.linalg.inv(a[:, :2])).T
    scale = np.sqrt(abs(np.linalg.det(b)))
    got = [np.asarray(v, float) for v in zone]
    area = 0.5 * sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(got, got[1:] + got[:1]))
    want = unique_points(wigner_seitz(*b), 1e-3 * scale)
    have = unique_points(got, 1e-3 * scale)
    show = lambda: f'corners {[v.round(4).tolist() for v in got]}, area {area:.6g}; expected {[v.round(4).tolist() for v in want]}, area {abs(np.linalg.det(b)):.6g}'
    w.check(abs(area - scale ** 2) < 1e-4 * scale ** 2, 'zone', show)
    w.check(len(have) == len(want) and all(any(np.linalg.norm(p - q) < 2e-3 * scale for q in have) for p in want), 'zone', show)


def copies_case(w, which, position, number):
    lat = {'graphene': lambda: graphene.monolayer(), 'chain': lambda: examples.chain_lattice(), 'tmd': lambda: group6_tmd.monolayer_3band('MoS2')}[which]()
    before = snapshot(lat)
    new = lat.with_offset(position)
    newer = new.with_min_neighbors(number)
    w.check(snapshot(lat) == before, 'copies', 'the original was changed')
    pos = np.zeros(3)
    pos[:len(position)] = position
    w.check(np.allclose(new.offset, pos, atol=1e-6) and np.allclose(newer.offset, pos, atol=1e-6), 'copies', lambda: f'{new.offset}, {newer.offset}')
    w.check(newer.min_neighbors == number and new.min_neighbors == lat.min_neighbors, 'copies', lambda: f'{newer.min_neighbors}, {new.min_neighbors}')
    w.check(snapshot(newer)[:3] == before[:3], 'copies', 'the copy differs')
    newer.add_one_sublattice('Z', [0.1, 0.1])
    w.check(len(lat.sublattices) == len(before[1]) and len(new.sublattices) == len(before[1]), 'copies', 'sublattices are shared')


def snapshot(lat):
    return ([tuple(map(float, v)) for v in lat.vectors], sorted((k, tuple(map(float, s.position)), np.asarray(s.energy).tolist(), s.alias_id) for k, s in lat.sublattices.items()),
            sorted((k, np.asarray(h.energy).tolist(), sorted((tuple(int(v) for v in t.relative_index), t.from_id, t.to_id) for t in h.terms)) for k, h in lat.hoppings.items()),
            tuple(map(float, lat.offset)), lat.min_neighbors)


def visible_case(w, places, axes):
    """Of sublattices which are behind each other only the nearest to the viewer is shown"""
    lat = pb.Lattice([1, 0, 0], [0, 1, 0], [0, 0, 1])
    for k, p in enumerate(places):
        lat.add_one_sublattice(f'S{k}', list(p))
    before = snapshot(lat)
    if not hasattr(lat, '_visible_sublattices'):  # not public
        return
    shown = lat._visible_sublattices(axes)
    full = axes + ''.join(c for c in 'xyz' if c not in axes)
    order = ['xyz'.index(c) for c in full]
    best = {}
    for k, p in enumerate(places):
        flat = (p[order[0]], p[order[1]])
        if flat not in best or p[order[2]] > best[flat][0]:
            best[flat] = (p[order[2]], f'S{k}')
    heights = {name: p[order[2]] for name, p in zip((f'S{k}' for k in range(len(places))), places)}
    flats = {name: (p[order[0]], p[order[1]]) for name, p in zip((f'S{k}' for k in range(len(places))), places)}
    w.check(sorted(flats[n] for n in shown) == sorted(best) and all(heights[n] == best[flats[n]][0] for n in shown), 'visible', lambda: f'{sorted(shown)} instead of {sorted(v[1] for v in best.values())}')
    w.check(snapshot(lat) == before, 'visible', 'the lattice was changed')


# ----------------------------------------------------------------------------------------------- materials
class Crystal:
    """A lattice as plain numbers"""

    def __init__(self, lat):
        self.a = np.array([np.asarray(v, float) for v in lat.vectors])
        subs = sorted(lat.sublattices.items(), key=lambda s: s[1].unique_id)
        self.names = [n for n, _ in subs]
        self.kind = [s.alias_id for _, s in subs]
        self.pos = [np.asarray(s.position, float) for _, s in subs]
        self.energy = []
        for _, s in subs:
            e = np.atleast_2d(np.asarray(s.energy))
            self.energy.append(np.diag(e.ravel()) if e.shape[0] == 1 and e.shape[1] > 1 else e)
        self.terms = []
        for name, f in lat.hoppings.items():
            for t in f.terms:
                r = sum((int(n) * v for n, v in zip(t.relative_index, self.a)), np.zeros(3))
                self.terms.append((name, np.atleast_2d(np.asarray(f.energy)), t.from_id, t.to_id, r))

    def bond(self, term):
        return self.pos[term[3]] + term[4] - self.pos[term[2]]

    def hamiltonian(self, k):
        k = np.append(np.atleast_1d(np.asarray(k, float)), [0] * 3)[:3]
        starts = np.cumsum([0] + [len(e) for e in self.energy])
        h = np.zeros((starts[-1], starts[-1]), complex)
        for i, e in enumerate(self.energy):
            h[starts[i]:starts[i + 1], starts[i]:starts[i + 1]] += e
        for term in self.terms:
            _, e, i, j, _ = term
            block = e * np.exp(1j * (k @ self.bond(term)))
            h[starts[i]:starts[i + 1], starts[j]:starts[j + 1]] += block
            h[starts[j]:starts[j + 1], starts[i]:starts[i + 1]] += block.conj().T
        return h

    def bands(self, k):
        return np.linalg.eigvalsh(self.hamiltonian(k))

    def bonds(self):
        """{(site, site, cell) with the smaller first}: name"""
        inv = np.linalg.pinv(self.a.T)
        out = {}
        for name, _, i, j, r in self.terms:
            c = tuple(int(round(float(v))) for v in inv @ r)
            for key in ((i, j, c), (j, i, tuple(-v for v in c))):
                out.setdefault(key, []).append(name)
        return out

    def neighbours(self, reach, flat=False):
        """Every pair of sites up to a distance (as seen from above if flat): (site, site, cell, distance)"""
        n = [int(np.ceil(reach / np.linalg.norm(v))) + 2 for v in self.a]
        for c in itertools.product(*(range(-m, m + 1) for m in n)):
            r = sum((m * v for m, v in zip(c, self.a)), np.zeros(3))
            for i in range(len(self.pos)):
                for j in range(len(self.pos)):
                    d = np.linalg.norm((self.pos[j] + r - self.pos[i])[:2 if flat else 3])
                    if 1e-6 < d < reach:
                        yield i, j, c, d


def close(a, b, tolerance=2e-4):
    return np.allclose(np.sort(np.ravel(a)), np.sort(np.ravel(b)), atol=tolerance)


def complete_case(w, make, shells, flat=False):
    """Each family joins all the pairs of sites which are as far apart (and of the right kinds) and nothing else.
    shells: {family: (distance, kinds or None, number of neighbours per site or None)}"""
    c = Crystal(make())
    have = c.bonds()
    for key, names in have.items():
        w.check(len(names) == 1, 'bonds', lambda: f'{key} several times: {names}')
    w.check({n for ns in have.values() for n in ns} == set(shells), 'bonds', lambda: f'families {sorted({n for ns in have.values() for n in ns})} instead of {sorted(shells)}')
    reach = max(s[0] for s in shells.values()) + 0.01
    want = {}
    for i, j, cell, d in c.neighbours(reach, flat):
        for name, (length, kinds) in shells.items():
            if abs(d - length) < 1.5e-3 and (kinds is None or (c.names[i], c.names[j]) in kinds or (c.names[j], c.names[i]) in kinds):
                want[i, j, cell] = name
    have = {k: v[0] for k, v in have.items()}
    pretty = lambda k: f'{c.names[k[0]]}-{c.names[k[1]]} {k[2]}'
    w.count('bonds', len(want))
    w.check(have == want, 'bonds', lambda: f'missing {[(pretty(k), v) for k, v in want.items() if have.get(k) != v][:6]}, extra {[(pretty(k), v) for k, v in have.items() if want.get(k) != v][:6]}')


A, ACC = 0.24595, 0.142
C0 = 0.335


def f1(k):
    """Sum over the three nearest neighbours of graphene"""
    k = np.asarray(k, float)
    return np.exp(1j * k[1] * ACC) + 2 * np.exp(-0.5j * k[1] * ACC) * np.cos(k[0] * A / 2)


def f2(k):
    k = np.asarray(k, float)
    return 2 * np.cos(k[0] * A) + 4 * np.cos(k[0] * A / 2) * np.cos(k[1] * A * sqrt(3) / 2)


def f3(k):
    k = np.asarray(k, float)
    return np.exp(-2j * k[1] * ACC) + 2 * np.exp(1j * k[1] * ACC) * np.cos(k[0] * A)


def graphene_case(w, nn, onsite, energies, k):
    t, t2, t3 = energies or (-2.8, 0.1, 0.05)
    kw = dict(zip(('t', 't_nn', 't_nnn'), energies)) if energies else {}
    c = Crystal(graphene.monolayer(nn, onsite=onsite, **kw))
    own = t2 * (f2(k) + 3) if nn >= 2 else 0
    off = t * f1(k) + (t3 * f3(k) if nn >= 3 else 0)
    want = np.linalg.eigvalsh([[onsite[0] + own, off], [np.conj(off), onsite[1] + own]])
    got = c.bands(k)
    w.check(close(got, want, 3e-3), 'graphene', lambda: f'{got} instead of {want}')
    if k == (4 * pi / 3 / A, 0):
        w.check(close(got, onsite, 2e-3), 'graphene', lambda: f'{got} at the Dirac point instead of {onsite}')


def same_case(w, onsite, k):
    """The three ways to describe the monolayer"""
    one, alt, four = (Crystal(f(onsite=onsite)) for f in (graphene.monolayer, graphene.monolayer_alt, graphene.monolayer_4atom))
    b = np.array([0, 2 * pi / (3 * ACC)])
    e = one.bands(k)
    w.check(close(alt.bands(k), e, 3e-3), 'monolayers', lambda: f'alternative: {alt.bands(k)} instead of {e}')
    folded = np.concatenate([e, one.bands(np.add(k, b))])
    w.check(close(four.bands(k), folded, 6e-3), 'monolayers', lambda: f'4 atoms: {four.bands(k)} instead of {np.sort(folded)}')


def bilayer_case(w, g3, g4, onsite, k):
    c = Crystal(graphene.bilayer(gamma3=g3, gamma4=g4, onsite=onsite))
    f, z = f1(k), 0
    t, s1, s3, s4 = -2.8, -0.4, -0.3 * bool(g3), -0.04 * bool(g4)
    # A1 B1 A2 B2: A1 -> B1 and A2 -> B2 along +y ..., B1 above A2, B2 -> A1 and A2 -> A1 (B1 -> B2) like a nearest neighbour
    up = [[onsite[0], t * f, s4 * np.conj(f), s3 * f], [z, onsite[1], s1, z], [z, z, onsite[2], t * f], [z, z, z, onsite[3]]]
    h = np.array(up, complex)
    h = np.triu(h) + np.triu(h, 1).conj().T
    got = c.hamiltonian(k)
    # B2 -> A1 joins atoms of the hexagon centre: its neighbours are opposite
    h[0, 3] = s3 * np.conj(f)
    h[3, 0] = np.conj(h[0, 3])
    h[0, 2] = s4 * f
    h[2, 0] = np.conj(h[0, 2])
    w.check(close(np.linalg.eigvalsh(got), np.linalg.eigvalsh(h), 4e-3), 'bilayer', lambda: f'{np.linalg.eigvalsh(got)} instead of {np.linalg.eigvalsh(h)}')


TMD = {'MoS2': [0.3190, 1.046, 2.104, -0.184, 0.401, 0.507, 0.218, 0.338, 0.057], 'WS2': [0.3191, 1.130, 2.275, -0.206, 0.567, 0.536, 0.286, 0.384, -0.061],
       'MoSe2': [0.3326, 0.919, 2.065, -0.188, 0.317, 0.456, 0.211, 0.290, 0.130], 'WSe2': [0.3325, 0.943, 2.179, -0.207, 0.457, 0.486, 0.263, 0.329, 0.034],
       'MoTe2': [0.3557, 0.605, 1.972, -0.169, 0.228, 0.390, 0.207, 0.239, 0.252], 'WTe2': [0.3560, 0.606, 2.102, -0.175, 0.342, 0.410, 0.233, 0.270, 0.190]}


def tmd_bands(p, k):
    """Liu et al., Phys. Rev. B 88, 085433 (2013), equations (11) - (18)"""
    a, e1, e2, t0, t1, t2, t11, t12, t22 = p
    al, be = k[0] * a / 2, k[1] * a * sqrt(3) / 2
    c, s = np.cos, np.sin
    v0 = e1 + 2 * t0 * (2 * c(al) * c(be) + c(2 * al))
    v1 = -2 * sqrt(3) * t2 * s(al) * s(be) + 2j * t1 * (s(2 * al) + s(al) * c(be))
    v2 = 2 * t2 * (c(2 * al) - c(al) * c(be)) + 2j * sqrt(3) * t1 * c(al) * s(be)
    v11 = e2 + (t11 + 3 * t22) * c(al) * c(be) + 2 * t11 * c(2 * al)
    v22 = e2 + (3 * t11 + t22) * c(al) * c(be) + 2 * t22 * c(2 * al)
    v12 = sqrt(3) * (t22 - t11) * s(al) * s(be) + 4j * t12 * s(al) * (c(al) - c(be))
    return np.linalg.eigvalsh(np.array([[v0, v1, v2], [np.conj(v1), v11, v12], [np.conj(v2), np.conj(v12), v22]]))


def tmd_case(w, name, override, k):
    before = snapshot(group6_tmd.monolayer_3band(name))
    params = {name: override} if override else None
    lat = group6_tmd.monolayer_3band(name, override_params=params)
    p = override or TMD[name]
    got, want = Crystal(lat).bands(k), tmd_bands(p, k)
    w.check(close(got, want, 1e-4), 'dichalcogenides', lambda: f'{got} instead of {want}')
    turn = np.array([[-0.5, -sqrt(3) / 2], [sqrt(3) / 2, -0.5]])
    w.check(close(Crystal(lat).bands(turn @ k), want, 1e-4), 'dichalcogenides', 'the bands do not have the symmetry of the crystal')
    w.check(list(lat.sublattices) == [name[:2].rstrip('ST')], 'dichalcogenides', lambda: f'metal {list(lat.sublattices)}')
    w.check(snapshot(group6_tmd.monolayer_3band(name)) == before, 'dichalcogenides', 'the parameters were changed')


def phosphorene_case(w, n, k):
    c = Crystal(phosphorene.monolayer_4band(n))
    e = c.bands(k)
    for q in ((-k[0], k[1]), (k[0], -k[1])):
        w.check(close(c.bands(q), e, 1e-4), 'phosphorene', lambda: f'bands at {q}: {c.bands(q)} instead of {e}')
    # at the centre of the zone: sums of the energies of the neighbours of each pair of atoms
    t = [-1.22, 3.665, -0.205, -0.105, -0.055][:n] + [0] * (5 - n)
    ab, ad, ac = t[1] + t[4], 2 * t[0] + 2 * t[2], 4 * t[3]
    want = [ac + s * (ad + ab) for s in (1, -1)] + [-ac + s * (ad - ab) for s in (1, -1)]
    w.check(close(c.bands((0, 0)), want, 1e-4), 'phosphorene', lambda: f'{c.bands((0, 0))} instead of {sorted(want)}')


def example_case(w, size, t, v, k):
    got = Crystal(examples.chain_lattice(a=size, t=t, v=v)).bands([k[0] / size])
    w.check(close(got, [v + 2 * t * np.cos(k[0])], 1e-4), 'examples', lambda: f'chain: {got}')
    got = Crystal(examples.square_lattice(d=size, t=t)).bands([k[0] / size, k[1] / size])
    want = [2 * t * (np.cos(k[0]) + np.cos(k[1]) + np.cos(k[0] + k[1]) + np.cos(k[0] - k[1]))]
    w.check(close(got, want, 1e-4), 'examples', lambda: f'square: {got} instead of {want}')


# ----------------------------------------------------------------------------------------------- modifiers

def loop_case(w, field, centre, corners):
    """A walk around a polygon collects the flux through it, whatever the gauge"""
    mod = graphene.constant_magnetic_field(field)
    pts = [np.add(centre, p) for p in corners]
    step = lambda p, q: mod.apply(np.ones(1), *[np.array([v], float) for v in (p[0], p[1], 0.0, q[0], q[1], 0.0)], 't')[0]
    phase = np.prod([step(p, q) for p, q in zip(pts, pts[1:] + pts[:1])])
    area = 0.5 * sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(pts, pts[1:] + pts[:1]))
    flux = 2 * pi * field * 1e-18 * area / phi0
    w.check(abs(phase - np.exp(1j * flux)) < 1e-6, 'magnetic field', lambda: f'phase {np.angle(phase)} instead of {flux}')
    for p, q in zip(pts, pts[1:] + pts[:1]):
        w.check(abs(step(p, q) * step(q, p) - 1) < 1e-9 and abs(abs(step(p, q)) - 1) < 1e-9, 'magnetic field', 'the opposite hopping is not the conjugate')


def strain_case(w, kind, value, places):
    x, y = (np.array([p[i] for p in places], float) for i in (0, 1))
    z = np.zeros(len(places))
    if kind == 'triaxial':
        disp, hop = graphene.triaxial_strain(value)
        c = value * ACC / (4 * hbar * 3.37) * 1e-18
        want = x + 2 * c * x * y, y + c * (x ** 2 - y ** 2), z
    else:
        height, sigma, centre = value
        disp, hop = graphene.gaussian_bump(height, sigma, centre)
        want = x, y, height * np.exp(-((x - centre[0]) ** 2 + (y - centre[1]) ** 2) / sigma ** 2)
    got = disp.apply(x.copy(), y.copy(), z.copy(), 'A')
    w.check(all(np.allclose(g, v, atol=1e-9) for g, v in zip(got, want)), 'strain', lambda: f'{got} instead of {want}')
    pairs = list(itertools.permutations(range(len(places)), 2))
    ends = [np.array([want[i][p[k]] for p in pairs]) for k in (0, 1) for i in range(3)]
    e = np.linspace(1, 2, len(pairs))
    length = np.sqrt(sum((ends[i] - ends[i + 3]) ** 2 for i in range(3)))
    back = hop.apply(e.copy(), *ends, 't')
    w.check(np.allclose(back, e * np.exp(-3.37 * (length / ACC - 1)), rtol=1e-9, atol=0), 'strain', lambda: f'hopping {back}')


def onsite_case(w, kind, value, names, places):
    x, y, z = (np.array([p[i] for p in places], float) for i in range(3))
    for name in names:
        e = np.linspace(-1, 1, len(places))
        if kind == 'mass':
            got = graphene.mass_term(value).apply(e.copy(), x, y, z, name)
            first = name.split('|')[0]
            want = e + (value if first == 'A' else -value if first == 'B' else 0)
        else:
            beta, cut, off = value
            m = graphene.coulomb_potential(beta, cut, off) if any(off) else graphene.coulomb_potential(beta, cut) if cut != 0.1 else graphene.coulomb_potential(beta, cutoff_radius=cut)
            got = m.apply(e.copy(), x, y, z, name)
            r = np.maximum(np.sqrt(sum((v - o) ** 2 for v, o in zip((x, y, z), off))), cut)
            want = e - beta * hbar * graphene.vf / r
        w.check(np.allclose(got, want, atol=1e-9), 'onsite', lambda: f'sublattice {name}: {got} instead of {want}')
    w.check(abs(graphene.vf - 1.5 * 2.8 * ACC / hbar) < 1e-6 * graphene.vf, 'constants', 'the Fermi velocity')


def landau_case(w, field, n):
    got = graphene.utils.landau_level(field, n)
    want = graphene.vf * 1e-9 * sqrt(2 * hbar * field * n)
    w.check(abs(got - want) <= 1e-9 * max(want, 1e-9), 'landau levels', lambda: f'{got} instead of {want}')


# ---------------------------------------------------------------------------------------------- the hexagon
def hexagon_case(w, width):
    from scipy.spatial import cKDTree
    shape, lat = graphene.hexagon_ac(width), graphene.monolayer()
    corners = np.array([np.asarray(p, float)[:2] for p in shape.vertices])
    a1, a2 = (np.asarray(v, float)[:2] for v in lat.vectors)
    n = int(np.abs(corners).max() / 0.2) * 2 + 4
    i, j = (m.reshape(-1, 1) for m in np.mgrid[-n:n + 1, -n:n + 1])
    cells = i * a1 + j * a2 + np.asarray(shape.lattice_offset, float)[:2]
    pts = np.vstack([cells + np.asarray(s.position, float)[:2] for s in lat.sublattices.values()])
    inside = np.ones(len(pts), bool)
    for p, q in zip(corners, np.roll(corners, -1, 0)):
        d = q - p
        inside &= (d[0] * (pts[:, 1] - p[1]) - d[1] * (pts[:, 0] - p[0])) * np.sign(d[1] * p[0] - d[0] * p[1]) > 0
    pts = pts[inside]
    while len(pts):
        near = [set(v) - {k} for k, v in enumerate(cKDTree(pts).query_ball_point(pts, 0.15))]
        degree = np.array([len(v) for v in near])
        if (degree >= lat.min_neighbors).all():
            break
        pts = pts[degree >= lat.min_neighbors]
    if not w.check(len(pts) > 0, 'hexagon', 'it is empty'):
        return
    w.count('sites', len(pts))
    rim = [k for k in range(len(pts)) if degree[k] == 2]
    pairs = [sum(degree[m] == 2 for m in near[k]) for k in rim]
    w.check(len(pts) % 6 == 0 and all(p in (1, 2) for p in pairs), 'hexagon', lambda: f'{len(pts)} sites, sites of the edges have {sorted(set(pairs))} neighbours at the edge')
    c, s = 0.5, sqrt(3) / 2
    turned = pts @ np.array([[c, s], [-s, c]])
    w.check(cKDTree(pts).query(turned)[0].max() < 1e-3, 'hexagon', 'it does not have sixfold symmetry')
    m = round(sqrt(len(pts) / 6 * 12 - 3) / 6 + 0.5)
    w.check(len(pts) == 6 * (3 * m * m - 3 * m + 1), 'hexagon', lambda: f'{len(pts)} sites')
    half = np.ptp(pts[:, 1]) / 2
    w.check(abs(half - width) < 3 * ACC, 'hexagon', lambda: f'half width {half}')


# ------------------------------------------------------------------------------------------------------ body
def body(w):
    def case(label, fn, *a):
        w.distinct((fn.__name__, label))
        w.case(label, fn, *a)

    thorough = w.thorough
    # geometry
    cube = lambda n: [v for v in itertools.product(range(-n, n + 1), repeat=3)]
    for v in cube(3 if thorough else 2):
        if any(v):
            case(f'1D lattice {v}', reciprocal_case, (v,))
            case(f'1D lattice {v}', zone_case, (v,))
    small = [v for v in cube(1) if any(v)]
    for v1, v2 in itertools.product(small, repeat=2):
        if np.any(np.cross(v1, v2)):
            case(f'2D lattice {v1}, {v2}', reciprocal_case, (v1, v2))
    for v1, v2, v3 in itertools.product(small if thorough else [v for v in small if sum(map(abs, v)) < 3], small, small):
        if abs(np.linalg.det([v1, v2, v3])) > 0.5:
            case(f'3D lattice {v1}, {v2}, {v3}', reciprocal_case, (v1, v2, v3))
    flat = list(itertools.product(range(-4, 5) if thorough else range(-3, 4), repeat=2))
    for scale, shear in itertools.product((1, 0.246), (0, 0.125, 0.3)):
        for v1, v2 in itertools.product(flat, repeat=2):
            if v1[0] * v2[1] - v1[1] * v2[0]:
                vs = tuple((scale * (v[0] + shear * v[1]), scale * v[1] * (1 if shear else 1.0), 0) for v in (v1, v2))
                case(f'2D lattice {vs}', reciprocal_case, vs)
                case(f'2D lattice {vs}', zone_case, vs)
    for angle in range(4, 180, 4):
        for ratio in (0.3, 1 / sqrt(3), 0.999, 1, 1.7, 3.1):
            for turn in range(0, 360, 30):
                at = lambda d: (np.cos(np.radians(d)), np.sin(np.radians(d)))
                vs = tuple((float(r * at(d)[0]), float(r * at(d)[1]), 0) for r, d in ((1, turn), (ratio, turn + angle)))
                case(f'2D lattice with an angle of {angle} degrees, turned by {turn}, ratio {ratio}', zone_case, vs)
    for which in ('graphene', 'chain', 'tmd'):
        for position in ((0.05,), (0.1, -0.05), (0, 0.1, 0.02), (0, 0, 0)):
            for number in (0, 1, 3):
                case(f'copies of {which}, offset {position}, {number} neighbours', copies_case, which, position, number)
    spots = [(0, 0, 0), (0, 0, 0.25), (0, 0.25, 0), (0.25, 0, 0), (0, 0.25, 0.25), (0.25, 0, 0.25)]
    for n in range(1, 5):
        for places in itertools.permutations(spots, n):
            for axes in ('xy', 'yx', 'xz', 'zx', 'yz', 'zy'):
                case(f'sublattices at {places} along {axes}', visible_case, places, axes)
    # materials
    shells = {1: {'t': (ACC, None)}, 2: {'t': (ACC, None), 't_nn': (A, None)}, 3: {'t': (ACC, None), 't_nn': (A, None), 't_nnn': (2 * ACC, None)}}
    for nn in (1, 2, 3):
        case(f'bonds of the monolayer, {nn}', complete_case, (lambda nn: lambda: graphene.monolayer(nn))(nn), shells[nn])
    for f in (graphene.monolayer_alt, graphene.monolayer_4atom):
        name = list(f().hoppings)[0]
        case(f'bonds of {f.__name__}', complete_case, f, {name: (ACC, None)})
    across, along = {('A', 'D'), ('B', 'C')}, {('A', 'B'), ('C', 'D')}
    # the zigzag (t1), across it (t2) and the further neighbours, as seen from above
    bond, top = 0.222 * np.cos(np.radians(96.79 / 2)), 0.166
    ridge = 0.438 / 2 - bond
    phosphor = {'t1': (sqrt(bond ** 2 + top ** 2), across), 't2': (ridge, along), 't3': (sqrt((2 * ridge + bond) ** 2 + top ** 2), across),
                't4': (sqrt(0.219 ** 2 + top ** 2), {('A', 'C'), ('B', 'D')}), 't5': (ridge + 2 * bond, along)}
    for n in (2, 3, 4, 5):
        case(f'bonds of phosphorene, {n}', complete_case, (lambda n: lambda: phosphorene.monolayer_4band(n))(n), {k: v for k, v in phosphor.items() if int(k[1]) <= n}, True)
    inplane, across = sqrt(ACC ** 2 + C0 ** 2), C0
    for g3, g4 in itertools.product((False, True), repeat=2):
        s = {'gamma0': (ACC, None), 'gamma1': (across, None)}
        if g3:
            s['gamma3'] = (inplane, {('A1', 'B2')})
        if g4:
            s['gamma4'] = (inplane, {('A1', 'A2')})
        case(f'bonds of the bilayer, {g3} {g4}', complete_case, (lambda a, b: lambda: graphene.bilayer(a, b))(g3, g4), s)
    for name in TMD:
        lat = group6_tmd.monolayer_3band(name)
        case(f'bonds of {name}', neighbours_case, name)
    grid = 9 if not thorough else 25
    points = [(float(x), float(y)) for x in np.linspace(-30, 30, grid) for y in np.linspace(-26, 26, grid)] + [(0, 0), (4 * pi / 3 / A, 0), (0, 2 * pi / 3 / ACC)]
    for k in points:
        for onsite in ((0, 0), (0.5, -0.25), (1, 1)):
            for nn in (1, 2, 3):
                for energies in (None, (-1, 0.3, 0.25), (2.5, -0.2, 0.125)):
                    case(f'monolayer, {nn} neighbours, onsite {onsite}, energies {energies}, k = {k}', graphene_case, nn, onsite, energies, k)
            case(f'monolayers, onsite {onsite}, k = {k}', same_case, onsite, k)
        for g3, g4 in itertools.product((False, True), repeat=2):
            for onsite in ((0, 0, 0, 0), (0.5, 0.25, -0.25, -0.5), (0.125, -1, 1, 0.75)):
                case(f'bilayer, gamma3 {g3}, gamma4 {g4}, onsite {onsite}, k = {k}', bilayer_case, g3, g4, onsite, k)
        for name in TMD:
            for override in (None, [0.3, 1, 2, -0.2, 0.4, 0.5, 0.2, 0.3, 0.1]):
                case(f'{name}, parameters {override}, k = {k}', tmd_case, name, override, k)
        for n in (2, 3, 4, 5):
            case(f'phosphorene, {n} hoppings, k = {k}', phosphorene_case, n, (k[0] / 2, k[1] / 2))
        for size, t, v in itertools.product((0.2, 1), (-1, 0.5), (0, 0.75)):
            case(f'chain and square lattice, size {size}, t {t}, v {v}, k = {k}', example_case, size, t, v, (k[0] / 8, k[1] / 8))
    # modifiers
    polygons = [[(0, 0), (1, 0), (0, 1)], [(0, 0), (0, 1), (1, 0)], [(0, 0), (0.25, 0), (0.25, 0.5), (0, 0.5)], [(ACC * np.cos(pi / 6 + n * pi / 3), ACC * np.sin(pi / 6 + n * pi / 3)) for n in range(6)],
                [(0, 0), (2, 0), (2, 2), (1, 0.5), (0, 2)], [(0, 0), (0.5, 0.5)]]
    for field in (-400, -1, 0, 10, 2500):
        for centre in itertools.product((-50, -3, 0, 0.125, 7), repeat=2):
            for p in polygons:
                case(f'field of {field}, centre {centre}, polygon {p}', loop_case, field, centre, p)
    spots = [(0, 0, 0), (0, ACC, 0), (A / 2, -ACC / 2, 0.1), (3, 4, -0.2), (-10, 2, 0)]
    for n in (2, 3):
        for places in itertools.permutations(spots, n):
            for field in (-500, 0, 1000):
                case(f'strain of {field} at {places}', strain_case, 'triaxial', field, places)
            for bump in itertools.product((1.6, -0.5), (1, 2.5), ((0, 0), (1, -2))):
                case(f'bump of {bump} at {places}', strain_case, 'gaussian', bump, places)
            for delta in (0.25, -1, 0):
                case(f'mass of {delta} at {places}', onsite_case, 'mass', delta, ('A', 'B', 'C', 'A|1', 'B|x', 'AB'), places)
            for beta, cut, off in itertools.product((1, -0.5), (0.1, 0.2, 5), ((0, 0, 0), (1, 2, -0.5))):
                case(f'impurity {beta}, cutoff {cut}, at {off}, sites {places}', onsite_case, 'coulomb', (beta, cut, off), ('A', 'B'), places)
    for field in (0.5, 1, 20, 300):
        for n in range(0, 20):
            case(f'landau level {n} in a field of {field}', landau_case, field, n)
    for k in range(1, 101 if not thorough else 251):
        case(f'hexagon of {0.05 * k}', hexagon_case, 0.05 * k)


def neighbours_case(w, name):
    c = Crystal(group6_tmd.monolayer_3band(name))
    a = TMD[name][0]
    have = c.bonds()
    want = {(i, j, cell) for i, j, cell, d in c.neighbours(a * 1.1)}
    w.check(set(have) == want and all(len(v) == 1 for v in have.values()), 'bonds', lambda: f'{sorted(have)} instead of {sorted(want)}')
    # rotating a bond by 120 degrees rotates its matrix: (z2), (xy, x2 - y2)
    r = np.array([[1, 0, 0], [0, -0.5, sqrt(3) / 2], [0, -sqrt(3) / 2, -0.5]])
    blocks = {}
    for term in c.terms:
        b = c.bond(term)
        blocks[tuple((b[:2] / a * 4).round().astype(int))] = term[1]
        blocks[tuple((-b[:2] / a * 4).round().astype(int))] = term[1].T
    turn = np.array([[-0.5, -sqrt(3) / 2], [sqrt(3) / 2, -0.5]])
    for direction in list(blocks):
        d = np.array([direction[0] / 4, np.sign(direction[1]) * sqrt(3) / 2 if direction[1] else 0])
        to = tuple(((turn @ d) * 4).round().astype(int))
        if w.check(to in blocks, 'dichalcogenides', lambda: f'no bond along {to}: {sorted(blocks)}'):
            ok = any(np.allclose(q @ blocks[direction] @ q.T, blocks[to], atol=1e-4) for q in (r, r.T))
            w.check(ok, 'dichalcogenides', lambda: f'the bonds along {direction} and {to} are not related by a rotation')


sys.exit(pbpy.run('C27', body, rule='one case per lattice (all pairs and triples of small integer vectors, sheared, scaled; all angles in steps of 4 degrees), per material, parameters and wave vector of a grid, per modifier, '
    'parameters and tuple of places, per width of the hexagon; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['bands and fluxes are compared on a finite grid of wave vectors and places', 'the vertical geometry of phosphorene is not judged', 'the compiled extension module is replaced by a stand-in (pybind11 is not installed)']))
