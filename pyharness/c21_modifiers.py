"""C21: modifier and generator functions see exactly what they ask for, and what they return is what the model gets."""
import itertools, sys
import pbpy
import numpy as np
import _pybinding as cpp
import pybinding as pb
from pybinding.support.alias import AliasIndex, SplitName
from pybinding.support.inspect import get_call_signature

KINDS = {
    'state': ('state', 'x', 'y', 'z', 'sub_id'),
    'position': ('x', 'y', 'z', 'sub_id'),
    'onsite': ('energy', 'x', 'y', 'z', 'sub_id'),
    'hopping': ('energy', 'x1', 'y1', 'z1', 'x2', 'y2', 'z2', 'hop_id'),
}
DECORATORS = {'state': pb.site_state_modifier, 'position': pb.site_position_modifier,
              'onsite': pb.onsite_energy_modifier, 'hopping': pb.hopping_energy_modifier}
NAMES = ['A', 'B|sub', 'B']


def define(names, body):
    """A function with exactly these argument names, in this order"""
    scope = {'body': body}
    exec(f"def f({', '.join(names)}):\n    return body(dict({', '.join(f'{n}={n}' for n in names)}))", scope)
    return scope['f']


def orders(names):
    """Every subset of the names; each in the declared order, reversed and rotated"""
    for n in range(len(names) + 1):
        for c in itertools.combinations(names, n):
            seen = []
            for o in (c, c[::-1], c[1:] + c[:1]):
                if o not in seen:
                    seen.append(o)
                    yield o


def coordinates(n, k):
    return (np.arange(n) * 1.25 + 10 * k + 1).astype(np.float32)


def make_energy(n, orbs, dtype):
    """Like the core: one value per site, or (rows, columns, sites) contiguous"""
    r, c = orbs
    v = np.arange(r * c * n).reshape(r, c, n) * 0.5 + 3
    if np.dtype(dtype).kind == 'c':
        v = v + 1j * (np.arange(r * c * n).reshape(r, c, n) + 1)
    v = np.ascontiguousarray(v.astype(dtype))
    return v.reshape(n) if orbs == (1, 1) else v


def seen_form(energy):
    """What the function is to see: the site index first"""
    return energy if energy.ndim == 1 else np.moveaxis(energy, 2, 0)


def inputs(kind, n, orbs, dtype, name):
    if kind == 'state':
        return dict(zip(KINDS[kind], [(np.arange(n) % 2 == 0), *(coordinates(n, k) for k in range(3)), name]))
    if kind == 'position':
        return dict(zip(KINDS[kind], [*(coordinates(n, k) for k in range(3)), name]))
    k = 3 if kind == 'onsite' else 6
    return dict(zip(KINDS[kind], [make_energy(n, orbs, dtype), *(coordinates(n, j) for j in range(k)), name]))


def run(modifier, kind, args):
    """Send the arguments through the modifier the way the core does; returns the arrays afterwards"""
    copies = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in args.items()}
    modifier.run(*copies.values())
    return copies


def check_name(w, got, name, n, orbs, shape):
    w.check(str(got) == name, 'name', lambda: f'str() of the name is {got!s} instead of {name}')
    for other in ['A', 'B', 'B|sub', 'sub', 'C', '']:
        equal = name == other or name.split('|')[0] == other
        w.check(bool(got == other) == equal, 'name', lambda: f'{name} == {other} gave {not equal}')
        w.check(bool(got != other) == (not equal), 'name', lambda: f'{name} != {other} gave {equal}')
        shape = (n,) + (orbs if orbs != (1, 1) else ())
        for mask, want in ((got == other, equal), (got != other, not equal)):
            probe = np.where(mask, np.ones(shape), np.zeros(shape))
            w.check(probe.shape == shape and np.all(probe == want), 'name mask', lambda: f'{name} / {other}: {probe}')
            probe = np.logical_or(mask, np.zeros(shape, bool))
            w.check(probe.shape == shape and np.all(probe == want), 'name mask', lambda: f'{name} / {other}: {probe}')
            probe = np.zeros((n,) if orbs == (1, 1) else (n, 1, 1))  # like the coordinates
            probe[mask] = 1
            w.check(np.all(probe == want), 'name index', lambda: f'{name} / {other}: selected {probe}')
    w.check(np.array_equal(got.eye, np.eye(*orbs)), 'eye', lambda: f'eye is {got.eye} for orbitals {orbs}')
    w.check(got in {got: 1} and hash(got) == hash(got), 'name', 'the name cannot be a dictionary key')


def sees(w, kind, requested, n, orbs, dtype, name, decorate):
    args = inputs(kind, n, orbs, dtype, name)
    got = {}

    def body(values):
        got.update(values)
        w.count('calls')
        for k, v in values.items():
            if k in ('sub_id', 'hop_id'):
                check_name(w, v, name, n, orbs, None)
            elif k == 'sites':
                for c in 'xyz':
                    w.check(np.array_equal(getattr(v, c), args[c]), 'sites', lambda: f'sites.{c} = {getattr(v, c)} instead of {args[c]}')
                p = np.array([args['x'][-1], args['y'][-1], args['z'][-1]]) if n else np.zeros(3)
                xyz = np.stack([args[c] for c in 'xyz'], axis=1)
                d = v.distances(p)
                w.check(d.shape == (n,) and np.allclose(d, np.linalg.norm(xyz - p, axis=1)), 'sites', lambda: f'distances {d}')
            elif k in ('energy', 'state'):
                e = seen_form(args[k])
                w.check(v.shape == e.shape and v.dtype == e.dtype and np.array_equal(v, e), 'argument', lambda: f'{k} = {v} instead of {e}')
            else:
                e = args[k].reshape((n, 1, 1)) if orbs != (1, 1) else args[k]
                w.check(np.array_equal(np.ravel(v), args[k]), 'argument', lambda: f'{k} = {v} instead of {args[k]}')
                if 'energy' in args:
                    full = seen_form(args['energy'])
                    w.check(np.array_equal(np.broadcast_to(v, full.shape), np.broadcast_to(e, full.shape)), 'argument',
                            lambda: f'{k} has shape {v.shape} which does not go with the energy {full.shape}')
        if kind == 'position':
            return tuple(values.get(c, args[c]).copy() for c in 'xyz')
        prime = KINDS[kind][0]
        return values[prime] if prime in values else seen_form(args[prime]).copy()

    f = define(requested, body)
    m = decorate(f)
    after = run(m, kind, args)
    w.check(set(got) == set(requested), 'requested', lambda: f'the function got {sorted(got)} instead of {sorted(requested)}')
    for k, v in args.items():
        if isinstance(v, np.ndarray):
            w.check(np.array_equal(after[k], v), 'unchanged', lambda: f'{k} changed from {v} to {after[k]}')


# ------------------------------------------------------------------------------------------------ results
def styles(real, allow_in_place):
    """Ways to return an array t of values; `old` is the argument as it was seen"""
    yield 'in place', lambda old, t: (old.__setitem__(Ellipsis, t), old)[1]
    yield 'expression', lambda old, t: old * 0 + t
    yield 'C order', lambda old, t: np.array(t, order='C')
    yield 'F order', lambda old, t: np.array(t, order='F')
    yield 'reshaped', lambda old, t: np.array(t, order='C').ravel().reshape(old.shape)
    yield 'slice', lambda old, t: np.concatenate([t, t])[:len(t)]
    yield 'second half', lambda old, t: np.concatenate([t, t])[len(t):]
    yield 'every second', lambda old, t: np.repeat(t, 2, axis=0)[::2]
    yield 'last axis strided', lambda old, t: np.stack([t, t * 0], axis=-1)[..., 0]
    yield 'reversed view', lambda old, t: np.array(t[::-1], order='C')[::-1]
    yield 'sites last', lambda old, t: np.moveaxis(np.array(np.moveaxis(t, 0, -1), order='C'), -1, 0)
    yield 'stack', lambda old, t: np.stack(list(t)) if len(t) else np.array(t)
    yield 'where', lambda old, t: np.where(np.ones(old.shape, bool), t, old)
    yield 'like the argument', lambda old, t: (lambda r: (r.__setitem__(Ellipsis, t), r)[1])(np.empty_like(old))
    yield 'tuple of one', lambda old, t: (np.array(t),)
    if real:
        yield 'real part', lambda old, t: (t + 1j).real
        yield 'imaginary part', lambda old, t: (1 + 1j * t).imag


def target(kind, args, orbs, n):
    """The values which the function wants, site by site"""
    e = args['energy']
    old = seen_form(e)
    weight = np.arange(1, n + 1)
    m = np.arange(orbs[0] * orbs[1]).reshape(orbs) + 1
    t = (weight[:, None, None] * 10 + m[None]).astype(float)
    if e.dtype.kind == 'c':
        t = t + 1j * (t + 0.5)
    return t.reshape(old.shape)


def result_energy(w, kind, n, orbs, dtype, style, other_dtype, names):
    args = inputs(kind, n, orbs, dtype, 'A')
    t = target(kind, args, orbs, n).astype(other_dtype or dtype)

    def body(values):
        old = values.get('energy')
        w.count('calls')
        return style(seen_form(args['energy']).copy() if old is None else old, t)

    m = DECORATORS[kind](define(names, body))
    after = run(m, kind, args)
    got = seen_form(after['energy'])
    w.check(got.dtype == np.dtype(dtype) and np.array_equal(got, t.astype(dtype)), 'result',
            lambda: f'the function returned\n{t}\nand the model got\n{got}')
    w.count('results')


def result_masked(w, kind, n, orbs, dtype, name, compare):
    """energy[sub_id == ...] += value"""
    args = inputs(kind, n, orbs, dtype, name)
    key = KINDS[kind][-1]

    def body(values):
        values['energy'][values[key] == compare] += 5
        values['energy'][values[key] != compare] -= 7
        return values['energy']

    m = DECORATORS[kind](define(('energy', key), body))
    after = run(m, kind, args)
    equal = name == compare or name.split('|')[0] == compare
    e = args['energy'] + (5 if equal else -7)
    w.check(np.array_equal(after['energy'], e), 'masked result', lambda: f'{after["energy"]} instead of {e}')
    w.count('results')


def multi_orbital_mask(w, kind):
    """The documentation: works as long as all sublattices have the same number of orbitals"""
    args = inputs(kind, 3, (2, 2), np.float32, 'A')
    key = KINDS[kind][-1]

    def body(values):
        values['energy'][values[key] == 'A'] += 5
        return values['energy']
    try:
        after = run(DECORATORS[kind](define(('energy', key), body)), kind, args)
    except IndexError as e:
        w.check(False, 'multi-orbital mask', str(e))
        return
    w.check(np.array_equal(after['energy'], args['energy'] + 5), 'multi-orbital mask', lambda: f'{after["energy"]}')


def result_real_to_complex(w, kind, n, orbs, dtype, style):
    """A complex result for real energies: the core is told, and then gets it in a complex array"""
    real, cplx = dtype
    t = target(kind, inputs(kind, n, orbs, cplx, 'A'), orbs, n)
    m = DECORATORS[kind](define(('energy',), lambda v: style(v['energy'] + 0j, t)))
    try:
        run(m, kind, inputs(kind, n, orbs, real, 'A'))
        w.check(False, 'complex', 'a complex result for real energies was taken as a real one')
    except cpp.ComplexOverride:
        w.check(True, 'complex')
    after = run(m, kind, inputs(kind, n, orbs, cplx, 'A'))
    w.check(np.array_equal(seen_form(after['energy']), t.astype(cplx)), 'complex', lambda: f'{after["energy"]} instead of {t}')
    w.count('results')


def result_position(w, n, style, dtype, names):
    args = inputs('position', n, (1, 1), None, 'A')
    t = [(np.arange(n) + 100 * (k + 1)).astype(dtype) for k in range(3)]

    def one(v):
        return v[0] if isinstance(v, tuple) else v

    def body(values):
        return tuple(one(style(values.get(c, args[c].copy()), t[k])) for k, c in enumerate('xyz'))

    m = DECORATORS['position'](define(names, body))
    after = run(m, 'position', args)
    for k, c in enumerate('xyz'):
        w.check(np.array_equal(after[c], t[k].astype(np.float32)), 'result', lambda: f'{c}: returned {t[k]}, the model got {after[c]}')
    w.count('results')


def result_mixed_position(w, n, which):
    """Some coordinates changed in place, others new, one as it was"""
    args = inputs('position', n, (1, 1), None, 'A')
    t = [(np.arange(n) + 100 * (k + 1)).astype(np.float32) for k in range(3)]

    def body(v):
        r = []
        for k, c in enumerate('xyz'):
            if which[k] == 'in place':
                v[c][...] = t[k]
                r.append(v[c])
            elif which[k] == 'new':
                r.append(t[k].copy())
            elif which[k] == 'double':
                r.append(t[k].astype(np.float64))
            else:
                r.append(v[c])
        return tuple(r)

    after = run(DECORATORS['position'](define('xyz', body)), 'position', args)
    for k, c in enumerate('xyz'):
        e = args[c] if which[k] == 'same' else t[k]
        w.check(np.array_equal(after[c], e), 'result', lambda: f'{c}: {after[c]} instead of {e}')


def result_state(w, n, style, bits, names):
    args = inputs('state', n, (1, 1), None, 'A')
    t = np.array(bits, bool)

    def body(values):
        r = style(values.get('state', args['state'].copy()), t)
        return tuple(v.astype(bool) for v in r) if isinstance(r, tuple) else r if r is values.get('state') else r.astype(bool, copy=False)

    after = run(DECORATORS['state'](define(names, body)), 'state', args)
    w.check(np.array_equal(after['state'], t), 'result', lambda: f'returned {t}, the model got {after["state"]}')
    w.count('results')


def refused_result(w, kind, n, orbs, dtype, label, value):
    args = inputs(kind, n, orbs, dtype, 'A')
    m = DECORATORS[kind](define((), lambda v: value(n, orbs)))
    before = {k: v.copy() for k, v in args.items() if isinstance(v, np.ndarray)}
    w.raises(TypeError, lambda: m.run(*args.values()), 'refused result', label)
    for k, v in before.items():
        w.check(np.array_equal(args[k], v), 'refused result', lambda: f'{k} changed by a refused result')


def refused_arguments(w, kind, names, bad):
    def attempt():
        d = {**DECORATORS, 'site generator': pb.site_generator('C', 1.0), 'hopping generator': pb.hopping_generator('h', 1.0)}[kind]
        return d(define(names, lambda v: None))
    if bad:
        w.raises(RuntimeError, attempt, 'refused arguments', f'{kind}({names})')
    else:
        attempt()
        w.check(True, 'accepted')


# ------------------------------------------------------------------------------------------------ settings and names
def settings(w):
    for n in range(4):
        m = pb.site_state_modifier(min_neighbors=n)(lambda state: state)
        w.check(m.min_neighbors == n, 'settings', f'min_neighbors={m.min_neighbors} instead of {n}')
    w.check(pb.site_state_modifier(lambda state: state).min_neighbors == 0, 'settings', 'min_neighbors')
    for d in (False, True):
        m = pb.onsite_energy_modifier(is_double=d)(lambda energy: energy)
        w.check((m.is_double, m.is_complex) == (d, False), 'settings', f'onsite is_double={d}: {m.is_double} {m.is_complex}')
        m = pb.onsite_energy_modifier(double=d)(lambda energy: energy)
        w.check(m.is_double == d, 'settings', 'double (old name)')
        m = pb.hopping_energy_modifier(double=d)(lambda energy: energy)
        w.check(m.is_double == d, 'settings', 'double (old name)')
        for c in (False, True):
            m = pb.hopping_energy_modifier(is_double=d, is_complex=c)(lambda energy: energy)
            w.check((m.is_double, m.is_complex) == (d, c), 'settings', f'hopping is_double={d} is_complex={c}: {m.is_double} {m.is_complex}')
    m = pb.onsite_energy_modifier(lambda energy: energy)
    w.check((m.is_double, m.is_complex) == (False, False), 'settings', 'onsite defaults')
    m = pb.hopping_energy_modifier(lambda energy: energy)
    w.check((m.is_double, m.is_complex) == (False, False), 'settings', 'hopping defaults')
    m = pb.force_double_precision()
    w.check(m.is_double, 'settings', 'force_double_precision')
    m2 = pb.force_complex_numbers()
    w.check(m2.is_complex, 'settings', 'force_complex_numbers')
    for m, kind in ((m, 'onsite'), (m2, 'hopping')):
        for orbs in ((1, 1), (2, 2)):
            a = inputs(kind, 3, orbs, np.float64, 'A')
            w.check(np.array_equal(run(m, kind, a)['energy'], a['energy']), 'settings', 'energies changed')
    for v in (0, 1.5, -2):
        for orbs in ((1, 1), (2, 2), (3, 3)):
            for n in (1, 2, 3):
                a = inputs('onsite', n, orbs, np.float64, 'A')
                r = run(pb.constant_potential(v), 'onsite', a)['energy']
                e = seen_form(a['energy']) + (v * np.eye(orbs[0]) if orbs != (1, 1) else v)
                w.check(np.allclose(seen_form(r), e), 'constant potential', lambda: f'{r} instead of {e}')


def direct_call(w, kind):
    """A modifier can still be called as the plain function it decorates"""
    names = KINDS[kind]
    m = DECORATORS[kind](define(names, lambda v: tuple(v[n] for n in names)))
    a = tuple(object() for _ in names)
    w.check(m(*a) == a, 'direct call', 'different arguments')
    w.check(m(**dict(zip(names, a))) == a, 'direct call', 'different keyword arguments')


def signature_case(w, text, call, name, expected):
    """The text of a modifier made by a function is the call of that function"""
    for decorate in ('', '()', '(is_double=True)'):
        scope = {'pb': pb}
        exec(f'def {name}({text}):\n    @pb.onsite_energy_modifier{decorate}\n    def inner(energy):\n        return energy\n    return inner', scope)
        m = eval(f'{name}({call})', scope)
        w.check(str(m) == f'{name}({expected})', 'call signature', lambda: f'str is {m!s} instead of {name}({expected})')
        w.check(repr(m) == f'{name}({expected})', 'call signature', lambda: f'repr is {m!r} instead of {name}({expected})')


def call_signature_case(w, text, call, positional, args, keyword_only, kwargs):
    scope = {'get_call_signature': get_call_signature}
    exec(f'def fun({text}):\n    return get_call_signature()\ndef outer({text}):\n    def fun2():\n        return get_call_signature(up=1)\n    return fun2()', scope)
    for f in ('fun', 'outer'):
        s = eval(f'{f}({call})', scope)
        got = (s.function.__name__, list(s.positional.items()), tuple(s.args), list(s.keyword_only.items()), dict(s.kwargs))
        want = (f, positional, args, keyword_only, kwargs)
        w.check(got == want, 'call signature', lambda: f'{got} instead of {want}')
        named = dict(positional + keyword_only + list(kwargs.items()))
        w.check(dict(s.named_args) == named and list(s.named_args) == list(named), 'call signature', lambda: f'{s.named_args} instead of {named}')


# ------------------------------------------------------------------------------------------------ generators
def make_system(n):
    xyz = [[i * 0.5, 2 - i, i * i] for i in range(n)]
    families = [(0, 1, 1), (1, n - 1, 2)] if n > 1 else [(0, n, 1)]
    return cpp.System(xyz, families, [(0, i, 0) for i in range(1, n)], site_names={'A': 0, 'B': 1}, hop_names={'t': 0})


def generator_args(w, kind, names, n):
    s = make_system(n)
    got = {}

    def body(values):
        got.update(values)
        for c in 'xyz':
            if c in values:
                w.check(np.array_equal(values[c], getattr(s.positions, c)), 'argument', lambda: f'{c} = {values[c]}')
        if 'system' in values:
            y = values['system']
            w.check(y.num_sites == n and np.array_equal(y.x, s.positions.x) and np.array_equal(y.sub, s.compressed_sublattices.decompressed()),
                    'argument', 'the system is a different one')
        return (np.arange(n), np.arange(n), np.arange(n) * 2)[:3 if kind == 'site' else 2]
    f = define(names, body)
    g = pb.site_generator('C', 1.5)(f) if kind == 'site' else pb.hopping_generator('h', -2)(f)
    r = g.run(s)
    w.check(set(got) == set(names), 'requested', lambda: f'{sorted(got)} instead of {sorted(names)}')
    w.check((g.name, g.energy) == (('C', 1.5) if kind == 'site' else ('h', -2)), 'settings', f'{g.name} {g.energy}')
    w.check(np.array_equal(r[0], np.arange(n)) and np.array_equal(r[-1], np.arange(n) * (2 if kind == 'site' else 1)), 'result', lambda: f'{r}')


def generator_result(w, n, f1, i1, f2, i2):
    """Index pairs in every form, the two sides independently"""
    s = make_system(n)
    g = pb.hopping_generator('h', 1.0)(define(('system',), lambda v: (f1(i1, n), f2(i2, n))))
    r = g.run(s)
    for got, want in zip(r, (i1, i2)):
        w.check(np.array_equal(got, np.array(want, int)), 'result', lambda: f'indices {got} instead of {want}')
    w.count('results')


def body(w):
    thorough = w.thorough
    sizes = (1, 2, 3) if not thorough else (1, 2, 3, 5)
    # every set of arguments
    for kind, names in KINDS.items():
        all_names = names + (('sites',) if kind != 'hopping' else ())
        orb_list = {'onsite': [(1, 1), (2, 2), (3, 3)], 'hopping': [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3)]}.get(kind, [(1, 1)])
        for requested in orders(all_names):
            for orbs in orb_list:
                for n in sizes:
                    w.distinct((kind, requested, orbs, n))
                    w.case(f'{kind} modifier, arguments ({", ".join(requested)}), {orbs} orbitals, {n} sites', sees, kind, requested, n, orbs,
                           np.float32 if n != 2 else np.complex128, NAMES[n % 3], DECORATORS[kind] if n % 2 else DECORATORS[kind]())
    # every way to return the results
    for kind in ('onsite', 'hopping'):
        orb_list = [(1, 1), (2, 2), (3, 3)] if kind == 'onsite' else [(1, 1), (2, 2), (1, 2), (2, 1), (2, 3), (3, 1)]
        for orbs in orb_list:
            for n in sizes + (4,):
                for dtype in (np.float32, np.complex64, np.float64, np.complex128):
                    kinds = {'f': (np.float32, np.float64, np.int64, np.int32), 'c': (np.complex64, np.complex128, np.float32, np.float64, np.int64)}
                    for label, style in styles(np.dtype(dtype).kind == 'f', True):
                        for other in kinds[np.dtype(dtype).kind]:
                            if np.dtype(dtype).kind == 'c' and np.dtype(other).kind != 'c' and label != 'C order':
                                continue
                            for names in (('energy',), ()):
                                w.distinct((kind, orbs, n, dtype, label, other, names))
                                w.case(f'{kind} modifier returns "{label}" {np.dtype(other)} for {np.dtype(dtype)}, {orbs} orbitals, {n} sites, arguments {names}',
                                       result_energy, kind, n, orbs, dtype, style, other, names)
                    for name in NAMES if orbs == (1, 1) else ():
                        for compare in ('A', 'B', 'B|sub', 'sub'):
                            w.case(f'{kind} modifier changes the energy where the name {name} == {compare}, {np.dtype(dtype)}, {orbs} orbitals, {n} sites',
                                   result_masked, kind, n, orbs, dtype, name, compare)
                for dtype in ((np.float32, np.complex64), (np.float64, np.complex128)):
                    for label, style in styles(False, False):
                        w.distinct((kind, orbs, n, dtype, label))
                        w.case(f'{kind} modifier returns complex "{label}" for real energies, {np.dtype(dtype[0])}, {orbs} orbitals, {n} sites',
                               result_real_to_complex, kind, n, orbs, dtype, style)
    for n in sizes + (4,):
        for label, style in styles(True, True):
            for dtype in (np.float32, np.float64, np.int64):
                for names in (('x', 'y', 'z'), ('x',), ('z', 'x'), ()):
                    w.distinct(('position', n, label, dtype, names))
                    w.case(f'position modifier returns "{label}" {np.dtype(dtype)}, {n} sites, arguments {names}', result_position, n, style, dtype, names)
        for which in itertools.product(('in place', 'new', 'double', 'same'), repeat=3):
            w.distinct(('position', n, which))
            w.case(f'position modifier, x, y, z: {which}, {n} sites', result_mixed_position, n, which)
        for label, style in styles(False, True):
            if label == 'expression':
                continue
            for bits in itertools.product((False, True), repeat=n):
                for names in (('state',), ()):
                    w.distinct(('state', n, label, bits, names))
                    w.case(f'state modifier returns "{label}" {bits}, arguments {names}', result_state, n, style, bits, names)
    # what has to be refused
    shape = lambda n, o: (n,) + (o if o != (1, 1) else ())
    bad_any = [('a list', lambda n, o: [1.0] * n), ('a number', lambda n, o: 1.0), ('nothing', lambda n, o: None),
               ('one site too many', lambda n, o: np.zeros((n + 1,) + shape(n, o)[1:], np.float32)),
               ('one site too few', lambda n, o: np.zeros((n - 1,) + shape(n, o)[1:], np.float32)),
               ('two arrays', lambda n, o: (np.zeros(shape(n, o), np.float32),) * 2), ('four arrays', lambda n, o: (np.zeros(shape(n, o), np.float32),) * 4),
               ('text', lambda n, o: np.array(['a'] * n)), ('an empty tuple', lambda n, o: ())]
    bad = {'position': [('complex', lambda n, o: (np.zeros(n, complex),) * 3), ('one array', lambda n, o: np.zeros(n, np.float32)),
                        ('a list in a tuple', lambda n, o: (np.zeros(n, np.float32), [0.0] * n, np.zeros(n, np.float32))),
                        ('complex z', lambda n, o: (np.zeros(n, np.float32), np.zeros(n, np.float32), np.zeros(n, complex))),
                        ('short z', lambda n, o: (np.zeros(n, np.float32), np.zeros(n, np.float32), np.zeros(n - 1, np.float32)))],
           'state': [('float states', lambda n, o: np.ones(n)), ('integer states', lambda n, o: np.ones(n, int)), ('complex states', lambda n, o: np.ones(n, complex))],
           'onsite': [], 'hopping': []}
    for kind in KINDS:
        for orbs in ([(1, 1), (2, 2)] if kind in ('onsite', 'hopping') else [(1, 1)]):
            for n in sizes:
                for dtype in (np.float32, np.complex128):
                    for label, value in bad_any + bad[kind]:
                        w.case(f'{kind} modifier returns {label}, {np.dtype(dtype)}, {orbs} orbitals, {n} sites', refused_result, kind, n, orbs, dtype, label, value)
    every = {'state': ('state', 'x', 'y', 'z', 'sub_id', 'sites'), 'position': ('x', 'y', 'z', 'sub_id', 'sites'), 'onsite': ('energy', 'x', 'y', 'z', 'sub_id', 'sites'),
             'hopping': KINDS['hopping'], 'site generator': ('system', 'x', 'y', 'z'), 'hopping generator': ('system', 'x', 'y', 'z')}
    alphabet = sorted(set(sum(every.values(), ())) | {'w', 'X', 'sub', 'self'})
    for kind, allowed in every.items():
        for k in (1, 2, 3) if thorough else (1, 2):
            for names in itertools.combinations(alphabet, k):
                w.case(f'{kind} function with arguments {names}', refused_arguments, kind, names, not set(names) <= set(allowed))
    w.case('settings of the modifiers', settings)
    for kind in ('onsite', 'hopping'):
        w.case(f'{kind} modifier changes energy[name == "A"] of two orbitals', multi_orbital_mask, kind)
    for kind in KINDS:
        w.case(f'{kind} modifier called directly', direct_call, kind)
    # call signatures
    for kw in ('', '*args', '*, c', '*, c=3', '*args, c=3'):
        for pos in ((), ('a',), ('a', 'b'), ('a', 'b=2'), ('a=1', 'b=2')):
            for var in ('', '**kwargs'):
                text = ', '.join(p for p in (*pos, kw, var) if p)
                names = [p.split('=')[0] for p in pos]
                defaults = dict((p.split('=')[0], int(p.split('=')[1])) for p in pos if '=' in p)
                for given in range(len(names) + 1):
                    if any(n not in defaults for n in names[given:]):
                        continue
                    for by_name in (False, True):
                        for extra in ((), (7, 8)):
                            if extra and ('*args' not in kw or by_name or given < len(names)):
                                continue
                            for cval in (None, 5):
                                if (cval is None and kw == '*, c') or (cval is not None and 'c' not in kw):
                                    continue
                                for more in ((), (('e', 9),)):
                                    if more and not var:
                                        continue
                                    values = {n: 10 + i for i, n in enumerate(names[:given])}
                                    call = ([f'{n}={v}' for n, v in values.items()] if by_name else [str(v) for v in values.values()]) + [str(v) for v in extra]
                                    call += [f'c={cval}'] if cval is not None else []
                                    call += [f'{k}={v}' for k, v in more]
                                    positional = [(n, values.get(n, defaults.get(n))) for n in names]
                                    only = [('c', cval if cval is not None else 3)] if 'c' in kw.split('*')[-1].replace('args', '') else []
                                    args = tuple(extra)
                                    shown = [str(v) for _, v in positional] if args else [f'{n}={v}' for n, v in positional]
                                    shown += [str(v) for v in args] + [f'{n}={v}' for n, v in only] + [f'{k}={v}' for k, v in more]
                                    c = ', '.join(call)
                                    w.distinct((text, c))
                                    w.case(f'def f({text}) called as f({c})', call_signature_case, text, c, positional, args, only, dict(more))
                                    w.case(f'modifier made in def f({text}) called as f({c})', signature_case, text, c, 'maker', ', '.join(shown))
    # generators
    for kind in ('site', 'hopping'):
        for names in orders(('system', 'x', 'y', 'z')):
            for n in (1, 2, 4):
                w.distinct((kind, names, n))
                w.case(f'{kind} generator, arguments ({", ".join(names)}), {n} sites', generator_args, kind, names, n)
    forms = {'indices': lambda i, n: np.array(i, int), 'int32 indices': lambda i, n: np.array(i, np.int32), 'list': lambda i, n: list(i), 'tuple': lambda i, n: tuple(i),
             'mask': lambda i, n: np.isin(np.arange(n), i), 'list of bool': lambda i, n: [bool(k in i) for k in range(n)]}
    for n in (1, 2, 3, 4) if not thorough else (1, 2, 3, 4, 5, 6):
        subsets = [c for k in range(n + 1) for c in itertools.combinations(range(n), k)]
        for a in subsets:
            for b in subsets:
                if len(a) != len(b) or not a:
                    continue
                for k1, f1 in forms.items():
                    for k2, f2 in forms.items():
                        w.distinct((n, a, b, k1, k2))
                        w.case(f'hopping generator with {k1} {a} and {k2} {b} of {n} sites', generator_result, n, f1, a, f2, b)


sys.exit(pbpy.run('C21', body, rule='one case per (kind of modifier or generator, requested arguments, orbital shape, number of sites, element type, way to return '
    'the result), per refused form and per call signature; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['the compiled extension module is replaced by a stand-in with the same conversions and memory layouts (pybind11 is not installed)',
                 'positions are requested either as x, y, z or as sites: the coordinates of `sites` are always one-dimensional']))
