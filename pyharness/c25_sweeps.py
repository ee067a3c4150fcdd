"""C25: a sweep puts every result at the place of its parameters, in whatever order the jobs end; result objects keep their axes."""
import io, itertools, math, os, pickle, shutil, sys, tempfile
import pbpy
import numpy as np
import matplotlib
import _pybinding as cpp
import pybinding as pb
from pybinding.parallel import ParallelFor
from pybinding.results import Bands, Eigenvalues, NDSweep, Path, Series, Sweep, make_path

SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='c25-')
    return SCRATCH


def schedules(n):
    """Every order of n productions (in sequence) and n retirements (each after its own production)"""
    def go(produced, live, done):
        if len(done) == 2 * n:
            yield tuple(done)
            return
        if produced < n:
            yield from go(produced + 1, live + [produced], done + [('p', produced)])
        for j in live:
            yield from go(produced, [x for x in live if x != j], done + [('r', j)])
    yield from go(0, [], [])


class FakeSolver:
    def report(self, shortform=False):
        return 'done'


class Job:
    """A deferred computation: the result exists only after compute() and is gone after the retirement"""
    solver = FakeSolver()

    def __init__(self, f):
        self.f, self.value = f, None

    def compute(self):
        self.value = self.f()

    @property
    def result(self):
        assert self.value is not None, 'the result was asked for before the computation'
        return self.value

    def destroy(self):
        self.value[...] = -12345.0


def outcome(values, energy, extra):
    return (sum((10.0 ** k) * v for k, v in enumerate(values)) + 1e-3 * np.atleast_1d(energy) + extra).reshape(-1, 1)


def make_factory(variables, energy, extra, threads, counter):
    """A factory of one to three variables, in a function (which gives the file its name)"""
    names = ['v', 'u', 't'][:len(variables)]
    scope = dict(pb=pb, Job=Job, outcome=outcome, counter=counter, variables=variables, default_energy=energy, default_extra=extra, threads=threads)
    text = f"""
def simulation(level=3):
    @pb.parallelize(num_threads=threads, queue_size=5, {', '.join(f'{n}=variables[{k}]' for k, n in enumerate(names))})
    def factory({', '.join(names)}, energy=default_energy, extra=default_extra):
        counter.append(({', '.join(names)},))
        values = ({', '.join(names)},)
        return Job(lambda: outcome(values, energy, extra))
    return factory
"""
    exec(text, scope)
    return scope['simulation']()


def sweep_case(w, kind, variables, energy, order, save_every, store):
    counter, seen, partial, firsts = [], [], [], []
    n = int(np.prod([len(v) for v in variables]))
    threads = 1 if order is None else 4
    factory = make_factory(variables, energy, 0.5, threads, counter)
    w.check(factory.config.filename == 'l3', 'file name', lambda: f'{factory.config.filename}')
    w.check((factory.config.num_threads, factory.config.queue_size) == (threads, 5), 'settings', 'threads')
    factory.config.save_every = save_every
    factory.config.pbar_fd = None
    path = os.path.join(scratch(), f'w{w.wid}') if store else None
    factory.config.filename = path
    factory.hooks.status.append(lambda deferred, idx, count: seen.append((idx, count)))
    factory.hooks.first.append(lambda deferred: firsts.append(deferred))
    jobs = {}

    def run(sequence, produce, retire, num_threads, queue_size):
        assert (num_threads, queue_size) == (threads, 5)
        for what, i in order:
            if what == 'p':
                jobs[i] = produce(sequence[i])
            else:
                jobs[i].compute()
                retire(jobs[i], i)
                jobs[i].destroy()
    cpp.parallel_for = run
    labels, tags = dict(title='title', x='x label'), dict(note=5)

    def plot(result):
        partial.append((len(seen), pickle.loads(pickle.dumps(result))))
    f = pb.parallel.sweep if kind == 'sweep' else pb.parallel.ndsweep
    out = sys.stdout
    r = f(factory, plot=plot, labels=labels, tags=tags, silent=False)
    w.check(sys.stdout is out, 'output', 'the standard output was not given back')
    combos = list(itertools.product(*variables))
    rows = np.array([outcome(c, energy, 0.5).ravel() for c in combos])
    w.check(counter == combos, 'jobs', lambda: f'{counter} instead of {combos}')
    retired = [i for what, i in order if what == 'r'] if order is not None else list(range(n))
    w.check(seen == [(i, k + 1) for k, i in enumerate(retired)], 'status', lambda: f'{seen} for {retired}')
    w.check(len(firsts) == 1 and isinstance(firsts[0], Job), 'first', 'hook')

    def right(result, done):
        want = np.array([rows[i] if i in done else rows[i] * 0 for i in range(n)])
        if kind == 'sweep':
            return (type(result) is Sweep and np.array_equal(result.x, variables[0]) and np.array_equal(result.y, np.atleast_1d(energy))
                    and np.array_equal(result.data, want))
        return (type(result) is NDSweep and len(result.variables) == len(variables) + 1 and all(np.array_equal(a, b) for a, b in zip(result.variables, (*variables, energy)))
                and np.array_equal(result.data, want.reshape([len(v) for v in variables] + [len(energy)])))
    w.check(right(r, range(n)), 'result', lambda: f'data\n{r.data}\ninstead of\n{rows}')
    w.check(r.labels['title'] == 'title' and r.tags == tags, 'result', 'labels')
    if store:
        w.check(len(partial) >= 1 and partial[-1][0] == n, 'partial', lambda: f'results after {[p[0] for p in partial]} of {n} jobs')
        for count, p in partial:
            w.check(right(p, retired[:count]), 'partial', lambda: f'after {retired[:count]}: {p.data}')
        w.check(right(pb.load(path), range(n)), 'stored', 'another result in the file')
    w.count('runs')


def parallel_for_case(w, n, order):
    """The plain loop: the results in a list"""
    counter = []
    values = [np.arange(n) * 2.0]
    factory = make_factory(values, np.array([1.0]), 0, 2, counter)
    factory.config.pbar_fd, factory.config.filename = None, None

    def run(sequence, produce, retire, num_threads, queue_size):
        jobs = {}
        for what, i in order:
            if what == 'p':
                jobs[i] = produce(sequence[i])
            else:
                jobs[i].compute()
                retire(jobs[i], i)
                jobs[i].destroy()
    cpp.parallel_for = run
    loop = ParallelFor(factory)
    for _ in range(2):
        r = loop()
        w.check(len(r) == n and all(np.array_equal(a, outcome([v], 1.0, 0)) for a, v in zip(r, values[0])), 'result', lambda: f'{r}')
    r = pb.parallel.parallel_for(factory, make_result=lambda data: sum(d.sum() for d in data if d is not None))
    w.check(abs(r - sum(outcome([v], 1.0, 0).sum() for v in values[0])) < 1e-9, 'result', lambda: f'{r}')


# ------------------------------------------------------------------------------------------------ result objects
def grid(nx, ny, dx, dy):
    x = np.cumsum([0.0] + [dx * (1 + 0.5 * (k % 2)) for k in range(nx - 1)])
    y = np.cumsum([-1.0] + [dy * (1 + 0.25 * (k % 3)) for k in range(ny - 1)])
    return x, y, np.arange(nx * ny).reshape(nx, ny) * 1.5 + 0.25


def cells(s):
    """{(x, y): value}"""
    x, y = np.ravel(s.x), np.ravel(s.y)
    return {(round(float(a), 9), round(float(b), 9)): float(s.data[i, j]) for i, a in enumerate(x) for j, b in enumerate(y)}


def consistent(w, s, text):
    return w.check(s.data.shape == (np.size(s.x), np.size(s.y)), 'shape', lambda: f'{text}: data {s.data.shape} for {np.size(s.x)} x {np.size(s.y)}')


def sweep_object(w, nx, ny):
    x, y, data = grid(nx, ny, 0.5, 0.75)
    tags, labels = dict(a=1), dict(title='T', x='$x$ (nm)')
    s = Sweep(x, y, data, labels, tags)
    all_cells = cells(s)

    def part(r, keep_x, keep_y, text, sign=None):
        if not consistent(w, r, text):
            return
        want = {k: v for k, v in all_cells.items() if k[0] in [round(float(a), 9) for a in keep_x] and k[1] in [round(float(b), 9) for b in keep_y]}
        w.check(cells(r) == want, 'sweep', lambda: f'{text}: {cells(r)} instead of {want}')
        w.check(r.tags == tags and r.labels == s.labels and type(r) is Sweep, 'sweep', f'{text}: labels')
    xs = [slice(a, b, c) for a in (None, 0, 1, -1) for b in (None, 1, 2, -1) for c in (None, 2, -1)] + list(range(-nx, nx)) + [x > 0.4, np.arange(nx) % 2 == 0]
    ys = [slice(a, b, c) for a in (None, 1) for b in (None, 2, -1) for c in (None, -1)] + list(range(-ny, ny))
    for ix in xs:
        if np.size(x[ix]) == 0:
            continue
        part(s[ix], np.atleast_1d(x[ix]), y, f'[{ix}]')
        w.check(np.array_equal(np.ravel(s[ix].x), np.atleast_1d(x[ix])), 'sweep', 'order')
        for iy in ys:
            if np.size(y[iy]) == 0:
                continue
            r = s[ix, iy]
            part(r, np.atleast_1d(x[ix]), np.atleast_1d(y[iy]), f'[{ix}, {iy}]')
    for ex in itertools.combinations([-0.1, *x, x[-1] + 1], 2):
        kx = x[(x >= ex[0]) & (x <= ex[1])]
        if len(kx):
            part(s.cropped(x=ex), kx, y, f'cropped x {ex}')
        for ey in itertools.combinations([-2, *y], 2):
            ky = y[(y >= ey[0]) & (y <= ey[1])]
            if len(kx) and len(ky):
                part(s.cropped(x=ex, y=ey), kx, ky, f'cropped {ex} {ey}')
                part(s.cropped(y=ey), x, ky, f'cropped y {ey}')
    for kx in itertools.combinations(range(nx), 2):
        for ky in itertools.combinations(range(ny), 2):
            part(s[np.ix_(kx, ky)], x[list(kx)], y[list(ky)], f'ix_ {kx} {ky}')
    part(s.cropped(), x, y, 'cropped to everything')
    m = s.mirrored('x')
    w.check(np.array_equal(m.x, np.concatenate((-x[:0:-1], x))) if nx > 1 else True, 'mirrored', lambda: f'{m.x}')
    consistent(w, m, 'mirrored')
    w.check(all(m.data[i, j] == all_cells[(round(abs(float(m.x[i])), 9), round(float(y[j]), 9))] for i in range(len(m.x)) for j in range(ny)), 'mirrored', 'x')
    t = Sweep(y, x, data.T, labels, tags).mirrored('y')
    w.check(np.array_equal(t.data, m.data.T) and np.array_equal(t.y, m.x) and np.array_equal(t.x, y), 'mirrored', 'y')
    w.raises(RuntimeError, lambda: s.mirrored('z'), 'mirrored', 'axis z')
    for name in (os.path.join(scratch(), f'w{w.wid}.dat'),):
        s.save_txt(name)
        lines = open(name).read().splitlines()
        rows = [tuple(float(v) for v in line.split()) for line in lines[1:]]
        want = [(x[i], y[j], data[i, j]) for i in range(nx) for j in range(ny)]
        w.check(lines[0].startswith('#') and np.allclose(rows, want, rtol=1e-5), 'text file', lambda: f'{rows} instead of {want}')
        pb.save(s, name)
        part(pb.load(name), x, y, 'stored')
    if nx > 1 and ny > 1:
        for kw, size in ((dict(mul=3), (3 * nx, ny)), (dict(mul=(1, 2)), (nx, 2 * ny)), (dict(mul=(2, 2)), (2 * nx, 2 * ny)), (dict(size=7), (7, ny)), (dict(size=(0, 9)), (nx, 9)),
                         (dict(size=(2 * nx - 1, 5)), (2 * nx - 1, 5)), ({}, (nx, ny))):
            r = s.interpolated(**kw)
            consistent(w, r, f'interpolated {kw}')
            w.check(r.data.shape == size, 'interpolated', lambda: f'{kw}: {r.data.shape} instead of {size}')
            w.check(np.isclose(r.x[0], x[0]) and np.isclose(r.x[-1], x[-1]) and np.isclose(r.y[0], y[0]) and np.isclose(r.y[-1], y[-1]), 'interpolated', 'ends')
            want = np.array([[np.interp(b, y, [np.interp(a, x, data[:, j]) for j in range(ny)]) for b in r.y] for a in r.x])
            w.check(np.allclose(r.data, want, atol=1e-9), 'interpolated', lambda: f'{kw}: {r.data} instead of {want}')
    for k, v in enumerate(x):
        d, at = s._slice_x(v + 0.1)
        w.check(np.array_equal(d, data[k]) and at == v, 'slice', 'x')
    for k, v in enumerate(y):
        d, at = s._slice_y(v - 0.1)
        w.check(np.array_equal(d, data[:, k]) and at == v, 'slice', 'y')
    part(s, x, y, 'original')


def nd_object(w, sizes):
    variables = tuple(np.arange(n) * (k + 0.5) for k, n in enumerate(sizes))
    flat = np.arange(np.prod(sizes)) * 0.5
    for data in (flat, flat.reshape(-1, sizes[-1]), flat.reshape(sizes)):
        s = NDSweep(variables, data, labels=dict(axes=['a', 'b', 'c'][:len(sizes)]), tags=dict(q=1))
        t = pickle.loads(pickle.dumps(s))
        for r in (s, t):
            w.check(r.data.shape == tuple(sizes), 'ND sweep', 'shape')
            for k, index in enumerate(itertools.product(*(range(n) for n in sizes))):
                w.check(r.data[index] == flat[k], 'ND sweep', lambda: f'{index}')
            w.check(all(np.array_equal(a, b) for a, b in zip(r.variables, variables)) and r.tags == dict(q=1), 'ND sweep', 'variables')
            w.check([r.labels[c] for c in 'xyz'[:min(3, len(sizes))]] == ['a', 'b', 'c'][:min(3, len(sizes))], 'ND sweep', 'labels')


def path_case(w, points, step):
    p = make_path(*points, step=step)
    ks = [np.atleast_1d(np.array(k, float)) for k in points]
    w.check(p.ndim == 2 and p.shape[1] == len(ks[0]), 'path', lambda: f'shape {p.shape}')
    w.check(len(p.point_indices) == len(ks) and p.point_indices[0] == 0 and p.point_indices[-1] == len(p) - 1, 'path', lambda: f'{p.point_indices} of {len(p)}')
    q = pickle.loads(pickle.dumps(p))
    for r in (p, q):
        w.check(np.allclose(np.asarray(r.points), ks, atol=1e-12), 'path', lambda: f'points {r.points} instead of {ks}')
    w.check(np.array_equal(np.asarray(p), np.asarray(q)) and q.is_simple == (len(ks) == 2) == p.is_simple, 'path', 'stored')
    for n, (a, b) in enumerate(zip(ks[:-1], ks[1:])):
        i, j = p.point_indices[n:n + 2]
        length = np.linalg.norm(b - a)
        count = j - i
        w.check(count >= 1 and np.allclose(np.asarray(p[i:j + 1]), [a + (b - a) * t / count for t in range(count + 1)], atol=1e-12), 'path', lambda: f'part {n}: {p[i:j + 1]}')
        if length >= step:
            w.check(step - 1e-9 <= length / count < 2 * step + 1e-9, 'path', lambda: f'part {n}: a distance of {length / count} instead of about {step}')
    d = np.asarray(p.as_1d())
    w.check(d.shape == (len(p),), 'path', lambda: f'one-dimensional form {d.shape}')
    if len(ks) == 2 and np.any(ks[0] != ks[1]):
        w.check(len(d) < 2 or (abs(np.diff(d)).min() > 0 and len(set(np.sign(np.diff(d)))) == 1), 'path', lambda: f'one-dimensional form {d}')
    elif len(ks) > 2:
        w.check(np.all(np.diff(d) > 0), 'path', 'one-dimensional form')
    e = np.arange(len(p) * 3).reshape(-1, 3) * 1.0
    b = Bands(p, e)
    pb.save(b, os.path.join(scratch(), f'w{w.wid}'))
    for r in (b, pb.load(os.path.join(scratch(), f'w{w.wid}.pbz')), pickle.loads(pickle.dumps(b))):
        w.check(np.array_equal(r.energy, e) and np.array_equal(np.asarray(r.k_path), np.asarray(p)) and list(r.k_path.point_indices) == list(p.point_indices) and r.num_bands == 3,
                'bands', lambda: f'{r.k_path.point_indices} instead of {p.point_indices}')
    if len(ks) >= 2:
        for bad in (ks[:-1] + [np.append(ks[-1], 1.0)],):
            w.raises(RuntimeError, lambda: make_path(*bad, step=step), 'path', 'points of different dimensions')


def series_case(w, n, columns):
    x = np.arange(n) * 0.5
    data = np.arange(n * columns).reshape(n, columns) * 1.0 if columns else np.arange(n) * 3.0
    s = Series(x, data, labels=dict(variable='E', data='D', columns='c'))
    pb.save(s, os.path.join(scratch(), f'w{w.wid}'))
    for r in (s, pb.load(os.path.join(scratch(), f'w{w.wid}.pbz'))):
        w.check(np.array_equal(r.variable, x) and np.array_equal(r.data, data) and r.labels == dict(variable='E', data='D', columns='c'), 'series', 'content')
        t = r.with_data(data * 2)
        w.check(np.array_equal(t.data, data * 2) and np.array_equal(r.data, data) and np.array_equal(t.variable, x) and t.labels == r.labels, 'series', 'with_data')
        if columns:
            t = r.reduced()
            w.check(np.allclose(t.data, [sum(row) for row in data]) and t.data.shape == (n,) and np.array_equal(r.data, data), 'series', 'reduced')
    for p in (None, data if not columns else data[:, 0]):
        e = Eigenvalues(x, p)
        for r in (e, pickle.loads(pickle.dumps(e))):
            w.check(np.array_equal(r.values, x) and list(r.indices) == list(range(n)) and (p is None or np.array_equal(r.probability, p)), 'eigenvalues', 'content')


def body(w):
    thorough = w.thorough
    energy = np.array([0.0, 0.5, 1.5])
    linspace = lambda n: np.linspace(0.5, 2, n)
    for n in range(1, 6 if not thorough else 7):
        for order in schedules(n):
            for save_every in (10.0, 34.0, 50.0, 100.0) if n < 5 else (10.0, 34.0):
                store = n < 5 or sum(i * (k + 1) for k, (_, i) in enumerate(order)) % (4 if n == 5 else 16) == 0
                w.distinct(('sweep', order, save_every))
                w.case(f'sweep of {n}, order {"".join(a + str(b) for a, b in order)}, saved every {save_every} %', sweep_case, 'sweep', [linspace(n)], energy, order, save_every, store)
            for a, b, c in ((n, 1, 1), (1, n, 1), (2, n // 2, 1), (n // 2, 1, 2), (1, 1, n)):
                if a * b * c != n or (n == 5 and not thorough and a != n):
                    continue
                for dims in (1, 2, 3):
                    sizes = (a, b, c)[:dims]
                    if np.prod(sizes) == n:
                        w.distinct(('ndsweep', order, sizes))
                        w.case(f'sweep of {sizes}, order {"".join(a + str(b) for a, b in order)}', sweep_case, 'ndsweep', [linspace(s) * (k + 1) for k, s in enumerate(sizes)], energy, order, 30.0, n < 4)
            w.case(f'loop of {n}, order {"".join(a + str(b) for a, b in order)}', parallel_for_case, n, order)
        for e in (energy, np.array([0.25])):
            w.case(f'sweep of {n} without threads, {len(e)} energies', sweep_case, 'sweep', [linspace(n)], e, None, 10.0, True)
            w.case(f'sweep of {n} x 2 without threads, {len(e)} energies', sweep_case, 'ndsweep', [linspace(n), linspace(2)], e, None, 10.0, True)
    for n in (7, 10, 11, 23, 40):  # more jobs: the orders of a few kinds
        fifo = [x for i in range(n) for x in (('p', i), ('r', i))]
        lifo = [('p', i) for i in range(n)] + [('r', i) for i in reversed(range(n))]
        swap = [('p', i) for i in range(n)] + [('r', i) for i in sorted(range(n), key=lambda i: (i % 3, i))]
        for order in (fifo, lifo, swap):
            for save_every in (10.0, 3.0, 25.0):
                w.case(f'sweep of {n}, order {order[:6]}..., saved every {save_every} %', sweep_case, 'sweep', [linspace(n)], energy, tuple(order), save_every, True)
    for nx in range(1, 6):
        for ny in range(1, 5):
            w.distinct(('object', nx, ny))
            w.case(f'sweep object {nx} x {ny}', sweep_object, nx, ny)
    for dims in (1, 2, 3, 4):
        for sizes in itertools.product((1, 2, 3), repeat=dims):
            w.distinct(('nd', sizes))
            w.case(f'ND sweep object {sizes}', nd_object, sizes)
    points = {1: [0, 0.05, 1, -0.7, 2.5], 2: [(0, 0), (1, 0), (0.3, -0.4), (0.02, 0.01), (1, 1)], 3: [(0, 0, 0), (0, 0, 1), (0.5, 0.25, 0), (-1, 1, 0.03)]}
    for dim, ps in points.items():
        for length in (2, 3, 4) if not thorough else (2, 3, 4, 5):
            for c in itertools.product(ps, repeat=length):
                if any(a == b for a, b in zip(c[:-1], c[1:])):
                    continue
                for step in (0.1, 0.33, 2.0):
                    w.distinct(('path', c, step))
                    w.case(f'path through {c}, step {step}', path_case, c, step)
    for n in (1, 2, 5):
        for columns in (0, 1, 3):
            w.distinct(('series', n, columns))
            w.case(f'series of {n}, {columns} columns', series_case, n, columns)
    if SCRATCH:
        shutil.rmtree(SCRATCH)


sys.exit(pbpy.run('C25', body, rule='one case per (sweep, complete order of the productions and retirements of its jobs, save interval), per size of a result object (every slice, crop and '
    'mirror of it within) and per path; distinct = different combinations', states='distinct', transitions='checks', traces='cases',
    assumptions=['the loop which runs the jobs in threads (checked on the real core by C14) is replaced by one which plays every order it allows',
                 'pybind11 is not installed, matplotlib is replaced by a stand-in: nothing is drawn']))
