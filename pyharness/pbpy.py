"""Shared by the harnesses of the Python layer: worker processes, case accounting, violations, evidence files.

The counterpart of harness/pbv.hpp: every worker enumerates the whole bounded space and executes each case whose number
is its own modulo the number of workers. The real package is imported from the repository, with `stubs/` (stand-ins for the
compiled extension module and for matplotlib, neither of which exists here) in front of it.
"""
import argparse, collections, json, multiprocessing, os, signal, sys, time, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBV_REPO', '/repo')
sys.dont_write_bytecode = True
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.join(HERE, 'stubs'))
warnings.simplefilter('ignore')


def _broken(kind, e, tb):
    traceback.print_exception(kind, e, tb)
    sys.stdout.flush()
    os._exit(2)


sys.excepthook = _broken  # an error outside of the cases is no answer


class Worker:
    def __init__(self, args, wid, jobs):
        self.args, self.wid, self.jobs = args, wid, jobs
        self.thorough = args.tier == 'thorough'
        self.total = 0
        self.counts = collections.Counter()
        self.maxima = {}
        self.samples, self.violations, self.hashes = [], [], set()

    def case(self, text, fn, *a, **kw):
        """Run fn(self, *a) as a case if it belongs to this worker"""
        i = self.total
        self.total += 1
        if self.args.only is not None:
            if i != self.args.only:
                return
        elif i % self.jobs != self.wid:
            return
        if len(self.violations) >= 60:
            return
        self.index, self.text = i, text
        self.counts['cases'] += 1
        n = self.counts['cases']
        if n & (n - 1) == 0 and len(self.samples) < 12:
            self.samples.append(text[:600])
        signal.alarm(120)
        try:
            fn(self, *a, **kw)
        except Exception:
            self.violation('raised', traceback.format_exc()[-3000:])
        finally:
            signal.alarm(0)

    def count(self, name, k=1):
        self.counts[name] += k

    def distinct(self, h):
        self.hashes.add(hash(h))

    def violation(self, key, what):
        self.violations.append((self.index, key, self.text, what))

    def check(self, ok, key, what=''):
        self.counts['checks'] += 1
        if not ok:
            self.violation(key, what() if callable(what) else str(what))
        return bool(ok)

    def raises(self, kinds, fn, key, what=''):
        """The call must be refused with one of the given kinds of exception"""
        self.counts['checks'] += 1
        self.counts['refused'] += 1
        try:
            r = fn()
        except kinds:
            return True
        except Exception as e:
            self.violation(key, f'{what}: refused with {type(e).__name__}: {e} instead of {kinds}')
            return False
        self.violation(key, f'{what}: accepted, result {r!r}'[:2000])
        return False


def _hang(*_):
    raise RuntimeError('the case does not end')


def _child(body, args, wid, jobs, conn):
    signal.signal(signal.SIGALRM, _hang)
    w = Worker(args, wid, jobs)
    err = None
    if args.only is None:
        sys.stdout = open(os.devnull, 'w')
    try:
        body(w)
    except Exception as e:
        last = traceback.extract_tb(e.__traceback__)[-1].filename
        if os.path.abspath(last).startswith(os.path.abspath(REPO) + os.sep):
            w.index, w.text = w.total, 'setting up the cases'
            w.violation('raised', traceback.format_exc()[-3000:])
        else:
            err = traceback.format_exc()
    conn.send((w.total, w.counts, w.maxima, w.samples, w.violations, w.hashes, err))
    conn.close()


def run(pid, body, rule, states, transitions, traces, assumptions):
    p = argparse.ArgumentParser()
    p.add_argument('--tier', default='quick')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--out', default='')
    p.add_argument('--replays', default='')
    p.add_argument('--known', default='')
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--only', type=int)
    p.add_argument('-v', action='store_true')
    args = p.parse_args()
    t0 = time.time()
    jobs = 1 if args.only is not None else args.jobs
    os.environ['PYTHONHASHSEED'] = '0'
    ctx = multiprocessing.get_context('fork')
    kids = []
    for wid in range(jobs):
        a, b = ctx.Pipe(False)
        q = ctx.Process(target=_child, args=(body, args, wid, jobs, b))
        q.start()
        b.close()
        kids.append((q, a))
    counts, maxima, samples, violations, hashes, error, total = collections.Counter(), {}, [], [], set(), '', 0
    for q, a in kids:
        try:
            t, c, m, s, v, h, e = a.recv()
        except EOFError:
            q.join()
            error = f'a worker ended with exit status {q.exitcode}'
            continue
        q.join()
        total = max(total, t)
        counts.update(c)
        for k, x in m.items():
            maxima[k] = max(x, maxima.get(k, x))
        samples += s[:4]
        violations += v
        hashes |= h
        error = error or e or ''
    known = open(args.known).read() if args.known and os.path.exists(args.known) else ''
    fresh, found = [], []
    for v in sorted(violations):
        line = f'finding: property={pid} key={v[1]} case={v[2]}\n'
        (found if line in known else fresh).append(v)
    for key in sorted({f'{v[1]} case={v[2]}' for v in found}):
        print(f'KNOWN-FINDING: property={pid} {key}')
    per = collections.Counter()
    written = 0
    for i, key, text, what in fresh:
        per[key] += 1
        if args.only is not None:
            print(f'violation [{key}] {text}\n{what}')
            continue
        if per[key] > 2 or written >= 8:
            continue
        path = os.path.join(args.replays or '.', f'{pid}-{args.tier}-{i}.txt')
        if args.replays:
            os.makedirs(args.replays, exist_ok=True)
            with open(path, 'w') as f:
                f.write(f'property: {pid}\ntier: {args.tier}\ncase number: {i}\ncase: {text}\nkind: {key}\n\n{what}\n\n'
                        f'replay: python3 tools/check.py {pid} --tier {args.tier} --only {i}\n')
        print(f'[{key}] case {i}: {text[:300]}\n  {what[-900:]}')
        if not error:
            print(f'VIOLATION property={pid} replay={path}')
        written += 1
    wall = time.time() - t0
    if args.out:
        doc = dict(property=pid, tier=args.tier, seed=args.seed, level='model_checking', coverage=dict(
            evaluations=counts['cases'], distinct_nontrivial=len(hashes), rule=rule, states=len(hashes) if states == 'distinct' else counts[states],
            transitions=counts[transitions], traces_validated_against_impl=counts[traces], exhaustive=not violations and not error,
            counters=dict(sorted(counts.items()), **{'max ' + k: v for k, v in maxima.items()}), samples=samples[:16]),
            assumptions=assumptions, wall_s=round(wall, 3), violations=len(fresh))
        with open(args.out, 'w') as f:
            json.dump(doc, f, indent=1)
    print(f"{pid}: {counts['cases']} cases, {len(hashes)} distinct, {len(fresh)} new violations, {wall:.1f} s")
    if error:
        print('harness error\n' + error)
        return 2
    if not counts['cases']:
        print('no case was run')
        return 2
    return 1 if fresh else 0
