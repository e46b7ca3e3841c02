"""Harness: runs the case families of one property in parallel worker processes,
collects what the monitors observed, writes evidence and decides the verdict."""
import collections, hashlib, importlib, io, itertools, json, multiprocessing, os, pickle, random, resource
import shutil, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NBC = os.path.join(REPO, 'nbc') + os.sep


def everywhere(real, fake):
    """puts a stand-in wherever the project's modules hold the real function under a name of their own"""
    for m in [m for n, m in list(sys.modules.items()) if n.split('.')[0] == 'nbc' and m is not None]:
        for k, v in list(vars(m).items()):
            if v is real: setattr(m, k, fake)

class Violation(Exception):
    """The observed execution contradicts the property."""
    def __init__(self, key, msg, witness=None):
        Exception.__init__(self, '%s: %s' % (key, msg))
        self.key, self.msg, self.witness = key, msg, witness
        if Violation.first is None: Violation.first = self
    first = None      # the first one of the running case: code under test may swallow it (the node does)


class Inconclusive(Exception):
    """The environment prevented a verdict for this case."""


class CpuExceeded(BaseException):
    pass


class WallExceeded(BaseException):
    pass


class StepLimit(BaseException):
    pass


def short(v, n=400):
    try:
        s = repr(v)
    except Exception as e:
        s = '<unrepresentable %s: %r>' % (type(v).__name__, e)
    return s if len(s) <= n else s[:n - 20] + '...(%d chars)' % len(s)


class Mon(object):
    """Records what one case observed."""
    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.samples = []
        self.first = None

    def ev(self, name, n=1):
        self.events[name] += n

    def seen(self, *key):
        """Counts a distinct, non-trivial case or state."""
        self.keys.add(hashlib.blake2b(repr(key).encode('utf-8', 'replace'), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append({k: short(v, 200) for k, v in kw.items()})

    def check(self, cond, key, msg='', /, **witness):
        if not cond:
            raise Violation(key, msg, {k: short(v) for k, v in witness.items()})

    def eq(self, got, want, key, msg='', /, **witness):
        if type(got) is bool and type(want) is not bool or not (got == want):
            witness = dict(witness, got=got, want=want)
            raise Violation(key, msg, {k: short(v) for k, v in witness.items()})

    def call(self, fn, *a, **k):
        """('ok', value) or ('exc', exception)"""
        try:
            return 'ok', fn(*a, **k)
        except (Violation, Inconclusive):
            raise
        except Exception as e:
            return 'exc', e

    def trial(self, fn, *a, **k):
        """True if fn finds no violation (used to tell which of several outcomes was observed)."""
        kept = Violation.first
        try: fn(*a, **k)
        except Violation: Violation.first = kept; return False
        return True

    def refused(self, key, msg, fn, *a, **k):
        """fn must raise an Exception."""
        st, v = self.call(fn, *a, **k)
        if st == 'ok':
            raise Violation(key, msg, {'args': short(a), 'kw': short(k), 'returned': short(v)})
        if isinstance(v, NameError):      # a misspelt name is a crash, nobody refuses anything that way
            raise Violation(key + '-crash', '%s: %s instead of a refusal' % (msg, type(v).__name__), {'args': short(a), 'kw': short(k), 'error': short(v)})
        self.ev('refused')
        return v

    def ok(self, key, msg, fn, *a, **k):
        """fn must return."""
        st, v = self.call(fn, *a, **k)
        if st == 'exc':
            raise Violation(key, '%s raised %s: %s' % (msg, type(v).__name__, v),
                            {'args': short(a), 'kw': short(k),
                             'trace': traceback.format_exception(type(v), v, v.__traceback__)[-3:]})
        return v


class Family(object):
    """fn(rng, mon, i) judges case i.  quick/thorough: number of cases.
    exhaustive: the family's index set is the whole (finite) space of that tier."""
    def __init__(self, name, fn, quick, thorough=None, exhaustive=False, cpu=60, wall=240, serial=False):
        self.name, self.fn, self.exhaustive, self.cpu, self.wall = name, fn, exhaustive, cpu, wall
        self.counts = {'quick': quick, 'thorough': quick * 20 if thorough is None else thorough}
        self.serial = serial        # never two such cases at once


def rng_for(seed, prop, fam, i):
    return random.Random('%s/%s/%s/%s' % (seed, prop, fam, i))


# ------------------------------------------------------------------ step guard
_STEP_TOOL = 4
class StepGuard(object):
    """Counts lines executed by repository code; stops the run beyond a limit."""
    def __init__(self, limit):
        self.limit, self.count = limit, 0
    def __enter__(self):
        m = sys.monitoring; E = m.events
        m.use_tool_id(_STEP_TOOL, 'rv-steps')
        def tick(code, *a):
            if not code.co_filename.startswith(NBC):
                return m.DISABLE
            self.count += 1
            if self.count > self.limit:
                raise StepLimit('more than %d steps' % self.limit)
        for e in (E.LINE, E.PY_START, E.JUMP):
            m.register_callback(_STEP_TOOL, e, tick)
        m.set_events(_STEP_TOOL, E.LINE | E.PY_START | E.JUMP)
        m.restart_events()
        return self
    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(_STEP_TOOL, 0)
        for e in (m.events.LINE, m.events.PY_START, m.events.JUMP):
            m.register_callback(_STEP_TOOL, e, None)
        m.free_tool_id(_STEP_TOOL)


class MemGuard(object):
    """measures the most memory held at a time by what ran inside"""
    peak = 0
    def __enter__(self): import tracemalloc; tracemalloc.start(1); self.t = tracemalloc; return self
    def __exit__(self, *a): self.peak = self.t.get_traced_memory()[1]; self.t.stop()

def out_of_memory(e):
    """a MemoryError is behind this exception"""
    n = 0
    while e is not None and n < 50:
        if isinstance(e, MemoryError): return True
        e = e.__cause__ or e.__context__; n += 1
    return False

# ------------------------------------------------------------------ reach
_COV_TOOL = 3
_lines = set()
def start_reach():
    m = sys.monitoring
    m.use_tool_id(_COV_TOOL, 'rv-reach')
    def line(code, ln):
        f = code.co_filename
        if f.startswith(NBC):
            _lines.add((f[len(NBC):], ln))
        return m.DISABLE
    m.register_callback(_COV_TOOL, m.events.LINE, line)
    m.set_events(_COV_TOOL, m.events.LINE)


def code_lines(path):
    """all line numbers holding code inside functions of a file"""
    try:
        top = compile(open(path).read(), path, 'exec')
    except Exception:
        return set()
    out, todo = set(), [c for c in top.co_consts if hasattr(c, 'co_code')]
    while todo:
        c = todo.pop()
        todo += [k for k in c.co_consts if hasattr(k, 'co_code')]
        out.update(l for (_, _, l) in c.co_lines() if l and l != c.co_firstlineno)
    return out


# ------------------------------------------------------------------ running
def judge(prop, fam, seed, i, mon):
    """Runs one case; returns None, or a dict describing a violation / an inconclusive case."""
    def on_cpu(*a): raise CpuExceeded()
    def on_wall(*a): raise WallExceeded()
    signal.signal(signal.SIGVTALRM, on_cpu)
    signal.signal(signal.SIGALRM, on_wall)
    signal.setitimer(signal.ITIMER_VIRTUAL, fam.cpu, 5)
    signal.setitimer(signal.ITIMER_REAL, fam.wall, 5)
    out = Violation.first = None
    try:
        try:
            fam.fn(rng_for(seed, prop, fam.name, i), mon, i)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        out = {'kind': 'violation', 'key': e.key, 'msg': e.msg, 'witness': e.witness}
    except Inconclusive as e:
        out = {'kind': 'inconclusive', 'msg': str(e)}
    except CpuExceeded:
        out = {'kind': 'violation', 'key': 'no-answer', 'msg': 'no answer within %d s of processor time (cases take a fraction of a second)' % fam.cpu,
               'witness': traceback.format_exc().splitlines()[-8:]}
    except WallExceeded:
        out = {'kind': 'inconclusive', 'msg': 'case exceeded %d s of wall time' % fam.wall,
               'trace': traceback.format_exc().splitlines()[-8:]}
    except (MemoryError, PermissionError, BlockingIOError, ImportError, NameError, AttributeError) as e:
        out = from_tb(e, default='violation' if 'NoneType' in str(e) else 'inconclusive')
    except Exception as e:
        out = from_tb(e, default='violation')
    e = Violation.first
    if e is not None: out = {'kind': 'violation', 'key': e.key, 'msg': e.msg, 'witness': e.witness}
    if out is not None:
        out.update(family=fam.name, index=i, seed=seed)
    return out


def from_tb(e, default):
    tb = traceback.extract_tb(e.__traceback__)
    inrepo = [f for f in tb if f.filename.startswith(NBC)]
    kind = 'violation' if inrepo and not isinstance(e, (MemoryError, PermissionError)) else default
    where = inrepo[-1].name if inrepo else 'result'
    return {'kind': kind, 'key': 'unexpected-%s-in-%s' % (type(e).__name__, where), 'msg': str(e)[:300],
            'witness': traceback.format_exc().splitlines()[-12:]}


def worker(w, nw, prop, fams, seed, tier, order, nxt, stop, outpath, listed):
    dn = open(os.devnull, 'w')
    sys.stdout = dn; sys.stderr = dn
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))  # code gone wild must not take the machine with it
    random.seed('%s/%s/%d' % (seed, prop, w))
    res = {'events': collections.Counter(), 'keys': {}, 'samples': {}, 'cases': collections.Counter(),
           'viol': [], 'inc': [], 'lines': None, 'slow': {}}
    try:
        CH = 1 if len(order) < 400 else 4
        while not stop.value:
            with nxt.get_lock():
                a = nxt.value; nxt.value = a + CH
            if a >= len(order): break
            for fi, i in order[a:a + CH]:
                if stop.value: break
                fam = fams[fi]; mon = Mon()
                t0 = time.process_time()
                out = judge(prop, fam, seed, i, mon)
                dt = time.process_time() - t0
                if dt > res['slow'].get(fam.name, 0): res['slow'][fam.name] = dt
                res['cases'][fam.name] += 1
                res['events'].update(mon.events)
                res['keys'].setdefault(fam.name, set()).update(mon.keys)
                if mon.samples and len(res['samples'].setdefault(fam.name, [])) < 1:
                    res['samples'][fam.name] += mon.samples[:1]
                if out:
                    if out['kind'] == 'violation':
                        if not any(v['key'] == out['key'] for v in res['viol']): res['viol'].append(out)
                        if out['key'] not in listed: stop.value = 1
                    elif len(res['inc']) < 5: res['inc'].append(out)
    except BaseException:
        res['inc'].append({'kind': 'inconclusive', 'msg': 'worker failed', 'trace': traceback.format_exc().splitlines()[-12:]})
    res['lines'] = set(_lines)
    with open(outpath, 'wb') as f: pickle.dump(res, f)
    os._exit(0)


def known(prop):
    """open known findings of a property: key -> text"""
    out = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            w = l.split()
            if l.startswith('open:') and w[1] == 'property=' + prop and w[2].startswith('key='):
                out[w[2][4:]] = ' '.join(w[3:])
    return out


def load(prop):
    sys.path.insert(0, REPO)
    mod = importlib.import_module('rv.props.' + prop.lower())
    if getattr(mod, 'OPTIMIZE', 0) > sys.flags.optimize:       # the check asks for python -O
        os.environ['PYTHONOPTIMIZE'] = str(mod.OPTIMIZE); sys.stdout.flush()
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import nbc
    if not os.path.abspath(nbc.__file__).startswith(NBC):
        raise SystemExit('nbc is imported from %s, not from %s' % (nbc.__file__, REPO))
    return mod


def scratch():
    return tempfile.mkdtemp(prefix='rv-')


def run(prop, tier, seed, only=None):
    t0 = time.time()
    start_reach()
    mod = load(prop)
    fams = [f for f in mod.FAMILIES if not only or f.name in only]
    if hasattr(mod, 'setup'): mod.setup(tier)
    order = []
    for fi, f in enumerate(fams):
        n = f.counts[tier]
        order += [((i + 0.5) / n, fi, i) for i in range(n)]
    order.sort()
    order = [(fi, i) for _, fi, i in order]
    listed = known(prop)
    ctx = multiprocessing.get_context('fork')
    nxt, stop = ctx.Value('l', 0), ctx.Value('i', 0)
    nw = max(1, min(getattr(mod, 'WORKERS', 8), os.cpu_count() or 8, len(order)))
    tmp = tempfile.mkdtemp(prefix='rvrun-')
    os.environ['TMPDIR'] = tmp; tempfile.tempdir = tmp
    results = []
    try:
        procs = []
        for w in range(nw):
            p = ctx.Process(target=worker, args=(w, nw, prop, fams, seed, tier, order, nxt, stop, os.path.join(tmp, 'r%d' % w), listed))
            p.start(); procs.append(p)
        cap = t0 + (780 if tier == 'quick' else 6 * 3600)
        for p in procs:
            while p.is_alive() and time.time() < cap: p.join(1)
            if p.is_alive():
                stop.value = 1
                p.join(30)
                if p.is_alive(): p.kill(); p.join()
        for w in range(nw):
            fn = os.path.join(tmp, 'r%d' % w)
            if os.path.exists(fn): results.append(pickle.load(open(fn, 'rb')))
            else: results.append(None)
        final = mod.teardown(tier) if hasattr(mod, 'teardown') else None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev, cases, keys, samples, viol, inc, lines, slow = collections.Counter(), collections.Counter(), {}, [], [], [], set(_lines), {}
    for r in results:
        if r is None: inc.append({'msg': 'a worker process died', 'family': '?', 'index': -1}); continue
        ev.update(r['events']); cases.update(r['cases']); lines |= r['lines']
        for k, s in r['keys'].items(): keys.setdefault(k, set()).update(s)
        for k, s in r['samples'].items():
            if len([1 for x in samples if x['family'] == k]) < 2: samples += [dict(family=k, **x) for x in s]
        viol += r['viol']; inc += r['inc']
        for k, v in r['slow'].items(): slow[k] = max(v, slow.get(k, 0))
    # one violation per key, smallest index first
    byk = {}
    for v in sorted(viol, key=lambda v: v['index']): byk.setdefault(v['key'], v)
    new = [v for k, v in byk.items() if k not in listed]
    reach = {}
    for f in mod.ANCHORS:
        want = code_lines(os.path.join(REPO, f)); got = {l for (n, l) in lines if 'nbc/' + n == f}
        reach[f] = '%d of %d function lines executed' % (len(got & want), len(want))
    missing = {k: n for k, n in getattr(mod, 'REQUIRED', {}).items() if ev[k] < n}
    short_f = [f.name for f in fams if cases[f.name] < f.counts[tier]]
    cov = {'evaluations': sum(cases.values()), 'distinct_nontrivial': sum(len(s) for s in keys.values()),
           'rule': mod.RULE, 'samples': samples[:12] or [{'family': 'none'}],
           'cases_per_family': dict(cases), 'distinct_per_family': {k: len(s) for k, s in keys.items()},
           'observed_events': dict(sorted(ev.items())),
           'exhaustive_families': [f.name for f in fams if f.exhaustive and cases[f.name] >= f.counts[tier]],
           'reach': reach, 'slowest_case_cpu_s': {k: round(v, 2) for k, v in slow.items()}, 'workers': nw}
    level = getattr(mod, 'LEVEL', 'exploration')
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
           'inconclusive': inc[:5], 'known_findings': sorted(k for k in byk if k in listed)}
    edir = os.environ.get('VERIF_EVIDENCE_DIR', os.path.join(VERIF, 'evidence'))
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(evd, f, indent=1, sort_keys=True, default=short)
    for k, txt in listed.items(): print('KNOWN-FINDING: property=%s %s' % (prop, txt))
    print('%s %s seed=%d: %d cases, %d distinct, %.1f s' % (prop, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], time.time() - t0))
    if new:
        rdir = os.environ.get('VERIF_REPLAY_DIR', os.path.join(VERIF, 'replays'))
        os.makedirs(rdir, exist_ok=True)
        for v in new[:5]:
            path = os.path.join(rdir, '%s-%s-%s.json' % (prop, v['family'], v['index']))
            with open(path, 'w') as f: json.dump(dict(v, property=prop, tier=tier), f, indent=1, default=short)
            print('  %s [%s #%s] %s' % (v['key'], v['family'], v['index'], short(v['msg'], 600)))
            print('  witness: %s' % short(v['witness'], 1500))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    bad = []
    if inc: bad.append('inconclusive cases: %s' % short(inc[:3], 2500))
    if missing and not only: bad.append('monitored events not reached: %s (have %s)' % (missing, {k: ev[k] for k in missing}))
    if short_f: bad.append('families cut short: %s' % short_f)
    if bad:
        print('INCONCLUSIVE ' + '; '.join(bad)); return 2
    return 0


def replay(path):
    v = json.load(open(path))
    prop = v['property']
    start_reach()
    mod = load(prop)
    if hasattr(mod, 'setup'): mod.setup(v.get('tier', 'quick'))
    fam = [f for f in mod.FAMILIES if f.name == v['family']][0]
    tmp = tempfile.mkdtemp(prefix='rvrun-'); tempfile.tempdir = tmp
    so = sys.stdout; sys.stdout = open(os.devnull, 'w')
    try: out = judge(prop, fam, v['seed'], v['index'], Mon())
    finally:
        sys.stdout = so
        if hasattr(mod, 'teardown'): mod.teardown('quick')
        shutil.rmtree(tmp, ignore_errors=True)
    print(json.dumps(out, indent=1, default=short))
    if out and out['kind'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (prop, path)); return 1
    return 0 if out is None else 2
