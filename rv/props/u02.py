import io, json, threading, time, urllib.request
from ..core import Family
from .. import gen
from nbc import util
ANCHORS = ['nbc/util/__init__.py']
RULE = 'random sets of prompt, slow, failing and never-ending sources under random time limits; JSON documents with the path present, absent, too long, through lists and scalars, and garbage; distinct = distinct scenarios'
ASSUMPTIONS = ['lateness is judged with a margin: sources answer at most at 85 % or after 250 % of the time limit', 'a source returning None counts as its answer', 'numbers in quotes, fractions, booleans and negative list positions are not judged']

class Coin(object):
    def __init__(self, g): self.block_height_guess = g

def guess(rng, mon, i):
    n = rng.choice([0, 1, 2, 4, 8, 12]); T = rng.choice([.3, .4, .5])
    hang = threading.Event(); release = threading.Event(); want = {}; late = []; guesses = []; calls = []; lock = threading.Lock()
    for j in range(n):
        name = 'source %d' % j; k = rng.choice(['prompt', 'prompt', 'delay', 'raise', 'late', 'hang', 'none', 'raise-late', 'base'])
        val = rng.choice([0, 1, 500000, rng.getrandbits(31), -1, 'text', None if k == 'none' else 7])
        if k == 'none': val = None
        d = rng.random() * rng.choice([.4, .4, .85]) * T if k == 'delay' else 2.5 * T if k in ('late', 'raise-late') else 0
        def f(name=name, k=k, val=val, d=d):
            with lock: calls.append(name)
            if d: time.sleep(d)
            if k == 'hang': hang.wait(20)
            if k in ('raise', 'raise-late'): raise rng_exc
            if k == 'base': raise ValueError('x') from KeyError('y')
            return val
        rng_exc = rng.choice([ValueError('no'), IOError('no'), KeyError('k'), Exception(), RuntimeError(b'\xff')])
        if k in ('prompt', 'delay', 'none'): want[name] = val
        if k in ('late', 'hang'): late.append(name)
        guesses.append((name, f)); mon.ev(k)
    rng.shuffle(guesses)
    t0 = time.monotonic(); c0 = time.process_time()
    r = mon.ok('raises', 'guess_block_height', util.guess_block_height, Coin(guesses), T)
    dt = time.monotonic() - t0
    snapshot = dict(r)
    try:
        mon.check(isinstance(r, dict), 'type', got=r)
        slowbox = dt > T + 1.5
        if not slowbox or late:
            mon.check(dt < T + 1.5 + (time.process_time() - c0), 'late', 'the call took %.2f s with a limit of %.2f s' % (dt, T), sources=n, late=late)
        if dt < T * 1.3 + .05:
            for k in snapshot: mon.check(k in want, 'extra', 'an answer of a failed or late source', source=k, value=snapshot[k])
            for k in want:
                if k not in snapshot and dt >= T * .99: mon.ev('starved'); continue       # the machine was too busy
                mon.check(k in snapshot and snapshot[k] == want[k] and type(snapshot[k]) == type(want[k]), 'answer', 'a source\'s answer is wrong or absent', source=k, got=snapshot.get(k, 'absent'), want=want[k])
        else: mon.ev('machine-busy')
        if not late and not any(g for g in guesses if False) and dt < T * .9: mon.ev('returned-early')
        mon.eq(sorted(set(calls)), sorted(calls), 'asked-twice', 'a source was asked more than once')
    finally: hang.set()
    time.sleep(2.5 * T - dt + .1 if late and 2.5 * T > dt else .02)
    mon.eq(r, snapshot, 'changed', 'answers that arrived later appeared in the result already returned')
    mon.ev('guesses'); mon.seen(i, n, T); mon.sample(sources=[g[0] for g in guesses], result=r)

def many(rng, mon, i):
    """many prompt sources: everybody's own answer"""
    n = 60; want = {'s%d' % j: rng.getrandbits(30) for j in range(n)}
    r = mon.ok('raises', 'guess_block_height', util.guess_block_height, Coin([(k, lambda v=v: v) for k, v in want.items()]), 20.0)
    mon.eq(r, want, 'answer', 'answers are mixed up or lost'); mon.ev('guesses'); mon.ev('prompt', n); mon.seen('many', i)
    # default limit
    r = util.guess_block_height(Coin([('a', lambda: 5)])); mon.eq(r, {'a': 5}, 'answer')

def limit(rng, mon, i):
    """hanging sources do not add up"""
    hang = threading.Event(); n = rng.choice([6, 10]); T = .4
    try:
        t0 = time.monotonic(); c0 = time.process_time()
        r = util.guess_block_height(Coin([('h%d' % j, lambda: hang.wait(20)) for j in range(n)] + [('a', lambda: 9)]), T)
        dt = time.monotonic() - t0
        mon.check(dt < T + 1.2 + 4 * (time.process_time() - c0), 'late', 'with %d hanging sources the call took %.2f s, limit %.2f s' % (n, dt, T))
        if dt < T + .6: mon.eq(r, {'a': 9}, 'answer')
        mon.ev('limits'); mon.seen('limit', i)
    finally: hang.set()

class Web(object):
    def __init__(self, body): self.body, self.urls, self.agents = body, [], []
    def __enter__(self):
        self.old = urllib.request.urlopen; self.names = [k for k, v in vars(util).items() if v is self.old]
        def op(req, *a, **k):
            u = req if isinstance(req, str) else req.full_url
            self.urls.append(u)
            if isinstance(self.body, Exception): raise self.body
            b = self.body
            class R(io.BytesIO):
                status = 200
                def __enter__(s): return s
                def __exit__(s, *a): pass
                def getcode(s): return 200
            return R(b)
        self.put(op); return self
    def put(self, f):
        urllib.request.urlopen = f
        for k in self.names: setattr(util, k, f)
    def __exit__(self, *a): self.put(self.old)

def document(rng, val, depth):
    """a document with val at a path"""
    path = []; doc = val
    for _ in range(depth):
        if rng.random() < .5:
            k = rng.choice(['height', 'data', 'last_block', 'nb', '0', '1', 'a b', 'ü', 'x%d' % rng.randrange(9)])
            d = {rng.choice(['z', 'y', 'other', '7']): rng.choice([1, None, [], 'x']) for _ in range(rng.randrange(3))}; d[k] = doc; doc = d; path.insert(0, k)
        else:
            l = [rng.choice([3, None, 'q', [1]]) for _ in range(rng.randrange(4))]; p = rng.randint(0, len(l)); l.insert(p, doc); doc = l; path.insert(0, str(p))
    return doc, path

def look(doc, path):
    for c in path:
        if isinstance(doc, dict):
            if c not in doc: return None
            doc = doc[c]
        elif isinstance(doc, list):
            if not c.isdigit() or int(c) >= len(doc): return None
            doc = doc[int(c)]
        else: return None
    return doc if type(doc) is int else None

def sources(rng, mon, i):
    url = 'http://127.0.0.1:1/%d?q=1' % i
    for _ in range(60):
        val = rng.choice([0, 1, -5, 480000, 2**31, 2**63, 10**30, rng.getrandbits(31), rng.getrandbits(31)])
        doc, path = document(rng, val, rng.randint(1, 5)); p = list(path)
        k = rng.randrange(10)
        if k == 0: p.append(rng.choice(['x', '0', '']))
        elif k == 1: p = p[:-1] or ['']
        elif k == 2: p[rng.randrange(len(p))] = rng.choice(['nope', '99', 'x', '', ' 0'])
        elif k == 3: doc, p = document(rng, rng.choice([None, {}, [], 'abc', {'a': 1}, [5], '']), rng.randint(1, 4))
        elif k == 4: p.insert(rng.randrange(len(p) + 1), rng.choice(['', 'data', '0']))
        body = json.dumps(doc).encode()
        garbage = rng.random() < .1
        if garbage: body = rng.choice([b'', body[:-1], b'<html>%d</html>' % abs(val), b'\xff\xfe', b'{', body + b'}', gen.raw(rng, 20) + b'{'])
        if p == [''] and not garbage and isinstance(doc, dict) and '' in doc: continue
        if ' 0' in p: continue
        want = None if garbage else look(doc, p)
        with Web(body) as w: st, got = mon.call(mon.ok('make-raises', 'fetch_url_json_path_int', util.fetch_url_json_path_int, url, '/'.join(p)))
        if want is None:
            mon.check(st == 'ok' and got is None, 'json-none', 'a value although path or content does not fit', body=body, path='/'.join(p), got=got); mon.ev('json-unfit')
        else: mon.check(st == 'ok' and got == want and type(got) is int, 'json', 'not the integer found at the path', body=body, path='/'.join(p), got=got, want=want); mon.ev('json-found')
        mon.eq(w.urls, [url], 'json-url', 'other address fetched'); mon.seen(body, tuple(p))
        # plain numbers
        body = rng.choice([b'%d' % val, b'%d\n' % val, b' %d ' % val]); want = val
        if rng.random() < .4: body = rng.choice([b'', b'x', b'12x', b'1.5', b'<html>', b'None', b'0x10', b'1 2', b'\xff', b'null']); want = None
        with Web(body) as w: st, got = mon.call(util.fetch_url_int(url))
        mon.check(st == 'ok' and got == want and type(got) is type(want), 'int', 'not the integer of the page', body=body, got=got, want=want); mon.eq(w.urls, [url], 'int-url'); mon.ev('int')
        # a source that cannot be reached gives no value, and is absent from (or without value in) the guess
    with Web(IOError('unreachable')):
        for f in (util.fetch_url_int(url), util.fetch_url_json_path_int(url, 'a')):
            st, got = mon.call(f); mon.check(st == 'exc' or got is None, 'unreachable', 'a value from an unreachable source', got=got)
            r = mon.ok('raises', 'guess', util.guess_block_height, Coin([('dead', f), ('live', lambda: 3)]), 10.0)
            mon.check(r.get('live') == 3 and r.get('dead') is None, 'unreachable', got=r)

FAMILIES = [Family('guess', guess, 40, 1500), Family('many', many, 12, 300), Family('limit', limit, 12, 200), Family('sources', sources, 40, 2000)]
REQUIRED = {'guesses': 45, 'prompt': 500, 'delay': 5, 'raise': 5, 'late': 5, 'hang': 5, 'limits': 12, 'json-found': 700, 'json-unfit': 400, 'int': 1500}
