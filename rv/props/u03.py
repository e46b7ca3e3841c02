import collections, random, socket, sys, threading, time
from ..core import Family, NBC, Inconclusive
from .. import gen
from nbc.util import bootstrap
from nbc.util.bootstrap import DNSSeeder
ANCHORS = ['nbc/util/bootstrap.py']
RULE = 'random seed lists and answers (duplicates, failures, delays, malformed entries), concurrent takers and length readers, thread switches injected at random lines of the seeder and inside the random choice; distinct = distinct scenarios'
ASSUMPTIONS = ['lookups go through socket.getaddrinfo; names with an IPv4 answer each']
WORKERS = 8

class Lookups(object):
    """stands in for the resolver"""
    def __init__(self, answers): self.answers, self.asked, self.lock, self.done = answers, [], threading.Lock(), 0
    def __enter__(self): self.real = socket.getaddrinfo; self.names = [k for k, v in vars(bootstrap).items() if v is self.real]; self.put(self); return self
    def put(self, f):
        socket.getaddrinfo = f
        for k in self.names: setattr(bootstrap, k, f)
    def __exit__(self, *a): self.put(self.real)
    def __call__(self, host, port, *a, **k):
        with self.lock: self.asked.append((host, port))
        x = self.answers[host]
        if x.get('delay'): time.sleep(x['delay'])
        if x.get('gate'): x['gate'].wait(20)
        if x.get('raise') is not None: raise x['raise']
        def it():
            for e in x['infos']:
                if isinstance(e, float): time.sleep(e); continue
                if isinstance(e, Exception): raise e
                yield e
        return it() if x.get('lazy') else [e for e in x['infos'] if not isinstance(e, (float, Exception))]

def info(ip, port): return (socket.AF_INET, socket.SOCK_STREAM, 6, '', (ip, port))

class Jitter(object):
    """switches threads at random lines of the seeder and inside the random choice"""
    def __init__(self, rng, p): self.rng, self.p, self.n = random.Random(rng.random()), p, 0
    def nap(self):
        if self.rng.random() < self.p: self.n += 1; time.sleep(self.rng.choice([0, 0, .0001, .001]))
    def trace(self, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(NBC): return None
        def local(f, e, a):
            if e == 'line': self.nap()
            return local
        return local
    def __enter__(self):
        self.sw = sys.getswitchinterval(); sys.setswitchinterval(1e-5); threading.settrace(self.trace)
        self.choice = random.choice
        def ch(*a, **k):
            v = self.choice(*a, **k); self.nap(); return v
        random.choice = ch; return self
    def __exit__(self, *a): sys.setswitchinterval(self.sw); threading.settrace(None); random.choice = self.choice

def build(rng):
    """seeds and what each lookup answers"""
    seeds, ans, want = [], {}, collections.Counter(); pool = [('10.%d.%d.%d' % (rng.randrange(256), rng.randrange(256), rng.randrange(1, 255)), rng.choice([8333, 20303, rng.randint(1, 65535)])) for _ in range(12)]
    for j in range(rng.choice([0, 1, 2, 3, 5, 8])):
        host, port = 'seed%d.example' % j, rng.choice([8333, 20303]); x = {'infos': []}; good = []
        for _ in range(rng.choice([0, 1, 2, 5, 20])):
            a = rng.choice(pool); x['infos'].append(info(*a)); good.append(a)
            if rng.random() < .1: x['infos'].append(rng.choice([.0005, .002]))
        k = rng.random()
        if k < .2: x['raise'] = rng.choice([socket.gaierror(-2, 'no such host'), OSError('net'), UnicodeError('label'), RuntimeError('x')]); good = []
        elif k < .35:
            x['lazy'] = 1; p = rng.randint(0, len(x['infos'])); x['infos'].insert(p, rng.choice([OSError('half way'), ValueError('bad')])); good = [e[4] for e in x['infos'][:p] if isinstance(e, tuple)]
        elif k < .5 and x['infos']:
            bad = rng.choice([(2, 1, 6, '', ()), (2, 1, 6), (2, 1, 6, '', None), ()]); p = rng.randint(0, len(x['infos'])); x['infos'].insert(p, bad); x['odd'] = 1
        if rng.random() < .3: x['delay'] = rng.choice([0, .001, .01, .05])
        ans[host] = x; seeds.append((host, port)); want.update(good)
    if rng.random() < .15: seeds.insert(rng.randint(0, len(seeds)), rng.choice([None, ('only-host',), (), 5, ('a', 1, 2)]))
    if ans and rng.random() < .15:                                  # a seed that knows many
        host = rng.choice([h for h in ans]); many = [('11.%d.%d.%d' % (rng.randrange(256), rng.randrange(256), rng.randrange(256)), 8333) for _ in range(rng.choice([101, 257, 1000]))]
        if not ans[host].get('raise') and not ans[host].get('odd') and not ans[host].get('lazy'): ans[host]['infos'] += [info(*a) for a in many]; want.update(many); ans[host]['many'] = 1
    return seeds, ans, want

def settle(before):
    for t in list(threading.enumerate()):
        if t not in before and t is not threading.current_thread(): t.join(20)
        if t not in before and t.is_alive() and t is not threading.current_thread(): raise Inconclusive('a lookup thread hangs')

def scenario(rng, mon, i):
    seeds, ans, want = build(rng); before = set(threading.enumerate())
    log, lk = [], threading.Lock(); taken = []; stop = threading.Event(); bad = []
    total = sum(want.values())
    with Lookups(ans) as L, Jitter(rng, rng.choice([0, .1, .3])) as J:
        st, s = mon.call(DNSSeeder, seeds)
        mon.check(st == 'ok', 'start-raises', 'the seeder does not start: %r' % s)
        def taker(r):
            while not stop.is_set():
                try: a = s.pop()
                except IndexError: time.sleep(.0003); continue
                except Exception as e: bad.append(e); return
                with lk: taken.append(a)
                if r.random() < .3: time.sleep(.0005)
        def counter():
            while not stop.is_set():
                with lk: lo_taken = len(taken)
                n = len(s)
                with lk: log.append((n, lo_taken))
                time.sleep(.0003)
        nt = rng.choice([0, 1, 2, 4, 8])
        ts = [threading.Thread(target=taker, args=(random.Random(rng.random()),), daemon=True) for _ in range(nt)] + [threading.Thread(target=counter, daemon=True) for _ in range(rng.choice([0, 1]))]
        mine = set(before) | set(ts)
        for t in ts: t.start()
        settle(mine)
        if nt and rng.random() < .7:
            end = time.time() + 10
            while time.time() < end and len(taken) < total: time.sleep(.001)
        stop.set()
        for t in ts: t.join(20)
        if any(t.is_alive() for t in ts): raise Inconclusive('taker hangs')
        mon.ev('switches', J.n)
    mon.check(not bad, 'pop-raises', 'taking raised %r' % bad[:1], seeds=seeds)
    held = len(s); rest = []
    while True:
        st, a = mon.call(s.pop)
        if st == 'exc': break
        rest.append(a)
        if len(rest) > total + 50: break
    odd = any(x.get('odd') for x in ans.values())
    got = collections.Counter(tuple(a) for a in taken + rest)
    if odd:                                  # whether entries after a malformed one of the same answer count is not judged; others are
        sure = collections.Counter(e[4] for h, x in ans.items() if not x.get('odd') and x.get('raise') is None for e in self_infos(x))
        mon.check(not sure - got, 'lost', 'found addresses are lost', lost=sure - got); mon.check(not got - want, 'invented', 'addresses were handed out that no lookup found', extra=got - want)
    else:
        mon.check(not want - got, 'lost', 'found addresses are lost', lost=want - got, asked=L.asked); mon.check(not got - want, 'invented', 'addresses are duplicated or invented', extra=got - want)
    mon.eq(held, len(rest), 'held', 'the length is not the number held')
    for n, t in log: mon.check(0 <= n <= total - t, 'length', 'length %d reported with %d found in all and %d taken before' % (n, total, t))
    for h, p in seeds and [x for x in seeds if isinstance(x, tuple) and len(x) == 2] or []: mon.eq(L.asked.count((h, p)), 1, 'asked', 'seed %s looked up other than once' % h)
    mon.eq(len(s), 0, 'empty-length'); mon.refused('empty', 'taking from an empty seeder gave something', s.pop)
    mon.ev('scenarios'); mon.ev('taken', len(taken)); mon.ev('rest', len(rest)); mon.ev('lengths', len(log)); mon.seen(i, tuple(map(str, seeds)), total, len(taken))
    if any(x.get('many') for x in ans.values()): mon.ev('many')
    if total and nt > 1: mon.ev('contended')
    mon.sample(seeds=seeds, taken=len(taken), left=len(rest))

def self_infos(x):
    out = []
    for e in x['infos']:
        if isinstance(e, Exception): break
        if isinstance(e, tuple): out.append(e)
    return out

def quiet(rng, mon, i):
    """no concurrency: exact length at every step, uniform reach, slow lookups do not block"""
    gate = threading.Event(); ips = [('10.0.0.%d' % j, 8333) for j in range(rng.choice([2, 3, 6]))]
    ans = {'a': {'infos': [info(*x) for x in ips]}, 'slow': {'infos': [info('10.9.9.9', 1)], 'gate': gate}, 'bad': {'raise': socket.gaierror(-2, 'x')}}
    seeds = [('slow', 1), ('bad', 1), ('a', 1)]; rng.shuffle(seeds)
    with Lookups(ans):
        try:
            before = set(threading.enumerate()); s = DNSSeeder(seeds); end = time.time() + 10
            while len(s) < len(ips) and time.time() < end: time.sleep(.001)
            mon.eq(len(s), len(ips), 'blocked', 'a slow or failing lookup keeps the others\' addresses back')
            out = []
            for k in range(len(ips)):
                mon.eq(len(s), len(ips) - k, 'length'); a = s.pop(); out.append(tuple(a))
            mon.eq(sorted(out), sorted(ips), 'lost'); mon.eq(len(s), 0, 'length'); mon.refused('empty', 'taking from an empty seeder gave something', s.pop)
        finally: gate.set()
        settle(before)
        mon.eq(len(s), 1, 'late', 'the late lookup\'s address is missing'); mon.eq(tuple(s.pop()), ('10.9.9.9', 1), 'late'); mon.refused('empty', 'taking from an empty seeder', s.pop)
    mon.ev('quiet'); mon.seen('quiet', i)

def several(rng, mon, i):
    """several seeders in one process, each with its own seeds, taken from in turns"""
    k = rng.choice([2, 3, 5]); ans, lists, wants = {}, [], []; before = set(threading.enumerate()); late = []
    for j in range(k):
        seeds, want = [], []
        for h in range(rng.choice([1, 2, 5, 41, 60])):
            host = 's%d-%d' % (j, h); a = [('10.%d.%d.%d' % (j, h, z), 8333) for z in range(rng.choice([0, 1, 3]))]; ans[host] = {'infos': [info(*x) for x in a]}; seeds.append((host, 1)); want += a
            if rng.random() < .1: ans[host]['delay'] = .002
        lists.append(seeds); wants.append(want)
    with Lookups(ans) as L:
        made = []
        for j in range(k):
            made.append(mon.ok('start-raises', 'starting a seeder', DNSSeeder, lists[j]))
            if rng.random() < .5: settle(before)
        settle(before); left = [collections.Counter(w) for w in wants]
        for j in range(k): mon.eq(len(made[j]), len(wants[j]), 'length', 'the length is not what this seeder found', seeders=k, which=j)
        todo = [j for j in range(k) for _ in wants[j]]; rng.shuffle(todo)
        for j in todo:
            a = tuple(mon.ok('pop-raises', 'taking', made[j].pop)); mon.check(left[j][a] > 0, 'invented', 'an address was handed out that this seeder did not find', which=j, address=a); left[j][a] -= 1; mon.eq(len(made[j]), sum(left[j].values()), 'length', which=j)
        for s in made: mon.refused('empty', 'taking from an empty seeder gave something', s.pop)
        for h, p in [x for s in lists for x in s]: mon.eq(L.asked.count((h, p)), 1, 'asked', 'seed %s looked up other than once' % h)
    mon.ev('several', k); mon.ev('several-taken', len(todo)); mon.seen('several', i, k)

FAMILIES = [Family('several', several, 40, 1000), Family('scenario', scenario, 220, 10000), Family('quiet', quiet, 40, 800)]
REQUIRED = {'scenarios': 200, 'contended': 40, 'taken': 500, 'lengths': 100, 'switches': 500, 'quiet': 40, 'several': 80, 'several-taken': 400}
