import io
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC
from ..ref import wire
from .n03 import packed, version_frame
from .n01 import bad
ANCHORS = ['nbc/node/basenode.py', 'nbc/node/connection.py', 'nbc/protocol/format.py']
RULE = 'histories of address messages (fresh, repeated, updated, equal and extreme times), version and verack in any order, peers leaving, being removed and coming back, the clock moving, and requests, against a model of the book; histories far beyond the bound; distinct = (book, request) states'
ASSUMPTIONS = ['which addresses are given up when more than 2500 are announced is not judged', 'ties in time may come in any order', 'entries of peers that could not be reached are not judged']
BOUND, ASK = 2500, 1000

class Book(object):
    """the model: 16-byte address and port -> (time, services)"""
    def __init__(self): self.d, self.all, self.exact = {}, {}, True
    def learn(self, key, when, services):
        self.all[key] = (when, services)
        if key not in self.d and len(self.d) >= BOUND: self.exact = False
        self.d[key] = (when, services)
    def drop(self, key): self.d.pop(key, None); self.all.pop(key, None)
    def known(self): return {k: v for k, v in (self.d if self.exact else self.all).items() if v[1] is not None}

def judge(mon, lab, book, reply):
    """one reply to a request"""
    mon.check(len(reply) <= ASK, 'too-many', 'more than 1000 addresses in one answer', n=len(reply))
    known = book.known(); keys = [(e['address'], e['port']) for e in reply]
    mon.eq(len(set(keys)), len(keys), 'repeated', 'an address twice in one answer')
    for e, k in zip(reply, keys):
        mon.check(k in book.all, 'invented', 'an address nobody announced (or one dropped) is shared', entry=e)
        mon.check(book.all[k][1] is not None, 'unknown-services', 'an address whose services are unknown is shared', entry=e)
        mon.eq((e['timestamp'], e['services']), (int(book.all[k][0]), book.all[k][1]), 'stale', 'time or services shared are not those last learned', entry=e)
    t = [e['timestamp'] for e in reply]
    mon.check(all(a >= b for a, b in zip(t, t[1:])), 'order', 'the answer is not most recent first', times=t[:30])
    if book.exact:
        mon.eq(len(reply), min(len(known), ASK), 'missing', 'the answer leaves out remembered addresses', known=len(known))
        if len(known) > ASK:
            want = sorted((int(v[0]) for v in known.values()), reverse=True)[:ASK]
            mon.eq(t, want, 'not-most-recent', 'the answer does not hold the most recent addresses'); mon.ev('answers-full')
    else: mon.ev('answers-overflow')
    mon.ev('answers'); mon.ev('entries', len(reply)); mon.seen(len(known), len(reply), t[:3].__repr__())

def bounded(mon, lab):
    a = getattr(lab.node, '_addresses', None)
    if a is not None: mon.check(len(a) <= BOUND, 'unbounded', 'more than 2500 addresses are remembered', n=len(a)); mon.ev('bound')

def entry(rng, lab, now):
    k = rng.random()
    t = int(now) - rng.randint(0, 100000) if k < .6 else rng.choice([0, 1, (1 << 32) - 1, int(now), int(now) + 5, 1 << 31]) if k < .8 else 1600000000 + rng.randrange(4)
    return {'timestamp': t, 'services': rng.choice([0, 1, 1, 3, (1 << 64) - 1, rng.getrandbits(64)]), 'address': wire.ip(rng), 'port': rng.choice([0, 1, 8333, 65535, rng.randrange(65536)])}

class World(object):
    def __init__(self, rng, mon, lab): self.rng, self.mon, self.lab, self.book, self.peers, self.fresh = rng, mon, lab, Book(), [], []
    def join(self):
        lab = self.lab; p = lab.dial() if self.rng.random() < .7 else lab.call_out()[0]
        c = lab.find(p); self.mon.check(c, 'not-connected'); q = dict(p=p, c=c, addr=c.address, key=(packed(c.address[0]), c.address[1]), services=None, sent=0); self.peers.append(q); return q
    def send(self, q, f):
        q['sent'] += len(f)
        while f: n = q['p'].send(f); f = f[n:]; self.lab.poll(1); [x['p'].pull() for x in self.peers]
        self.mon.check(self.lab.deliver((q['c'], q['sent'])), 'stuck', 'the node stopped reading'); self.lab.poll(1)
    def announce(self, q, entries):
        self.send(q, wire.frame(MAGIC, 'addr', {'addr_list': tuple(entries)}))
        for e in entries: self.book.learn((e['address'], e['port']), e['timestamp'], e['services'])
        bounded(self.mon, self.lab)
    def ask(self, q):
        self.lab.settle(60); q['p'].frames(self.mon); self.send(q, wire.frame(MAGIC, 'getaddr', {}))
        got = []
        def arrived():
            q['p'].pull(); got.extend(f for f in q['p'].frames(self.mon) if f[0] == 'addr'); return bool(got)
        self.lab.until(arrived, 3)
        self.mon.eq(len(got), 1, 'answer', 'a request was not answered with one address message')
        judge(self.mon, self.lab, self.book, got[0][1]['addr_list'])
    def version(self, q):
        v, f = version_frame(self.rng); self.send(q, f); q['services'] = v['services']
    def verack(self, q):
        self.send(q, wire.frame(MAGIC, 'verack', {})); self.book.learn(q['key'], self.lab.clock.t, q['services']); bounded(self.mon, self.lab)
    def leave(self, q):
        k = self.rng.random()
        if k < .4: self.lab.node.remove_peer(q['addr'])
        else: q['p'].close(k < .7)
        self.lab.until(lambda: q['c'] not in self.lab.node.peers, 3); self.lab.poll(2)
        self.mon.check(q['c'] not in self.lab.node.peers, 'left', 'a peer that left is still listed')
        self.peers.remove(q); self.book.drop(q['key']); self.mon.ev('left')

def histories(rng, mon, i):
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab)
        for _ in range(rng.choice([2, 4])): w.join()
        pool = [entry(rng, lab, lab.clock.t) for _ in range(rng.choice([5, 30]))]
        for step in range(rng.choice([15, 40])):
            if rng.random() < .3: lab.clock.add(rng.choice([.5, 1, 11, 60]))
            if not w.peers: w.join()
            q = rng.choice(w.peers); k = rng.random()
            if k < .35:
                es = [dict(rng.choice(pool), **({'timestamp': entry(rng, lab, lab.clock.t)['timestamp'], 'services': rng.choice([0, 1, 5])} if rng.random() < .6 else {})) if rng.random() < .6 else entry(rng, lab, lab.clock.t) for _ in range(rng.choice([0, 1, 3, 20]))]
                if rng.random() < .4:                            # about a connected peer
                    o = rng.choice(w.peers); es.append(dict(entry(rng, lab, lab.clock.t), address=o['key'][0], port=o['key'][1])); mon.ev('about-peers')
                w.announce(q, es); mon.ev('announced', len(es))
            elif k < .45: w.version(q)
            elif k < .6: w.verack(q); mon.ev('veracks'); mon.ev('veracks-unknown', q['services'] is None)
            elif k < .7: w.leave(q)
            elif k < .78: w.join()
            elif k < .79:
                n = rng.choice([1, 2, 4, 5])
                if q.setdefault('bad', 0) + n <= 5:
                    for _ in range(n): lab.node.punish_peer(q['c'])
                    q['bad'] += n; mon.ev('punished')
            elif k < .82:
                f, kind = bad(rng)
                if kind != 'damaged' and f[4:8] in (b'addr', b'vers'): continue
                w.send(q, f)
            else: w.ask(q)
        for q in w.peers: w.ask(q)
        mon.check(w.book.exact, 'harness'); mon.sample(known=len(w.book.d), peers=len(w.peers))

def crowded(rng, mon, i):
    """more than one answer holds and more than is remembered"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); w.join(); w.join(); n = 0; seen = []
        goal = rng.choice([999, 1000, 1001, 1500, 2499, 2500, 2500, 2501, 4000])
        spread = rng.choice([1, 50, 10 ** 6])
        while n < goal:
            m = min(goal - n, rng.choice([1000, 1000, 700, 1])) if goal - n > 3 else 1
            es = [{'timestamp': 1600000000 + rng.randrange(spread), 'services': rng.choice([0, 1, 9]), 'address': wire.V4 + gen.raw(rng, 4), 'port': rng.randrange(1, 65536)} for _ in range(m)]
            w.announce(rng.choice(w.peers), es); n += m; seen += [(e['address'], e['port']) for e in es]; mon.ev('announced', m)
            if rng.random() < .3: w.ask(rng.choice(w.peers))
        for _ in range(3):
            q = rng.choice(w.peers)
            if rng.random() < .5 and len(w.book.d) + 1 < BOUND: w.version(q); w.verack(q)
            es = [{'timestamp': 1600000000 + rng.randrange(spread + 5), 'services': rng.choice([2, 7]), 'address': a, 'port': p} for a, p in rng.sample(seen, 40)]
            w.announce(q, es); mon.ev('updated', 40)
            w.ask(rng.choice(w.peers))
        for q in list(w.peers): w.version(q); w.verack(q)        # acknowledgements at the bound
        w.ask(w.peers[0]); w.leave(w.peers[1]); w.ask(w.peers[0])
        mon.ev('crowded'); mon.sample(goal=goal, known=len(w.book.d))

FAMILIES = [Family('histories', histories, 300, 8000), Family('crowded', crowded, 60, 1000)]
REQUIRED = {'answers': 800, 'entries': 20000, 'answers-full': 30, 'announced': 20000, 'left': 100, 'veracks': 200, 'veracks-unknown': 40, 'about-peers': 100, 'crowded': 40, 'updated': 500, 'answers-overflow': 5}
