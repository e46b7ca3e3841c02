import socket
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC, coins, protocol
from ..ref import wire
from .n03 import packed, LOCAL
ANCHORS = ['nbc/node/basenode.py']
RULE = 'address books of reachable, refusing and impossible addresses and random numbers of wanted peers, upkeep rounds on a virtual clock with peers leaving and joining; every connection attempt and address request of each round is recorded; distinct = (wanted, connected, attempts, known) states'
ASSUMPTIONS = ['a gap of exactly ten seconds between upkeeps is not judged', 'wanting more peers than the maximum, and being told its own address, are not judged', 'with an address book and seeds both available either may be tried']
def key(a): return packed(a[0]), a[1]
HOSTS = ['127.0.0.%d' % k for k in range(20, 40)]

class World(object):
    def __init__(self, rng, mon, lab, seek): self.rng, self.mon, self.lab, self.seek, self.good, self.dead, self.bad, self.open, self.told, self.seeds, self.seen = rng, mon, lab, seek, {}, {}, set(), [], set(), set(), 0
    def reachable(self, n):
        for _ in range(n): s = self.lab.server(self.rng.choice(HOSTS)); self.good[s.getsockname()] = s
    def refusing(self, n):
        for _ in range(n): s = socket.socket(); s.bind((self.rng.choice(HOSTS), 0)); self.lab.servers.append(s); self.dead[s.getsockname()] = s
    def impossible(self, n):
        for _ in range(n): self.bad.add((self.rng.choice(['2001:db8::%x' % self.rng.randint(1, 9999), '::', 'fe80::1']), self.rng.randint(1, 65535)))
    def feeder(self, half=False):
        """a peer that tells addresses and is asked"""
        lab, rng = self.lab, self.rng; p = lab.dial(); c = lab.find(p); self.mon.check(c, 'not-served')
        self.version(p, c, half); self.open.append(dict(p=p, c=c, a=p.name)); return self.open[-1]
    def version(self, p, c, half):
        v = wire.value(self.rng, wire.MSG['version'][2]); v['services'] = 1; v['relay'] = 1; self.put(p, c, wire.frame(MAGIC, 'version', v) + (b'' if half else wire.frame(MAGIC, 'verack', {})))
    def put(self, p, c, f):
        want = c.rx_bytes + len(f)
        while f: n = p.send(f); f = f[n:]; self.lab.poll(1)
        self.mon.check(self.lab.until(lambda: c.rx_bytes >= want), 'not-read', 'the node does not read'); self.lab.poll(1)
    def tell(self, q, addrs):
        t = int(self.lab.clock())
        for k in range(0, len(addrs), 1000): self.put(q['p'], q['c'], wire.frame(MAGIC, 'addr', {'addr_list': tuple({'timestamp': t, 'services': 1, 'address': packed(h), 'port': o} for h, o in addrs[k:k + 1000])}))
        self.told |= set(addrs)
    def asked(self):
        """address requests received since the last call"""
        n = 0
        for q in self.open:
            if not q['p'].eof: q['p'].pull()
            fs = q['p'].frames(self.mon); n += sum(c == 'getaddr' for c, v, r in fs); q.setdefault('lists', []).extend(v['addr_list'] for c, v, r in fs if c == 'addr')
        return n
    def known(self, q):
        """what the node remembers, by asking it"""
        self.lab.settle(); a = self.asked(); self.mon.check(not a, 'asked-late', 'addresses were asked for between upkeeps', times=a, rounds=self.lab.beats)
        q['lists'] = []; self.put(q['p'], q['c'], wire.frame(MAGIC, 'getaddr', {}))
        self.lab.until(lambda: (self.asked(), q['lists'])[1]); self.mon.check(len(q['lists']) == 1, 'no-answer', 'an address request was not answered once')
        return {(a['address'], a['port']) for a in q['lists'][0]}
    def tries(self):
        """connection attempts since the last call"""
        out = [tuple(s.peer) for s in self.lab.socks[self.seen:] if s.peer and not getattr(s, 'accepted', False)]; self.seen = len(self.lab.socks); return out
    def round(self, step):
        """one upkeep, judged; returns attempts and requests"""
        lab, mon = self.lab, self.mon; before = {tuple(c.address) for c in lab.node.peers}; self.tries(); b = lab.beats
        lab.clock.add(step); lab.poll(1); t = self.tries(); mon.eq(lab.beats - b, 1, 'beat', 'upkeep did not happen once when due', step=step); mon.ev('rounds')
        mon.check(len(t) <= 5, 'burst', 'more than five connection attempts in one upkeep', attempts=t)
        mon.check(len(t) <= max(0, self.seek - len(before)), 'too-many', 'the node connects to more peers than wanted', wanted=self.seek, had=len(before), attempts=t)
        mon.check(not set(t) & before, 'again', 'a connected address was tried', attempts=t, connected=before)
        mon.check(len(set(t)) == len(t), 'twice', 'an address was tried twice in one upkeep', attempts=t)
        for a in t: mon.check(a in self.seeds or key(a) in {key(x) for x in self.told}, 'stranger', 'an address was tried that nobody announced', address=a)
        for a in t: mon.ev('try-good' if a in self.good else 'try-dead' if a in self.dead else 'try-bad' if key(a) in {key(x) for x in self.bad} else 'try-other')
        for a in t:                                              # every attempt comes to its end
            if a in self.good:
                got = []
                def acc():
                    try: got.append(self.good[a].accept()[0])
                    except BlockingIOError: pass
                    return bool(got)
                mon.check(lab.until(acc), 'no-connection', 'the attempt did not arrive', address=a)
                p = netlab.Peer(got[0], lab); p.out = a; c = lab.find(p); mon.check(c, 'not-listed', 'a made connection is not in the table', address=a); self.open.append(dict(p=p, c=c, a=a))
            else: mon.check(lab.until(lambda: not any(tuple(c.address) == a for c in lab.node.peers)), 'stuck', 'a failed attempt stays in the table', address=a)
        lab.settle(); mon.check(not self.tries(), 'between', 'connection attempts between upkeeps'); n = self.asked(); mon.check(n <= 1, 'asked-twice', 'addresses were asked for more than once', times=n)
        if not before: mon.eq(n, 0, 'asked-nobody')
        mon.seen(self.seek, len(before), len(t), n); return t, n
    def quiet(self):
        """less than ten seconds later nothing happens"""
        lab, mon = self.lab, self.mon; b = lab.beats; self.tries()
        for d in [self.rng.uniform(.1, 9.5)] if self.rng.random() < .5 else [3, 3, 3.5]: lab.clock.add(d); lab.poll(1)
        mon.eq((lab.beats - b, self.tries()), (0, []), 'early', 'upkeep came before its time'); lab.settle(); mon.eq(self.asked(), 0, 'early-ask', 'addresses were asked for before upkeep was due'); mon.ev('quiet')
    def leave(self, q):
        q['p'].close(self.rng.random() < .5); self.mon.check(self.lab.until(lambda: not any(c is q['c'] for c in self.lab.node.peers)), 'stays', 'a closed connection stays'); self.open.remove(q); self.good.pop(q['a'], None); self.told.discard(q['a'])
STEP = [10.5, 11, 15, 30, 60, 10.001]

def seek(rng, mon, i):
    """the wanted number of peers is reached from the remembered addresses"""
    want = rng.choice([0, 1, 2, 3, 5, 6, 8, 12]); seed = rng.random() < .5
    class Coin(coins.Newbitcoin): dns_seeds = []
    s = socket.socket(); s.bind(('127.0.0.19', 0)); s.listen(4); s.setblocking(False); Coin.dns_seeds = [s.getsockname()]
    with Lab(rng, mon, seek_peers=want, max_peers=125, coin=Coin) as lab:
        lab.servers.append(s); w = World(rng, mon, lab, want); q = w.feeder(); w.told.add(q['a']); halves = [w.feeder(True) for _ in range(rng.choice([0, 0, 1, 3]))]      # never acknowledging
        w.reachable(rng.choice([0, 1, 3, 6, 10])); w.refusing(rng.choice([0, 0, 1, 4, 9])); w.impossible(rng.choice([0, 0, 1, 5]))
        a = list(w.good) + list(w.dead) + list(w.bad); rng.shuffle(a); w.tell(q, a)
        mon.check(set(map(key, a)) <= w.known(q), 'forgot', 'an announced address is not remembered')
        missing = lambda: min(want, 1 + sum(x in w.open for x in halves) + len(w.good)) - len(lab.node.peers)
        for r in range(2 * len(a) + 6):
            short = len(lab.node.peers) < want; k = w.known(q); t, n = w.round(rng.choice(STEP))
            k2 = w.known(q)
            if len(k) < 50 and len(k2) < 50: mon.eq(n, 1, 'not-asked', 'the node knows few addresses and asks nobody', known=len(k)); mon.ev('asked')
            for x in t: mon.eq(key(x) in k2, x in w.good, 'given-up', 'an address that failed is kept, or one that works is lost', address=x, works=x in w.good)
            if rng.random() < .4: w.quiet()
            if rng.random() < .15 and len(w.open) > 1: z = rng.choice(w.open[1:]); w.leave(z); mon.ev('left')
            if not short and not t: mon.ev('enough')
            if missing() <= 0 and r > 3: break
        mon.check(missing() <= 0, 'not-reached', 'reachable addresses are known and peers are wanted, but they are not connected', wanted=want, connected=len(lab.node.peers), reachable=len(w.good), rounds=r + 1); mon.ev('reached')
        try: s.accept(); mon.check(False, 'seeds', 'a seed was used although seeds are off')
        except BlockingIOError: mon.ev('no-seeds')
        mon.sample(wanted=want, reachable=len(w.good), connected=len(lab.node.peers), rounds=r + 1)

def ask(rng, mon, i):
    """around the number of addresses that is thought enough"""
    with Lab(rng, mon, seek_peers=0) as lab:
        w = World(rng, mon, lab, 0); q = w.feeder(); n = rng.choice([0, 10, 47, 48, 49, 50, 51, 60, 300]); others = [w.feeder() for _ in range(rng.choice([0, 2, 5, 9, 12]))]
        w.tell(q, [('198.51.%d.%d' % (k >> 8, k & 255), 8333) for k in range(n)])
        for r in range(6):
            if others and rng.random() < .3: w.leave(others.pop())
            k = len(w.known(q)); t, got = w.round(rng.choice(STEP)); mon.eq(got, 1 if k < 50 else 0, 'ask', 'addresses are asked for when enough are known, or not when few are', known=k)
            mon.ev('asked' if got else 'not-asked'); mon.ev('edge', k in (49, 50)); mon.seen(k, got)
        for x in list(w.open): w.leave(x)
        t, got = w.round(12); mon.eq(got, 0, 'asked-nobody'); mon.ev('alone')

def seeds(rng, mon, i):
    """with an empty book the configured seeds are used, when enabled"""
    srv = []
    for _ in range(rng.choice([1, 1, 3]) if i % 8 else rng.choice([9, 12, 17, 40])): s = socket.socket(); s.bind((rng.choice(['127.0.0.19', '127.0.0.1']), 0)); s.listen(4); s.setblocking(False); srv.append(s)
    names = live = [s.getsockname() for s in srv]; down = []
    for _ in range(rng.choice([0, 0, 1, 3])): s = socket.socket(); s.bind(('127.0.0.18', 0)); srv.append(s); down.append(s.getsockname())    # nobody there
    names = names + down; rng.shuffle(names); want = rng.choice([0, 1, 2, 8]); mx = rng.choice([125, 125, 1]); on = rng.random() < .75
    if i % 8 == 0: want, mx, on = len(live), 125, True; mon.ev('many-seeds')
    given = [(LOCAL, a[1]) if a[0] == '127.0.0.1' and rng.random() < .7 else a for a in names]; mon.ev('seed-by-name', given != names)
    class Coin(coins.Newbitcoin): dns_seeds = list(given)
    with Lab(rng, mon, seek_peers=want, bootstrap=on, coin=Coin, max_peers=mx) as lab:
        lab.servers.extend(srv); w = World(rng, mon, lab, want); tries = lambda: [('127.0.0.1', x[1]) if x[0] == LOCAL else x for x in w.tries()]; first = tries(); use = on and want and mx > 1
        for a in first: mon.check(a in names and on, 'stranger', 'connects to something else than a seed', attempts=first)
        mon.check(len(first) <= want, 'too-many')
        for r in range(8 * len(names) + (60 if down else 0)):
            if down and r > 10 and len(lab.node.peers) >= min(want, len(live)): break
            before = {tuple(c.address) for c in lab.node.peers}; b = lab.beats; lab.clock.add(rng.choice(STEP)); lab.poll(1); t = tries(); mon.eq(lab.beats - b, 1, 'beat'); mon.ev('rounds')
            mon.check(set(t) <= set(names) - before and len(set(t)) == len(t) <= max(0, want - len(before)), 'wrong-tries', attempts=t, connected=before, seeds=names, wanted=want)
            mon.check(lab.until(lambda: not any(tuple(c.address) in down for c in lab.node.peers)), 'stuck', 'a failed attempt stays in the table'); mon.ev('seed-down', sum(a in down for a in t))
            lab.settle(); mon.seen(on, want, len(before), len(t), mx)
        n = len(lab.node.peers)
        if use: mon.check(n >= 1, 'no-seed', 'no seed is used although nothing else is known'); mon.check(n <= min(want, len(live)), 'too-many'); mon.ev('seeded')
        else: mon.eq(n, 0, 'seeds', 'a seed was used although seeds are off or peers are not wanted'); mon.ev('unseeded')
        if use and mx == 125: mon.eq(n, min(want, len(live)), 'seed-left-out', 'peers are wanted and nothing else is known, but not every working seed gets its turn', seeds=names, working=live, wanted=want); mon.ev('every-seed')
        mon.eq(Coin.dns_seeds, given, 'changed', 'the configured seeds were changed')

FAMILIES = [Family('seek', seek, 120, 3000), Family('ask', ask, 100, 2000), Family('seeds', seeds, 100, 2000)]
REQUIRED = {'seed-by-name': 12, 'many-seeds': 10, 'rounds': 1500, 'try-good': 120, 'try-dead': 100, 'try-bad': 40, 'reached': 90, 'left': 15, 'asked': 400, 'not-asked': 60, 'edge': 30, 'quiet': 100, 'seeded': 25, 'every-seed': 12, 'seed-down': 50, 'unseeded': 25, 'enough': 50, 'no-seeds': 100, 'alone': 80}
