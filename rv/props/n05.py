from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC
from ..ref import wire
ANCHORS = ['nbc/node/basenode.py', 'nbc/node/connection.py']
RULE = 'histories of punishments (by the application and from handlers, several in one packet), heartbeats, joins from several hosts and ports, departures and clock steps around the hour, against a model of scores and bans; distinct = (scores, bans, clock) states'
ASSUMPTIONS = ['whether a connection exactly 3600 s after the ban is served is not judged', 'other connections of a banned host that are already open are not judged to be dropped or kept until they are punished themselves, except that they count as open while listed']

class World(object):
    def __init__(self, rng, mon, lab): self.rng, self.mon, self.lab, self.live, self.banned, self.max = rng, mon, lab, [], {}, 0
    def poll(self, n=1):
        """rounds of the loop; forgives what heartbeats forgive"""
        for _ in range(n):
            before = self.lab.beats; self.lab.poll(1)
            for _ in range(self.lab.beats - before):
                self.mon.ev('beats')
                for q in self.live: q['score'] = max(0, q['score'] - 1)
    def barred(self, host):
        """True, False, or None at exactly the hour"""
        if host not in self.banned: return False
        dt = self.lab.clock.t - self.banned[host]
        return None if dt == 3600 else dt < 3600
    def join(self, host):
        lab, mon = self.lab, self.mon; self.poll(1); want = self.barred(host); p = lab.dial(host, until=False)
        lab.until(lambda: (p.pull(), p.eof or p.total >= 24)[1])
        c = lab.find(p)
        if want: mon.check(p.eof and p.total == 0 and c is None, 'ban-not-kept', 'a connection from a banned host was not dropped at once', host=host, since=lab.clock.t - self.banned[host], received=p.total, listed=c is not None); mon.ev('barred'); mon.ev('barred-late', lab.clock.t - self.banned[host] > 3590)
        elif want is False:
            mon.check(c is not None and not p.eof and p.total >= 24, 'not-served', 'a connection from a host that is not banned was not served', host=host, since=lab.clock.t - self.banned.get(host, 0), eof=p.eof, received=p.total)
            mon.ev('served'); mon.ev('served-after-ban', host in self.banned)
        if c is not None:
            if want is None: self.banned.pop(host)
            q = dict(p=p, c=c, host=host, score=0); self.live.append(q); return q
    def check(self):
        """who is still there"""
        self.poll(2)
        peers = self.lab.node.peers
        for q in list(self.live):
            if q['score'] > 5:
                self.mon.check(q['c'] not in peers, 'not-dropped', 'a peer punished more than five times stays', score=q['score']); self.mon.ev('dropped')
                self.lab.until(lambda: (q['p'].pull(), q['p'].eof)[1], 3); self.mon.check(q['p'].eof, 'not-dropped', 'the connection of a banned peer is open'); self.live.remove(q)
            else: self.mon.check(q['c'] in peers and not q['p'].eof, 'dropped-early', 'a peer below the limit was dropped', score=q['score'])
        self.mon.ev('states'); self.mon.seen(tuple(q['score'] for q in self.live), tuple(sorted((h, int(self.lab.clock.t - t)) for h, t in self.banned.items())))
    def punish(self, q):
        q['score'] += 1; self.mon.ev('punished'); self.max = max(self.max, q['score'])
        if q['score'] > 5: self.banned[q['host']] = self.lab.clock.t
    def send(self, q, data):
        got = q['c'].rx_bytes + len(data)
        while data:
            try: n = q['p'].send(data)
            except OSError: return
            data = data[n:]; self.poll(1)
        self.lab.until(lambda: q['c'].rx_bytes >= got or q['c'] not in self.lab.node.peers, 3)
    def tick(self, s):
        self.lab.clock.add(s); self.poll(2)
        for q in self.live: self.send(q, wire.frame(MAGIC, 'pong', {'nonce': bytes(8)})); q['p'].pull(); q['p'].frames(self.mon)

def histories(rng, mon, i):
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); hosts = ['127.0.0.%d' % rng.randint(2, 250) for _ in range(rng.choice([2, 3, 4]))]
        def trap(peer, cmd, kw):
            if cmd == 'inv':
                q = [x for x in w.live if x['c'] is peer]
                mon.check(q, 'handled-after-drop', 'a message of a dropped peer was handled')
                if q[0]['score'] > 5: mon.check(False, 'handled-after-drop', 'a message behind the one the peer was banned for was handled')
                w.punish(q[0]); lab.node.punish_peer(peer, rng.choice([None, 'bad inv'])); mon.ev('from-handlers')
        lab.trap = trap
        for step in range(rng.choice([30, 70])):
            k = rng.random()
            if not w.live or k < .22: w.join(rng.choice(hosts) if rng.random() < .9 else '127.0.%d.%d' % (rng.randint(1, 9), rng.randint(1, 250)))
            elif k < .28:
                srv = lab.server(rng.choice(hosts)); p, a = lab.call_out(srv); w.poll(1); c = lab.find(p)
                if c: w.live.append(dict(p=p, c=c, host=a[0], score=0)); mon.ev('made')
            elif k < .52:
                q = rng.choice(w.live)
                for _ in range(rng.choice([1, 1, 2, 5, 6])):
                    if q['score'] > 5: break
                    w.punish(q); lab.node.punish_peer(q['c'], 'test')
            elif k < .68:
                q = rng.choice(w.live); n = rng.choice([1, 2, 4, 9])
                w.send(q, b''.join(wire.frame(MAGIC, 'inv', {'inventory': ()}) for _ in range(n)))
            elif k < .73:
                q = rng.choice(w.live); q['p'].close(rng.random() < .5); w.live.remove(q)
                lab.until(lambda: q['c'] not in lab.node.peers, 3); mon.ev('left')
            elif k < .9: w.tick(rng.choice([.25, 5, 11, 11, 10.5, 25]))
            elif w.banned:
                h = rng.choice(sorted(w.banned)); left = 3600 - (lab.clock.t - w.banned[h]); x = rng.choice([-1, -.5, .5, 1, 1, 5])
                if 0 < left + x < 4000: w.tick(left + x); w.join(h)
            w.check()
        mon.sample(max_score=w.max, bans=len(w.banned), beats=lab.beats)

def patience(rng, mon, i):
    """a peer punished once per heartbeat never reaches the limit; forgiveness is not saved up"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); q = w.join('127.0.0.7'); other = w.join('127.0.0.8')
        for _ in range(rng.choice([0, 3, 20])): w.tick(11)      # a good record earns no credit
        n = rng.choice([1, 2, 3, 5])
        for _ in range(25):
            for _ in range(min(n, 5 - q['score'])): w.punish(q); lab.node.punish_peer(q['c'])
            w.check(); w.tick(11)
        mon.check(q in w.live, 'harness')
        while q['score'] < 6: w.punish(q); lab.node.punish_peer(q['c'])
        w.check(); mon.check(other in w.live, 'harness'); mon.check(w.join('127.0.0.7') is None, 'ban-not-kept', 'served')
        mon.check(w.join('127.0.0.8') is not None, 'not-served', 'another host is not served'); w.tick(3598); w.join('127.0.0.7'); w.tick(3); mon.check(w.join('127.0.0.7') is not None, 'not-served', 'not served after the hour')
        mon.ev('patience')

def crowd(rng, mon, i):
    """dozens of banned hosts and more than a hundred peers"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); hosts = ['127.1.%d.%d' % (j // 200, j % 200 + 1) for j in range(rng.choice([60, 150, 300]))]; rng.shuffle(hosts)
        for h in hosts:
            q = w.join(h)
            for _ in range(6): w.punish(q); lab.node.punish_peer(q['c'])
            w.live.remove(q); q['p'].close(); lab.clock.add(rng.choice([0, .5, 3]))
        w.poll(2)
        for h in hosts[:3] + hosts[-3:] + rng.sample(hosts, 12): mon.check(w.join(h) is None, 'ban-not-kept', 'a connection from a banned host was served', hosts=len(hosts)); mon.ev('banned-crowd')
        for _ in range(120): w.join('127.2.0.%d' % rng.randint(1, 250))
        for q in w.live:
            for _ in range(5 - q['score']): w.punish(q); lab.node.punish_peer(q['c'])
        w.check(); beats = lab.beats
        w.tick(11); mon.check(lab.beats > beats, 'harness', 'no heartbeat')
        for q in w.live: w.punish(q); lab.node.punish_peer(q['c'])
        w.check(); mon.check(len(w.live) == 120, 'harness')
        for q in list(w.live): w.punish(q); lab.node.punish_peer(q['c'])
        w.check(); mon.check(not w.live, 'harness'); mon.ev('crowd')
        w.tick(3700)
        for h in rng.sample(hosts, 5): mon.check(w.join(h) is not None, 'not-served', 'not served after the hour')

def scores(rng, mon, i):
    """penalties and pardons of any size"""
    with Lab(rng, mon) as lab:
        p = lab.dial(); c = lab.find(p); m = 0; mon.eq(c.banscore, 0, 'score', 'of a new peer')
        for _ in range(200):
            k = rng.choice([1, 1, 2, 5, 7, 100, 1000])
            if rng.random() < .5: c.add_banscore(k); m += k
            else: c.reduce_banscore(k); m = max(0, m - k)
            if rng.random() < .2: (c.add_banscore if k % 2 else c.reduce_banscore)(); m = m + 1 if k % 2 else max(0, m - 1)
            mon.eq(c.banscore, m, 'score', 'the score is not the penalties less the pardons'); mon.ev('scores')

FAMILIES = [Family('crowd', crowd, 4, 100), Family('scores', scores, 8, 100), Family('histories', histories, 220, 8000), Family('patience', patience, 40, 400)]
REQUIRED = {'crowd': 4, 'banned-crowd': 50, 'scores': 1000, 'punished': 3000, 'dropped': 200, 'barred': 150, 'barred-late': 20, 'served': 500, 'served-after-ban': 20, 'beats': 500, 'from-handlers': 500, 'states': 3000, 'patience': 40}
