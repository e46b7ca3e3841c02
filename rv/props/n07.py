import errno, socket
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC, protocol
from ..ref import wire
ANCHORS = ['nbc/node/connection.py', 'nbc/node/basenode.py']
RULE = 'histories of traffic in both directions, silence, blocked writes and clock steps, many of them to one second before or after a limit of some connection, on made, accepted and never completed connections; distinct = (silences, limits) states'
ASSUMPTIONS = ['exactly at a limit nothing is judged', 'the idle ping is judged where the node has sent before and nothing is queued', 'the reported time is judged once something was heard', 'the clock does not run backwards']
M30, M5, H3 = 1800, 300, 10800

class World(object):
    def __init__(self, rng, mon, lab): self.rng, self.mon, self.lab, self.live = rng, mon, lab, []
    def add(self, p, c):
        q = dict(p=p, c=c, s=self.lab.where(c), start=self.lab.clock.t, tx=None, rx=None, pings=[], nsent=0, ngot=0, blocked=None, quiet=False); self.live.append(q); self.look(q); return q
    def look(self, q):
        t = self.lab.clock.t
        if len(q['s'].sent) != q['nsent']: q['nsent'] = len(q['s'].sent); q['tx'] = t
        if q['s'].got != q['ngot']: q['ngot'] = q['s'].got; q['rx'] = t
    def poll(self, n=1):
        for _ in range(n):
            self.lab.poll(1)
            for q in self.live: self.look(q)
    def dial(self):
        lab = self.lab; p = lab.dial() if self.rng.random() < .6 else lab.call_out()[0]; c = lab.find(p); self.mon.check(c, 'not-connected'); q = self.add(p, c); self.flush(); return q
    def flush(self):
        """rounds at the present time until nothing is queued where it can go"""
        self.poll(4)
        def done():
            for q in self.live:
                self.look(q)
                if q['p'] and not q['p'].eof and not q['quiet']: q['p'].pull()
            return not any(q['c'].writable() and not q['blocked'] and not (q['p'] is None) for q in self.live) and all(not q['p'] or q['quiet'] or q['p'].total >= len(q['s'].sent) or q['p'].eof for q in self.live)
        self.lab.until(done)
        for q in self.live: self.look(q)
    def say(self, q, f):
        want = q['s'].got + len(f)
        while f: n = q['p'].send(f); f = f[n:]; self.poll(1)
        self.lab.until(lambda: q['s'].got >= want or q['s'].closed); self.look(q)
    def advance(self, dt):
        """one clock step and what it must bring about"""
        lab, mon = self.lab, self.mon; lab.clock.add(dt); t = lab.clock.t; due = []
        for q in self.live:
            heard = q['start'] if q['rx'] is None else q['rx']; idle = None if q['tx'] is None else t - q['tx']
            due.append((q, t - heard, idle, q['c'].writable()))
        self.poll(1); peers = lab.node.peers
        for q, silent, idle, queued in due:
            there = any(q['c'] is x for x in peers)
            if silent > H3:
                mon.check(not there and q['s'].closed, 'not-closed', 'a connection from which nothing was received for three hours stays', silent=silent, queued=queued, never=q['rx'] is None); mon.ev('closed'); mon.ev('closed-queued', bool(queued)); mon.ev('closed-never-heard', q['rx'] is None); mon.ev('closed-connecting', q['p'] is None)
            elif silent < H3:
                mon.check(there and not q['s'].closed, 'closed-early', 'a connection heard from within three hours was closed', silent=silent, queued=queued); mon.ev('kept'); mon.ev('kept-barely', silent > H3 - 5)
            if not there: self.live.remove(q)
        self.flush(); peers = lab.node.peers
        for q, silent, idle, queued in due:
            if q not in self.live or not q['p'] or q['quiet']: continue
            mon.check(any(q['c'] is x for x in peers), 'closed-early', 'a connection was closed without reason', silent=silent)
            n = sum(f[0] == 'ping' for f in q['p'].frames(mon))
            if q['blocked']: continue
            if idle is not None and not queued:
                if idle > M30 and (not q['pings'] or t - q['pings'][-1] > M5): mon.check(n == 1, 'no-ping', 'nothing was sent for half an hour and no ping came' if not n else 'more than one ping came', idle=idle, pings=n); mon.ev('pings')
                elif idle < M30: mon.check(n == 0, 'early-ping', 'a ping came though something was sent within half an hour', idle=idle); mon.ev('no-pings'); mon.ev('no-pings-barely', idle > M30 - 5)
            for _ in range(n):
                mon.check(not q['pings'] or t - q['pings'][-1] >= M5, 'ping-twice', 'two idle pings within five minutes', apart=t - (q['pings'] or [0])[-1]); q['pings'].append(t)
        self.reported(); mon.ev('steps'); mon.seen(tuple(sorted((int(a), int(b or -1)) for _, a, b, _ in due)))
    def reported(self):
        for q in self.live:
            if q['rx'] is not None: self.mon.eq(q['c'].timestamp, q['rx'], 'last-heard', 'the time a peer was last heard is misreported'); self.mon.ev('times')

def fill(lab, w):
    """enough addresses known that heartbeats ask nobody"""
    q = w.dial(); w.say(q, wire.frame(MAGIC, 'addr', {'addr_list': tuple({'timestamp': 1, 'services': 1, 'address': wire.V4 + bytes([1, 2, 3, k]), 'port': k} for k in range(60))})); return q

def histories(rng, mon, i):
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab)
        if rng.random() < .7: fill(lab, w)
        for _ in range(rng.choice([1, 2, 4])): w.dial()
        for step in range(rng.choice([20, 50])):
            if len(w.live) < 2: w.dial()
            q = rng.choice(w.live); t = lab.clock.t; k = rng.random()
            if k < .15: w.say(q, wire.frame(MAGIC, 'ping', {'nonce': gen.raw(rng, 8)})); w.flush()     # heard and answered
            elif k < .35: w.say(q, wire.frame(MAGIC, 'pong', {'nonce': gen.raw(rng, 8)}))              # heard only
            elif k < .38: w.say(q, wire.frame(MAGIC, 'pong', {'nonce': bytes(8)})[:rng.randint(1, 20)]); w.reported(); lab.node.remove_peer(q['c'].address); w.live.remove(q); mon.ev('part'); continue
            elif k < .41: w.say(q, wire.frame(MAGIC, 'alert', {'payload': bytes(rng.choice([70000, 140000, 300000])), 'signature': b''})); mon.ev('much-heard')
            elif k < .43: q['c'].send_message(protocol.Alert(bytes(rng.choice([70000, 200000])), b'')); w.flush(); mon.ev('much-sent')
            elif k < .5: q['c'].send_message(protocol.GetAddress()); w.flush()
            elif k < .55: w.dial()
            heard = q['start'] if q['rx'] is None else q['rx']
            targets = [heard + H3, (q['tx'] or t) + M30, ((q['pings'] or [t])[-1]) + M5]
            if rng.random() < .6:
                x = rng.choice(targets) + rng.choice([-1, 1, -.5, .5, 2]) - lab.clock.t
                if x <= 0: x = rng.choice([1, 10.5, 200])
            else: x = rng.choice([.25, 1, 9, 11, 60, 200, 299, 301, 700, 1799, 1801, 2500, 5000, 9000, 10799, 10801])
            w.advance(x)
        mon.sample(steps=step, live=len(w.live), beats=lab.beats)

def chatter(rng, mon, i):
    """a peer that is heard every now and then is never closed; one that only listens is"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); fill(lab, w); a, b = w.dial(), w.dial(); gap = rng.choice([3000, 9000, 10799])
        for _ in range(rng.choice([4, 8])):
            w.say(a, wire.frame(MAGIC, 'pong', {'nonce': bytes(8)})); w.advance(gap)
            mon.check(a in w.live, 'harness')
        mon.check(b not in w.live, 'not-closed', 'a peer that says nothing stays'); mon.ev('chatter')

def blocked(rng, mon, i):
    """the peer does not read: the sockets fill, pings are queued no more than every five minutes, three hours close it"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); fill(lab, w); q = w.dial(); q['quiet'] = True; q['blocked'] = True
        q['s'].s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 4096); iv = protocol.InventoryVector(1, bytes(32))
        big = protocol.Inventory([iv] * 50000)
        for _ in range(20):
            q['c'].send_message(big)
            for _ in range(300):
                n = q['nsent']; w.poll(1)
                if n == q['nsent']: break
            if q['c'].writable() and n == q['nsent']: break
        w.poll(20); mon.check(q['c'].writable(), 'harness', 'not blocked'); t0 = lab.clock.t; total = 0
        dt = rng.choice([20, 60, 299, 301, 900]); end = rng.choice([5000, 10000, 12000]); n = q['nsent']
        while total + dt < end and q in w.live:
            w.advance(dt); total += dt
        if q['nsent'] == n: mon.ev('fully-blocked')
        if q not in w.live: mon.ev('blocked-closed'); return
        q['quiet'] = False; lab.until(lambda: not q['c'].writable() and q['p'].total >= len(q['s'].sent)); got = sum(f[0] == 'ping' for f in q['p'].frames(mon))
        mon.check(got <= max(0, total - M30) // M5 + 1, 'ping-twice', 'more idle pings were queued than one every five minutes', pings=got, seconds=total); mon.ev('blocked'); mon.ev('blocked-pings', got)
        mon.seen('blocked', dt, end, got)

def connecting(rng, mon, i):
    """an attempt that never completes is given up after three hours"""
    srv = socket.socket(); srv.bind(('127.0.0.1', 0)); srv.listen(0); fillers = []
    try:
        for _ in range(3):
            s = socket.socket(); s.setblocking(False); s.connect_ex(srv.getsockname()); fillers.append(s)
        with Lab(rng, mon) as lab:
            w = World(rng, mon, lab); a = w.dial()
            if not lab.node.add_peer(srv.getsockname()): mon.ev('connect-refused'); return
            c = [x for x in lab.node.peers if x.address == srv.getsockname()][0]; q = w.add(None, c); w.poll(4)
            if q['nsent']: mon.ev('completed'); return
            for dt in rng.sample([3000, 4000, 3799], 3): w.say(a, wire.frame(MAGIC, 'pong', {'nonce': bytes(8)})); w.advance(dt)
            mon.check(q in w.live, 'harness'); w.say(a, wire.frame(MAGIC, 'pong', {'nonce': bytes(8)})); w.advance(3); mon.check(q not in w.live and a in w.live, 'not-closed', 'an attempt is never given up'); mon.ev('connecting')
    finally:
        for s in fillers: s.close()
        srv.close()

FAMILIES = [Family('histories', histories, 300, 9000), Family('chatter', chatter, 20, 200), Family('blocked', blocked, 16, 300), Family('connecting', connecting, 12, 60)]
REQUIRED = {'steps': 4000, 'closed': 300, 'closed-queued': 3, 'closed-never-heard': 80, 'kept': 6000, 'kept-barely': 100, 'pings': 1000, 'no-pings': 1500, 'no-pings-barely': 100, 'times': 4000, 'blocked': 3, 'connecting': 4, 'chatter': 20}
