import errno, io, os, resource, socket, sys, threading, time
from ..core import Family, Violation
from .. import gen, netlab
from ..netlab import Lab, MAGIC, protocol
from ..ref import wire
from ..gen import Pauses
from .n03 import LOCAL
ANCHORS = ['nbc/node/basenode.py', 'nbc/node/connection.py']
RULE = 'histories of joins, connects (good, repeated, refused, invalid, at the maximum, with a greeting that cannot be made), closes of every kind, resets before and after accept, injected socket errors, handlers that raise, remove, add and close during dispatch, clock steps to the time limits with data queued; the table is compared with the open sockets after each step; distinct = (step, table) states'
ASSUMPTIONS = ['refusing an unforced connect one below the maximum is tolerated (the listener is counted)', 'connections whose descriptor select() can not watch may be refused']

FATAL = [errno.ECONNRESET, errno.EPIPE, errno.EIO, errno.ETIMEDOUT, errno.ENOMEM, errno.ENOTCONN, errno.EBADF, errno.ECONNABORTED, errno.EHOSTUNREACH, errno.ESHUTDOWN]
class World(object):
    def __init__(self, rng, mon, lab): self.rng, self.mon, self.lab, self.live = rng, mon, lab, []
    def add(self, p, c, addr): self.live.append(dict(p=p, c=c, addr=tuple(addr))); return self.live[-1]
    def join(self):
        p = self.lab.dial(); c = self.lab.find(p); self.mon.check(c is not None, 'not-served', 'an incoming connection is not in the table'); self.mon.ev('joined'); return self.add(p, c, p.name)
    def out(self, force=True):
        srv = self.lab.server(); a = srv.getsockname(); r = self.lab.node.add_peer(a, force) if self.rng.random() < .8 or not force else self.lab.node.add_peer(a)
        return r, srv, a
    def complete(self, srv, a, stale=0):
        got = []; stale = [1] * stale
        def acc():
            try: s, a = srv.accept()
            except OSError: return bool(got)
            if stale: stale.pop(); s.close()                     # one given up before
            else: got.append(s)
            return bool(got)
        self.lab.until(acc); self.mon.check(got, 'not-made', 'a connection was not made'); p = netlab.Peer(got[0], self.lab); p.out = a; c = self.lab.find(p)
        self.mon.check(c is not None, 'not-listed', 'a made connection is not in the table'); self.mon.ev('made'); return self.add(p, c, a)
    def check(self, what):
        """the table against the sockets and the model, once things have settled"""
        lab, mon = self.lab, self.mon; lab.fault = None
        want = [q['c'] for q in self.live]
        def same():
            a = lab.node.peers
            return len(a) == len(want) and all(any(x is y for y in a) for x in want)
        lab.poll(2)
        if not same(): lab.until(same, 5)
        lab.poll(2); peers = lab.node.peers
        mon.check(len({id(x) for x in peers}) == len(peers), 'twice', 'a connection is listed twice', step=what)
        gone = [q['addr'] for q in self.live if not any(q['c'] is x for x in peers)]; extra = [x.address for x in peers if not any(x is y for y in want)]
        mon.check(not gone, 'lost', 'an open connection is not (any more) in the table after %s' % what, addresses=gone); mon.check(not extra, 'ghost', 'the table holds a connection that is not open after %s' % what, addresses=extra)
        opened = [s for s in lab.socks if not s.closed and not s.listener]
        for x in peers:
            mon.check(sum(s is x.socket for s in opened) == 1, 'no-socket', 'a listed peer has no open socket of its own', step=what)
        mon.eq(len(opened), len(peers), 'leak', 'sockets left open by closed connections after %s' % what, peers=[s.peer for s in opened])
        mon.eq(len({s.s.fileno() for s in opened}), len(opened), 'leak')
        mon.check(any(s.listener and not s.closed for s in lab.socks), 'listener', 'the listener is gone after %s' % what)
        for q in self.live:
            q['p'].pull(); mon.check(not q['p'].eof, 'cut', 'the other side of a listed connection is closed', step=what)
        mon.eq(sorted(q['addr'] for q in self.live), sorted(tuple(x.address) for x in peers), 'addresses', 'addresses of the table')
        mon.ev('states'); mon.ev('step-' + what); mon.seen(what, len(peers))
    def gone(self, q): self.live.remove(q); self.mon.ev('closed')

def dead_port(lab):
    """an address that refuses: bound but not listening, so that nobody else gets the port meanwhile"""
    s = socket.socket(); s.bind(('127.0.0.1', 0)); lab.__dict__.setdefault('dead', []).append(s); return s.getsockname()
BAD = [('127.0.0.1', 70000), ('127.0.0.1', -1), (b'\xff\xff', 1), ('256.1.1.1', 5), (None, 1), ('127.0.0.1', None), ('', 'x')]
def send(lab, q, f, wait=True):
    try:
        while f: n = q['p'].send(f); f = f[n:]; lab.poll(1)
    except OSError: return
def ping(rng): return wire.frame(MAGIC, 'ping', {'nonce': gen.raw(rng, 8)})
INV = wire.frame(MAGIC, 'inv', {'inventory': ()})
def near(rng, a):
    b = 1 << rng.randrange(16)
    return [(a[0], a[1] ^ b), (a[0], a[1] + b), (a[0], a[1] + 65536), (a[0], -a[1]), (a[0], 0), (a[0].rpartition('.')[0] + '.%d' % (int(a[0].rpartition('.')[2]) ^ 1 << rng.randrange(8)), a[1]), ('', a[1]), (a[0] + '0', a[1]), (a[0][:-1], a[1])]
class Boom(Exception): pass

def step(w, rng, mon, lab):
    """one random step; returns its name"""
    node = lab.node; k = rng.randrange(23); q = rng.choice(w.live) if w.live else None
    if k < 3 or not q: w.join(); return 'join'
    if k == 3:
        r, srv, a = w.out(); mon.check(r, 'connect', 'a good address was refused'); w.complete(srv, a); return 'connect'
    if k == 4:                                                   # again to a connected address
        r = node.add_peer(rng.choice(w.live)['addr'], rng.choice([True, False])); mon.check(not r, 'again', 'connecting to a connected address was not refused'); mon.ev('again'); return 'again'
    if k == 5:                                                   # while the connect is under way
        r, srv, a = w.out(); mon.check(r, 'connect', 'refused'); mon.check(not node.add_peer(a), 'again', 'connecting twice to an address was not refused'); w.complete(srv, a); mon.ev('again'); return 'again-connecting'
    if k == 6:                                                   # refused at once, or the attempt fails only later
        lab.late = rng.choice([0, errno.ECONNREFUSED, errno.EHOSTUNREACH, errno.ENETUNREACH, errno.ETIMEDOUT, errno.ECONNRESET, errno.EACCES, errno.ENETDOWN, errno.EHOSTDOWN])
        r = node.add_peer(dead_port(lab)); mon.ev('refused'); mon.ev('failed-later', bool(r and lab.late)); lab.late = 0; return 'refused'
    if k == 7:
        r = mon.call(node.add_peer, rng.choice(BAD)); mon.check(r != ('ok', True), 'invalid', 'an impossible address was accepted'); mon.ev('invalid'); return 'invalid'
    if k == 8: q['p'].close(False); w.gone(q); return 'close'
    if k == 9: q['p'].close(True); w.gone(q); return 'reset'
    if k == 10: q['p'].s.shutdown(socket.SHUT_WR); w.gone(q); return 'half-close'
    if k == 11: send(lab, q, ping(rng) * rng.randint(1, 40)); q['p'].close(rng.random() < .5); w.gone(q); return 'close-with-data'
    if k == 12:
        node.remove_peer(q['addr']); w.gone(q)
        if rng.random() < .5: node.remove_peer(q['addr'])
        return 'remove'
    if k == 13:                                                  # somebody else's address, also much like a peer's
        have = [x['addr'] for x in w.live]
        for a in [('127.9.9.9', 9)] + near(rng, q['addr']):
            if tuple(a) not in have: node.remove_peer(a); mon.ev('remove-near')
        return 'remove-unknown'
    if k == 14:                                                  # an error of the socket
        op = rng.choice(['recv', 'send']); err = rng.choice(FATAL); s = lab.where(q['c']); hit = []
        def fault(x, o):
            if x is s and o == op: hit.append(1); return OSError(err, 'injected')
        lab.fault = fault
        if op == 'recv': send(lab, q, ping(rng))
        else: q['c'].send_message(protocol.Ping(b'12345678'))
        lab.until(lambda: hit, 3)
        if hit: w.gone(q); mon.ev('socket-error')
        lab.poll(1); lab.fault = None; return 'error-' + op
    if k == 15:                                                  # would block
        n = [0]
        def fault(x, o):
            if not x.listener and rng.random() < .6: n[0] += 1; return BlockingIOError(rng.choice([errno.EAGAIN, errno.EWOULDBLOCK]), 'again')
        lab.fault = fault; send(lab, q, ping(rng) * 3); q['c'].send_message(protocol.Ping(b'12345678')); lab.poll(6); mon.ev('would-block', n[0]); return 'would-block'
    if k == 16:                                                  # connects and is gone before the node looks
        for _ in range(rng.randint(1, 4)):
            s = socket.socket(); s.connect(node.address)
            if rng.random() < .5: s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b'\1\0\0\0\0\0\0\0')
            s.close()
        lab.poll(8); mon.ev('gone-early'); return 'gone-early'
    if k == 17:                                                  # no greeting can be made
        keep = node.external_ip, node.user_agent
        if rng.random() < .5: node.external_ip = rng.choice(['nonsense', '1.2.3', b'\xff', 5])
        else: node.user_agent = rng.choice([5, ['x']])
        if rng.random() < .5:
            s = socket.socket(); s.setblocking(False)
            s.connect_ex(node.address); lab.poll(6); s.close()
        else:
            srv = lab.server(); mon.check(mon.call(node.add_peer, srv.getsockname()) != ('ok', True), 'greeting', 'connected without a greeting')
        node.external_ip = None; node.user_agent = '/x/'; lab.poll(2); mon.ev('no-greeting'); return 'no-greeting'
    if k == 18:                                                  # the listener is woken for nothing
        n = [rng.choice([0, 1])]
        def fault(x, o):
            if o == 'accept' and n[0] >= 0: n[0] -= 1; return OSError(rng.choice([errno.EWOULDBLOCK, errno.EAGAIN, errno.ECONNABORTED, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.ENOBUFS, errno.EPROTO, errno.EINTR]), 'gone')
        lab.fault = fault; p = lab.dial(); lab.fault = None
        lab.until(lambda: lab.find(p), 3); mon.check(lab.find(p), 'not-served', 'a connection was not served after a failed accept'); w.add(p, lab.find(p), p.name); mon.ev('accept-error'); return 'accept-error'
    if k == 19:                                                  # handlers that interfere with the table, in the middle of dispatch
        acts = []
        def trap(peer, cmd, kw):
            if cmd != 'inv': return
            a = rng.randrange(6); o = rng.choice(w.live) if w.live else None
            mon.ev('interference')
            if a == 0: raise rng.choice([Boom('x'), ValueError(), OSError(errno.EBADF, 'x'), KeyError(1), RuntimeError('\udc80')])
            if a == 1 and o: node.remove_peer(o['addr']); w.gone(o)
            if a == 2: node.remove_peer(peer.address); [w.gone(x) for x in w.live if x['c'] is peer]
            if a == 3 and o: o['c'].send_message(protocol.Ping(b'12345678'))
            if a == 4 and o: o['c'].handle_close(); w.gone(o)
            if a == 5:
                r, srv, ad = w.out(); acts.append((r, srv, ad))
        lab.trap = trap
        some = rng.sample(w.live, min(len(w.live), rng.randint(1, 4)))
        for x in some:
            try: x['p'].s.send(INV * rng.randint(1, 3))
            except OSError: pass
        lab.poll(1); lab.settle(40); lab.trap = None
        for r, srv, ad in acts: mon.check(r, 'connect', 'refused'); w.complete(srv, ad)
        return 'interference'
    if k == 20:                                                  # three hours without a word, with data queued
        for x in w.live:
            if rng.random() < .5:
                for _ in range(rng.randint(1, 30)): x['c'].send_message(protocol.Ping(b'12345678'))
        keep = rng.sample(w.live, rng.randint(0, len(w.live)))
        lab.clock.add(rng.choice([1801, 5400]));
        lab.poll(2)
        for x in keep: send(lab, x, ping(rng))
        lab.settle(60)
        lab.clock.add(10801 - 1801 if rng.random() < .5 else 10000)
        lab.poll(3); lab.settle(60); mon.ev('hours')
        now = lab.node.peers
        for x in list(w.live):                                   # who goes and stays is another property's subject
            if x['c'] not in now: w.gone(x)
        return 'hours'
    if k == 22:                                                  # thought better of it, before anything was written
        r, srv, a = w.out(); mon.check(r, 'connect', 'a good address was refused'); node.remove_peer(a)
        mon.check(all(x.address != a for x in node.peers), 'removed', 'a peer removed right after it was added stays'); mon.ev('withdrawn')
        if rng.random() < .5: r = node.add_peer(a); mon.check(r, 'connect', 'an address removed before is refused'); w.complete(srv, a, 1)
        return 'withdrawn'
    if k == 21: lab.clock.add(11); lab.poll(2); send(lab, q, ping(rng) * 2); lab.settle(30); return 'beat'

def histories(rng, mon, i):
    with Lab(rng, mon, log=io.StringIO()) as lab:
        w = World(rng, mon, lab); lab.node.log_level = i % 5
        for _ in range(rng.choice([20, 40])):
            name = step(w, rng, mon, lab); w.check(name)
        for q in list(w.live): q['p'].close(rng.random() < .5); w.gone(q)
        w.check('all-gone'); mon.eq(len(lab.node.peers), 0, 'ghost'); mon.sample(socks=len(lab.socks), beats=lab.beats)

def maximum(rng, mon, i):
    """unforced connecting at the maximum"""
    m = rng.choice([2, 3, 5, 9])
    with Lab(rng, mon, max_peers=m, seek_peers=rng.choice([0, 0, 1, m, m + 5, 16])) as lab:   # whatever number is wanted; none is known
        w = World(rng, mon, lab)
        for _ in range(rng.choice([25, 40])):
            k = rng.random(); n = len(w.live)
            if k < .45:
                r, srv, a = w.out(False)
                if n >= m: mon.check(not r, 'maximum', 'unforced connecting with %d of %d peers was accepted' % (n, m)); mon.ev('at-maximum')
                elif n < m - 1: mon.check(r, 'below-maximum', 'unforced connecting with %d of %d peers was refused' % (n, m)); mon.ev('below-maximum')
                if r: w.complete(srv, a)
            elif k < .55:
                r, srv, a = w.out(True); mon.check(r, 'forced', 'forced connecting was refused'); w.complete(srv, a); mon.ev('forced', n >= m)
            elif k < .7: w.join()
            elif w.live: q = rng.choice(w.live); q['p'].close(); w.gone(q)
            w.check('maximum')

def crowd(rng, mon, i):
    """many peers at once, all coming and going in the same rounds"""
    with Lab(rng, mon, max_peers=500) as lab:
        w = World(rng, mon, lab); n = rng.choice([20, 60])
        for r in range(4):
            ps = []
            for k in range(0, n, 4):
                for _ in range(4): s = socket.socket(); s.connect(lab.node.address); ps.append(netlab.Peer(s, lab))
                lab.until(lambda: all(lab.find(p) for p in ps), 3)
            for p in ps: mon.check(lab.find(p), 'not-served', 'an incoming connection is not served'); w.add(p, lab.find(p), p.name)
            for q in w.live: q['p'].s.send(ping(rng) * 3)
            for q in rng.sample(w.live, rng.randint(0, len(w.live))): q['p'].close(rng.random() < .5); w.gone(q)
            w.check('crowd')
        mon.ev('crowds')

def onlookers(rng, mon, i):
    """an application asks for the peers from its own thread while they come and go"""
    gap = sys.getswitchinterval()
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab)
        for _ in range(rng.choice([3, 8, 15])): w.join()
        firm = [q['c'] for q in w.live[:2]]; stop, errors, n = [], [], [0]
        seed, pause = rng.getrandbits(32), rng.choice([0, .05, .3])
        def look():
            sys.settrace(Pauses(seed, pause))
            try:
                while not stop:
                    ps = lab.node.peers; n[0] += 1
                    for c in firm:
                        if not any(c is x for x in ps): errors.append('a connection that is open all the time is missing'); return
                    if len({id(x) for x in ps}) != len(ps): errors.append('a connection is listed twice'); return
            except BaseException as e: errors.append(repr(e))
            finally: sys.settrace(None)
        ts = [threading.Thread(target=look, daemon=True) for _ in range(rng.choice([1, 2]))]
        try:
            sys.setswitchinterval(rng.choice([1e-6, 1e-5]))
            for t in ts: t.start()
            for _ in range(rng.choice([10, 25])):
                if len(w.live) > 3 and rng.random() < .5: q = rng.choice(w.live[2:]); q['p'].close(rng.random() < .5); w.gone(q); lab.poll(2)
                else: w.join()
                time.sleep(0)
                if errors: break
        finally: stop.append(1); sys.setswitchinterval(gap)
        for t in ts: t.join()
        if errors: raise Violation('onlooker', 'listing the peers from another thread: %s' % errors[0], {'peers': len(w.live)})
        w.check('onlookers'); mon.ev('looks', n[0]); mon.seen('onlookers', len(w.live), i)

def outgoing(rng, mon, i):
    """a node made without an address takes nobody in, and serves those it connects to"""
    with Lab(rng, mon, listen=False) as lab:
        w = World(rng, mon, lab); out = []
        for _ in range(rng.choice([6, 15])):
            k = rng.random()
            if k < .4:
                p = lab.dial(until=False)
                if rng.random() < .6:
                    try: p.send(ping(rng) if rng.random() < .5 else wire.frame(MAGIC, 'getaddr', {}))
                    except OSError: pass
                out.append(p); mon.ev('strangers')
                if rng.random() < .3: out.append(lab.dial(until=False))
                mon.check(lab.until(lambda: all(q.pull() is not None and q.eof for q in out)), 'not-dropped', 'a node that does not listen keeps a connection made to it')
                mon.check(not any(q.total for q in out), 'greeted', 'a node that does not listen talks to somebody who connects')
            elif k < .7:
                r, srv, a = w.out(True); mon.check(r, 'forced', 'connecting was refused'); w.complete(srv, a); mon.ev('served')
            elif w.live and k < .8: q = rng.choice(w.live); q['p'].close(); w.gone(q)
            for q in w.live: mon.check(str(q['addr'][1]) in str(q['c']), 'named', 'a connection does not tell its address', got=str(q['c']))
            w.check('outgoing')
        mon.seen('outgoing', len(w.live), len(out), i)

def descriptors(rng, mon, i):
    """the process has many files open: the loop goes on, whoever can not be served is let go"""
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    if hard != resource.RLIM_INFINITY and hard < 1400: mon.ev('descriptors'); mon.ev('high-refused'); return
    resource.setrlimit(resource.RLIMIT_NOFILE, (max(soft, 1400), hard)); hold = []
    try:
        with Lab(rng, mon) as lab:
            w = World(rng, mon, lab)
            for _ in range(rng.choice([1, 4])): w.join()
            z = os.open(os.devnull, os.O_RDONLY); hold.append(z); left = rng.choice([0, 0, 5, 6])
            while hold[-1] < 1023 - left: hold.append(os.dup(z))
            for r in range(rng.choice([2, 6])):
                if rng.random() < .6: p = lab.dial(until=False); lab.until(lambda: lab.find(p) or (p.pull(), p.eof)[1], 5); c = lab.find(p)
                else:
                    srv = lab.server(); mon.ok('connect-raises', 'connecting', lab.node.add_peer, srv.getsockname()); lab.poll(3)
                    for q in list(lab.node.peers):
                        if q.address == srv.getsockname(): lab.node.remove_peer(q.address)
                    c, p = None, None; mon.ev('high-made')
                if p is not None and c is None: p.pull(); mon.ev('high-refused'); p.close()
                elif p is not None: w.add(p, c, p.name); mon.ev('high-served')
                w.check('many files')
                q = rng.choice(w.live); q['p'].send(ping(rng)); b = q['p'].total; mon.check(lab.until(lambda: (q['p'].pull(), q['p'].total > b)[1]), 'not-served', 'a peer is no longer served')
            for h in hold: os.close(h)
            hold = []; w.join(); w.check('files closed'); mon.ev('descriptors'); mon.seen('descriptors', len(w.live), i)
    finally:
        for h in hold: os.close(h)
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, hard))

def named(rng, mon, i):
    """peers given by host name: the same peer as by its address"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); node = lab.node
        for _ in range(rng.choice([1, 2])):
            srv = lab.server('127.0.0.1'); ip = srv.getsockname(); by = (LOCAL, ip[1]); forms = [by, ip]; rng.shuffle(forms)
            mon.eq(mon.ok('connect-raises', 'connecting', node.add_peer, forms[0], *([] if rng.random() < .5 else [False])), True, 'name', 'a peer given by its host name is not connected', peer=forms[0]); w.complete(srv, ip)
            mon.check(not mon.ok('connect-raises', 'connecting', node.add_peer, forms[1]), 'again', 'connecting again to a connected peer was not refused', first=forms[0], then=forms[1]); mon.check(not node.add_peer(forms[0]), 'again'); w.check('named'); mon.ev('named')
            q = w.live[-1]; q['p'].send(ping(rng)); b = q['p'].total; mon.check(lab.until(lambda: (q['p'].pull(), q['p'].total > b)[1]), 'not-served', 'a peer given by name is not served'); mon.check('127.0.0.1' == q['c'].ip, 'ip', got=q['c'].ip)
            if rng.random() < .5: q['p'].close(rng.random() < .5); w.gone(q); w.check('named')
        r = mon.call(node.add_peer, ('no.such.host.invalid', 5)); mon.check(r == ('ok', False), 'invalid', 'a name that does not exist was connected', got=r); w.check('unknown name'); mon.seen('named', i)

def alike(rng, mon, i):
    """peers whose addresses have much in common: one host with ports that differ in one bit, several hosts with one port"""
    with Lab(rng, mon) as lab:
        w = World(rng, mon, lab); node = lab.node; n = 0
        def join(host, port):
            try: p = lab.dial(host, port=port)
            except OSError: return False                        # somebody has the port
            c = lab.find(p); mon.check(c is not None, 'not-served', 'an incoming connection is not in the table', peer=(host, port)); w.add(p, c, p.name); mon.ev('alike'); return True
        while not join('127.0.0.2', rng.randint(10000, 30000)): pass
        base = w.live[0]['addr'][1]
        for b in rng.sample(range(15), rng.randint(3, 8)):
            if 1024 < base ^ 1 << b < 32768: join('127.0.0.2', base ^ 1 << b)
        for h in rng.sample(['127.0.0.3', '127.0.0.20', '127.0.0.22', '127.0.2.2', '127.2.0.2', '127.0.0.130', '127.128.0.2'], rng.randint(1, 4)): join(h, base)
        w.check('alike')
        while w.live:
            q = rng.choice(w.live); have = [x['addr'] for x in w.live]
            for a in rng.sample(near(rng, q['addr']), 3):
                if tuple(a) not in have: node.remove_peer(a)
            w.check('alike'); k = rng.randrange(3)
            if k == 0: node.remove_peer(q['addr'])
            elif k == 1: q['p'].close(rng.random() < .5)
            else: q['c'].handle_close()
            w.gone(q); w.check('alike'); n += 1
        mon.seen('alike', n, i)

FAMILIES = [Family('alike', alike, 60, 1200), Family('named', named, 40, 800), Family('descriptors', descriptors, 16, 400), Family('outgoing', outgoing, 80, 2000), Family('onlookers', onlookers, 40, 800), Family('histories', histories, 2000, 40000), Family('maximum', maximum, 300, 6000), Family('crowd', crowd, 40, 600)]
REQUIRED = {'failed-later': 600, 'alike': 250, 'remove-near': 300, 'named': 40, 'descriptors': 16, 'high-refused': 12, 'strangers': 100, 'served': 100, 'looks': 1500, 'states': 5000, 'joined': 500, 'made': 200, 'again': 200, 'refused': 100, 'invalid': 100, 'closed': 1000, 'socket-error': 100, 'would-block': 300, 'gone-early': 100, 'no-greeting': 100, 'accept-error': 80, 'interference': 200, 'hours': 80, 'at-maximum': 80, 'below-maximum': 50, 'forced': 20, 'crowds': 10}
