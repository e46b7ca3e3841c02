import errno, io, random, socket, sys, threading, time
from ..core import Family, Violation
from .. import gen, netlab
from ..netlab import Lab, MAGIC, protocol, F
from ..ref import wire
from ..gen import Pauses
from .n01 import BadLog, CMDS
ANCHORS = ['nbc/node/connection.py', 'nbc/node/basenode.py', 'nbc/protocol/messages.py']
RULE = 'one to four peers, made and accepted; messages of all types sent by the application before the connection is complete, between polls, from handlers and as replies; writes take 0..n bytes, would block, fail; readers slow; distinct = (messages, write sizes) histories'
ASSUMPTIONS = ['after a failed write the connection is closed; what arrived is a prefix of what was sent']

class End(object):
    """one connection and what has been sent on it"""
    def __init__(self, lab, mon, p, c): self.lab, self.mon, self.p, self.c, self.sock, self.want, self.n = lab, mon, p, c, lab.where(c), [], 0
    def send(self, rng, command=None):
        while 1:
            c, v = wire.message(rng, command)
            if wire.limits_ok(wire.MSG[c][2], v): break
        m, _ = wire.build_msg(rng, protocol, F, c, v)
        self.c.send_message(m); self.want.append((c, wire.frame(MAGIC, c, v)))
    def counters(self):
        self.mon.eq(self.c.tx_bytes, len(self.sock.sent), 'tx-bytes', 'sent bytes of a peer are miscounted')
    def judge(self, whole=True):
        """what arrived against what was sent (version first)"""
        p, mon = self.p, self.mon; got = p.buf
        mon.check(len(got) >= 24 or not whole, 'greeting', 'no version message')
        if len(got) < 24: return
        mon.check(got[:4] == MAGIC and got[4:16].rstrip(b'\0') == b'version', 'greeting', 'the stream does not start with a version message', got=got[:40])
        n = 24 + int.from_bytes(got[16:20], 'little'); body = b''.join(f for _, f in self.want); rest = got[n:]
        if whole and rest != body or not body.startswith(rest):
            at = next((k for k in range(min(len(rest), len(body))) if rest[k] != body[k]), min(len(rest), len(body)))
            mon.check(False, 'stream', 'the received bytes are not the messages sent', sent=len(body), received=len(rest), differs=at, around=rest[max(0, at - 10):at + 30], expected=body[max(0, at - 10):at + 30], commands=[c for c, _ in self.want][:20])
        mon.check(self.sock.sent.startswith(got), 'stream')
        mon.ev('bytes', len(got)); mon.ev('messages', len(self.want))

def ends(rng, mon, lab, n, early=False):
    out = []
    for _ in range(n):
        if rng.random() < .6: p = lab.dial(); c = lab.find(p); e = End(lab, mon, p, c)
        else:
            srv = lab.server(); a = srv.getsockname()
            mon.check(lab.node.add_peer(a), 'connect', 'add_peer did not connect')
            c = [x for x in lab.node.peers if x.address == a][0]; e = End(lab, mon, None, c)
            if early:
                for _ in range(rng.randint(0, 4)): e.send(rng); mon.ev('early')
            lab.until(lambda: any_accept(lab, srv, e, a)); p = e.p
        out.append(e)
    return out

def any_accept(lab, srv, e, a):
    if e.p: return True
    try: s, who = srv.accept()
    except BlockingIOError: return False
    e.p = netlab.Peer(s, lab); e.p.out = a; return True

def flows(rng, mon, i):
    with Lab(rng, mon, log=rng.choice([io.StringIO(), BadLog(), None])) as lab:
        lab.node.log_level = i % 5
        es = ends(rng, mon, lab, rng.choice([1, 2, 4]), True)
        size = rng.choice([1, 3, 40, 1000, 70000]); p_short, p_again = rng.choice([(0, 0), (.5, .2), (1, 0), (.9, .5)])
        def fault(s, op):
            if s.listener or op != 'send': return None
            k = rng.random()
            if k < p_again: mon.ev('would-block'); return rng.choice([BlockingIOError(errno.EAGAIN, 'again'), 0])
            if k < p_again + p_short: mon.ev('short-writes'); return rng.randint(1, size)
        lab.fault = fault
        def trap(peer, cmd, kw):
            e = [x for x in es if x.c is peer]
            if cmd == 'ping' and e: e[0].want.append(('pong', wire.frame(MAGIC, 'pong', {'nonce': kw['nonce']}))); mon.ev('replies')
            elif cmd == 'inv':
                for x in es:                     # an application relaying to the others
                    if x.c is not peer: x.send(rng); mon.ev('relayed')
        lab.trap = trap
        sizes = 0
        for step in range(rng.choice([10, 30, 60])):
            e = rng.choice(es); k = rng.random()
            if k < .45: e.send(rng)
            elif k < .55:
                r = mon.call(e.c.send_message, rng.choice([None, 'ping', protocol.Pong, 5, b'']))
                mon.ev('not-a-message')
            elif k < .7: e.p.send(wire.frame(MAGIC, *wire.message(rng, rng.choice(['ping', 'ping', 'inv', 'pong', 'notfound']))))
            if rng.random() < .6:
                lab.poll(rng.choice([1, 1, 3]))
                for x in es: x.counters()
            if rng.random() < .4: e.p.pull(rng.choice([1, 100, 5000, None]))
        if size < 50 and sum(len(f) for x in es for _, f in x.want) > 20000: size = 5000
        lab.until(lambda: not any(x.c.writable() for x in es) and all(x.sock.got >= 0 for x in es))
        lab.settle(300)
        lab.until(lambda: all(len(x.p.buf) >= len(x.sock.sent) for x in es) and not any(x.c.writable() for x in es))
        for x in es:
            x.counters(); x.judge(); mon.check(x.c in lab.node.peers, 'dropped', 'a connection was given up though every write was retryable')
            mon.seen(len(x.want), x.sock.sends, len(x.sock.sent)); mon.ev('writes', x.sock.sends)
        if hasattr(lab.node, '_tx_bytes'): mon.eq(lab.node._tx_bytes, lab.left, 'node-tx-bytes', 'bytes sent by the node are miscounted')
        mon.sample(peers=len(es), commands=[c for c, _ in es[0].want][:10], writes=es[0].sock.sends)

def failing(rng, mon, i):
    """writes that fail: that connection ends, what arrived is a prefix; the others are whole"""
    with Lab(rng, mon) as lab:
        es = ends(rng, mon, lab, 3); lab.settle(60)
        victim = rng.choice(es); after = rng.randint(0, 12); err = rng.choice([errno.EPIPE, errno.ECONNRESET, errno.EIO, errno.ENOBUFS, errno.ETIMEDOUT, errno.EHOSTUNREACH])
        cnt = [0]
        def fault(s, op):
            if op != 'send': return None
            if s is victim.sock:
                cnt[0] += 1
                if cnt[0] > after: return OSError(err, 'injected')
            return rng.choice([None, 5, 100])
        lab.fault = fault
        for _ in range(20):
            for e in es:
                if rng.random() < .5 and e.c in lab.node.peers: e.send(rng, rng.choice(['ping', 'inv', 'tx', 'addr']))
            lab.poll(1)
            for e in es: e.counters(); e.p.pull()
        lab.until(lambda: not any(e.c.writable() for e in es)); lab.settle(300)
        lab.until(lambda: all(len(e.p.buf) >= len(e.sock.sent) for e in es), 2)
        for e in es: e.judge(e is not victim); e.counters()
        if cnt[0] > after: mon.check(victim.sock.closed, 'not-closed', 'a connection whose write failed stayed open'); mon.ev('failed-writes')
        if hasattr(lab.node, '_tx_bytes'): mon.eq(lab.node._tx_bytes, lab.left, 'node-tx-bytes')
        mon.seen('failing', after, err, i)

def bulk(rng, mon, i):
    """far more than the socket takes, to a reader that does not read for long"""
    with Lab(rng, mon) as lab:
        es = ends(rng, mon, lab, 2); lab.settle(60); a, b = es
        pool = [gen.raw(rng, 32) for _ in range(5)]
        for k in range(rng.choice([3, 6])):
            n = rng.choice([1000, 30000, 50000]); v = {'inventory': tuple({'object_type': 1, 'hash': pool[(j * j + k) % 5]} for j in range(n))}
            iv = [protocol.InventoryVector(1, h) for h in pool]
            a.c.send_message(protocol.Inventory([iv[(j * j + k) % 5] for j in range(n)])); a.want.append(('inv', wire.frame(MAGIC, 'inv', v)))
            b.send(rng, 'ping'); lab.poll(3)
            for e in es: e.counters()
        lab.until(lambda: len(b.p.pull()) < 0 or len(b.p.buf) >= len(b.sock.sent) and not b.c.writable())
        b.judge()                               # the stalled peer does not hold up the other
        if a.c.writable(): mon.ev('stalled')
        lab.until(lambda: not a.c.writable()); lab.until(lambda: len(a.p.buf) >= len(a.sock.sent))
        a.judge(); a.counters(); mon.ev('bulk'); mon.seen('bulk', len(a.sock.sent))
        if hasattr(lab.node, '_tx_bytes'): mon.eq(lab.node._tx_bytes, lab.left, 'node-tx-bytes')

def threads(rng, mon, i):
    """several threads of an application send while the loop runs"""
    gap = sys.getswitchinterval()
    with Lab(rng, mon) as lab:
        ps = [lab.dial() for _ in range(rng.choice([1, 1, 2]))]; cs = [lab.find(p) for p in ps]; socks = [lab.where(c) for c in cs]; lab.settle(60)
        for p in ps: p.pull(); p.frames(mon)
        k = rng.choice([1, 2, 3]); per = rng.choice([5, 15, 40]); big = rng.choice([1, 20, 400]); want = {}; errors = []; cap = rng.choice([None, None, 7, 300])
        def fault(s, op): return rng.choice([None, 1, cap]) if op == 'send' and cap else None
        lab.fault = fault; size = cap is None and big or 1
        seeds = [rng.getrandbits(32) for _ in range(k)]; pause = rng.choice([0, .02, .2])
        def app(t):
            r = random.Random(seeds[t]); tr = Pauses(seeds[t], pause); sys.settrace(tr)
            try:
                for n in range(per):
                    j = r.randrange(len(cs)); tag = bytes([t]) + n.to_bytes(7, 'big')
                    if r.random() < .5: cs[j].send_message(protocol.Ping(tag)); got = ('ping', tag)
                    else: c = r.randint(1, size); cs[j].send_message(protocol.Inventory([protocol.InventoryVector(1, tag * 4)] * c)); got = ('inv', tag * 4, c)
                    want.setdefault((t, j), []).append(got)
            except BaseException as e: errors.append(e)
            finally: sys.settrace(None)
        ts = [threading.Thread(target=app, args=(t,), daemon=True) for t in range(k)]
        try:
            sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4]))
            for t in ts: t.start()
            while any(t.is_alive() for t in ts):
                lab.poll(1); ps[rng.randrange(len(ps))].pull(); time.sleep(0)
        finally: sys.setswitchinterval(gap)
        for t in ts: t.join()
        for e in errors: raise Violation('thread-raises', 'sending from another thread failed: %r' % e, {})
        lab.until(lambda: not any(c.writable() for c in cs)); lab.until(lambda: all(p.total >= len(s.sent) for p, s in zip(ps, socks)))
        for j, p in enumerate(ps):
            p.pull(); got = {}
            for c, v, raw in p.frames(mon, 'threads-stream'):
                if c == 'ping': m = ('ping', v['nonce'])
                elif c == 'inv': m = ('inv', v['inventory'][0]['hash'], len(v['inventory']))
                else: continue
                got.setdefault(m[1][0], []).append(m)
            mon.check(not p.buf, 'threads-stream', 'a rest of a message arrived', rest=p.buf[:50])
            for t in range(k):
                w, g = want.get((t, j), []), got.get(t, [])
                if w != g:
                    at = next((x for x in range(min(len(w), len(g))) if w[x] != g[x]), min(len(w), len(g)))
                    mon.check(False, 'threads', 'messages sent by a thread arrived damaged, twice, out of order or not at all', sent=len(w), arrived=len(g), at=at, threads=k, expected=w[at:at + 3], got=g[at:at + 3])
                mon.ev('thread-messages', len(w))
            mon.eq(cs[j].tx_bytes, len(socks[j].sent), 'tx-bytes', 'sent bytes of a peer are miscounted')
        mon.seen('threads', k, per, len(ps), tuple(len(s.sent) for s in socks))

FAMILIES = [Family('threads', threads, 120, 3000), Family('flows', flows, 500, 12000), Family('failing', failing, 150, 3000), Family('bulk', bulk, 8, 120)]
REQUIRED = {'thread-messages': 1500, 'messages': 2000, 'short-writes': 2000, 'would-block': 500, 'early': 30, 'replies': 100, 'relayed': 30, 'failed-writes': 20, 'bulk': 8}
