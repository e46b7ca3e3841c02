import errno, io, socket, struct, time
from ..core import Family, StepGuard, StepLimit
from .. import gen
from ..alloc import Allocated
from ..netlab import Lab, MAGIC, protocol, F, asyncore
from ..ref import wire
ANCHORS = ['nbc/node/connection.py', 'nbc/node/basenode.py', 'nbc/protocol/messages.py', 'nbc/protocol/format.py']
RULE = 'n and 4n bytes or messages: one large message in packets of several sizes, many small ones, requests answered to a peer that takes nothing, messages queued and then taken in small pieces, addresses learned and asked for; bytes allocated and steps executed by the node are counted; distinct = (kind, size, packets)'
ASSUMPTIONS = ['work is counted in bytes allocated by Python objects and in executed lines, calls and jumps of library code; four times the traffic may take seven times the work']
GROW = 7

class Lean(object):
    """stands in for a connection's socket: hands out prepared bytes, takes what it is allowed to take"""
    def __init__(self, s): self.s, self.data, self.at, self.cut, self.room, self.took, self.piece = s, b'', 0, 1 << 20, 0, 0, 1 << 30
    def __getattr__(self, n): return getattr(self.s, n)
    def recv(self, n, *a):
        if self.at >= len(self.data): raise BlockingIOError(errno.EAGAIN, 'nothing')
        b = self.data[self.at:self.at + min(n, self.cut)]; self.at += len(b); return b
    def send(self, d, *a):
        n = min(len(d), self.piece, self.room)
        if n <= 0: raise BlockingIOError(errno.EWOULDBLOCK, 'full')
        self.room -= n; self.took += n; return n

def node_with(rng, mon, lab):
    p = lab.dial(); c = lab.find(p); mon.check(c, 'not-connected'); lab.settle(); s = Lean(c.socket); c.socket = s; return c, s

def receive(c, s, data, cut):
    """the node reads it all"""
    s.data, s.at, s.cut = data, 0, cut
    idle = 0
    while s.at < len(s.data) and idle < 3:
        at = s.at; c.handle_read_event(); idle = 0 if s.at > at else idle + 1

def drain(c, s, piece):
    s.room, s.piece = 1 << 40, piece
    idle = 0
    while c.writable() and idle < 3:
        at = s.took; c.handle_write_event(); idle = 0 if s.took > at else idle + 1

def item(n): return b''.join(struct.pack('<I', 1) + bytes(28) + struct.pack('<I', k) for k in range(n))
def frame(c, p): return wire.raw_frame(MAGIC, c, p)
def big(rng, kind, n):
    """one message of about n bytes"""
    if kind == 'text': return frame('alert', wire.varint(n) + bytes(n) + b'\0')
    if kind == 'script': return frame('tx', struct.pack('<I', 1) + b'\1' + bytes(36) + wire.varint(n) + bytes(n) + bytes(4) + b'\1' + bytes(8) + b'\0' + bytes(4))
    if kind == 'unknown': return frame('nonsense', bytes(n))
    if kind == 'damaged': f = bytearray(frame('alert', wire.varint(n) + bytes(n) + b'\0')); f[-1] ^= 1; return bytes(f)
    if kind == 'list': k = n // 36; return frame('inv', wire.varint(k) + item(k))
KINDS = ['text', 'script', 'unknown', 'damaged', 'list']
PING = wire.frame(MAGIC, 'ping', {'nonce': b'12345678'})

def compare(mon, what, run, n, key):
    """run(k) does the work for size k; measured for n and 4n, in bytes and in steps"""
    run(max(1, n // 50)); got = []
    for k in (n, 4 * n):
        with Allocated() as a: run(k)
        got.append(a.total)
    mon.check(got[1] <= GROW * got[0], key, '%s: the bytes copied grow with the square of the traffic' % what, size=n, bytes=got); mon.ev('copies', got[1])
    base = 1 << 40
    steps = []
    for k in (max(1, n // 4), n):
        with StepGuard(base if not steps else steps[0] * GROW + 2000) as g:
            try: run(k)
            except StepLimit: mon.check(False, key + '-steps', '%s: the steps executed grow with the square of the traffic' % what, size=n, steps=steps)
        steps.append(g.count)
    mon.ev('steps', sum(steps)); mon.ev('compared'); mon.ev(key)

def large(rng, mon, i):
    kind = KINDS[i % 5]; cut = rng.choice([500, 1460, 8192, 8192, 65536])
    with Lab(rng, mon, log=None) as lab:
        lab.node.log_level = 5; c, s = node_with(rng, mon, lab); lab.node.lab.log = type('Nul', (list,), {'append': lambda *a: None})()
        n = rng.choice([150, 250]) * (cut if cut < 5000 else 1460)
        def run(k):
            before = c.rx_bytes; d = big(rng, kind, k); receive(c, s, d, cut); mon.eq(c.rx_bytes - before, len(d), 'closed', 'the connection stopped reading')
        compare(mon, 'receiving one %s message in packets of %d' % (kind, cut), run, n, 'large'); mon.seen('large', kind, cut, n)

def many(rng, mon, i):
    """many messages in"""
    cut = rng.choice([24, 100, 8192, 65536]); level = rng.choice([0, 1, 5])
    with Lab(rng, mon, log=None) as lab:
        lab.node.log_level = level; c, s = node_with(rng, mon, lab); lab.node.lab.log = type('Nul', (list,), {'append': lambda *a: None})()
        kinds = [PING, wire.frame(MAGIC, 'inv', {'inventory': ()}), wire.frame(MAGIC, 'verack', {}), frame('nonsense', b'xyz'), wire.frame(MAGIC, 'pong', {'nonce': b'abcdefgh'})]
        mix = [rng.choice(kinds) for _ in range(8)]; stuck = rng.random() < .6
        def run(k):
            s.room = 0; receive(c, s, b''.join(mix) * (k // 8 + 1), cut)
            if stuck: mon.ev('stuck')
            drain(c, s, rng.choice([1000, 100000]))
        compare(mon, 'receiving small messages in packets of %d' % cut, run, rng.choice([400, 1200]), 'many'); mon.seen('many', cut, level, tuple(x[4:9] for x in mix))

def backlog(rng, mon, i):
    """messages wait for a peer that is slow to take them"""
    piece = rng.choice([300, 1460, 5000, 100000])
    with Lab(rng, mon, log=None) as lab:
        lab.node.log_level = 5; c, s = node_with(rng, mon, lab); m = rng.choice([protocol.Reject(b'x', 1, bytes(70)), protocol.Inventory([protocol.InventoryVector(1, bytes(32))] * rng.choice([1, 5])), protocol.Alert(bytes(400), b'')]); size = len(m.binary(MAGIC))
        def run(k):
            s.room = 0; s.took = 0; many = k // size + 1
            for j in range(many):
                c.send_message(m)
                if j % 50 == 0 and c.writable(): c.handle_write_event()   # nothing is taken
            drain(c, s, piece); mon.eq(s.took, many * size, 'stream', 'not all that was sent left')
        compare(mon, 'sending to a peer that takes %d bytes at a time' % piece, run, rng.choice([300000, 500000]), 'backlog'); mon.seen('backlog', piece, size)

def replies(rng, mon, i):
    """a peer asks and asks and takes nothing"""
    with Lab(rng, mon, log=None) as lab:
        lab.node.log_level = 5; c, s = node_with(rng, mon, lab); lab.node.lab.log = type('Nul', (list,), {'append': lambda *a: None})()
        def run(k): s.room = 0; s.took = 0; receive(c, s, PING * k, 8192); drain(c, s, 100000); mon.eq(s.took, 32 * k, 'replies', 'not every ping was answered')
        compare(mon, 'answering a peer that takes nothing', run, rng.choice([800, 2000]), 'replies'); mon.seen('replies', i)

def book(rng, mon, i):
    """addresses learned, and asked for"""
    with Lab(rng, mon, log=None) as lab:
        lab.node.log_level = 5; c, s = node_with(rng, mon, lab); lab.node.lab.log = type('Nul', (list,), {'append': lambda *a: None})(); n = [0]
        per = rng.choice([1, 10, 100]); ask = rng.random() < .5
        for _ in range(3): receive(c, s, addr(rng, 1000, n), 8192)                    # the book is full
        def run(k):
            receive(c, s, b''.join(addr(rng, per, n) for _ in range(k // per + 1)), 8192)
            if ask:
                for _ in range(max(1, k // 400)): receive(c, s, wire.frame(MAGIC, 'getaddr', {}), 8192)
            s.room = 0; drain(c, s, 100000)
        compare(mon, 'learning addresses', run, rng.choice([800, 1600]), 'book'); mon.seen('book', per, ask)
def one_list(rng, mon, i):
    """a message of many addresses"""
    with Lab(rng, mon, log=None) as lab:
        lab.node.log_level = 5; c, s = node_with(rng, mon, lab); lab.node.lab.log = type('Nul', (list,), {'append': lambda *a: None})(); n = [0]
        if i % 2:
            for _ in range(3): receive(c, s, addr(rng, 1000, n), 8192)
        compare(mon, 'learning the addresses of one message', lambda k: receive(c, s, addr(rng, k, n), 8192), 250, 'one-list'); mon.seen('one-list', i)
def addr(rng, k, n):
    n[0] += k; return frame('addr', wire.varint(k) + b''.join(struct.pack('<IQ', 1, 1) + wire.V4 + struct.pack('>IH', 0x0a000000 + j, 8333) for j in range(n[0], n[0] + k)))

def waits(mon, lab, what):
    """the loop sleeps when there is nothing to do"""
    quiet = 0
    for _ in range(80):
        for p in lab.peers:
            if not p.eof: p.pull()
        t = time.perf_counter(); asyncore.poll(.004, lab.node); quiet += time.perf_counter() - t > .0035
        if quiet >= 3: mon.ev('waits'); return
    mon.check(False, 'spins', 'nothing is sent and nothing is to be sent, but the event loop is woken again and again', after=what)

def idle(rng, mon, i):
    """after whatever traffic, a node nobody speaks to does nothing"""
    serves = rng.random() < .9
    with Lab(rng, mon, log=None, listen=serves) as lab:
        node = lab.node; open_ = []; done = []
        for step in range(rng.choice([2, 5, 9])):
            k = rng.choice(['join', 'urgent', 'urgent', 'part', 'whole', 'junk', 'close', 'half', 'refused', 'stuck', 'punish', 'remove', 'say']); done.append(k)
            if k == 'join' or not open_:
                p = lab.dial('127.0.9.%d' % rng.randint(1, 250)) if serves and rng.random() < .6 else lab.call_out()[0]; c = lab.find(p); mon.check(c, 'not-connected', after=done); open_.append([p, c, True]); lab.settle()
            x = rng.choice(open_); p, c, sane = x; gone = False
            if k == 'urgent':
                n = gen.raw(rng, 8); f = wire.frame(MAGIC, 'ping', {'nonce': n}); cut = rng.randint(0, len(f)); late = rng.random() < .5; p.pull(); p.frames(mon) if sane else None
                if sane: p.send(f[:cut])
                try: p.s.send(bytes([rng.getrandbits(8)]), socket.MSG_OOB)
                except OSError: pass
                mon.ev('urgent')
                if late or not sane: lab.settle(); waits(mon, lab, done)
                if sane:
                    p.send(f[cut:]); got = []
                    mon.check(lab.until(lambda: (p.pull(), got.extend(p.frames(mon)), any(v.get('nonce') == n for a, v, _ in got))[2]), 'unanswered', 'a ping around urgent data is not answered', after=done); mon.check([a for a, v, _ in got if v.get('nonce') == n] == ['pong'], 'unanswered', 'a ping around urgent data is answered wrongly', got=got)
            elif k == 'part': p.send(PING[:rng.randint(1, 31)]); x[2] = False
            elif k == 'whole': p.send(PING * 3 if sane else b'x' * 50)
            elif k == 'junk': p.send(frame('nonsense', gen.raw(rng, 30)) if sane else gen.raw(rng, 50))
            elif k == 'close': p.close(rng.random() < .5); gone = True
            elif k == 'half': p.s.shutdown(socket.SHUT_WR); gone = True
            elif k == 'refused': s = socket.socket(); s.bind(('127.0.0.77', 0)); lab.servers.append(s); node.add_peer(s.getsockname())
            elif k == 'punish': [node.punish_peer(c) for _ in range(7)]; gone = True
            elif k == 'remove': node.remove_peer(c.address); gone = True
            elif k == 'say': c.send_message(protocol.Ping(b'87654321'))
            elif k == 'stuck':
                q = [y for y in lab.peers]; lab.peers[:] = [y for y in q if y is not p]             # it takes nothing for now
                for _ in range(12): c.send_message(protocol.Alert(bytes(800000), b''))
                lab.poll(60); waits(mon, lab, done); mon.ev('stuck-waits', c.writable()); lab.peers[:] = q; node.remove_peer(c.address); gone = True
            if gone: open_.remove(x); lab.settle()
            if rng.random() < .5: waits(mon, lab, done)
            if rng.random() < .2: lab.clock.add(11); lab.poll(1)
        waits(mon, lab, done); mon.seen(tuple(done)); mon.ev('idle'); mon.sample(history=done)

FAMILIES = [Family('idle', idle, 160, 4000), Family('large', large, 30, 600), Family('many', many, 16, 400), Family('backlog', backlog, 24, 500), Family('replies', replies, 8, 200), Family('book', book, 8, 200), Family('one-list', one_list, 4, 40)]
REQUIRED = {'idle': 150, 'waits': 300, 'urgent': 80, 'stuck-waits': 25, 'compared': 50, 'large': 30, 'many': 16, 'backlog': 24, 'replies': 8, 'book': 8, 'one-list': 4, 'steps': 20000}
