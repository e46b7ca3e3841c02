"""A real node on loopback under test control: its own sockets wrapped for fault injection and accounting,
virtual time, raw-socket peers that speak through the independent wire model."""
import errno, io, random, select, socket, struct, sys, time
from . import gen
from .core import Inconclusive, Violation
from .ref import wire
from .shim import asyncore
sys.modules['asyncore'] = asyncore
from nbc import protocol, coins
from nbc.protocol import format as F
from nbc.node import basenode, connection, raw
from nbc.node.basenode import BaseNode
MAGIC = coins.Newbitcoin.magic
real_time = time.time

class Clock(object):
    """stands in for time.time; advances only when told"""
    def __init__(self, t=1700000000.0): self.t = float(t)
    def __call__(self): return self.t
    def add(self, s): self.t += s
    def __enter__(self):
        time.time = self; self.names = [(m, k) for m in (basenode, connection, protocol, F) for k, v in vars(m).items() if v is real_time]
        for m, k in self.names: setattr(m, k, self)
        return self
    def __exit__(self, *a):
        time.time = real_time
        for m, k in getattr(self, 'names', []): setattr(m, k, real_time)

class Sock(object):
    """a node socket: counts what passes, injects short and failing operations"""
    def __init__(self, lab, s): self.lab, self.s, self.closed, self.sent, self.got, self.fd = lab, s, False, b'', 0, s.fileno(); lab.socks.append(self); self.sends = 0; self.closes = 0; self.err = 0; self.peer = None; self.listener = False
    def __getattr__(self, n): return getattr(self.s, n)
    def fileno(self): return self.s.fileno()
    def _fault(self, op):
        f = self.lab.fault
        return f(self, op) if f else None
    def send(self, data, *a):
        self.sends += 1; x = self._fault('send')
        if isinstance(x, Exception): raise x
        if x is not None: data = bytes(data)[:x]
        if not data: raise BlockingIOError(errno.EWOULDBLOCK, 'would block')
        n = self.s.send(data, *a); self.sent += bytes(data[:n]); self.lab.left += n; return n
    def sendall(self, data, *a):
        while data: data = data[self.send(data):]
    def recv(self, n, *a):
        x = self._fault('recv')
        if isinstance(x, Exception): raise x
        if x is not None: n = max(1, min(n, x))
        b = self.s.recv(n, *a); self.got += len(b); self.lab.came += len(b); return b
    def accept(self):
        x = self._fault('accept')
        if isinstance(x, Exception): raise x
        c, a = self.s.accept(); w = Sock(self.lab, c); w.peer = a; w.accepted = True; return w, a
    def connect_ex(self, a):
        self.peer = a; r = self.s.connect_ex(a); late = self.lab.late
        if late and r not in (0, errno.EINPROGRESS): self.err = late; return errno.EINPROGRESS      # the failure is heard of later
        return r
    def getsockopt(self, level, name, *a):
        if self.err and (level, name) == (socket.SOL_SOCKET, socket.SO_ERROR): e, self.err = self.err, 0; return e
        return self.s.getsockopt(level, name, *a)
    def connect(self, a): self.peer = a; return self.s.connect(a)
    def listen(self, *a): self.listener = True; return self.s.listen(*a)
    def close(self): self.closed = True; self.closes += 1; self.s.close()
    def shutdown(self, how): return self.s.shutdown(how)

class Module(object):
    """the socket module as the node sees it"""
    def __init__(self, lab): self.lab = lab
    def __getattr__(self, n): return getattr(socket, n)
    def socket(self, *a, **k): return Sock(self.lab, socket.socket(*a, **k))

class Peer(object):
    """the remote end of a connection"""
    def __init__(self, s, lab): s.setblocking(False); self.s, self.lab, self.buf, self.eof, self.reset = s, lab, b'', False, False; self.name = s.getsockname(); self.total = self.sent = 0; lab.peers.append(self)
    def send(self, data):
        """as much as fits; returns the number of bytes taken"""
        try: n = self.s.send(data)
        except BlockingIOError: return 0
        self.sent += n; return n
    def pull(self, n=None):
        """takes what has arrived"""
        got = b''
        while n is None or len(got) < n:
            try: b = self.s.recv(65536 if n is None else n - len(got))
            except BlockingIOError: break
            except OSError: self.reset = self.eof = True; break
            if not b: self.eof = True; break
            got += b
        self.buf += got; self.total += len(got); return got
    def frames(self, mon, key='stream'):
        """(command, fields, raw) of the complete frames received so far; they are removed from the buffer"""
        out = []
        while len(self.buf) >= 24:
            n = struct.unpack('<I', self.buf[16:20])[0]
            if self.buf[:4] != self.lab.node.coin.magic or n > 1 << 26: mon.check(False, key, 'what the node sent is not a sequence of frames', at=self.buf[:60])
            if len(self.buf) < 24 + n: break
            raw, self.buf = self.buf[:24 + n], self.buf[24 + n:]
            mon.check(wire.dsha(raw[24:])[:4] == raw[20:24], key, 'frame with a wrong checksum', frame=raw[:80])
            c = raw[4:16].rstrip(b'\0').decode('latin-1')
            mon.check(c in wire.MSG, key, 'frame with an unknown command', frame=raw[:80])
            v, o = wire.dec(wire.MSG[c][2], raw[24:]); mon.check(o == n, key, 'frame with surplus bytes', frame=raw[:80])
            out.append((c, v, raw))
        return out
    def close(self, hard=False):
        if hard:
            try: self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
            except OSError: pass
        self.s.close(); self.eof = True

HANDLERS = [h for _, h, _ in wire.MSG.values()]
def node_class(base=BaseNode, handlers=None):
    class Node(base):
        """records what the library reports"""
        lab = None
        def invalid_command(self, peer, payload, exception):
            self.lab.log.append((peer, 'invalid', bytes(payload), exception))
            return base.invalid_command(self, peer, payload, exception)
        def connected(self, peer): self.lab.log.append((peer, 'connected', None, None)); return base.connected(self, peer)
        def disconnected(self, peer): self.lab.log.append((peer, 'disconnected', None, None)); return base.disconnected(self, peer)
        def begin_loop(self):
            if self.lab.begin: self.lab.begin()
            return base.begin_loop(self)
        def heartbeat(self): self.lab.beats += 1; return base.heartbeat(self)
    def add(h):
        cmd = [c for c, v in wire.MSG.items() if v[1] == h][0]
        b = getattr(base, 'command_' + h, None)
        def handler(self, peer, **kw):
            lab = self.lab
            lab.log.append((peer, cmd, kw, None))
            if lab.trap: lab.trap(peer, cmd, kw)
            if b: return b(self, peer, **kw)
        setattr(Node, 'command_' + h, handler)
    for h in HANDLERS if handlers is None else handlers: add(h)
    return Node
Node = node_class(); Raw = node_class(raw.RawNode)

class Lab(object):
    """with Lab(rng, mon) as lab: ..."""
    HOST = '127.0.0.1'
    def __init__(self, rng, mon, listen=True, start=None, cls=None, **kw):
        self.cls = cls or (Raw if rng.random() < .25 else Node)   # both kinds of node
        self.rng, self.mon, self.socks, self.peers, self.log, self.beats, self.fault, self.trap, self.late = rng, mon, [], [], [], 0, None, None, 0
        self.left = self.came = 0; self.begin = None; self.others = []; self.servers = []; self.polls = 0
        self.clock = Clock(start or rng.choice([1700000000.0, 1700000000.25, 1500000123.5])); self.kw = dict(seek_peers=0, bootstrap=False, log=io.StringIO()); self.kw.update(kw); self.listen = listen
    def __enter__(self):
        self.clock.__enter__(); self._sock = asyncore.socket; asyncore.socket = Module(self)
        try:
            for _ in range(5):
                try:
                    kw = dict(self.kw)
                    if self.listen: kw.setdefault('address', (self.HOST, 0))
                    self.cls.lab = self; self.node = self.cls(**kw); break
                except OSError as e:
                    if e.errno not in (errno.EADDRINUSE, errno.EMFILE): raise
            else: raise Inconclusive('no port')
            self.node.lab = self; self.poll(1); self.beats = 0
        except BaseException: self.__exit__(); raise
        return self
    def __exit__(self, *a):
        self.clock.__exit__(); asyncore.socket = self._sock
        for s in self.socks:
            try: s.s.close()
            except OSError: pass
        for p in self.peers:
            try: p.s.close()
            except OSError: pass
        for s in self.servers: s.close()
    # ---------------------------------------------------------------- driving
    def poll(self, n=1):
        """rounds of the real event loop; it must never raise"""
        for _ in range(n):
            self.polls += 1
            try:
                asyncore.poll(0, self.node)
                for o in self.others: asyncore.poll(0, o)
            except (Violation, Inconclusive): raise
            except Exception as e:
                import traceback
                raise Violation('loop-stopped', 'the event loop stopped: %r' % e, {'trace': traceback.format_exc().splitlines()[-6:]})
    def flying(self):
        """bytes are under way: loopback delivery is not always immediate"""
        for s in self.socks:
            if s.closed or s.listener: continue
            for p in self.peers:
                if not p.eof and s.peer in (p.name, getattr(p, 'out', None)) and (s.sent and len(s.sent) > p.total or p.sent > s.got): return True
        return False
    def settle(self, most=400, pull=True):
        """polls until nothing moves any more"""
        quiet = late = 0
        for _ in range(most):
            a = (self.left, self.came, len(self.log), len(self.socks), sum(s.closed for s in self.socks), sum(p.total for p in self.peers))
            self.poll(1)
            if pull:
                for p in self.peers:
                    if not p.eof: p.pull()
            b = (self.left, self.came, len(self.log), len(self.socks), sum(s.closed for s in self.socks), sum(p.total for p in self.peers))
            quiet = quiet + 1 if a == b else 0
            if quiet >= 4:
                if not pull or late > 100 or not self.flying(): return True
                late += 1; time.sleep(.0005)
        return False
    def until(self, cond, patience=8):
        """polls until cond() or nothing has moved for some seconds of real time"""
        last = None; k = 0
        while not cond():
            self.poll(1); k += 1
            if k % 8 == 0:
                for p in self.peers:
                    if not p.eof: p.pull()
            now = (self.left, self.came, len(self.log), len(self.socks), sum(p.total for p in self.peers))
            if now != last: last, t = now, time.monotonic()
            elif k % 64 == 0:
                if time.monotonic() - t > patience: return False
                if k > 2000: time.sleep(.001)
        return True
    def deliver(self, *pairs):
        """until the node has read n bytes on each connection or closed it"""
        w = [(self.where(c), n) for c, n in pairs]
        return self.until(lambda: all(x is None or x.closed or x.got >= n for x, n in w))
    def dial(self, host=None, until=True, port=0):
        """a peer connects to the node; None when it was dropped at once"""
        s = socket.socket(); s.bind((host or '127.0.0.%d' % self.rng.randint(2, 9), port)); s.connect(self.node.address)
        p = Peer(s, self)
        if until: self.until(lambda: self.find(p), 5)
        return p
    def second(self, **kw):
        """another node in this process, driven by the same polls"""
        for _ in range(5):
            try: o = (raw.RawNode if self.rng.random() < .25 else BaseNode)(**dict(dict(address=(self.HOST, 0), seek_peers=0, bootstrap=False, log=None), **kw)); break
            except OSError as e:
                if e.errno != errno.EADDRINUSE: raise
        else: raise Inconclusive('no port')
        self.others.append(o); return o
    def server(self, host=None):
        """a listening socket the node can connect to"""
        s = socket.socket(); s.bind((host or '127.0.0.%d' % self.rng.randint(10, 19), 0)); s.listen(16); s.setblocking(False); self.servers.append(s); return s
    def call_out(self, srv=None, **kw):
        """the node connects to a peer: (peer end, address) or (None, address)"""
        srv = srv or self.server(); a = srv.getsockname()
        if not self.node.add_peer(a, **kw): return None, a
        got = []
        def there():
            try: got.append(srv.accept()[0])
            except BlockingIOError: pass
            return bool(got)
        if not self.until(there): raise Inconclusive('loopback connection did not arrive')
        p = Peer(got[0], self); p.out = a; return p, a
    def find(self, p):
        """the node's connection object of a peer end"""
        out = getattr(p, 'out', None)
        for c in self.node.peers:
            if c.address == (out or p.name): return c
        return None
    def where(self, conn):
        for s in self.socks:
            if s is conn.socket: return s

def random_faults(rng, p_short=.5, p_again=.1):
    """short reads and writes and would-block"""
    size = rng.choice([1, 7, 50, 500, 3000, 100000])
    def f(sock, op):
        if sock.listener: return None
        k = rng.random()
        if k < p_again: return BlockingIOError(errno.EWOULDBLOCK, 'would block') if op in ('send', 'recv') else None
        if k < p_again + p_short: return rng.randint(1, size)
        return None
    return f
