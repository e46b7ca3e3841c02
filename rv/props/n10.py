import copy, contextlib, socket, sys, threading, time
from ..core import Family, Violation, Inconclusive
from .. import netlab
from ..netlab import Lab, MAGIC, asyncore, basenode
from ..ref import wire
from .n11 import Full, KINDS
import nbc.node as N
ANCHORS = ['nbc/node/__init__.py', 'nbc/node/basenode.py']
RULE = 'nodes served by the real serve_forever and startServer while peers come, speak, misbehave and leave, next to a model of a router whose every call may fail, with mappings of other hosts; stopped by StopNode, by other exceptions and in a thread; distinct = (router behaviour, way of stopping, peers, mappings) states'
ASSUMPTIONS = ['peers still open when a node stops are not judged', 'a mapping that the router made although it reported a failure, or did not remove when asked to, is not judged', 'mappings are asked for between stub and model only, there is no router in the sandbox']
real_sleep = time.sleep

class Router(object):
    """an internet gateway with mappings of several hosts; may fail at every call"""
    def __init__(self, rng, lan='192.168.1.7'):
        self.rng, self.lan, self.map, self.calls, self.odd, self.fails = rng, lan, {}, [], False, {}
    def other(self, port, proto='TCP'): self.map[port, proto] = ('192.168.1.%d' % self.rng.randint(20, 99), self.rng.randint(1, 65535), 'other')
    def own(self): return {k: v for k, v in self.map.items() if v[2] != 'other'}
    def others(self): return {k: v for k, v in self.map.items() if v[2] == 'other'}
    def call(self, name, *a):
        self.calls.append((name,) + a); f = self.fails.get(name)
        if f is not None and f[0] <= 0: self.odd = True; raise f[1]
        if f is not None: f[0] -= 1
def upnp_module(router):
    """what the platform's miniupnpc offers"""
    class UPnP(object):
        lanaddr = property(lambda s: router().lan)
        def __init__(self): self.discoverdelay = 0; self.found = self.chosen = False; router().call('new')
        def discover(self): router().call('discover'); self.found = True; return 1 if not router().fails.get('absent') else 0
        def selectigd(self):
            router().call('selectigd')
            if not self.found or router().fails.get('absent'): router().odd = True; raise Exception('No UPnP device discovered')
            self.chosen = True; return 'http://192.168.1.1/'
        def need(self):
            if not self.chosen: router().odd = True; raise Exception('not selected')
        def externalipaddress(self): router().call('externalipaddress'); self.need(); return '203.0.113.9'
        def statusinfo(self): router().call('statusinfo'); self.need(); return ('Connected', 1234, 'ERROR_NONE')
        def connectiontype(self): router().call('connectiontype'); self.need(); return 'IP_Routed'
        def getspecificportmapping(self, port, proto, *a):
            router().call('getspecificportmapping', port, proto); self.need()
            if not 1 <= port <= 65535: raise Violation('port', 'the router is asked about a port that does not exist', {'port': port})
            v = router().map.get((port, proto)); return None if v is None else (v[0], v[1], v[2], True, 0)
        def addportmapping(self, eport, proto, host, iport, label, remote, *a):
            router().call('addportmapping', eport, proto, host, iport); self.need()
            if not 1 <= eport <= 65535: raise Violation('port', 'a mapping of a port that does not exist is asked for', {'port': eport})
            old = router().map.get((eport, proto))
            if old: raise Violation('taken', 'a mapping that exists is overwritten', {'port': eport, 'old': old})
            if router().fails.get('deny'): router().odd = True; return False
            router().map[eport, proto] = (host, iport, label); return True
        def deleteportmapping(self, eport, proto, *a):
            router().call('deleteportmapping', eport, proto); self.need(); v = router().map.get((eport, proto))
            if v is not None and v[2] == 'other': raise Violation('foreign', 'the mapping of somebody else is removed', {'port': eport, 'mapping': v})
            if v is None: raise Exception('NoSuchEntryInArray')
            del router().map[eport, proto]; return True
    class M(object): pass
    m = M(); m.UPnP = UPnP; return m
NAMES = ['new', 'discover', 'selectigd', 'externalipaddress', 'statusinfo', 'connectiontype', 'getspecificportmapping', 'addportmapping', 'deleteportmapping']
ERRORS = [lambda: Exception('HTTP error'), lambda: OSError(101, 'Network is unreachable'), lambda: RuntimeError('no answer'), lambda: ValueError('bad reply'), lambda: Exception('Success')]

FIRST = {k: copy.copy(v) for k, v in vars(N).items() if not k.startswith('__') and (v is None or isinstance(v, (bool, int, dict, list, set)))}
class Select(object):
    """the loop's wait, shortened"""
    def __getattr__(self, n): return getattr(netlab.select, n)
    def select(self, r, w, e, t=None): return netlab.select.select(r, w, e, .002)
class Home(object):
    """the surroundings of a node: a router or none"""
    quiet = False
    def __init__(self, rng, kind): self.rng, self.kind, self.router = rng, kind, Router(rng)
    def __enter__(self):
        self.had = N.__dict__.pop('miniupnpc', None)
        for k, v in FIRST.items(): N.__dict__[k] = copy.copy(v)        # as in a new process
        if self.kind != 'none': N.miniupnpc = upnp_module(lambda: self.router)
        self.out = sys.stdout
        if self.rng.random() < .3: sys.stdout = Full(self.rng, self.rng.choice(KINDS[:4])); self.quiet = True
        self.sel = asyncore.select; asyncore.select = Select(); self.sleep = time.sleep; time.sleep = lambda s: self.sleep(min(s, .01)); return self
    def __exit__(self, *a):
        sys.stdout = self.out; asyncore.select = self.sel; time.sleep = self.sleep; N.__dict__.pop('miniupnpc', None)
        if self.had: N.miniupnpc = self.had
    def dress(self, port):
        """mappings of others, and faults"""
        rng, r = self.rng, self.router
        for _ in range(rng.choice([0, 1, 3])): r.other(rng.randint(1, 65535), rng.choice(['TCP', 'UDP']))
        run = rng.choice([0, 0, 1, 2, 7])
        if port > 65000 and rng.random() < .5: run = 65536 - port - rng.choice([0, 0, 1])
        for k in range(run): port + k < 65536 and (port + k, 'TCP') not in r.map and r.other(port + k)
        if rng.random() < .3: r.other(port, 'UDP')
        if self.kind == 'faulty':
            for n in rng.sample(NAMES, rng.choice([1, 1, 2])): r.fails[n] = [rng.choice([0, 0, 0, 1, 3]), rng.choice(ERRORS)()]
        if self.kind == 'absent': r.fails['absent'] = True
        if self.kind == 'deny': r.fails['deny'] = True
        self.full = all((q, 'TCP') in r.map for q in range(port, 65536))
def pick(rng, lab_kw):
    lab_kw['address'] = ('127.%d.%d.%d' % (rng.randint(0, 9), rng.randint(0, 250), rng.randint(1, 250)), rng.choice([0, 0, 65530, 65535, rng.randint(61000, 65500)])); return lab_kw

class Session(object):
    """peers of a served node; the steps are taken between the rounds of the loop"""
    def __init__(self, rng, mon, lab): self.rng, self.mon, self.lab, self.peers, self.n = rng, mon, lab, [], 0
    def wait(self, cond, what):
        t = time.monotonic(); k = 0; self.rounds = 0
        while not cond():
            k += 1
            if time.monotonic() - t > 8: raise Violation('not-served', 'a served node does not ' + what, {'peers': len(self.peers), 'rounds': k})
            yield
    def join(self):
        s = socket.socket(); s.settimeout(5); s.bind(('127.0.0.%d' % self.rng.randint(2, 9), 0)); s.connect(self.lab.node.address); p = netlab.Peer(s, self.lab); p.got = []; self.peers.append(p); self.mon.ev('joined')
        for x in self.wait(lambda: self.has(p, 'version'), 'greet a new peer'): yield x
        if self.rng.random() < .6:
            v = wire.value(self.rng, wire.MSG['version'][2]); v['services'] = 1; v['relay'] = 1; p.send(wire.frame(MAGIC, 'version', v) + wire.frame(MAGIC, 'verack', {}))
            for x in self.wait(lambda: self.has(p, 'verack'), 'acknowledge a version'): yield x
    def has(self, p, cmd, **kw):
        if not p.eof: p.pull()
        p.got += [(c, v) for c, v, _ in p.frames(self.mon)]
        return any(c == cmd and all(v.get(k) == x for k, x in kw.items()) for c, v in p.got)
    def ping(self, p):
        self.n += 1; nonce = b'%08d' % self.n; p.send(wire.frame(MAGIC, 'ping', {'nonce': nonce}))
        for x in self.wait(lambda: self.has(p, 'pong', nonce=nonce), 'answer a ping'): yield x
        self.mon.ev('ponged')
    def leave(self, p): self.peers.remove(p); p.close(self.rng.random() < .5); self.mon.ev('left')
    def upset(self, p):
        p.send(self.rng.choice([b'\0' * 30, wire.frame(MAGIC, 'ping', {'nonce': b'x' * 8})[:-3] + b'zzz', bytes(self.rng.randrange(256) for _ in range(200)), MAGIC + b'nonsense\0\0\0\0' + b'\0\0\0\0\x5d\xf6\xe0\xe2'])); self.peers.remove(p); self.mon.ev('upset')
        for _ in range(3): yield
        if self.rng.random() < .5: p.close(True)
    def play(self, n):
        for k in range(n):
            act = self.rng.choice(['join', 'join', 'ping', 'ping', 'ping', 'leave', 'upset', 'beat'])
            if not self.peers: act = 'join'
            p = self.peers and self.rng.choice(self.peers)
            if act == 'leave': self.leave(p)
            elif act == 'beat': self.lab.clock.add(self.rng.choice([1, 11, 40])); yield
            else:
                for x in self.join() if act == 'join' else self.ping(p) if act == 'ping' else self.upset(p): yield x
        for p in list(self.peers):
            for x in self.ping(p): yield x
class Other(Exception): pass
WAYS = {'stop': basenode.StopNode, 'interrupt': KeyboardInterrupt, 'exit': SystemExit, 'error': Other}

def serve(rng, mon, i):
    """a node serves whatever the router does, and leaves nothing behind"""
    kind = rng.choice(['none', 'good', 'good', 'good', 'faulty', 'faulty', 'faulty', 'absent', 'deny']); listen = rng.random() < .85
    with Home(rng, kind) as home:
        for again in range(rng.choice([1, 1, 2, 3])):
            with Lab(rng, mon, listen=listen, **(pick(rng, {}) if listen else {})) as lab:
                r = home.router; r.calls, r.odd, r.fails = [], False, {}; port = lab.node.port; home.dress(port); before = r.others(); own0 = r.own(); way = rng.choice(['stop', 'stop', 'stop'] + list(WAYS)); ses = Session(rng, mon, lab); state = {}
                def script():
                    state['own'] = {k: v for k, v in r.own().items() if k not in own0}; state['calls'] = len(r.calls); state['odd'] = r.odd
                    if listen:
                        for x in ses.play(rng.randint(1, 9)): yield x
                    else:
                        for _ in range(5): yield
                    mon.eq(r.others(), before, 'foreign', 'mappings of others changed while serving'); mon.ev('played')
                sc = script()
                def begin():
                    try: next(sc)
                    except StopIteration: state['done'] = True; raise WAYS[way]()
                lab.begin = begin; ended = None
                try: lab.node.serve_forever()
                except (Violation, Inconclusive): raise
                except BaseException as e: ended = e
                finally: lab.begin = None
                if Violation.first: raise Violation.first
                mon.check(state.get('done'), 'ended', 'serving ended by itself', kind=kind, error=repr(ended), calls=r.calls[-5:])
                if way == 'stop': mon.check(ended is None, 'stop-raised', 'StopNode does not end serving quietly', error=repr(ended))
                else: mon.check(type(ended) is WAYS[way], 'swallowed', 'an exception other than StopNode is swallowed or replaced', got=repr(ended), way=way)
                own = state['own']; mon.ev('kind-' + kind); mon.ev('broken-stdout', home.quiet); mon.ev('way-' + way)
                if not listen: mon.eq((own, r.calls), ({}, []), 'mapped', 'a node that does not listen touches the router'); mon.ev('silent')
                elif kind == 'none': mon.ev('no-upnp')
                elif not state['odd']:
                    if home.full: mon.ev('full')
                    else:
                        mon.eq(len(own), 1, 'not-mapped', 'a listening node has not exactly one mapping', port=port, calls=r.calls); ((e, proto), v), = own.items()
                        mon.eq((proto, v[0], v[1]), ('TCP', r.lan, port), 'wrong-mapping', 'the mapping does not lead to the node', external=e); mon.ev('mapped'); mon.ev('moved', e != port)
                left = {k: v for k, v in r.own().items() if k not in own0}
                if 'deleteportmapping' not in [n for n in r.fails] and not (state['odd'] and not own): mon.eq(left, {}, 'left', 'the mapping of the node is still there after it stopped', own=own, calls=r.calls[-4:])
                mon.eq(r.others(), before, 'foreign', 'mappings of others changed'); mon.ev('untouched', len(before))
                ls = [s for s in lab.socks if s.listener]; mon.check(ls and all(s.closed for s in ls), 'listener', 'the listening socket is still open after serving ended', way=way)
                if listen:
                    s = socket.socket(); s.settimeout(2)
                    try: mon.check(s.connect_ex(lab.node.address) != 0, 'still-listening', 'a stopped node still takes connections', way=way)
                    finally: s.close()
                mon.seen(kind, way, len(ses.peers), len(own), len(before), state['odd'], again); mon.sample(router=kind, way=way, peers=len(ses.peers), mapping={k[0]: v[1] for k, v in own.items()})
                r.map = {k: v for k, v in r.map.items() if k not in left}

def background(rng, mon, i):
    """startServer serves in a thread of its own"""
    kind = rng.choice(['none', 'good', 'faulty'])
    with Home(rng, kind) as home:
        with Lab(rng, mon, **pick(rng, {})) as lab:
            home.dress(lab.node.port); before = home.router.others(); state = {}; hook = threading.excepthook; threading.excepthook = lambda a: state.setdefault('died', a.exc_value); n0 = set(threading.enumerate())
            def begin():
                if state.get('stop'): raise basenode.StopNode()
            lab.begin = begin
            st, e = mon.call(netlab.BaseNode, address=lab.node.address, log=None, seek_peers=0, bootstrap=False)
            mon.check(st == 'exc' and isinstance(e, Exception) and not isinstance(e, NameError), 'port-in-use', 'a node on a port in use is made without an error', got=e); mon.ev('port-in-use')
            try:
                basenode.startServer(lab.node); ts = [t for t in threading.enumerate() if t not in n0]; ses = Session(rng, mon, lab); mon.check(len(ts) == 1, 'no-thread', 'the node is not served in a thread', threads=len(ts), died=repr(state.get('died'))); mon.check(ts[0].daemon, 'not-daemon', 'the serving thread keeps the process alive')
                for x in ses.play(rng.randint(1, 6)): real_sleep(.001)
                mon.check(not state.get('died'), 'died', 'the serving thread died', error=repr(state.get('died')))
            finally:
                state['stop'] = True; t0 = time.monotonic()
                while any(t.is_alive() for t in threading.enumerate() if t not in n0) and time.monotonic() - t0 < 8: real_sleep(.002)
                threading.excepthook = hook; lab.begin = None
            mon.check(not ts[0].is_alive(), 'goes-on', 'StopNode does not stop a node served in a thread'); mon.check(not state.get('died'), 'died', 'the serving thread died', error=repr(state.get('died')))
            mon.check(all(s.closed for s in lab.socks if s.listener), 'listener', 'the listening socket is still open after serving ended'); mon.eq(home.router.others(), before, 'foreign'); mon.ev('background'); mon.seen('thread', kind, len(ses.peers))

def maps(rng, mon, i):
    """mappings made and removed in any order for several ports"""
    with Home(rng, 'good') as home:
        r = home.router; ports = [rng.choice([1, 80, 9333, 65533, 65535, rng.randint(1, 65535)]) for _ in range(3)]; base = rng.choice(ports); ports += [p for p in (base + 1, base + 2) if p < 65536]; live = {}
        for p in ports:
            if rng.random() < .4: [r.other(q) for q in range(p, min(65536, p + rng.choice([1, 2, 3]))) if (q, 'TCP') not in r.map]
        others = r.others()
        for k in range(rng.randint(4, 25)):
            key = (rng.choice(ports), rng.choice(['TCP', 'TCP', 'UDP'])); r.odd = False; r.fails = {rng.choice(NAMES[2:]): [0, rng.choice(ERRORS)()]} if rng.random() < .15 else {'deny': True} if rng.random() < .1 else {}; was = dict(r.own())
            if key in live:
                mon.ok('raised', 'removing a mapping raised', N.remove_portmap, *key); now = r.own(); gone = {x: v for x, v in was.items() if x not in now}
                if not r.odd: mon.eq(gone, live[key], 'wrong-removed', 'removing a mapping does not remove just this one', port=key); mon.ev('removed')
                del live[key]
            elif rng.random() < .25:
                mon.ok('raised', 'removing a mapping raised', N.remove_portmap, *key); mon.eq(r.own(), was, 'wrong-removed', 'a mapping nobody asked to remove is gone', port=key); mon.ev('nothing')
            else:
                mon.ok('raised', 'making a mapping raised', N.add_portmap, key[0], key[1], 'x'); now = r.own(); new = {x: v for x, v in now.items() if x not in was}
                mon.eq({x: v for x, v in now.items() if x in was}, was, 'changed')
                free = any((q, key[1]) not in was and (q, key[1]) not in others for q in range(key[0], 65536))
                if not r.odd and (free or new): mon.eq(len(new), 1, 'not-mapped', 'not one new mapping', port=key, calls=r.calls[-4:])
                for (e, proto), v in new.items(): mon.eq((proto, v[0], v[1]), (key[1], r.lan, key[0]), 'wrong-mapping', external=e); mon.ev('moved', e != key[0])
                if new: live[key] = new; mon.ev('made')
            mon.eq(r.others(), others, 'foreign', 'mappings of others changed'); mon.seen(len(live), len(r.map), bool(r.fails))
        for key in list(live): r.fails = {}; N.remove_portmap(*key)

FAMILIES = [Family('serve', serve, 1200, 20000), Family('background', background, 150, 2000), Family('maps', maps, 1200, 20000)]
REQUIRED = {'broken-stdout': 40, 'joined': 500, 'ponged': 500, 'left': 80, 'upset': 60, 'mapped': 60, 'moved': 50, 'no-upnp': 20, 'kind-faulty': 60, 'kind-absent': 15, 'kind-deny': 15, 'full': 5, 'silent': 20, 'way-interrupt': 15, 'way-error': 15, 'background': 50, 'removed': 400, 'nothing': 300, 'untouched': 300}
