import os
import io, ipaddress, socket
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC, protocol, coins
from ..ref import wire
from .n01 import bad, cuts, BadLog
ANCHORS = ['nbc/node/connection.py', 'nbc/node/basenode.py', 'nbc/protocol/messages.py']
RULE = 'random scripts of version, verack, ping, getaddr and other messages, whole, cut and damaged, of one to four peers on made and accepted connections of listening, random-port and default-address nodes with random identities; distinct = (scripts, node identity) histories'
ASSUMPTIONS = ['unsolicited address requests of the node (heartbeats) are not judged; the clock stands still in most cases', 'a version message without the optional relay byte announces relay']

def packed(t):
    a = ipaddress.ip_address(t); return wire.V4 + a.packed if a.version == 4 else a.packed

def greeting(mon, lab, first, remote, nonces=None):
    """the version message the node sent"""
    node = lab.node; c, v, raw = first
    mon.eq(c, 'version', 'greeting', 'the first message is not a version message')
    mon.eq(v['version'], node.coin.protocol_version, 'greeting', 'protocol version'); mon.eq(v['services'], 1, 'greeting', 'services'); mon.eq(v['relay'], 0, 'greeting', 'relay')
    mon.check(abs(v['timestamp'] - lab.clock.t) <= 2, 'greeting', 'timestamp is not now', got=v['timestamp'], now=lab.clock.t)
    mon.eq((v['addr_recv']['address'], v['addr_recv']['port']), (packed(remote[0]), remote[1]), 'greeting', 'the address of the receiver')
    mon.eq(v['addr_recv']['services'], 1, 'greeting', 'services of the receiver')
    mon.eq(v['addr_from']['address'], packed(node.external_ip), 'greeting', 'the address of the sender'); mon.eq(v['addr_from']['port'], node.port, 'greeting', 'the port of the sender')
    mon.eq(v['addr_from']['services'], 1, 'greeting', 'services of the sender')
    mon.eq(v['user_agent'], node.user_agent.encode('latin-1'), 'greeting', 'user agent'); mon.eq(v['start_height'], node.blockchain_height, 'greeting', 'start height')
    if nonces is not None: mon.check(v['nonce'] not in nonces, 'greeting', 'a nonce is used twice'); nonces.add(v['nonce'])

def reported(mon, c, v):
    """what the connection says of the peer; v: its last version message"""
    for n in ('services', 'start_height', 'user_agent', 'version', 'relay'):
        x = getattr(c, n)
        if v is None: mon.eq(x, None, 'reported', '%s before any version message' % n); continue
        k = dict(wire.MSG['version'][2])[n]; x = wire.read(k, x)
        mon.eq(x, v[n], 'reported', '%s of the peer is not what it announced' % n)
    if v is not None: mon.eq(packed(c.external_ip), v['addr_recv']['address'], 'reported', 'address the peer sees us at')
    else: mon.eq(c.external_ip, None, 'reported')

def version_frame(rng):
    v = wire.value(rng, wire.MSG['version'][2]); v['relay'] = rng.choice([0, 1, 1, rng.randrange(256)]); p = wire.enc(wire.MSG['version'][2], v)
    if rng.random() < .3: p = p[:-1]; v = dict(v, relay=1)
    return v, wire.raw_frame(MAGIC, 'version', p)

def local():
    try: return 'localhost' if socket.gethostbyname('localhost') == '127.0.0.1' else '127.0.0.1'
    except OSError: return '127.0.0.1'
LOCAL = local()
def node_for(rng, mon, **kw):
    if rng.random() < .15: kw['start'] = rng.choice([(1 << 31) - 3., (1 << 31) + .5, 4102444800., (1 << 32) - 5000., 1e9])
    kind = rng.choice(['port0', 'port0', 'default', 'any', 'empty', 'name'])
    if kind == 'default': return Lab(rng, mon, listen=False, **kw), kind
    if kind != 'port0': kw['address'] = ({'any': '0.0.0.0', 'empty': '', 'name': LOCAL}[kind], 0)    # all interfaces, or a host name
    return Lab(rng, mon, **kw), kind

def identity(rng, node):
    if rng.random() < .5: node.user_agent = rng.choice(['/x/', '', '/nbc:9(%s)/' % ('y' * rng.choice([1, 300])), '/caf\xe9/'])
    if rng.random() < .5: node.external_ip = rng.choice(['1.2.3.4', '203.0.113.%d' % rng.randrange(256), '2001:db8::%x' % rng.getrandbits(16), '255.255.255.255'])
    if rng.random() < .5: node.blockchain_height = rng.choice([0, 1, 255, 600000, (1 << 31) - 1, (1 << rng.randrange(8, 31)) - rng.choice([0, 1])])

def scripts(rng, mon, i):
    lab, kind = node_for(rng, mon, log=rng.choice([io.StringIO(), BadLog(), None]))
    nonces = set()
    with lab:
        node = lab.node; node.log_level = i % 5; identity(rng, node); mon.ev('node-' + kind)
        real = [s for s in lab.socks if s.listener][0].s.getsockname()
        mon.eq(tuple(node.address), tuple(real), 'own-address', 'the node does not know the address it listens on'); mon.eq((node.ip, node.port), tuple(real), 'own-address')
        peers = []
        for _ in range(rng.choice([1, 2, 4])):
            if kind != 'default' and rng.random() < .6: p = lab.dial(); remote = p.name; mon.ev('accepted')
            else: p, remote = lab.call_out(); mon.ev('made')
            mon.check(lab.find(p), 'not-connected', 'no connection'); c = lab.find(p)
            lab.until(lambda: p.pull() is None or len(p.buf) > 24)
            lab.settle(20); f = p.frames(mon)
            mon.eq([x[0] for x in f], ['version'], 'greeting', 'not one version message first'); greeting(mon, lab, f[0], remote, nonces)
            mon.eq(c.incoming, not hasattr(p, 'out'), 'incoming'); mon.eq((c.ip, c.port), tuple(remote), 'reported', 'address of the peer')
            peers.append(dict(p=p, c=c, want=[], v=None, ack=False, got=[], sent=0))
        if rng.random() < .6: lab.fault = netlab.random_faults(rng, p_again=rng.choice([0, .2]))
        for step in range(rng.choice([5, 15, 40])):
            q = rng.choice(peers); k = rng.random(); v = None; reply = None; ack = False
            if k < .2: v, f = version_frame(rng); reply = ('verack', {})
            elif k < .5: n = gen.raw(rng, 8) if rng.random() < .7 else rng.choice([bytes(8), b'\xff' * 8, bytes(7) + b'\1', b'\x80' + bytes(7), b'\1' + bytes(7), b' ' * 8]); f = wire.frame(MAGIC, 'ping', {'nonce': n}); reply = ('pong', {'nonce': n})
            elif k < .6: f = wire.frame(MAGIC, 'getaddr', {}); reply = ('addr', None)
            elif k < .7: f = wire.frame(MAGIC, 'verack', {}); ack = True
            elif k < .85:
                f, w = bad(rng)
                if w == 'short' and f[4:11] == b'version': continue
            else: f = wire.frame(MAGIC, *wire.message(rng, rng.choice(['pong', 'inv', 'tx', 'headers', 'reject', 'getdata', 'mempool'])))
            whole = len(f)
            parts = [f] if rng.random() < .5 else [f[:-1], f[-1:]] if rng.random() < .5 else [f[:rng.randrange(1, len(f))], b'']; 
            if parts[-1] == b'': parts[-1] = f[len(parts[0]):]
            for j, part in enumerate(parts):
                while part:
                    n = q['p'].send(part); q['sent'] += n; part = part[n:]
                    lab.poll(1)
                if rng.random() < .8: lab.deliver((q['c'], q['sent'])); lab.poll(2)
                else: continue
                if j < len(parts) - 1: reported(mon, q['c'], q['v']); mon.eq(bool(q['c'].verack), q['ack'], 'verack', 'acknowledged before the verack was complete'); mon.ev('partial')
            if reply: q['want'].append(reply); mon.ev('reply-' + reply[0])
            if v is not None: q['v'] = v
            if ack: q['ack'] = True
            if rng.random() < .5:
                lab.deliver(*[(x['c'], x['sent']) for x in peers]); lab.poll(1)
                for x in peers: reported(mon, x['c'], x['v']); mon.eq(bool(x['c'].verack), x['ack'], 'verack', 'acknowledged is not exactly after the verack'); mon.ev('states')
        lab.deliver(*[(x['c'], x['sent']) for x in peers]); lab.until(lambda: not any(x['c'].writable() for x in peers)); lab.fault = None; lab.settle(100)
        lab.until(lambda: all(len(x['p'].pull()) >= 0 and x['p'].total >= len(lab.where(x['c']).sent) for x in peers))
        for x in peers:
            got = [(c, v) for c, v, _ in x['p'].frames(mon)]
            mon.eq(len(x['p'].buf), 0, 'reply', 'half a frame was sent')
            mon.eq([g[0] for g in got], [w[0] for w in x['want']], 'reply', 'the replies are not those due, in order, to this peer', got=[g[0] for g in got][:20], due=[w[0] for w in x['want']][:20])
            for g, w in zip(got, x['want']):
                if w[1] is not None: mon.eq(g[1], w[1], 'reply', 'fields of the reply %s' % w[0])
            reported(mon, x['c'], x['v']); mon.eq(bool(x['c'].verack), x['ack'], 'verack'); mon.ev('replies', len(got))
            mon.seen([w[0] for w in x['want']].__repr__(), node.user_agent, node.external_ip, x['sent'])
        mon.sample(kind=kind, replies=[w[0] for w in peers[0]['want']][:12])

def burst(rng, mon, i):
    """many requests in one packet"""
    with Lab(rng, mon) as lab:
        p = lab.dial(); c = lab.find(p); lab.settle(30); p.frames(mon); want = []; out = b''
        for _ in range(rng.choice([100, 300])):
            k = rng.randrange(4)
            if k < 2: n = gen.raw(rng, 8); out += wire.frame(MAGIC, 'ping', {'nonce': n}); want.append(('pong', n))
            elif k == 2: out += version_frame(rng)[1]; want.append(('verack', None))
            else: out += wire.frame(MAGIC, 'getaddr', {}); want.append(('addr', None))
        total = len(out)
        while out: n = p.send(out); out = out[n:]; lab.poll(1)
        lab.deliver((c, total)); lab.settle(60); lab.until(lambda: p.total >= len(lab.where(c).sent) and not c.writable())
        got = [(x, v.get('nonce')) for x, v, _ in p.frames(mon)]
        mon.eq([g[0] for g in got], [w[0] for w in want], 'reply', 'replies to a burst'); mon.check(all(g[1] == w[1] for g, w in zip(got, want) if w[1]), 'reply', 'a pong does not carry the nonce of its ping')
        mon.ev('replies', len(want)); mon.seen('burst', i)

def other(rng, mon, i):
    """nodes of another coin, of both kinds, with and without defaults"""
    name = rng.choice(['testcoin', 'new-bitcoin 2', 'x', 'caf\xe9coin'])
    s = socket.socket(); s.bind(('127.0.0.19', 0)); s.listen(4); s.setblocking(False)
    class Coin(coins.Newbitcoin): pass
    Coin.name = name; Coin.protocol_version = rng.choice([70002, 70001, 60002, 80000, 209, (1 << 31) - 1]); Coin.dns_seeds = [s.getsockname()]; Coin.symbols = ['TST']; Coin.symbol = 'TST'; Coin.port = 1234
    Coin.magic = rng.choice([bytes([MAGIC[0] ^ 1]) + MAGIC[1:], MAGIC[:3] + bytes([MAGIC[3] ^ 0x80]), b'\0\0\0\0', b'\xff\xff\xff\xff', gen.raw(rng, 4), MAGIC])
    cls = rng.choice([netlab.Node, netlab.Raw]); kw = dict(coin=Coin); drop = rng.random() < .5
    lab = Lab(rng, mon, cls=cls, **kw)
    if drop:
        for n in ('bootstrap', 'seek_peers'): lab.kw.pop(n, None)
    if rng.random() < .5: lab.kw['data_dir'] = where = rng.choice(['/nowhere', 'data', '', 'caf\xe9'])
    else: where = os.path.join(os.path.expanduser('~'), '.newbitcoin', 'data')
    with lab:
        lab.servers.append(s); node = lab.node; mon.ev('kind-' + ('raw' if cls is netlab.Raw else 'base') + ('-default' if drop else ''))
        mon.eq(node.data_dir, where, 'data-dir', 'not the data directory given, or the usual one')
        mon.check(node.coin is Coin, 'coin', 'the node is not of the coin it was made for')
        mon.check(('(%s)' % name) in node.user_agent, 'user-agent', 'the user agent does not name the coin', got=node.user_agent)
        dials = [x for x in lab.socks if x.peer and not getattr(x, 'accepted', False)]
        if drop and cls is netlab.Node: mon.check(dials and all(tuple(x.peer) == s.getsockname() for x in dials), 'defaults', 'a node made with defaults does not turn to the seeds of its coin', dialled=[x.peer for x in dials]); mon.ev('seeded')
        else: mon.check(not dials, 'defaults', 'a node without seeds connects somewhere', dialled=[x.peer for x in dials])
        M = Coin.magic; peers = []
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < .5: p = lab.dial(); remote = p.name
            else: p, remote = lab.call_out()
            c = lab.find(p); mon.check(c, 'not-connected', 'no connection'); lab.until(lambda: p.pull() is None or len(p.buf) > 24); lab.settle(20); f = p.frames(mon)
            mon.eq([x[0] for x in f], ['version'], 'greeting', 'not one version message first'); greeting(mon, lab, f[0], remote); peers.append(dict(p=p, c=c, want=[], inv=[], v=None, sent=0))
        for step in range(rng.choice([4, 12])):
            q = rng.choice(peers); k = rng.random(); m = M if rng.random() < .6 else rng.choice([MAGIC, b'\0\0\0\0', bytes(4 - j and M[j] ^ (j == 2) for j in range(4)), M[::-1]]); reply = None; v = None
            if k < .3: v, f = version_frame(rng); reply = 'verack'
            elif k < .6: n = gen.raw(rng, 8); f = wire.frame(M, 'ping', {'nonce': n}); reply = ('pong', n)
            elif k < .8: f = wire.frame(M, 'getaddr', {}); reply = 'addr'
            else: f = wire.frame(M, *wire.message(rng, rng.choice(['pong', 'inv', 'tx', 'headers', 'mempool'])))
            f = m + f[4:]; x = f
            while x: n = q['p'].send(x); q['sent'] += n; x = x[n:]; lab.poll(1)
            if m == M:
                mon.ev('own')
                if reply: q['want'].append(reply)
                if v is not None: q['v'] = v
            else: q['inv'].append(f); mon.ev('foreign')
        lab.deliver(*[(x['c'], x['sent']) for x in peers]); lab.until(lambda: not any(x['c'].writable() for x in peers)); lab.settle(100)
        lab.until(lambda: all(len(x['p'].pull()) >= 0 and x['p'].total >= len(lab.where(x['c']).sent) for x in peers))
        for x in peers:
            got = [(c, v.get('nonce')) for c, v, _ in x['p'].frames(mon)]
            mon.eq([g if w[0] == 'pong' else g[0] for g, w in zip(got, x['want'])] + got[len(x['want']):], x['want'], 'reply', 'the replies are not those due to messages of this coin', got=got[:20], due=x['want'][:20])
            mon.eq([pl for p, c, pl, _ in lab.log if p is x['c'] and c == 'invalid'], x['inv'], 'foreign', 'frames of another coin are not just reported as invalid')
            reported(mon, x['c'], x['v']); mon.seen(name, M, Coin.protocol_version, len(got), cls.__mro__[1].__name__, drop); mon.ev('replies', len(got))

def talk(rng, mon, lab, p, f, cmd):
    """sends a frame and waits for the answer"""
    while f: n = p.send(f); f = f[n:]; lab.poll(1)
    got = []; mon.check(lab.until(lambda: (p.pull(), got.extend(p.frames(mon)), any(a == cmd for a, _, _ in got))[2]), 'reply', 'no %s came' % cmd); return [v for a, v, _ in got if a == cmd][-1]
def nodes(rng, mon, i):
    """several nodes of one process that speak with each other: each has its own identity, book, bans and peers"""
    with Lab(rng, mon) as lab:
        all_ = [lab.node] + [lab.second() for _ in range(rng.choice([1, 2]))]; names = []
        for k, n in enumerate(all_): n.user_agent = '/node%d/' % k; n.blockchain_height = rng.randrange(1 << 20)
        if rng.random() < .5: all_[0].external_ip = '203.0.113.5'
        pairs = []
        for k, a in enumerate(all_):
            for b in all_[k + 1:]:
                x, y = (a, b) if rng.random() < .5 else (b, a); mon.check(mon.ok('connect-raises', 'connecting', x.add_peer, b.address if x is a else a.address), 'not-connected', 'one node does not connect to another'); pairs.append((x, y))
        mon.check(lab.until(lambda: all(len(n.peers) == len(all_) - 1 and all(c.verack for c in n.peers) for n in all_)), 'handshake', 'nodes that speak with each other do not complete the handshake', peers=[len(n.peers) for n in all_])
        lab.until(lambda: all(not c.writable() for n in all_ for c in n.peers)); lab.settle(200)
        link = lambda a, b: [c for c in a.peers if c.user_agent in (b.user_agent, b.user_agent.encode())]
        for x, y in pairs:
            u, v = link(x, y), link(y, x); mon.eq((len(u), len(v)), (1, 1), 'reported', 'what a node announces is not what the other reports', agents=[str(c.user_agent) for n in all_ for c in n.peers]); u, v = u[0], v[0]
            mon.eq((u.incoming, v.incoming), (False, True), 'incoming'); mon.eq((u.start_height, v.start_height), (y.blockchain_height, x.blockchain_height), 'reported', 'height'); mon.eq((u.rx_bytes, v.rx_bytes), (v.tx_bytes, u.tx_bytes), 'counters', 'what one node sent is not what the other received')
            mon.eq((packed(u.external_ip), packed(v.external_ip)), (packed(v.address[0]), packed(y.address[0])), 'reported', 'address the peer sees us at')
        for n in all_[1:]: mon.eq(packed(n.external_ip), packed('127.0.0.1'), 'shared', 'the address of one node is that of another')
        quiet = [(c.rx_bytes, c.tx_bytes) for n in all_ for c in n.peers]; lab.poll(20); mon.eq([(c.rx_bytes, c.tx_bytes) for n in all_ for c in n.peers], quiet, 'chatter', 'nodes keep talking with nothing to say')
        # an address told to one is not known to the others, a host banned by one is served by the others
        one = rng.choice(all_); host = '127.0.7.%d' % rng.randint(2, 250); told = wire.ip(rng)
        def dial(n):
            s = socket.socket(); s.bind((host, 0)); s.connect(n.address); p = netlab.Peer(s, lab); lab.until(lambda: (p.pull(), p.eof or len(p.buf) > 24)[1]); p.frames(mon); return p
        p = dial(one); mon.check(not p.eof, 'not-served'); talk(rng, mon, lab, p, wire.frame(MAGIC, 'addr', {'addr_list': ({'timestamp': int(lab.clock()), 'services': 1, 'address': told, 'port': 8333},)}) + wire.frame(MAGIC, 'ping', {'nonce': bytes(8)}), 'pong')
        known = lambda q: {(e['address'], e['port']) for e in talk(rng, mon, lab, q, wire.frame(MAGIC, 'getaddr', {}), 'addr')['addr_list']}
        mon.check((told, 8333) in known(p), 'book', 'a told address is not known')
        c = [c for c in one.peers if tuple(c.address) == tuple(p.name)][0]
        for _ in range(6): one.punish_peer(c)
        mon.check(lab.until(lambda: (p.pull(), p.eof)[1]), 'ban', 'a punished peer stays'); mon.check(dial(one).eof, 'ban', 'a banned host is served')
        for n in all_:
            if n is one: continue
            q = dial(n); mon.check(not q.eof and q.total > 24, 'shared-ban', 'a host banned by one node is not served by another'); k = known(q); mon.check((told, 8333) not in k, 'shared-book', 'an address told to one node is known to another'); q.close()
        mon.check(lab.until(lambda: all(len(n.peers) == len(all_) - 1 for n in all_)), 'shared-peers', 'the peers of one node are those of another', peers=[len(n.peers) for n in all_]); mon.ev('nodes', len(all_)); mon.seen('nodes', len(all_), i)

FAMILIES = [Family('nodes', nodes, 60, 1000), Family('other', other, 100, 2000), Family('scripts', scripts, 260, 8000), Family('burst', burst, 12, 200)]
REQUIRED = {'nodes': 120, 'node-any': 15, 'node-empty': 15, 'node-name': 15, 'replies': 4000, 'reply-verack': 300, 'reply-pong': 500, 'reply-addr': 150, 'states': 2000, 'partial': 300, 'accepted': 100, 'made': 100, 'node-default': 15, 'foreign': 150, 'own': 250, 'kind-raw': 10, 'kind-raw-default': 10, 'kind-base-default': 10, 'seeded': 10}
