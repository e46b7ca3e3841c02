import hmac, random
from ..core import Family
from .. import gen, wal
from ..ref import codec, ec
from ..ref.codec import Node, ser_pub
from ..wal import M, N
from nbc.wallet import HDWallet
from nbc.wallet import hdwallet
ANCHORS = ['nbc/wallet/hdwallet.py']
RULE = 'random seeds (0 to 200 bytes), arbitrary parent nodes, paths of normal and hardened steps, derivation output forced to the limits through a stand-in for the keyed hash; every derived wallet is compared in all accessors with an independent BIP32; distinct = distinct nodes'
ASSUMPTIONS = ['the BIP32 model in rv/ref/codec.py (self-tested on published vectors)', 'a master seed whose first hash half is not below the group order (chance 2**-127) is not judged']

def index(rng, hard=True):
    k = rng.random()
    if k < .4: i = rng.choice([0, 1, 2, 44, 0x7fffffff, 0x7ffffffe])
    elif k < .6: i = rng.getrandbits(rng.choice([8, 16, 24])) & 0x7fffffff
    else: i = rng.getrandbits(31)
    return i | 0x80000000 if hard and rng.random() < .5 else i

def seed(rng):
    k = rng.random()
    if k < .2: return bytes.fromhex('000102030405060708090a0b0c0d0e0f')
    if k < .5: return gen.raw(rng, rng.choice([16, 32, 64]))
    if k < .6: return gen.raw(rng, rng.choice([65, 127, 128, 129, 200]))
    return gen.data(rng, 200)

def paths(rng, mon, i):
    """from a seed down a random path, twice"""
    sd = seed(rng); net = rng.random() < .5; v = gen.vcn(rng)
    node = Node.master(sd, net)
    arg = sd if rng.random() < .7 else sd.decode('latin-1')
    w = mon.ok('seed-raises', 'from_master_seed', HDWallet.from_master_seed, arg, v, net); w0 = w
    m = M(kind='hd', node=node, vcn=v)
    wal.compare(mon, w, m, 'master'); path = []
    for _ in range(rng.randint(1, 6)):
        x = index(rng); path.append(x)
        parent = m; w1 = w
        w = mon.ok('child-raises', 'child', w1.child, x); m = M(kind='hd', node=m.node.child(x), vcn=v)
        wal.compare(mon, w, m, 'derived'); mon.ev('derived'); mon.ev('hardened' if x >> 31 else 'normal'); mon.seen(m.node.ext(False))
        if rng.random() < .3: wal.compare(mon, w1, parent, 'parent')        # deriving leaves the parent alone
    a = w.address()
    z = w0
    for x in path: z = z.child(x)
    wal.compare(mon, z, m, 'again'); mon.eq(z.address(), a, 'again-address', 'repeating the derivation gives another address')
    # siblings and the same path with another nonce and network
    x = index(rng); z = w0
    for y in path[:1]: z = z.child(y)
    n1 = node.child(path[0]); wal.compare(mon, z.child(x), M(kind='hd', node=n1.child(x), vcn=v), 'sibling')
    o = Node.master(sd, not net); wal.compare(mon, HDWallet.from_master_seed(sd, vcn=v ^ 1, testnet=not net).child(path[0]), M(kind='hd', node=o.child(path[0]), vcn=v ^ 1), 'other-network')
    if m.node.depth and rng.random() < .4:
        wal.compare(mon, w, m, 'signing', deep=True, rng=rng)
    mon.ev('paths'); mon.sample(seed=sd, path=path, xprv=w.to_extended_key(True))

def arbitrary(rng, mon, i):
    """children of arbitrary nodes: keys with leading zeros, any depth, any chain code"""
    m = wal.hd_model(rng, True)
    if m.node.depth == 255: m.node.depth = 254
    w = mon.ok('make-raises', 'constructing', wal.make, rng, m)
    if rng.random() < .5: wal.compare(mon, w, m, 'made')
    for _ in range(2):
        x = index(rng); c = mon.ok('child-raises', 'child', w.child, x); mc = M(kind='hd', node=m.node.child(x), vcn=m.vcn)
        wal.compare(mon, c, mc, 'derived'); mon.ev('derived'); mon.ev('hardened' if x >> 31 else 'normal'); mon.seen(mc.node.ext(False))
        if m.node.d >> 240 == 0: mon.ev('short-key')
    # nonce drawn once, then inherited
    if i % 4 == 0:
        w = HDWallet.from_master_seed(seed(rng)); x = index(rng)
        a = [w.child(x).address() for _ in range(3)] + [w.child(x).child(1).vcn for _ in range(2)]
        mon.check(len(set(a[:3])) == 1, 'inherit-nonce', 'repeated derivation gives different addresses', addresses=a[:3]); mon.eq(a[3:], [w.vcn] * 2, 'inherit-nonce', 'grandchild has another nonce'); mon.ev('inherited')

class Forced(object):
    """stands in for HMAC-SHA512 in the wallet module: the first half of the output is chosen"""
    def __init__(self, IL): self.IL, self.calls = IL, 0
    def __enter__(self):
        real = self.real = hmac.new; me = self
        class H(object):
            def __init__(self, *a, **k): self.h = real(*a, **k)
            def update(self, b): self.h.update(b)
            def digest(self): me.calls += 1; return me.IL.to_bytes(32, 'big') + self.h.digest()[32:]
            def hexdigest(self): return self.digest().hex()
        hmac.new = H; self.d = getattr(hmac, 'digest')
        hmac.digest = lambda k, m, d: H(k, m, d).digest()
        return self
    def __exit__(self, *a): hmac.new = self.real; hmac.digest = self.d

def forced(rng, mon, i):
    """derivation output at its limits"""
    d, P = gen.keypair(rng); n = Node(d, P, gen.raw(rng, 32), rng.choice([0, 3]), bytes(4), 0)
    w = HDWallet(d, n.chain, vcn=1) if n.depth == 0 else HDWallet(d, n.chain, vcn=1, depth=3, parentfp=bytes(4), childnum=0)
    x = index(rng)
    def model(IL):
        I = hmac.new(n.chain, (b'\0' + d.to_bytes(32, 'big') if x >> 31 else ser_pub(P, True)) + x.to_bytes(4, 'big'), 'sha512').digest()
        return Node((d + IL) % N, None, I[32:], n.depth + 1, codec.hash160(ser_pub(P, True))[:4], x)
    for IL, what in [(N - d, 'zero child key'), (N, 'IL = n'), (N + 1, 'IL > n'), (2**256 - 1, 'IL > n'), (N + rng.getrandbits(32), 'IL > n')]:
        with Forced(IL) as f: st, c = mon.call(w.child, x)
        if f.calls:
            mon.check(st == 'exc', 'unusable', 'a child was derived from unusable material: ' + what, IL=hex(IL), got=c); mon.ev('unusable-refused'); mon.seen('unusable', d, IL)
    for IL in [1, N - 1, (rng.choice([1, 2, 255, 256, rng.getrandbits(100) + 1, N - 1]) - d) % N or 1, rng.getrandbits(200) + 1]:
        if IL in (0, N - d): continue
        with Forced(IL) as f: st, c = mon.call(w.child, x)
        if f.calls:
            mon.check(st == 'ok', 'usable-refused', 'a usable child was refused', IL=hex(IL), error=c)
            wal.compare(mon, c, M(kind='hd', node=model(IL), vcn=1), 'forced'); mon.ev('forced'); mon.seen('forced', d, IL)
    with Forced(0) as f: st, v = mon.call(HDWallet.from_master_seed, b'x')
    if f.calls: mon.check(st == 'exc', 'unusable', 'a master key of zero was accepted'); mon.ev('unusable-refused')
    with Forced(5) as f: st, v = mon.call(HDWallet.from_master_seed, b'x')
    if f.calls: mon.eq(v.prvkey(), (5).to_bytes(32, 'big'), 'master-key')

def refusals(rng, mon, i):
    d, P = gen.keypair(rng); chain = gen.raw(rng, 32)
    for key in (d, wal.point(P)):
        w = HDWallet(key, chain, vcn=1)
        for x in (-1, -2**31, 2**32, 2**32 + rng.getrandbits(20), 2**64, None, 'a', b'\0', 0.5):
            mon.refused('index', 'an index outside 32 bits was derived', w.child, x); mon.ev('bad-index')
        for c in (b'', chain[:31], chain + b'\0', gen.raw(rng, rng.choice([8, 16, 64]))):
            mon.refused('chain', 'a chain code of other than 32 bytes was accepted', HDWallet, key, c, 1)
        for dep in (256, 257, 1000): mon.refused('depth', 'depth above 255 was accepted', lambda: HDWallet(key, chain, vcn=1, depth=dep, parentfp=bytes(4), childnum=0))
        # 255 is the last
        w = HDWallet(key, chain, vcn=1, depth=254, parentfp=b'abcd', childnum=7)
        n = Node(d if key is d else None, P, chain, 254, b'abcd', 7)
        x = index(rng, key is d); c = mon.ok('child-raises', 'child at depth 255', w.child, x)
        wal.compare(mon, c, M(kind='hd', node=n.child(x), vcn=1), 'depth255')
        c2 = HDWallet.from_extended_key(c.to_extended_key(key is d), vcn=1)
        for z in (c, c2):
            for x in (0, 1, 0x7fffffff, 0x80000000, index(rng)):
                mon.refused('depth', 'derived below depth 255', z.child, x); mon.ev('too-deep')
    for bad in (0, -1, -d, N, N + 1, N + d, 2**256, 2**256 - 1, None, '', str(d), b'\1' * 32, 1.5, [d], P):
        mon.refused('key', 'unusable key material was accepted', HDWallet, bad, chain, 1); mon.ev('bad-key')
    mon.seen('refusals', d)

def deep(rng, mon, i):
    """all the way down"""
    sd = seed(rng); w = HDWallet.from_master_seed(sd, 3, i % 2 == 1); n = Node.master(sd, i % 2 == 1)
    for k in range(255):
        x = index(rng); w = mon.ok('child-raises', 'child', w.child, x); n = n.child(x); mon.ev('derived')
        mon.eq(w.depth(), k + 1, 'depth')
        if k % 50 == 0 or k > 252: wal.compare(mon, w, M(kind='hd', node=n, vcn=3), 'deep'); mon.seen(n.ext(False))
    mon.refused('depth', 'derived below depth 255', w.child, 0); mon.ev('bottom')

FAMILIES = [Family('deep', deep, 2, 40, cpu=120), Family('paths', paths, 90, 4000), Family('arbitrary', arbitrary, 120, 4000), Family('forced', forced, 24, 800), Family('refusals', refusals, 24, 400)]
REQUIRED = {'derived': 900, 'hardened': 150, 'normal': 150, 'paths': 80, 'inherited': 20, 'bad-index': 100, 'too-deep': 100, 'bad-key': 100, 'bottom': 1}
