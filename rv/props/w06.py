import hashlib, os, random, subprocess, sys
from ..core import Family, REPO, StepLimit, everywhere
from .. import gen
from ..ref import codec, ec
from nbc.wallet import Address
from nbc.util import ecdsa
from nbc.util.ecdsa import util as eu, curves
from nbc.util.ecdsa.keys import SigningKey
ANCHORS = ['nbc/util/ecdsa/util.py', 'nbc/util/ecdsa/keys.py', 'nbc/wallet/address.py']
RULE = 'scripted entropy (every single byte for every order up to 256, every pair for two-byte orders, limits of the order, constant, short, failing) and real entropy, orders 2 to 2**521; distinct = distinct (order, entropy) draws'
CURVES = [curves.NIST192p, curves.NIST224p, curves.NIST256p, curves.NIST384p, curves.NIST521p, curves.SECP256k1]
ASSUMPTIONS = ['entropy sources are called like os.urandom: with the number of bytes wanted']
LIMIT = 200000

class Src(object):
    """entropy from scripted chunks; the last one repeats"""
    def __init__(self, *chunks, **kw): self.chunks, self.calls, self.fresh = list(chunks), 0, kw.get('fresh')
    def __call__(self, k):
        self.calls += 1; self.size = k
        if self.calls > LIMIT: raise StepLimit('entropy asked for %d times' % LIMIT)
        if self.fresh and not self.chunks: return gen.raw(self.fresh, k)
        c = self.chunks.pop(0) if len(self.chunks) > 1 or self.fresh else self.chunks[0]
        if isinstance(c, Exception): raise c
        if isinstance(c, int): return bytes([c]) * k
        if callable(c): return c(k)
        return c[-k:].rjust(k, b'\0') if isinstance(c, bytes) else c

def draw(mon, n, src, what='randrange'):
    try: st, v = mon.call(eu.randrange, n, src)
    except StepLimit as e: mon.check(False, 'endless', 'the draw never gives up: %s' % e, order=n)
    if st == 'ok': mon.check(isinstance(v, int) and 1 <= v < n, 'range', 'drawn number outside [1, n-1]', order=n, got=v); mon.ev('drawn')
    return st, v

def small(rng, mon, i):
    """every order 2..256 with every one-byte candidate"""
    n = 2 + i
    if n > 256: n = rng.randint(257, 400)
    fb = None
    for b in range(256):                       # a byte that is accepted at once
        s = Src(b); st, v = draw(mon, n, s)
        if s.size != 1: return wide(rng, mon, n)
        if st == 'ok' and s.calls == 1: fb, fv = b, v; break
    if n <= 256: mon.check(fb is not None, 'nothing-accepted', 'no byte is ever accepted', order=n)
    if fb is None or n > 256: return wide(rng, mon, n)
    got = {}; rejected = 0
    for b in range(256):
        s = Src(b, fb); st, v = draw(mon, n, s)
        mon.check(st == 'ok', 'gave-up', 'a single rejected candidate makes the draw fail', order=n, byte=b, error=v)
        if s.calls > 1: rejected += 1; mon.eq(v, fv, 'redraw', 'after a rejected candidate the result is not that of the next one', order=n, byte=b)
        else: got[v] = got.get(v, 0) + 1
    mon.eq(sorted(got), list(range(1, n)), 'values', 'not every value of the range can occur', order=n)
    mon.check(len(set(got.values())) == 1, 'folded', 'some values occur more often than others: out-of-range candidates are folded back', order=n, counts=sorted(got.items())[:12])
    mon.ev('redrawn', rejected); mon.ev('small-orders'); mon.seen('small', n)
    # from a broken source
    for c in (0, 255): broken(mon, n, c)

def wide(rng, mon, n=None, i=None):
    """every pair of bytes for two-byte orders"""
    if not n or isinstance(n, Family): n = rng.choice([257, 258, 300, 511, 512, 513, 4096, 65535, 65536, rng.randint(257, 65536)])
    acc = bytes(2)
    f = Src(acc); st, fv = draw(mon, n, f)
    got = {}
    ok = f.calls == 1 and st == 'ok' and f.size == 2
    for v in range(65536):
        s = Src(v.to_bytes(2, 'big'), acc) if ok else Src(v.to_bytes(2, 'big'), fresh=rng); st, r = draw(mon, n, s)
        if st == 'ok' and s.calls == 1: got[r] = got.get(r, 0) + 1
        elif st == 'ok' and ok: mon.eq(r, fv, 'redraw', order=n, candidate=v)
    if ok and len(got) > 1:
        mon.eq((len(got), min(got), max(got)), (n - 1, 1, n - 1), 'values', 'not every value of the range can occur', order=n)
        mon.check(len(set(got.values())) == 1, 'folded', 'some values occur more often', order=n, counts=sorted(got.items())[:5])
        mon.ev('wide-orders')
    mon.seen('wide', n)

def wide_case(rng, mon, i): wide(rng, mon)

def broken(mon, n, c):
    """constant entropy: in range or refused, soon"""
    s = Src(c); st, v = draw(mon, n, s)
    if st == 'ok': mon.ev('constant-accepted')
    else: mon.check(not isinstance(v, TypeError), 'broken-error', str(v)); mon.ev('constant-refused'); mon.ev('asked-again', s.calls - 1)
    mon.seen('broken', n, c)
    return st

def orders(rng):
    c = rng.choice(CURVES)
    k = rng.random()
    if k < .03: return rng.getrandbits(rng.choice([1024, 2048, 4096])) | 1 << 1000
    if k < .5: return c.order
    if k < .7: return (1 << 8 * rng.randint(1, 66)) - rng.choice([0, 1, 2, 3, 100])
    if k < .85: return (1 << rng.randint(9, 530)) + rng.choice([-1, 0, 1])
    return rng.getrandbits(rng.randint(9, 530)) | 256

def limits(rng, mon, i):
    """candidates around the limits of large orders"""
    for _ in range(6):
        n = orders(rng); L = (n.bit_length() + 7) // 8
        x = rng.randint(2, n - 2) if n > 4 else 1
        X = (x - 1).to_bytes(L, 'big')
        s = Src(X); st, fx = draw(mon, n, s); direct = st == 'ok' and s.calls == 1 and s.size == L
        top = (1 << 8 * L) - 1
        for e in [n - 3, n - 2, n - 1, n, n + 1, 2 * n, top, top - 1, rng.randint(n, top) if n <= top else top, 0, 1]:
            if not 0 <= e <= top: continue
            s = Src(e.to_bytes(L, 'big'), X); st, v = draw(mon, n, s)
            mon.check(st == 'ok', 'gave-up', 'one candidate makes the draw fail', order=hex(n), candidate=hex(e), error=v)
            if direct and e >= n and n.bit_length() == 8 * L:      # outside the range however candidates are read
                mon.check(s.calls >= 2, 'not-redrawn', 'an out-of-range candidate did not cause another request for entropy', order=hex(n), candidate=hex(e))
                mon.eq(v, fx, 'folded', 'an out-of-range candidate influences the result', order=hex(n), candidate=hex(e)); mon.ev('redrawn')
            if e == n - 2: mon.check(v in (n - 1, n - 2), 'top', 'the largest value cannot be reached', order=hex(n), got=v)
            if e == 0: mon.check(v == 1 or s.calls > 1, 'bottom', order=hex(n), got=v)
            mon.seen(n, e)
        # reachability of both ends
        tops = set()
        for e in (n - 3, n - 2, n - 1, 0, 1):
            if 0 <= e <= top:
                st, v = draw(mon, n, Src(e.to_bytes(L, 'big'), X)); tops.add(v)
        mon.check(n < 5 or not direct or {1, n - 1} <= tops, 'ends', 'a limit of the range cannot occur', order=hex(n), got=[hex(t) for t in tops])
        mon.ev('limits')
        for c in (0, 0xff, 0x80): broken(mon, n, c)
        # failing sources
        boom = OSError('entropy device gone')
        st, v = draw(mon, n, Src(boom)); mon.check(st == 'exc', 'failing-source', 'a failing entropy source gave a number', got=v)
        st, v = draw(mon, n, Src(None)); mon.check(st == 'exc', 'failing-source', 'an entropy source returning nothing gave a number', got=v)
        for short in (b'', b'\1'):
            draw(mon, n, Src(lambda k, s=short: s[:k]))
        mon.ev('failing-sources')
    for n in (1, 0, -5):
        mon.refused('empty-range', 'a number was drawn from an empty range', eu.randrange, n)

class Urandom(object):
    def __init__(self, src): self.src = src
    def __enter__(self): self.old = os.urandom; os.urandom = self.src; everywhere(self.old, self.src)
    def __exit__(self, *a): os.urandom = self.old; everywhere(self.src, self.old)

def keyof(mon, w):
    u = codec.unwif(w.privKey); mon.check(u is not None, 'wallet-key', 'the generated wallet has no wallet-import key', got=w.privKey)
    return int.from_bytes(u[0], 'big')

def wallets(rng, mon, i):
    """wallet keys under given entropy, limits and broken entropy"""
    n = ec.K1.n; comp = rng.random() < .5
    mk = lambda: Address.generate(vcn=5, compressed=comp)
    a = gen.raw(rng, 32); ones = b'\xff' * 32; edge = (n + rng.randrange(1, 1 << 32)).to_bytes(32, 'big')
    s = Src(a)
    with Urandom(s): st, w = mon.call(mk)
    mon.check(st == 'ok', 'generate-raises', str(w))
    if s.calls and s.size == 32:                                  # entropy taken from os.urandom
        k = keyof(mon, w); mon.check(0 < k < n, 'wallet-range', key=k)
        mon.eq(w.pubKey, codec.ser_pub(ec.K1.mul(k, ec.K1.G), False), 'wallet-pub')
        with Urandom(Src(a)): mon.eq(keyof(mon, mk()), k, 'wallet-not-reproducible', 'same entropy, different wallet key')
        b = gen.mutate(rng, a)[:32].ljust(32, b'\x55')
        if b != a:
            with Urandom(Src(b)): mon.check(keyof(mon, mk()) != k, 'wallet-ignores', 'different entropy, same wallet key', a=a, b=b)
        s = Src(ones, edge, a)
        with Urandom(s): v = keyof(mon, mk())
        mon.eq(v, k, 'wallet-folded', 'rejected candidates influence the wallet key'); mon.check(s.calls == 3, 'wallet-redraw', 'entropy asked for %d times, wanted 3' % s.calls)
        for c in (0xff, OSError('gone')):
            s = Src(c)
            try:
                with Urandom(s): st, v = mon.call(mk)
            except StepLimit as e: mon.check(False, 'wallet-endless', str(e))
            mon.check(st == 'exc', 'wallet-broken', 'a wallet was generated from broken entropy', got=v)
        with Urandom(Src((n - 2).to_bytes(32, 'big'), a)): v = keyof(mon, mk()); mon.check(v in (n - 1, n - 2), 'wallet-top', got=v)
        with Urandom(Src(0)): st, v = mon.call(mk)
        if st == 'ok': mon.eq(keyof(mon, v), 1, 'wallet-bottom')
        mon.ev('wallet-scripted')
    mon.seen('wallet', a)

def fresh(rng, mon, i):
    """real entropy: every bit varies, ordinary seeding changes nothing"""
    ks = []
    st = random.getstate()
    try:
        for j in range(44):
            if j in (10, 11): random.seed(99)
            w = Address.generate(compressed=j % 2 == 0); ks.append(keyof(mon, w))
    finally: random.setstate(st)
    mon.check(len(set(ks)) == len(ks), 'wallet-repeats', 'a wallet key was generated twice')
    for b in range(256): mon.check(len(set(k >> b & 1 for k in ks)) == 2, 'wallet-bit', 'bit %d of generated keys never changes' % b)
    # small orders with the real source: every value occurs
    for n in rng.sample(range(2, 40), 4) + [256]:
        seen = {}
        for _ in range(40 * n): v = eu.randrange(n); mon.check(1 <= v < n, 'range', order=n, got=v); seen[v] = 1
        mon.eq(len(seen), n - 1, 'values', 'a value of the range never occurred', order=n)
    mon.ev('fresh-wallets', 44); mon.seen('fresh', ks[0])

def signing(rng, mon, i):
    """keys and nonces of signing keys from given entropy"""
    c = CURVES[i % len(CURVES)]; n = c.order; L = c.baselen
    C = [x for x in ec.CURVES if x.n == n][0]
    a, b = [gen.raw(rng, L) for _ in range(2)]
    if n.bit_length() % 8: a, b = [bytes([x[0] & ((1 << n.bit_length() % 8) - 1) >> 1]) + x[1:] for x in (a, b)]
    rej = (b'\xff' * L,) if rng.random() < .6 else ()
    k1 = SigningKey.generate(c, entropy=Src(*(rej + (a,)))); k2 = SigningKey.generate(c, entropy=Src(a))
    mon.eq(k1.to_string(), k2.to_string(), 'key-not-reproducible', 'rejected candidates or repetition change the key', curve=c.name)
    d = int.from_bytes(k1.to_string(), 'big'); mon.check(0 < d < n, 'key-range', key=d)
    msg = gen.data(rng)
    sig = k1.sign(msg, entropy=Src(*(rej + (b,)))); r, s = int.from_bytes(sig[:L], 'big'), int.from_bytes(sig[L:], 'big')
    z = int.from_bytes(hashlib.sha1(msg).digest(), 'big')
    k = (z + r * d) * pow(s, -1, n) % n
    mon.check(0 < k < n and C.mul(k, C.G)[0] % n == r, 'nonce', 'the signature is not one of the key', curve=c.name)
    mon.eq(k1.sign(msg, entropy=Src(b)), sig, 'nonce-not-reproducible', 'rejected candidates or repetition change the nonce', curve=c.name)
    st, v = draw(mon, n, Src(b))
    mon.check(st != 'ok' or k in (v, n - v), 'nonce-not-drawn', 'the nonce is not the number drawn from the entropy', curve=c.name)
    for bad in (0xff, OSError('gone')):
        for f in (lambda e: SigningKey.generate(c, entropy=e), lambda e: k1.sign(msg, entropy=e)):
            try: st, v = mon.call(f, Src(bad))
            except StepLimit as e: mon.check(False, 'endless', str(e))
            mon.check(st == 'exc', 'broken-accepted', 'broken entropy gave a key or a signature', got=v)
    mon.ev('signing-keys'); mon.ev('signing-' + c.name); mon.seen(c.name, a, b)

GENS = ['overshoot_modulo', 'truncate_bytes', 'truncate_bits', 'trytryagain']
def seed_gen(name, seed, n):
    f = getattr(eu, 'randrange_from_seed__' + name)
    return f(seed, n)
def stream(seed):
    c = 0
    while True:
        for b in hashlib.sha256(('prng-%d-%s' % (c, seed)).encode()).digest(): yield b
        c += 1
def documented(name, seed, n):
    """the numbers the documented construction gives; bit lengths come from a float logarithm, so just below a power of two both readings count"""
    bits = (n - 1).bit_length(); out = []
    for B in [bits, bits + 1] if bits > 40 and (n - 1) >> (bits - 40) == (1 << 40) - 1 else [bits]:
        if name == 'overshoot_modulo':
            L = (n.bit_length() + 7) // 8; g = stream(seed)
            v = int.from_bytes(bytes(next(g) for _ in range(2 * L)), 'big') % (n - 1) + 1
        elif name == 'trytryagain':
            g = stream(seed)
            while True:
                raw = bytes(next(g) for _ in range((B + 7) // 8))
                v = (int.from_bytes(raw, 'big') & (1 << B) - 1) + 1
                if v < n: break
        else:
            raw = hashlib.sha256(seed).digest()[:(B + 7) // 8]; v = int.from_bytes(raw, 'big')
            if len(raw) == (B + 7) // 8 and name == 'truncate_bits': v &= (1 << B) - 1
            v = v + 1 if v + 1 < n else None
        out.append(v)
    return out
CHILD = r'''
import sys, json
sys.path.insert(0, %r)
from nbc.util.ecdsa import util as eu
out = []
for name, seed, n in json.load(sys.stdin):
    try: out.append(getattr(eu, 'randrange_from_seed__' + name)(bytes.fromhex(seed), n))
    except Exception as e: out.append(None)
print(json.dumps(out))
'''
def seeded(rng, mon, i):
    """deterministic and in range"""
    import json, itertools
    seed = rng.choice([gen.data(rng), 'text', b'', gen.raw(rng, 32)]); got = b''; g = eu.PRNG(seed)      # the generator behind it, far beyond what one number takes
    while len(got) < 3000:
        k = rng.choice([0, 1, 7, 31, 32, 33, 64, 500]); x = g(k); mon.eq(len(x), k, 'prng-length', seed=seed); got += x
    mon.check(got == bytes(itertools.islice(stream(seed), len(got))), 'prng', 'not the documented bytes of the seed', seed=seed); mon.ev('prng')
    asked = []
    for _ in range(60):
        n = orders(rng); name = rng.choice(GENS); seed = rng.choice([gen.data(rng), b'', b'0', gen.raw(rng, 32)])
        st, v = mon.call(seed_gen, name, seed, n)
        if name in ('overshoot_modulo', 'trytryagain'): mon.check(st == 'ok', 'seeded-raises', '%s refuses an order' % name, order=hex(n), error=v)
        mon.check(st == 'ok' or not isinstance(v, (TypeError, NameError)), 'seeded-crash', '%s does not work at all' % name, order=hex(n), seed=seed, error=v)
        if st == 'ok':
            mon.check(isinstance(v, int) and 1 <= v < n, 'seeded-range', '%s out of range' % name, order=hex(n), seed=seed, got=v); mon.ev('seeded-' + name)
        want = documented(name, seed, n)
        mon.check((v if st == 'ok' else None) in want, 'seeded-number', '%s: not the documented number of the seed' % name, order=hex(n), seed=seed, got=v, want=want); mon.ev('seeded-number')
        st2, v2 = mon.call(seed_gen, name, bytes(bytearray(seed)), n)
        mon.check((st, v if st == 'ok' else 0) == (st2, v2 if st2 == 'ok' else 0), 'seeded-varies', '%s gives different numbers for one seed' % name, order=hex(n), seed=seed)
        asked.append((name, seed.hex(), n, v if st == 'ok' else None)); mon.seen(name, seed, n)
    # another process, another hash seed: same numbers
    if i % 4 == 0:
        p = subprocess.run([sys.executable, '-c', CHILD % REPO], input=json.dumps([a[:3] for a in asked]), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000)), PYTHONDONTWRITEBYTECODE='1'))
        if p.returncode == 0:
            for a, g in zip(asked, json.loads(p.stdout)): mon.eq(g, a[3], 'seeded-process', 'another process derives another number from the seed', generator=a[0], seed=a[1], order=a[2])
            mon.ev('seeded-elsewhere', len(asked))
    # small orders: every value is reachable and different seeds give different numbers
    for name in ('overshoot_modulo', 'trytryagain'):
        n = rng.choice([2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 127, 129, 255, 256, 257])
        seen = set()
        for j in range(25 * n):
            v = seed_gen(name, b'%d-%d' % (i, j), n); mon.check(1 <= v < n, 'seeded-range', order=n, got=v); seen.add(v)
            mon.check(v in documented(name, b'%d-%d' % (i, j), n), 'seeded-number', '%s: not the documented number of the seed' % name, order=n, got=v)
        mon.eq(len(seen), n - 1, 'seeded-values', '%s never gives some value' % name, order=n); mon.ev('seeded-small')
    for name in ('truncate_bytes', 'truncate_bits'):
        for n in (rng.randint(2, 300), rng.choice([2, 3, 255, 256, 257, 65535, 65536])):
            for j in range(40):
                st, v = mon.call(seed_gen, name, b'%d' % j, n)
                if st == 'ok': mon.check(isinstance(v, int) and 1 <= v < n, 'seeded-range', '%s out of range' % name, order=n, got=v)
    vs = [seed_gen('overshoot_modulo', b'%d' % j, ec.K1.n) for j in range(50)]; mon.check(len(set(vs)) == 50, 'seeded-collide', 'different seeds give the same number')

FAMILIES = [Family('wide', wide_case, 6, 60, cpu=120), Family('small', small, 255 + 8, 600), Family('limits', limits, 60, 3000), Family('wallets', wallets, 24, 1500), Family('fresh', fresh, 4, 60), Family('signing', signing, 12, 300), Family('seeded', seeded, 24, 600)]
REQUIRED = {'prng': 20, 'seeded-number': 1000, 'drawn': 200000, 'small-orders': 200, 'redrawn': 10000, 'limits': 200, 'constant-refused': 100, 'failing-sources': 200, 'fresh-wallets': 100, 'signing-keys': 12, 'seeded-overshoot_modulo': 100, 'seeded-trytryagain': 100, 'seeded-truncate_bytes': 50, 'seeded-truncate_bits': 50, 'seeded-small': 40}
