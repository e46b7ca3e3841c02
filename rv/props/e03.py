import hashlib
from ..core import Family
from .. import gen
from ..ref import ec, codec, nt
from nbc.util.ecdsa import rfc6979, keys, curves, util
ANCHORS = ['nbc/util/ecdsa/rfc6979.py', 'nbc/util/ecdsa/keys.py']
RULE = 'random orders of 3-600 bits (small ones reject many candidates), six curves, all hash functions, keys and digests at the limits; published vectors; distinct = distinct (order, key, hash, digest)'
ASSUMPTIONS = ['independent RFC 6979 in rv/ref/ec.py (self-tested against published vectors)']
HASH = [hashlib.sha1, hashlib.sha224, hashlib.sha256, hashlib.sha384, hashlib.sha512, hashlib.md5, hashlib.sha3_256]
CV = list(zip(ec.CURVES, [curves.NIST192p, curves.NIST224p, curves.NIST256p, curves.NIST384p, curves.NIST521p, curves.SECP256k1]))

class Gen(object):
    def __init__(self, n): self.n = n
    def order(self): return self.n

def nonce(rng, mon, i):
    for _ in range(25):
        k = rng.random()
        if k < .3: n = rng.choice(ec.CURVES).n
        elif k < .6: n = rng.randint(5, 1 << rng.randint(3, 20)) | 1
        elif k < .7: n = (1 << rng.choice([8, 16, 64, 128, 160, 256, 255, 257, 512])) + rng.choice([1, -1, 3])
        else: n = rng.getrandbits(rng.randint(3, 600)) | 5
        hf = rng.choice(HASH)
        x = gen.integer(rng, 1, n - 1)
        j = rng.random()
        h1 = hf(gen.data(rng)).digest() if j < .8 else rng.choice([b'\xff' * hf().digest_size, b'\0' * hf().digest_size, n.to_bytes((n.bit_length() + 7) // 8, 'big')])
        want, rej = ec.rfc6979(n, x, hf, h1)
        got = mon.ok('raises', 'generate_k', rfc6979.generate_k, Gen(n), x, hf, h1)
        mon.eq(got, want, 'nonce', 'not the RFC 6979 nonce (%d candidates rejected)' % rej, order=n, key=x, hash=hf().name, digest=h1)
        mon.ev('nonce'); mon.ev('nonce-after-rejection', 1 if rej else 0); mon.ev('nonce-after-2+', 1 if rej > 1 else 0)
        if n.bit_length() % 8: mon.ev('odd-bit-order')
        mon.seen(n, x, hf().name, h1)
    mon.sample(order=n, key=x, hash=hf().name, k=want)

VEC = [  # RFC 6979 A.2.3 (P-192), A.2.5 (P-256), A.2.7 (P-521)
 (0, 0x6FAB034934E4C0FC9AE67F5B5659A9D7D1FEFD187EE09FD4, hashlib.sha1, b'sample', 0x37D7CA00D2C7B0E5E412AC03BD44BA837FDD5B28CD3B0021),
 (0, 0x6FAB034934E4C0FC9AE67F5B5659A9D7D1FEFD187EE09FD4, hashlib.sha256, b'sample', 0x32B1B6D7D42A05CB449065727A84804FB1A3E34D8F261496),
 (2, 0xC9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721, hashlib.sha256, b'sample', 0xA6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60),
 (2, 0xC9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721, hashlib.sha256, b'test', 0xD16B6AE827F17175E040871A1C7EC3500192C4C92677336EC2537ACAEE0008E0),
]
def vectors(rng, mon, i):
    ci, x, hf, msg, k = VEC[i]
    c, rc = CV[ci]
    mon.eq(rfc6979.generate_k(rc.generator, x, hf, hf(msg).digest()), k, 'published-vector', curve=c.name, msg=msg)
    mon.ev('vector')

def signing(rng, mon, i):
    c, rc = CV[rng.choice([0, 0, 1, 2, 2, 3, 4, 5, 5])]
    d = gen.scalar(rng, c.n); dflt, hf = rng.choice(HASH[:5]), rng.choice([None] + HASH[:5])
    if c.name == 'NIST521p' : pass
    use = hf or dflt
    sk = keys.SigningKey.from_secret_exponent(d, rc, hashfunc=dflt)
    msg = gen.data(rng) if i % 3 else rng.randbytes(rng.choice([1000, 4097, 65537, 300000])); dig = use(msg).digest()
    if len(dig) > rc.baselen:
        mon.refused('long-digest', 'digest longer than the order is signed', sk.sign_deterministic, msg, hashfunc=hf); return
    z = int.from_bytes(dig, 'big')
    k, rej = ec.rfc6979(c.n, d, use, dig)
    r, s = c.sign(d, z, k)
    want = r.to_bytes(c.blen, 'big') + s.to_bytes(c.blen, 'big')
    got = mon.ok('raises', 'sign_deterministic', sk.sign_deterministic, msg, hashfunc=hf)
    mon.eq(got, want, 'signature', 'not the RFC 6979 signature', curve=c.name, key=d, hash=use().name, msg=msg)
    form = rng.randrange(3)
    if form == 0: mon.eq(sk.sign_deterministic(msg, hashfunc=hf), want, 'not-repeatable')
    elif form == 1: mon.eq(mon.ok('raises', 'sign_digest_deterministic', sk.sign_digest_deterministic, dig, hashfunc=hf), want, 'digest-signature', curve=c.name)
    else: mon.eq(mon.ok('raises', 'sign_deterministic der', sk.sign_deterministic, msg, hashfunc=hf, sigencode=util.sigencode_der), codec.der_sig(r, s), 'signature-der')
    mon.check(mon.ok('own-rejected', 'verify', sk.get_verifying_key().verify, got, msg, hashfunc=use) is True, 'own-rejected')
    mon.ev('signed'); mon.seen(c.name, d, use().name, msg)

def distinct(rng, mon, i):
    """different data or keys: different nonces"""
    c, rc = CV[rng.randrange(6)]; g = Gen(c.n); hf = rng.choice(HASH[:5]); seen = {}
    base = gen.scalar(rng, c.n); m = gen.data(rng)
    q = c.n.bit_length()
    def b2i(b): v = int.from_bytes(b, 'big'); return (v >> (len(b) * 8 - q) if len(b) * 8 > q else v) % c.n
    for _ in range(30):
        x = rng.choice([base, base + 1 if base + 1 < c.n else 1, c.n - base, base ^ 1 or 2])
        if not 1 <= x < c.n: continue
        mm = rng.choice([m, m + b'\0', b'\0' + m, gen.mutate(rng, m)])
        h = hf(mm).digest()
        k = rfc6979.generate_k(g, x, hf, h)
        key = (x, b2i(h))
        mon.check(seen.get(k, key) == key, 'nonce-reuse', 'one nonce for different data or keys', a=seen.get(k), b=key)
        seen[k] = key
    mon.ev('distinct', len(seen))

FAMILIES = [Family('nonces', nonce, 200, 10000), Family('vectors', vectors, len(VEC), len(VEC), exhaustive=True), Family('signing', signing, 100, 3000), Family('distinct', distinct, 60, 2000)]
REQUIRED = {'nonce': 4000, 'nonce-after-rejection': 500, 'nonce-after-2+': 100, 'odd-bit-order': 1000, 'signed': 40, 'vector': 4}
