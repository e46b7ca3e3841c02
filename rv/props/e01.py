import hashlib
from ..core import Family, Violation
from .. import gen
from ..ref import ec, codec
from nbc.util.ecdsa import ecdsa, ellipticcurve, curves, keys, util
ANCHORS = ['nbc/util/ecdsa/ecdsa.py', 'nbc/util/ecdsa/keys.py', 'nbc/util/ecdsa/ellipticcurve.py', 'nbc/util/ecdsa/curves.py']
RULE = 'toy groups: every key, digest, r, s, nonce; standard curves: signatures made by us and by the code, altered r/s/digest/key, crafted infinity, doubling and wrapped-x cases; distinct = distinct (curve, key, digest, r, s)'
ASSUMPTIONS = ['textbook ECDSA in rv/ref/ec.py (self-tested against openssl)']

# ------------------------------------------------------------------ toy groups
def groups(primes, nmax):
    out = []
    for p in primes:
        for a in range(p):
            for b in range(p):
                if (4 * a ** 3 + 27 * b * b) % p == 0: continue
                pts = ec.curve_points(p, a, b); N = len(pts) + 1
                for n in range(5, min(N, nmax) + 1):
                    if N % n or not ec.is_prime(n): continue
                    c = ec.Curve('toy', p, a, b, None, n)
                    G = next((P for P in pts if c.mul(n, P) is None), None)
                    if G: c.G = G; out.append((c, N // n)); break
    return out
TOY = {}
def setup(tier):
    full = groups((5, 7, 11, 13), 13) + groups((17, 19, 23, 29), 17)[::5]
    if tier != 'quick': full += groups((17, 19, 23), 23)[::3] + groups((31, 37), 37)[::25]
    TOY['g'] = full
    TOY['jobs'] = [(k, d) for k, (c, h) in enumerate(full) for d in range(1, c.n)]
    TOY['sel'] = [j for j in TOY['jobs'] if TOY['g'][j[0]][0].n <= (7 if tier == 'quick' else 13)]
    if tier == 'quick': TOY['sel'] += [j for j in TOY['jobs'] if TOY['g'][j[0]][0].n > 7][::9]
    else: TOY['sel'] += [j for j in TOY['jobs'] if TOY['g'][j[0]][0].n > 13]
    FAMILIES[0].counts[tier] = len(TOY['sel'])

def toy(rng, mon, i):
    k, d = TOY['sel'][i]
    c, h = TOY['g'][k]; n = c.n
    cv = ellipticcurve.CurveFp(c.p, c.a, c.b); G = ellipticcurve.Point(cv, c.G[0], c.G[1], n)
    Q = c.mul(d, c.G)
    pub = mon.ok('key-refused', 'valid public key refused', ecdsa.Public_key, G, ellipticcurve.Point(cv, Q[0], Q[1]))
    prv = ecdsa.Private_key(pub, d)
    mon.refused('no-order', 'a key over a generator of unknown order', ecdsa.Public_key, ellipticcurve.Point(cv, *c.G), ellipticcurve.Point(cv, *Q))
    for x in range(-1, c.p + 1):         # which coordinates are keys of this group
        for y in range(-1, c.p + 1):
            P = (x, y) if 0 <= x < c.p and 0 <= y < c.p and c.on((x, y)) else None
            want = P is not None and c.mul(n, P) is None
            st, v = mon.call(ecdsa.point_is_valid, G, x, y)
            mon.check(st == 'ok' and bool(v) == want, 'toy-valid', 'a point of the group or not: %r, wanted %r' % (v, want), p=c.p, a=c.a, b=c.b, n=n, x=x, y=y)
            if P is not None:
                st, v = mon.call(ecdsa.Public_key, G, ellipticcurve.Point(cv, x, y)); mon.check((st == 'ok') == want, 'toy-key', 'point outside the group taken as a key, or one inside refused', p=c.p, a=c.a, b=c.b, n=n, x=x, y=y)
            mon.ev('toy-point')
    Rx = {}
    for u in range(n): Rx[u] = c.mul(u, c.G)
    hi = max(n, c.p) + 1
    zs = list(range(n)) + [n, n + 1, 2 * n + 3]
    for z in zs:
        for r in range(-1, hi + 1):
            for s in range(-1, n + 2):
                if not (1 <= r < n and 1 <= s < n): want = False
                else:
                    w = pow(s, -1, n); X = Rx[(z * w + r * w * d) % n]
                    want = X is not None and X[0] % n == r
                st, v = mon.call(pub.verifies, z, ecdsa.Signature(r, s))
                if st == 'exc' or bool(v) != want:
                    raise Violation('toy-verify', 'verification is %r, the equation says %r' % (v, want), {'p': c.p, 'a': c.a, 'b': c.b, 'G': c.G, 'n': n, 'd': d, 'z': z, 'r': r, 's': s})
                if want: mon.ev('accepted')
                else: mon.ev('rejected')
        for kk in range(1, n):
            want = c.sign(d, z, kk)
            st, v = mon.call(prv.sign, z, kk)
            if want is None: mon.check(st == 'exc', 'toy-sign-zero', 'r or s zero must be refused', p=c.p, n=n, d=d, z=z, k=kk); continue
            mon.check(st == 'ok' and (v.r, v.s) == want, 'toy-sign', 'not the ECDSA signature', p=c.p, a=c.a, b=c.b, n=n, d=d, z=z, k=kk, got=v if st == 'exc' else (v.r, v.s), want=want)
            mon.check(pub.verifies(z, v) is True, 'toy-sign-verify', 'own signature rejected', p=c.p, n=n, d=d, z=z, k=kk)
            mon.ev('signed')
    mon.ev('toy-cofactor' if h > 1 else 'toy-prime'); mon.seen(c.p, c.a, c.b, n, d)
    mon.sample(p=c.p, a=c.a, b=c.b, n=n, d=d)

# ------------------------------------------------------------------ standard curves
CV = list(zip(ec.CURVES, [curves.NIST192p, curves.NIST224p, curves.NIST256p, curves.NIST384p, curves.NIST521p, curves.SECP256k1]))
WEIGHT = [0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 5, 5]
def ask(mon, c, rc, vk, dig, z, r, s, Q, why):
    """verify by number, and through the key object when the encoding can carry r, s"""
    want = c.verify(Q, z, r, s)
    st, v = mon.call(vk.pubkey.verifies, z, ecdsa.Signature(r, s))
    mon.check(st == 'ok' and bool(v) == want, 'verify-' + why, 'verification answers %r, the equation says %r' % (v, want), curve=c.name, Q=Q, z=z, r=r, s=s)
    mon.ev('accepted-std' if want else 'rejected-std'); mon.ev('case-' + why); mon.seen(c.name, Q, z, r, s)
    return want

def ask_key(mon, c, rc, vk, dig, r, s, Q, rng):
    want = c.verify(Q, int.from_bytes(dig, 'big'), r, s)
    L = c.blen
    if not (0 <= r < 256 ** L and 0 <= s < 256 ** L): return
    form = rng.randrange(3)
    try:
        if form == 0: st, v = mon.call(vk.verify_digest, r.to_bytes(L, 'big') + s.to_bytes(L, 'big'), dig)
        elif form == 1: st, v = mon.call(vk.verify_digest, (r.to_bytes(L, 'big'), s.to_bytes(L, 'big')), dig, sigdecode=util.sigdecode_strings)
        else: st, v = mon.call(vk.verify_digest, codec.der_sig(r, s), dig, sigdecode=util.sigdecode_der)
    except Violation: raise
    mon.check((st == 'ok' and v is True) if want else (st == 'exc' or v is False), 'verify-digest', 'verify_digest answers %r, the equation says %r' % (v, want), curve=c.name, Q=Q, digest=dig, r=r, s=s, form=form)
    mon.ev('accepted-std' if want else 'rejected-std')

def digest(rng, c):
    L = c.blen if c.name != 'NIST521p' else 64
    k = rng.random()
    if k < .2: return b'\xff' * min(L, rng.choice([20, 24, 28, 32, 48, 64]))
    if k < .3: return b'\0' * min(L, 20)
    if k < .4 and c.name != 'NIST521p': return (c.n + rng.choice([0, 1, -1]) if (c.n + 1).bit_length() <= 8 * L else 1).to_bytes(L, 'big')
    return gen.raw(rng, min(L, rng.choice([20, 20, 24, 28, 32, 32, 48, 64, 1])))

class Plain(object):
    """the hash function that leaves its data as they are"""
    def __init__(self, data=b''): self.data = data
    def update(self, data): self.data += data
    def digest(self): return self.data

def std(rng, mon, i):
    c, rc = CV[rng.choice(WEIGHT)]; n = c.n
    d = gen.scalar(rng, n); dig = digest(rng, c); z = int.from_bytes(dig, 'big')
    sk = mon.ok('key', 'from_secret_exponent', keys.SigningKey.from_secret_exponent, d, rc)
    Q = c.mul(d, c.G); vk = sk.get_verifying_key()
    mon.eq((vk.pubkey.point.x(), vk.pubkey.point.y()), Q, 'public-key', curve=c.name, d=d)
    k = gen.scalar(rng, n)
    sig = mon.ok('sign', 'sign_digest', sk.sign_digest, dig, k=k)
    want = c.sign(d, z, k)
    got = (int.from_bytes(sig[:c.blen], 'big'), int.from_bytes(sig[c.blen:], 'big'))
    mon.eq(got, want, 'signature', 'not the ECDSA signature of this nonce', curve=c.name, d=d, z=z, k=k)
    mon.ev('signed-std')
    r, s = want
    mon.check(ask(mon, c, rc, vk, dig, z, r, s, Q, 'valid'), 'oracle-broken')
    ask_key(mon, c, rc, vk, dig, r, s, Q, rng)
    # variants: cheap rejections first, then one or two costly ones
    for rr, ss in ((r + n, s), (r, s + n), (r - n, s), (r, s - n), (0, s), (r, 0), (n, s), (r, n), (-r, s), (r, -s), (r, n + s), (c.p, s), (2 ** 600 + 1, s), (r, 2 ** 600 + 1), (0, 0)):
        ask(mon, c, rc, vk, dig, z, rr, ss, Q, 'out-of-range')
        if rng.random() < .2: ask_key(mon, c, rc, vk, dig, rr, ss, Q, rng)
    v = rng.randrange(6)
    if v == 0: ask(mon, c, rc, vk, dig, z, r, n - s, Q, 'negated-s')
    elif v == 1: ask(mon, c, rc, vk, dig, z ^ (1 << rng.randrange(max(1, z.bit_length()))), r, s, Q, 'digest-bit')
    elif v == 2: ask(mon, c, rc, vk, dig, z + n, r, s, Q, 'digest-plus-n')
    elif v == 3: ask(mon, c, rc, vk, dig, z, r ^ (1 << rng.randrange(n.bit_length() - 1)), s, Q, 'r-bit')
    elif v == 4: ask(mon, c, rc, vk, dig, z, r, s ^ (1 << rng.randrange(n.bit_length() - 1)), Q, 's-bit')
    else: ask(mon, c, rc, vk, dig, z, gen.scalar(rng, n), gen.scalar(rng, n), Q, 'random')
    # digests the curve has no room for: refused by both sides, never shortened
    long = dig.rjust(c.blen, b'\0') + gen.raw(rng, 1) if rng.random() < .5 else gen.raw(rng, c.blen + rng.choice([1, 2, 16, 64]))
    mon.refused('long-digest', 'a digest longer than the curve takes is signed', sk.sign_digest, long, k=k); mon.refused('long-digest', 'a digest longer than the curve takes is signed', sk.sign_digest_deterministic, long, hashfunc=hashlib.sha256)
    mon.refused('long-digest', 'a digest longer than the curve takes is checked', vk.verify_digest, sig, long); mon.ev('long')
    # a nonce that is given is used, by whatever call; one outside the range is refused, not replaced
    for bad in (0, n, n + k, -k, 2 ** 600):
        for what, f in (('sign', lambda: sk.sign(dig, hashfunc=Plain, k=bad)), ('sign_digest', lambda: sk.sign_digest(dig, k=bad)), ('sign_number', lambda: sk.sign_number(z, k=bad))):
            mon.refused('bad-nonce', '%s with a nonce outside [1, n-1]' % what, f); mon.ev('bad-nonce')
    if rng.random() < .3:
        mon.eq(mon.ok('sign', 'sign', sk.sign, dig, hashfunc=Plain, k=k), sig, 'signature', 'sign with this nonce and hash'); mon.eq(tuple(mon.ok('sign', 'sign_number', sk.sign_number, z, k=k)), (r, s), 'signature', 'sign_number with this nonce')
    # the same signature under another key
    o = keys.VerifyingKey.from_public_point(ellipticcurve.Point(rc.curve, Q[0], c.p - Q[1], n) if i % 2 else ellipticcurve.Point(rc.curve, Q[0], c.p - Q[1]), rc)
    ask(mon, c, rc, o, dig, z, r, s, (Q[0], c.p - Q[1]), 'mirrored-key')
    if rng.random() < .3:
        o = keys.SigningKey.from_secret_exponent(gen.scalar(rng, n), rc).get_verifying_key()
        ask(mon, c, rc, o, dig, z, r, s, (o.pubkey.point.x(), o.pubkey.point.y()), 'other-key')
    mon.sample(curve=c.name, d=d, z=z, k=k)

def crafted(rng, mon, i):
    c, rc = CV[rng.choice(WEIGHT)]; n = c.n
    def key(Q): return mon.ok('key', 'from_public_point', keys.VerifyingKey.from_public_point, ellipticcurve.Point(rc.curve, Q[0], Q[1]), rc)
    v = i % 5
    if v == 0:                                   # u1 G + u2 Q is infinity
        d = gen.scalar(rng, n); r, s = gen.scalar(rng, n), gen.scalar(rng, n); Q = c.mul(d, c.G)
        ask(mon, c, rc, key(Q), b'', -r * d % n, r, s, Q, 'infinity')
    elif v == 1:                                 # u1 G equals u2 Q
        d = gen.scalar(rng, n); Q = c.mul(d, c.G); t = gen.scalar(rng, n)      # u1 = t, u2 = t/d, X = 2tG
        r = c.mul(2 * t % n, c.G)[0] % n; u2 = t * pow(d, -1, n) % n; s = r * pow(u2, -1, n) % n; z = t * s % n
        mon.check(ask(mon, c, rc, key(Q), b'', z, r, s, Q, 'doubling'), 'oracle-broken')
        ask(mon, c, rc, key(Q), b'', z, (r + 1) % n or 1, s, Q, 'doubling-wrong')
    elif v == 2:                                 # x of the sum lies in [n, p): r is x - n
        if c.p - n < 3: return
        while True:
            x = n + rng.randrange(1, c.p - n); y = c.lift_x(x)
            if y is not None: break
        r = x - n; s, z = gen.scalar(rng, n), gen.scalar(rng, n)
        R = (x, y); ri = pow(r, -1, n)
        Q = c.add(c.mul(s * ri % n, R), c.mul(-z * ri % n, c.G))
        mon.check(ask(mon, c, rc, key(Q), b'', z, r, s, Q, 'wrapped-x'), 'oracle-broken')
    elif v == 3:                                 # z = 0 mod n, tiny r by recovery, keys G and -G
        d = rng.choice([1, n - 1, 2, (n + 1) // 2]); Q = c.mul(d, c.G); k = rng.choice([1, n - 1, 2, gen.scalar(rng, n)]); z = rng.choice([0, n, 1, 2 * n])
        sg = c.sign(d, z, k)
        if sg: ask(mon, c, rc, key(Q), b'', z, sg[0], sg[1], Q, 'special-key')
        ask(mon, c, rc, key(Q), b'', z, rng.choice([1, n - 1]), rng.choice([1, n - 1]), Q, 'special-rs')
    else:                                        # keys off the curve are never accepted
        Q = c.mul(gen.scalar(rng, n), c.G); L = c.blen
        for x, y in ((Q[0], (Q[1] + 1) % c.p), ((Q[0] + 1) % c.p, Q[1]), (0, 0), (rng.randrange(c.p), rng.randrange(c.p))):
            if c.on((x, y)): continue
            mon.refused('off-curve-key', 'public key off the curve accepted', keys.VerifyingKey.from_string, x.to_bytes((c.p.bit_length() + 7) // 8, 'big')[-L:].rjust(L, b'\0') + y.to_bytes((c.p.bit_length() + 7) // 8, 'big')[-L:].rjust(L, b'\0'), rc)
            mon.refused('off-curve-key', 'public point off the curve accepted', ellipticcurve.Point, rc.curve, x, y)
        st, v2 = mon.call(ecdsa.point_is_valid, rc.generator, Q[0], (Q[1] + 1) % c.p); mon.check(st == 'ok' and not v2, 'point-is-valid', 'off-curve point valid')
        for x, y in ((Q[0] + c.p, Q[1]), (Q[0], Q[1] + c.p), (Q[0], Q[1] - c.p), (-1, 0)):
            st, v2 = mon.call(ecdsa.point_is_valid, rc.generator, x, y); mon.check(st == 'exc' or not v2, 'point-is-valid', 'coordinate out of range valid', x=x, y=y)
        mon.check(ecdsa.point_is_valid(rc.generator, *Q) is True, 'point-is-valid', 'valid point refused', Q=Q)

FAMILIES = [Family('toy-groups', toy, 1, 1, exhaustive=True, cpu=120), Family('standard', std, 110, 3000), Family('crafted', crafted, 150, 3000)]
REQUIRED = {'long': 100, 'bad-nonce': 800, 'toy-point': 5000, 'accepted': 3000, 'rejected': 100000, 'signed': 3000, 'accepted-std': 150, 'rejected-std': 1500, 'case-infinity': 20, 'case-wrapped-x': 15, 'case-doubling': 20}
