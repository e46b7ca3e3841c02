from ..core import Family
from .. import gen
from ..ref import codec, ec
from nbc.util import key
ANCHORS = ['nbc/util/key.py', 'nbc/util/ecdsa/numbertheory.py']
RULE = 'curve points of random, tiny, sparse and boundary x, y and scalars; malformed encodings (length, prefix, off-curve, out of range); distinct = distinct encoding'
P = ec.K1.p
BETA = next(b for b in (pow(g, (P - 1) // 3, P) for g in range(2, 50)) if b != 1)   # a cube root of one

def point(rng):
    if rng.random() < .2: return gen.keypair(rng)[1]
    if rng.random() < .3:                                        # a small or otherwise marked ordinate: x is a cube root
        while True:
            y = gen.integer(rng, 1, P - 1) if rng.random() < .5 else rng.choice([1, -1]) * rng.randrange(1, rng.choice([300, 1 << 16, 1 << 40])) % P
            c = (y * y - 7) % P; x = pow(c, (P + 2) // 9, P)
            if pow(x, 3, P) == c: x = x * pow(BETA, rng.randrange(3), P) % P; return (x, y)
    while True:
        x = gen.integer(rng, 0, P - 1)
        y = ec.K1.lift_x(x)
        if y is not None: return (x, y if rng.random() < .5 else P - y)

def valid(rng, mon, i):
    for _ in range(12):
        pt = point(rng)
        u, c = codec.ser_pub(pt, False), codec.ser_pub(pt, True)
        mon.eq(mon.ok('compress-raises', 'compress_public_key', key.compress_public_key, u), c, 'compress', 'not the standard compressed form', key=u)
        mon.eq(mon.ok('decompress-raises', 'decompress_public_key', key.decompress_public_key, c), u, 'decompress', 'not the point compressed', key=c)
        mon.eq(mon.ok('decompress-raises', 'decompress_public_key', key.decompress_public_key, u), u, 'decompress-uncompressed', key=u)
        neg = codec.ser_pub((pt[0], P - pt[1]), True)
        mon.eq(mon.ok('decompress-raises', 'decompress_public_key', key.decompress_public_key, neg), codec.ser_pub((pt[0], P - pt[1]), False), 'decompress-parity', key=neg)
        mon.ev('valid'); mon.seen(c)
    mon.sample(key=c.hex())

def judge(mon, b):
    want = codec.parse_pub(b)
    st, v = mon.call(key.decompress_public_key, b)
    if want is None:
        mon.check(st == 'exc', 'invalid-accepted', 'not a curve point, yet accepted', key=b, got=v); mon.ev('invalid')
    else:
        mon.check(st == 'ok' and v == codec.ser_pub(want, False), 'valid-refused', 'valid point refused or changed', key=b, got=v); mon.ev('valid')
    mon.seen(b)

def invalid(rng, mon, i):
    for _ in range(10):
        pt = point(rng); u, c = codec.ser_pub(pt, False), codec.ser_pub(pt, True)
        x32, y32 = u[1:33], u[33:]
        for b in (gen.mutate(rng, u), gen.mutate(rng, c), u[:rng.randrange(65)], c[:rng.randrange(33)], u + b'\0', c + b'\0', c + c[:rng.randint(1, 33)],
                  bytes([rng.choice([0, 1, 4, 5, 6, 7, 8, 255])]) + x32, bytes([rng.choice([0, 2, 3, 5, 6, 7, 255])]) + x32 + y32,
                  b'\4' + y32 + x32, b'\4' + x32 + ((pt[1] + rng.choice([1, -1, 2])) % P).to_bytes(32, 'big'), u[1:], c[1:]):
            judge(mon, b)
        # coordinates out of range that reduce to the point
        for x in (gen.integer(rng, P, 2**256 - 1),):
            judge(mon, bytes([rng.choice([2, 3])]) + x.to_bytes(32, 'big'))
        lo = rng.randrange(2**32 + 977)
        y = ec.K1.lift_x(lo)
        if y is not None:
            judge(mon, b'\2' + (lo + P).to_bytes(32, 'big')); judge(mon, b'\3' + (lo + P).to_bytes(32, 'big'))
            judge(mon, b'\4' + (lo + P).to_bytes(32, 'big') + y.to_bytes(32, 'big'))
        st, v = mon.call(key.compress_public_key, gen.mutate(rng, u)[:rng.choice([64, 0, 33, 63])])
        mon.check(st == 'exc', 'compress-malformed', 'malformed key compressed', got=v)
        for b in (c, u[1:], b'\6' + u[1:], b'\3' + u[1:], u + b'\0', b''):
            st, v = mon.call(key.compress_public_key, b)
            mon.check(st == 'exc', 'compress-malformed', 'malformed key compressed', key=b, got=v)

def anyx(rng, mon, i):
    """both answers for arbitrary x"""
    for _ in range(40):
        judge(mon, bytes([rng.choice([2, 3])]) + gen.integer(rng, 0, 2**256 - 1).to_bytes(32, 'big'))

FAMILIES = [Family('valid', valid, 150, 15000), Family('malformed', invalid, 80, 10000), Family('any-x', anyx, 60, 10000)]
REQUIRED = {'valid': 2000, 'invalid': 5000}
