from ..core import Family
from .. import gen
from ..ref import codec, ec
from nbc.util import ecc
ANCHORS = ['nbc/util/ecc.py', 'nbc/util/key.py']
RULE = 'pairs of boundary/short/random scalars, all encodings of keys, malformed keys; distinct = distinct pair or malformed input'
N = ec.K1.n

def agree(rng, mon, i):
    for _ in range(2):
        (a, A), (b, B) = gen.keypair(rng), gen.keypair(rng)
        want = ec.K1.mul(a, B)[0].to_bytes(32, 'big')
        wa, wb = codec.wif(a, rng.random() < .5), codec.wif(b, rng.random() < .5)
        for cp in (False, True):
            ab = mon.ok('raises', 'shared_secret', ecc.shared_secret, codec.ser_pub(B, cp), wa)
            mon.eq(ab, want, 'secret', 'not the x coordinate of the product point', a=a, b=b)
        ba = mon.ok('raises', 'shared_secret', ecc.shared_secret, codec.ser_pub(A, rng.random() < .5), wb if rng.random() < .5 else wb.decode())
        mon.eq(ba, want, 'sides-differ', a=a, b=b)
        mon.ev('agreement'); mon.seen(a, b)
    # keys much alike, one after the other with the same partner: every answer is that of these two keys
    for k in rng.choice([(a ^ 1, a ^ 1 << rng.randrange(255)), (N - a, a + 1), (a ^ 1 << rng.randrange(16), a)]):
        if 0 < k < N and k != b: mon.eq(mon.ok('raises', 'shared_secret', ecc.shared_secret, codec.ser_pub(B, rng.random() < .5), codec.wif(k, rng.random() < .5)), ec.K1.mul(k, B)[0].to_bytes(32, 'big'), 'secret', 'of a key much like the one before', a=k, b=b); mon.ev('alike')
    mon.sample(a=a, b=b, secret=want.hex())

def leading(rng, mon, i):
    """products whose x starts with zero bytes: built as x-small points"""
    while True:
        x = rng.getrandbits(rng.choice([248, 240, 128, 16])) or 1
        if i % 3 == 0: x = rng.choice([N + rng.getrandbits(rng.choice([4, 32, 128])), ec.K1.p - 1 - rng.getrandbits(rng.choice([4, 32, 120]))])    # above the order of the group
        y = ec.K1.lift_x(x) if x < ec.K1.p else None
        if y is not None: break
    Q = (x, y if rng.random() < .5 else ec.K1.p - y); a = rng.choice([1, N - 1, gen.scalar(rng)]); mon.ev('above-order', x >= N)
    B = ec.K1.mul(pow(a, -1, N), Q)          # a*B = Q
    mon.eq(mon.ok('raises', 'shared_secret', ecc.shared_secret, codec.ser_pub(B, rng.random() < .5), codec.wif(a, True)), x.to_bytes(32, 'big'), 'secret', 'short x coordinate', a=a)
    mon.ev('short-x'); mon.seen(x)

def bad(rng, mon, i):
    for _ in range(6):
        a, A = gen.keypair(rng); w = codec.wif(a, rng.random() < .5)
        pub = codec.ser_pub(A, rng.random() < .5)
        m = gen.mutate(rng, pub)
        if codec.parse_pub(m) is None: mon.refused('bad-public-accepted', 'invalid public key accepted', ecc.shared_secret, m, w)
        x = gen.integer(rng, 0, 2**256 - 1)
        m = bytes([rng.choice([2, 3])]) + x.to_bytes(32, 'big')
        if codec.parse_pub(m) is None: mon.refused('bad-public-accepted', 'invalid public key accepted', ecc.shared_secret, m, w)
        u = codec.ser_pub(A, False)
        mon.refused('bad-public-accepted', 'off-curve point accepted', ecc.shared_secret, u[:33] + ((A[1] + 1) % ec.K1.p).to_bytes(32, 'big'), w)
        mon.refused('bad-public-accepted', 'point off the curve (twist) accepted', ecc.shared_secret, b'\4' + gen.raw(rng, 64), w)
        for d in (0, N, gen.integer(rng, N, 2**256 - 1)):
            mon.refused('bad-private-accepted', 'private key out of range accepted', ecc.shared_secret, pub, codec.wif(d.to_bytes(32, 'big'), rng.random() < .5))
        t = gen.mutate(rng, w, codec.AL.encode())
        if codec.unwif(t) is None: mon.refused('bad-private-accepted', 'damaged private key accepted', ecc.shared_secret, pub, t)
        for p in (b'', pub[:-1], pub + b'\0', pub[1:]): mon.refused('bad-public-accepted', 'malformed public key', ecc.shared_secret, p, w)
        mon.seen(m)

FAMILIES = [Family('agreement', agree, 160, 8000), Family('short-x', leading, 60, 2000), Family('invalid', bad, 150, 5000)]
REQUIRED = {'alike': 200, 'agreement': 300, 'refused': 4000, 'short-x': 50, 'above-order': 15}
