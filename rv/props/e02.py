from ..core import Family
from .. import gen
from ..ref import ec, codec
from nbc.util import ecc
ANCHORS = ['nbc/util/ecc.py', 'nbc/util/ecdsa/der.py', 'nbc/util/key.py']
RULE = 'valid signatures in strict and tolerant DER forms, mutated/truncated/hostile bytes, malformed keys, wrong messages and keys; distinct = distinct (message, key, signature)'
C = ec.K1; N = C.n

def z(m): return int.from_bytes(codec.dsha(m), 'big')
def reading(sig):
    try: return codec.liberal_sig(sig)
    except codec.Bad: return None

def judge(mon, m, pub, sig, must=None):
    Q = codec.parse_pub(pub) if isinstance(pub, bytes) else None
    rs = reading(sig)
    valid = Q is not None and rs is not None and C.verify(Q, z(m), *rs)
    st, v = mon.call(ecc.verify, m, pub, sig)
    mon.check(st == 'ok', 'raises', 'verify raises %s' % type(v).__name__ if st == 'exc' else '', message=m, key=pub, sig=sig)
    mon.check(v is True or v is False, 'not-boolean', got=v, sig=sig)
    if v: mon.check(valid, 'forged-accepted', 'accepted although no valid r, s for this key and message', message=m, key=pub, sig=sig, rs=rs); mon.ev('accepted')
    else: mon.ev('rejected')
    if must: mon.check(v is True, 'valid-rejected', 'a valid signature is rejected', message=m, key=pub, sig=sig)
    mon.seen(m, pub, sig)
    return v

def sign(rng, d=None):
    d = d or gen.scalar(rng); m = gen.data(rng, 200)
    while True:
        r, s = C.sign(d, z(m), gen.scalar(rng)) or (0, 0)
        if r: return d, m, r, s

def strict(rng, mon, i):
    d, m, r, s = sign(rng); Q = C.mul(d, C.G); pub = codec.ser_pub(Q, rng.random() < .5)
    sig = codec.der_sig(r, s)
    judge(mon, m, pub, sig, True)
    if i % 2: judge(mon, m, codec.ser_pub(Q, len(pub) == 65), codec.der_sig(r, N - s), True)
    own = mon.ok('sign-raises', 'ecc.sign', ecc.sign, m, d.to_bytes(32, 'big'))
    mon.check(reading(own) is not None and codec.der_sig(*reading(own)) == own, 'sign-not-der', sig=own)
    judge(mon, m, pub, own, True); mon.ev('own')
    if i % 3 == 0: judge(mon, gen.mutate(rng, m), pub, sig); mon.ev('other-message')
    if i % 3 == 1: judge(mon, m, codec.ser_pub(gen.keypair(rng)[1], True), sig); mon.ev('other-key')
    if i % 3 == 2: judge(mon, m, codec.ser_pub(C.neg(Q), True), sig); mon.ev('negated-key')
    mon.sample(message=m, key=pub, sig=sig)

def few(rng): return rng.randint(1, 6) if rng.random() < .8 else rng.choice([30, 60, 100, 128, 200, 300, 1000, 66000])
def tolerant(rng, mon, i):
    """forms a tolerant reader takes: accepted or not, never an exception"""
    d, m, r, s = sign(rng); pub = codec.ser_pub(C.mul(d, C.G), True)
    rb, sb = [x.to_bytes((x.bit_length() + 7) // 8, 'big') for x in (r, s)]
    strict = codec.der_sig(r, s)
    k = i % 5
    if k == 0: sig = strict + gen.raw(rng, few(rng)) if rng.random() < .5 else strict + b'\0' * few(rng)
    elif k == 1: sig = codec.der_seq(codec.der_tlv(2, rb), codec.der_tlv(2, sb))                     # sign byte missing
    elif k == 2: sig = codec.der_seq(codec.der_tlv(2, b'\0' * few(rng) + rb), codec.der_tlv(2, b'\0' * few(rng) + sb))
    elif k == 3: sig = codec.der_seq(codec.der_int(r), codec.der_int(s), gen.raw(rng, few(rng)))
    else:
        body = codec.der_int(r) + codec.der_int(s); sig = rng.choice([b'\x30\x81' + bytes([len(body)]), b'\x30\x82\0' + bytes([len(body)])]) + body
    if judge(mon, m, pub, sig, must=True): mon.ev('tolerant-accepted')
    wrong = codec.der_seq(codec.der_int(r), codec.der_tlv(2, b'\xff' * rng.randint(1, 2) + sb))
    if rng.random() < .3: judge(mon, m, pub, wrong)
    neg = lambda v: codec.der_tlv(2, (-v).to_bytes(33, 'big', signed=True))
    for a in rng.sample([codec.der_seq(neg(r), codec.der_int(s)), codec.der_seq(codec.der_int(r), neg(s)), codec.der_seq(neg(r), neg(s)), codec.der_seq(codec.der_int(r), neg(N - s)), codec.der_seq(codec.der_int(r), codec.der_tlv(2, (s - N).to_bytes(33, 'big', signed=True)))], 1): judge(mon, m, pub, a)

def hostile(rng, mon, i):
    d, m, r, s = sign(rng, 1 + i % 7); Q = C.mul(d, C.G); pub = codec.ser_pub(Q, True); sig = codec.der_sig(r, s)
    # cheap: bad structure or bad numbers
    for _ in range(3): judge(mon, m, pub, gen.mutate(rng, sig))
    judge(mon, m, pub, sig[:rng.randrange(len(sig))])
    judge(mon, m, pub, gen.raw(rng, rng.randint(0, 12)))
    R = [0, 1, N - 1, N, N + 1, r, C.p, 2 ** 256 - 1, 2 ** 256, r + N, 1 << 2040, rng.getrandbits(300)]
    S = [0, 1, N - 1, N, s, s + N, 2 ** 256 - 1, rng.getrandbits(520)]
    judge(mon, m, pub, codec.der_sig(rng.choice(R), rng.choice(S)))
    # every tag bit, other structural bits, junk above the true number
    rl = sig[3]; tags = (2, 4 + rl); lens = (0, 1, 3, 5 + rl)
    def flip(j, b): x = bytearray(sig); x[j] ^= 1 << b; return bytes(x)
    for j, b in [(t, b) for t in tags for b in range(8)] + rng.sample([(t, b) for t in lens for b in range(8)], 12): judge(mon, m, pub, flip(j, b)); mon.ev('structure-flips')
    for k in rng.sample(range(33, 130), 3):
        j = rng.randint(1, 127) << 8 * k
        judge(mon, m, pub, codec.der_sig(*rng.choice([(r + j, s), (r, s + j), (r + j, s + j)]))); mon.ev('long-integers')
    T = [b'', b'\x30', b'\x30\0', b'\x30\x80', b'\x30\x81', b'\x30\xff' + b'\xff' * 127, b'\x30\x84\xff\xff\xff\xff', b'\x30\x02\x02\0', b'\x30\x04\x02\0\x02\0', b'\x30\x06\x02\x01\x01\x02\x01', b'\x30\x03\x02\x01\x01',
         b'\x30\x06\x02\x01\x01\x02\x01\x01', b'\x02\x01\x01', b'\x30\x06\x02\x80\x02\x80\x02\x80', b'\x30\x07\x02\x81\x01\x01\x02\x01\x01', b'\x30\x05\x02\x02\x01\x02\x00', sig[2:], b'\0' + sig, sig[:-1], b'\x30\x08' + b'\x02\x06\x01\x01\x02\x01\x01', b'\x31' + sig[1:]]
    for t in rng.sample(T, 3): judge(mon, m, pub, t)
    mon.ev('hostile-sig')

def keys(rng, mon, i):
    d, m, r, s = sign(rng, 3); Q = C.mul(d, C.G); sig = codec.der_sig(r, s); u, c = codec.ser_pub(Q, False), codec.ser_pub(Q, True)
    bad = [b'', b'\x02', b'\x04', c[:-1], c + b'\0', u[:-1], u + b'\0', u[1:], b'\0' * 33, b'\0' * 65, b'\x04' + b'\0' * 64, b'\x02' + b'\xff' * 32, b'\x04' + b'\xff' * 64, b'\x05' + c[1:], b'\x06' + u[1:], b'\x07' + u[1:],
           b'\x02' + C.p.to_bytes(32, 'big'), b'\x03' + (C.p + 1).to_bytes(32, 'big'), b'\x02' + (5).to_bytes(32, 'big'), u[:33] + ((Q[1] + 1) % C.p).to_bytes(32, 'big'), gen.raw(rng, 33), gen.raw(rng, 65), gen.raw(rng, rng.randint(0, 70)),
           gen.mutate(rng, c), gen.mutate(rng, u), b'\x02' + gen.raw(rng, 32), b'\x03' + gen.raw(rng, 32), b'\x01' + c[1:], b'\x00' + c[1:]]
    for b in rng.sample(bad, 8): judge(mon, m, b, sig if rng.random() < .7 else gen.raw(rng, 10))
    mon.ev('hostile-key')

def special(rng, mon, i):
    """sums that are infinity, keys +-G, empty message, r or s extreme but valid"""
    k = i % 4
    m = gen.data(rng); zz = z(m)
    if k == 0:                                   # infinity
        r = gen.scalar(rng); d = -zz * pow(r, -1, N) % N
        judge(mon, m, codec.ser_pub(C.mul(d, C.G), True), codec.der_sig(r, gen.scalar(rng))); mon.ev('infinity')
    elif k == 1:                                 # key recovered from a tiny r
        r = rng.randint(1, 50); y = C.lift_x(r)
        if y is None: return
        s = gen.scalar(rng); ri = pow(r, -1, N)
        Q = C.add(C.mul(s * ri % N, (r, y)), C.mul(-zz * ri % N, C.G))
        judge(mon, m, codec.ser_pub(Q, rng.random() < .5), codec.der_sig(r, s), True); mon.ev('tiny-r')
    elif k == 2:                                 # x wraps: R.x in [n, p)
        while True:
            x = N + rng.randrange(1, C.p - N); y = C.lift_x(x)
            if y is not None: break
        r = x - N; s = gen.scalar(rng); ri = pow(r, -1, N)
        Q = C.add(C.mul(s * ri % N, (x, y)), C.mul(-zz * ri % N, C.G))
        judge(mon, m, codec.ser_pub(Q, True), codec.der_sig(r, s), True); mon.ev('wrapped-x')
    else:
        d = rng.choice([1, N - 1, 2]); sg = C.sign(d, zz, rng.choice([1, N - 1, 2, gen.scalar(rng)]))
        if sg: judge(mon, m, codec.ser_pub(C.mul(d, C.G), True), codec.der_sig(*sg), True)

FAMILIES = [Family('strict', strict, 60, 3000), Family('tolerant', tolerant, 60, 3000), Family('hostile', hostile, 60, 4000), Family('keys', keys, 60, 4000), Family('special', special, 48, 2000)]
REQUIRED = {'accepted': 150, 'rejected': 800, 'own': 50, 'tolerant-accepted': 30, 'infinity': 10, 'wrapped-x': 8, 'hostile-key': 50, 'structure-flips': 1000, 'long-integers': 100}
