import binascii, fractions, hashlib, struct
from ..core import Family
from .. import gen
from ..ref import codec
from nbc import util
from nbc.protocol import format as fmt
ANCHORS = ['nbc/util/__init__.py']
RULE = 'compact values (every exponent 0 to 34 with limit and random mantissas), hashes around the target, header fields at their limits, byte strings, version parts; distinct = distinct arguments'
ASSUMPTIONS = ['compact values with the sign bit or a target beyond 256 bits are not judged', 'difficulty is judged for exponents of 3 and above, to 1 part in 10**12']

def compact(rng):
    """(bits, target) with a target that fits"""
    while True:
        e = rng.randint(0, 34) if rng.random() < .8 else rng.choice([3, 4, 0x1d, 0x1e, 32])
        m = rng.choice([0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x00ffff, rng.getrandbits(23), rng.getrandbits(23), rng.getrandbits(8)])
        t = m << 8 * (e - 3) if e >= 3 else m >> 8 * (3 - e)
        if t < 1 << 256: return e << 24 | m, t, e

class Coin(object):
    def __init__(self, h): self.h, self.seen = h, []
    def proof_of_work(self, b): self.seen.append(b); return self.h
class Header(object):
    def __init__(self, b, bits): self.b, self.bits = b, bits
    def binary(self): return self.b

def targets(rng, mon, i):
    for _ in range(60):
        bits, t, e = compact(rng)
        got = mon.ok('target-raises', 'get_target', util.get_target, bits)
        mon.eq(got, t.to_bytes(32, 'big'), 'target', 'wrong target', bits=hex(bits)); mon.check(type(got) is bytes, 'target-type', got=got)
        mon.ev('targets'); mon.seen(bits)
        if e < 3: mon.ev('small-exponent')
        if t and e >= 3:
            d = mon.ok('difficulty-raises', 'get_difficulty', util.get_difficulty, bits)
            want = fractions.Fraction(0xffff << 208, t)
            mon.check(abs(fractions.Fraction(d) - want) <= want / 10**12, 'difficulty', 'wrong difficulty', bits=hex(bits), got=d, want=float(want)); mon.ev('difficulties')
        # proof of work around the target
        for h in {t, t - 1, t + 1, 0, t >> 1, min(2**256 - 1, t << 1), 2**256 - 1, rng.getrandbits(256), int.from_bytes(t.to_bytes(32, 'big')[::-1], 'big'), t ^ 1 << rng.randrange(256)}:
            if not 0 <= h < 1 << 256: continue
            c = Coin(h.to_bytes(32, 'little'))
            if rng.random() < .3:
                f = dict(version=1, prev_block=gen.raw(rng, 32), merkle_root=gen.raw(rng, 32), timestamp=rng.getrandbits(32), bits=bits, nonce=rng.getrandbits(32), txn_count=rng.choice([0, 1, 300]))
                hd = fmt.BlockHeader(*[f[k] for k in ('version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce', 'txn_count')])
                b = struct.pack('<I32s32sIII', *[f[k] for k in ('version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce')])
            else: b = gen.raw(rng, 80); hd = Header(b + gen.raw(rng, rng.choice([0, 1, 9])), bits)
            r = mon.ok('pow-raises', 'verify_target', util.verify_target, c, hd)
            mon.eq(bool(r), h <= t, 'pow', 'proof of work verdict is wrong', bits=hex(bits), hash=hex(h), target=hex(t))
            mon.check(c.seen and set(c.seen) == {b}, 'pow-input', 'the hash is not taken over the 80 header bytes', got=c.seen, want=b)
            mon.ev('pow-accepted' if h <= t else 'pow-rejected'); mon.seen(bits, h)

class Twice(object):
    def proof_of_work(self, b): return codec.dsha(b)

def known(rng, mon, i):
    """genesis block and the block-target example"""
    b = util.get_block_header(1, bytes(32), bytes.fromhex('3ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a'), 1231006505, 0x1d00ffff, 2083236893)
    mon.eq(codec.dsha(b).hex(), '6fe28c0ab6f1b372c1a6a246ae63f74f931e8365e15a089c68d6190000000000', 'genesis', 'header of the genesis block does not have its hash')
    mon.eq(util.verify_target(Twice(), Header(b, 0x1d00ffff)), True, 'genesis-pow'); mon.eq(util.verify_target(Twice(), Header(b[:-1] + b'\0', 0x1d00ffff)), False, 'genesis-pow')
    mon.eq(util.get_difficulty(0x1d00ffff), 1.0, 'difficulty-one'); mon.check(abs(util.get_difficulty(0x1b0404cb) - 16307.420938523983) < 1e-8, 'difficulty-example', got=util.get_difficulty(0x1b0404cb))
    mon.eq(util.get_target(0x1b0404cb).hex(), '00000000000404cb' + '0' * 48, 'target-example')

U32 = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304]
def helpers(rng, mon, i):
    for _ in range(40):
        v = [rng.choice(U32 + [rng.getrandbits(32)]) for _ in range(4)]; p, m = gen.raw(rng, 32), gen.raw(rng, 32)
        h = mon.ok('header-raises', 'get_block_header', util.get_block_header, v[0], p, m, v[1], v[2], v[3])
        mon.eq(h, v[0].to_bytes(4, 'little') + p + m + b''.join(x.to_bytes(4, 'little') for x in v[1:]), 'header', fields=v); mon.ev('headers'); mon.seen(h)
        b = gen.data(rng)
        t = mon.ok('hex-raises', 'bin_to_hex', util.bin_to_hex, b); mon.eq(t, b[::-1].hex(), 'hex', data=b); mon.check(isinstance(t, str), 'hex-type')
        for x in (t, t.upper(), t.encode()): mon.eq(mon.ok('hex-raises', 'hex_to_bin', util.hex_to_bin, x), b, 'unhex', text=x)
        mon.ev('hex')
        for bad in ('0', 'zz', t + '0', '0x' + t, t + 'g', ' ' + t): mon.refused('bad-hex', 'text that is not hex was decoded', util.hex_to_bin, bad)
        parts = (rng.choice([0, 1, 99, 100, 2147, rng.getrandbits(20)]),) + tuple(rng.choice([0, 1, 9, 10, 98, 99, rng.randrange(100)]) for _ in range(3))
        n = mon.ok('version-raises', 'make_version', util.make_version, *parts)
        mon.eq(n, parts[0] * 10**6 + parts[1] * 10**4 + parts[2] * 100 + parts[3], 'version', parts=parts); mon.eq(tuple(util.get_version(n)), parts, 'version-parts', 'version parts are lost', parts=parts)
        n = rng.choice([0, 99, 100, 9999, 10000, 999999, 10**6, 60002, 70002, rng.getrandbits(31)]); mon.eq(util.make_version(*util.get_version(n)), n, 'version-number'); mon.ev('versions'); mon.seen('version', parts, n)
        k = rng.randint(1, 3); bad = list(parts); bad[k] = rng.choice([-1, 100, 101, 255, 1000, -100, 10**6]); mon.refused('version-range', 'an out-of-range part was packed', util.make_version, *bad)
        for bad in range(1, 4):
            for val in (-1, 100):
                q = [1, 2, 3, 4]; q[bad] = val; mon.refused('version-range', 'an out-of-range part was packed', util.make_version, *q)
        for k, bad in ((0, 1 << 32), (1, -1), (2, 1 << 32), (3, 1 << 40)):
            q = list(v); q[k] = bad; mon.refused('header-range', 'a header field outside 32 bits was packed', util.get_block_header, q[0], p, m, q[1], q[2], q[3])

FAMILIES = [Family('targets', targets, 60, 3000), Family('helpers', helpers, 50, 2000), Family('known', known, 1, 1)]
REQUIRED = {'targets': 3000, 'difficulties': 1500, 'pow-accepted': 5000, 'pow-rejected': 5000, 'small-exponent': 150, 'headers': 1000, 'hex': 1000, 'versions': 1000}
