from ..core import Family
from .. import gen
from ..ref import aes
from nbc.util import pyaes
from .a01 import key, counter0, make, cipher, MODES
ANCHORS = ['nbc/util/pyaes/blockfeeder.py', 'nbc/util/pyaes/util.py']
RULE = 'data lengths around block and segment boundaries cut at random points, all modes; corrupted padding and lengths; distinct = (mode, segment, chunk lengths)'

def params(rng):
    mode = rng.choice(MODES)
    return mode, key(rng), rng.choice([None, gen.raw(rng, 16)]), rng.randint(1, 16), rng.choice([None, counter0(rng)])

def chunks(rng, d):
    out, p = [], 0
    style = rng.choice(['one', 'bytes', 'mixed', 'mixed', 'blocks', 'near'] if len(d) < 400 else ['one', 'mixed', 'long', 'long', 'blocks'] if len(d) < 16000 else ['one', 'one', 'long'])
    while p < len(d):
        n = {'one': len(d), 'bytes': 1, 'mixed': rng.choice([1, 2, 3, 7, 15, 16, 17, 32, 33, 48, rng.randint(1, 70)]), 'blocks': 16 * rng.randint(1, 3),
             'near': rng.choice([15, 16, 17, 31, 32, 33]), 'long': rng.choice([1, 16, 255, 256, 257, 1000, 1024, 4096, rng.randint(64, 5000)])}[style]
        out.append(d[p:p + n]); p += n
    return out

def drive(mon, feeder, parts, fin, key, **w):
    out = b''
    for c in parts:
        r = mon.ok('feed-raises', key, feeder.feed, c)
        mon.check(isinstance(r, bytes), 'not-bytes', 'result is not bytes', got=r); out += r; mon.ev('feeds')
    r = mon.ok('finish-raises', key, *([feeder.feed] + fin))
    mon.check(isinstance(r, bytes), 'not-bytes', 'result is not bytes', got=r)
    return out + r

def case(rng, mon, mode, k, iv, seg, c0, d):
    fin = rng.choice([[], [None], [b''], [b'']])
    want = cipher(mode, k, iv, seg, c0, aes.pkcs7(d) if mode in ('ecb', 'cbc') else d)
    parts = chunks(rng, d)
    f = pyaes.Encrypter(make(mode, k, iv, seg, c0))
    got = drive(mon, f, parts, fin, 'encrypter of ' + mode)
    mon.eq(got, want, 'encrypter-' + mode, 'not the cipher text of the data', data=d, chunks=[len(c) for c in parts], seg=seg, key=k, iv=iv, counter=c0)
    for again in (b'x', bytes(16), b'', None): mon.refused('feed-after-finish', 'encrypter', f.feed, again)
    p2 = chunks(rng, want)
    f = pyaes.Decrypter(make(mode, k, iv, seg, c0))
    got = drive(mon, f, p2, fin, 'decrypter of ' + mode)
    mon.eq(got, d, 'decrypter-' + mode, 'not the original data', cipher=want, chunks=[len(c) for c in p2], seg=seg, key=k, iv=iv, counter=c0)
    for again in (b'x', bytes(16), b'', None): mon.refused('feed-after-finish', 'decrypter', f.feed, again)
    mon.ev(mode); mon.seen(mode, seg if mode == 'cfb' else 0, tuple(map(len, parts)), tuple(map(len, p2)))

def roundtrip(rng, mon, i):
    for _ in range(5):
        mode, k, iv, seg, c0 = params(rng)
        n = rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, seg, 16 + seg, 15 + seg, rng.randint(0, 150)])
        d = gen.raw(rng, n)
        if n and rng.random() < .4:     # data that looks like padding
            v = rng.choice([1, 2, 15, 16, 0]); d = d[:-v] + bytes([v]) * v if v else d[:-1] + b'\0'
        case(rng, mon, mode, k, iv, seg, c0, d)
    mon.sample(mode=mode, data=d)

def long(rng, mon, i):
    """long data in long and short chunks"""
    mode, k, iv, seg, c0 = params(rng); mode = MODES[i % len(MODES)]
    n = rng.choice([255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, rng.randint(200, 9000)]) if i % 6 else rng.choice([16384, 16385, 20000, 32769])
    case(rng, mon, mode, k, iv, seg, c0, gen.raw(rng, n)); mon.ev('long')

def lengths(rng, mon, i):
    """every length 0..66 for one mode and segment, cut by bytes and at random"""
    mode, seg = ([('ecb', 16), ('cbc', 16), ('ofb', 16), ('ctr', 16)] + [('cfb', s) for s in range(1, 17)])[i % 20]
    k, iv, c0 = key(rng), gen.raw(rng, 16), counter0(rng)
    for n in range(0, 67): case(rng, mon, mode, k, iv, seg, c0, gen.raw(rng, n))

def corrupt(rng, mon, i):
    for _ in range(10):
        k, iv = key(rng), gen.raw(rng, 16); mode = rng.choice(['ecb', 'cbc'])
        blocks = rng.randint(0, 3); body = gen.raw(rng, 16 * blocks)
        kind = rng.randrange(4)
        if kind == 0: last = gen.raw(rng, 15) + bytes([rng.choice([0, 17, 18, 32, 128, 255, rng.randint(17, 255)])])
        elif kind == 1:                                  # one of the padding bytes differs
            p = rng.randint(2, 16); last = bytearray(gen.raw(rng, 16 - p) + bytes([p]) * p)
            j = rng.randrange(16 - p, 15); last[j] ^= rng.randint(1, 255); last = bytes(last)
        else: last = None
        if last is not None:
            ct = cipher(mode, k, iv, 16, None, body + last); what = 'invalid padding'
        else:
            full = cipher(mode, k, iv, 16, None, aes.pkcs7(body + gen.raw(rng, 5)))
            n = rng.choice([len(full) - rng.randint(1, 15), len(full) + rng.randint(1, 15), 0])
            ct = (full + gen.raw(rng, 16))[:max(0, n)]; what = 'cipher text of %d bytes' % len(ct)
        parts = chunks(rng, ct)
        f = pyaes.Decrypter(make(mode, k, iv, 16, None))
        def whole():
            return b''.join([f.feed(c) for c in parts] + [f.feed()])
        mon.refused('corrupt-accepted', what + ' accepted', whole)
        mon.ev('corrupt'); mon.seen('corrupt', kind, len(ct), last)
        # other padding bytes than the last may not be part of the data: every pad length decodes
    for p in range(1, 17):
        k = key(rng); d = gen.raw(rng, 16 - p)
        f = pyaes.Decrypter(make('ecb', k, None, 16, None))
        mon.eq(drive(mon, f, [aes.ecb_e(k, d + bytes([p]) * p)], [], 'decrypter'), d, 'decrypter-ecb', 'padding of %d' % p)

def padding(rng, mon, i):
    """the padding functions themselves"""
    from nbc.util.pyaes.util import append_PKCS7_padding as app, strip_PKCS7_padding as strip
    for n in range(0, 50):
        d = gen.raw(rng, n)
        if n and rng.random() < .4: v = rng.choice([1, 2, 15, 16, 0, n]); d = d[:n - min(v, n)] + bytes([v]) * min(v, n)
        got = mon.ok('pad-raises', 'append', app, d); mon.eq(got, aes.pkcs7(d), 'append', 'padding of %d bytes' % n, data=d)
        mon.eq(mon.ok('pad-raises', 'strip', strip, aes.pkcs7(d)), d, 'strip', 'of %d bytes' % n); mon.ev('padded')
        if n % 16:
            for v in {1, 2, 16, n % 16, min(n, 16)}:
                mon.refused('strip-length', '%d bytes ending in %d' % (n, v), strip, d[:max(0, n - v)] + bytes([v]) * min(v, n)); mon.ev('strip_length')
    for n in (16, 32, 48):
        for v in list(range(17, n + 2)) + [0, 128, 255]:
            mon.refused('strip-value', '%d bytes ending in bytes of %d' % (n, v), strip, gen.raw(rng, max(0, n - (v or 1))) + bytes([v]) * min(v or 1, n)); mon.ev('strip_value')
        for v in range(2, 17):
            for j in range(1, v):
                b = bytearray(gen.raw(rng, n - v) + bytes([v]) * v); b[n - 1 - j] ^= rng.randint(1, 255)
                mon.refused('strip-bytes', 'byte %d of a padding of %d differs' % (j, v), strip, bytes(b)); mon.ev('strip_bytes')
    mon.refused('strip-length', 'nothing', strip, b'')
    mon.seen('padding', i)

FAMILIES = [Family('padding', padding, 16, 200), Family('roundtrip', roundtrip, 800, 20000), Family('long', long, 60, 1500), Family('lengths', lengths, 60, 400), Family('corrupt', corrupt, 200, 4000)]
REQUIRED = dict({m: 150 for m in MODES}, corrupt=500, feeds=5000, long=60)
