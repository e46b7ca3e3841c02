from ..core import Family
from .. import gen
from ..ref import aes
from nbc.util import pyaes
from nbc.util.pyaes.aes import AES
ANCHORS = ['nbc/util/pyaes/aes.py']
RULE = 'random and structured keys of the three sizes, IVs, counters at and around wrap-around, random call histories with refused calls in between; distinct = (mode, key size, segment, call lengths)'
MODES = ['ecb', 'cbc', 'cfb', 'ofb', 'ctr']

def key(rng):
    n = rng.choice([16, 24, 32])
    k = rng.random()
    if k < .1: return bytes([rng.choice([0, 255, 128, 1])]) * n
    if k < .2:
        b = bytearray(n); b[rng.randrange(n)] = 1 << rng.randrange(8); return bytes(b)
    return gen.raw(rng, n)

def counter0(rng):
    k = rng.random()
    if k < .35: return (1 << 128) - rng.randint(1, 5)
    if k < .6: return ((1 << (8 * rng.randint(1, 15))) - rng.randint(1, 4)) | (rng.getrandbits(128) >> 120 << 120 if rng.random() < .5 else 0)
    return rng.choice([0, 1, rng.getrandbits(128)])

def make(mode, k, iv, seg, c0):
    """(object, expected(data, decrypting))"""
    if mode == 'ecb': return pyaes.AESModeOfOperationECB(k)
    if mode == 'cbc': return pyaes.AESModeOfOperationCBC(k, iv) if iv is not None else pyaes.AESModeOfOperationCBC(k)
    if mode == 'cfb': return pyaes.AESModeOfOperationCFB(k, iv, seg) if seg != 1 else pyaes.AESModeOfOperationCFB(k, iv)
    if mode == 'ofb': return pyaes.AESModeOfOperationOFB(k, iv) if iv is not None else pyaes.AESModeOfOperationOFB(k)
    return pyaes.AESModeOfOperationCTR(k, pyaes.Counter(c0)) if c0 is not None else pyaes.AESModeOfOperationCTR(k)

def cipher(mode, k, iv, seg, c0, d):
    iv = iv or b'\0' * 16
    if mode == 'ecb': return aes.ecb_e(k, d)
    if mode == 'cbc': return aes.cbc_e(k, iv, d)
    if mode == 'cfb': return aes.cfb_e(k, iv, seg, d)
    if mode == 'ofb': return aes.ofb(k, iv, d)
    return aes.ctr(k, 1 if c0 is None else c0, d)

def plain(mode, k, iv, seg, ct):
    iv = iv or b'\0' * 16; a = aes.AES(k)
    if mode == 'ecb': return b''.join(a.dec(ct[j:j + 16]) for j in range(0, len(ct), 16))
    if mode == 'cbc': return aes.cbc_d(k, iv, ct)
    out, sh = b'', iv
    for j in range(0, len(ct), seg): x = ct[j:j + seg]; out += aes.xor(x, a.enc(sh)); sh = (sh + x)[-16:]
    return out

def params(rng):
    mode = rng.choice(MODES)
    return mode, key(rng), rng.choice([None, gen.raw(rng, 16), gen.raw(rng, 16), b'\xff' * 16]), rng.randint(1, 16) if mode == 'cfb' else 16, \
        rng.choice([None] + [counter0(rng)] * 5)

def cuts(rng, mode, seg, total):
    """lengths of the calls; total is a multiple of the unit"""
    unit = 16 if mode in ('ecb', 'cbc') else seg if mode == 'cfb' else 1
    left, out = total // unit, []
    while left:
        n = 1 if mode in ('ecb', 'cbc') else min(left, rng.choice([0, 1, 1, 2, 3, 15, 16, 17, 31, 32, 33, rng.randint(1, 60)] + ([255, 256, 257, 512, 1024, rng.randint(200, 2000)] if total > 300 else [])))
        out.append(n * unit); left -= n
    return out, unit

def history(rng, mon, i):
    for _ in range(6):
        mode, k, iv, seg, c0 = params(rng)
        unit = 16 if mode in ('ecb', 'cbc') else seg if mode == 'cfb' else 1
        d = gen.raw(rng, unit * rng.randint(1, 6 if unit == 16 else max(1, 90 // unit)))
        if rng.random() < .05: d = gen.raw(rng, unit * rng.randint(300 // unit, 2600 // unit)); mon.ev('long')
        if rng.random() < .3: d = bytes(len(d))
        ct = cipher(mode, k, iv, seg, c0, d)
        if mode in ('ecb', 'cbc', 'cfb') and rng.random() < .35:        # a cipher text with special blocks, and what it stands for
            z = gen.raw(rng, 16); ct = b''.join(rng.choice([bytes(16), b'\xff' * 16, z, z, iv or bytes(16), k[:16], bytes(15) + b'\1', gen.raw(rng, 16)]) for _ in range(len(d) // 16 + 1))[:len(d)]
            d = plain(mode, k, iv, seg, ct); mon.ev('special-cipher-text')
        for direction, src, want in (('encrypt', d, ct), ('decrypt', ct, d)):
            o = make(mode, k, iv, seg, c0); fn = getattr(o, direction)
            lens, unit = cuts(rng, mode, seg, len(d)); got = b''; p = 0
            for n in lens:
                if unit > 1 and rng.random() < .3:      # a refused call must leave the state alone
                    bad = rng.choice([n + 1, abs(n - 1), n + unit - 1] + ([32, 0] if unit == 16 and mode in ('ecb', 'cbc') else []))
                    if mode in ('ecb', 'cbc') and bad != 16 or bad % unit:
                        mon.refused('wrong-block-accepted', '%s.%s of %d bytes (unit %d)' % (mode, direction, bad, unit), fn, bytes(bad)); mon.ev('refused_block')
                out = mon.ok('mode-raises', '%s.%s' % (mode, direction), fn, src[p:p + n])
                mon.check(isinstance(out, bytes), 'not-bytes', 'result is not bytes', got=out)
                mon.eq(out, want[p:p + n], '%s-%s' % (mode, direction), 'differs from the standard', key=k, iv=iv, seg=seg, counter=c0, data=src, at=p, n=n)
                p += n; mon.ev('calls')
            mon.seen(mode, direction, len(k), seg, tuple(lens), c0 is not None and c0 > (1 << 128) - 8)
        if mode == 'ctr' and c0 is not None and c0 + (len(d) + 15) // 16 > 1 << 128: mon.ev('counter_wraps')
        mon.ev(mode)
    mon.sample(mode=mode, key=k, data=d, cipher=ct)

def long(rng, mon, i):
    """single calls of thousands of bytes"""
    m = MODES[1 + i % 4] if i % 4 else 'ofb'; m = 'cfb' if m == 'cbc' else m
    k, iv, c0 = key(rng), gen.raw(rng, 16), counter0(rng)
    seg = rng.choice([1, 2, 5, 8, 16]) if m == 'cfb' else 1
    n = rng.choice([4096, 4097, 8192, rng.randint(2500, 9000), rng.randint(2500, 9000)]) // (2 if seg == 1 and m == 'cfb' else 1) // seg * seg
    if i % 6 == 2 or i % 6 == 3: n = rng.choice([65536, 65537, 70000, rng.randint(60000, 140000)]) // seg * seg; n = n if m in ('ofb', 'ctr') or seg > 4 else n // 4; mon.ev('very-long')
    d = gen.raw(rng, n); ct = cipher(m, k, iv, seg, c0, d); h = rng.choice([0, 0, rng.randrange(min(n, 600)) // seg * seg])
    for direction, src, want in (('encrypt', d, ct), ('decrypt', ct, d)):
        fn = getattr(make(m, k, iv, seg, c0), direction)
        got = (mon.ok('mode-raises', m, fn, src[:h]) if h else b'') + mon.ok('mode-raises', '%s.%s of %d bytes' % (m, direction, n), fn, src[h:]) + mon.ok('mode-raises', m, fn, b'')
        at = next((j for j in range(min(len(got), n)) if got[j] != want[j]), min(len(got), n))
        mon.check(got == want, '%s-%s' % (m, direction), 'a call of %d bytes differs from the standard from byte %d' % (n - h, at), key=k, iv=iv, seg=seg, counter=c0)
    mon.ev('long_calls'); mon.seen('long', m, seg, n)

def block(rng, mon, i):
    for _ in range(25):
        k, p = key(rng), gen.raw(rng, 16)
        if rng.random() < .3: p = bytes([rng.choice([0, 255, 1, 128])]) * 16
        a = AES(k); want = aes.AES(k).enc(p)
        src = list(p)
        mon.eq(bytes(a.encrypt(src)), want, 'block-encrypt', key=k, block=p)
        mon.eq(src, list(p), 'block-argument-changed', 'the caller\'s block was modified')
        src = list(want)
        mon.eq(bytes(a.decrypt(src)), p, 'block-decrypt', key=k, block=want)
        mon.eq(src, list(want), 'block-argument-changed', 'the caller\'s block was modified')
        mon.eq(bytes(a.decrypt(list(p))), aes.AES(k).dec(p), 'block-decrypt', key=k, block=p)
        mon.ev('blocks', 3); mon.seen('block', k, p)
        n = rng.choice([0, 1, 15, 17, 31, 32, 8])
        mon.refused('wrong-block-accepted', 'block of %d bytes' % n, a.encrypt, [0] * n)
        mon.refused('wrong-block-accepted', 'block of %d bytes' % n, a.decrypt, [0] * n)
        n = rng.choice([0, 1, 15, 17, 31, 32, 33, 48, rng.randint(0, 64)])
        for m in MODES:
            seg = rng.randint(2, 16)
            if m in ('ofb', 'ctr') or (n % seg == 0 if m == 'cfb' else n == 16): continue
            for op in ('encrypt', 'decrypt'):
                o = make(m, k, None, seg, None)
                mon.refused('wrong-block-accepted', '%s %s of %d bytes, segment %d' % (m, op, n, seg), getattr(o, op), gen.raw(rng, n)); mon.ev('wrong_size')

def refuse(rng, mon, i):
    for n in list(range(0, 41)) + [48, 64, 128, 192, 256]:
        k = gen.raw(rng, n)
        for m in MODES:
            f = lambda: make(m, k, bytes(16), 8, 5)
            if n in (16, 24, 32): mon.ok('key-refused', m, f)
            else: mon.refused('key-accepted', '%s key of %d bytes' % (m, n), f)
            if n != 16 and m in ('cbc', 'cfb', 'ofb'):
                mon.refused('iv-accepted', '%s IV of %d bytes' % (m, n), make, m, bytes(16), k, 8, None)
        if n not in (16, 24, 32): mon.refused('key-accepted', 'AES key of %d bytes' % n, AES, k)
        mon.seen('klen', n)
    # CFB segments: 1 to 16 bytes work, anything longer is refused or done right (never data lost)
    for seg in list(range(1, 21)) + [24, 32, 33, 64]:
        k = gen.raw(rng, 16); iv = gen.raw(rng, 16); d = gen.raw(rng, seg * 3)
        st, got = mon.call(lambda: pyaes.AESModeOfOperationCFB(k, iv, seg).encrypt(d))
        if st == 'exc' and seg > 16: mon.ev('long-segment-refused'); continue
        mon.check(st == 'ok', 'mode-raises', 'CFB segment of %d bytes raised %r' % (seg, got))
        mon.eq(len(got), len(d), 'cfb-length', 'cipher text of another length', segment=seg)
        mon.eq(mon.ok('mode-raises', 'cfb decrypt', pyaes.AESModeOfOperationCFB(k, iv, seg).decrypt, got), d, 'cfb-lost', 'decryption does not give the data back', segment=seg)
        if seg <= 16: mon.eq(got, aes.cfb_e(k, iv, seg, d), 'cfb-encrypt', 'differs from the standard', segment=seg)
        mon.ev('segment-%d' % seg)
    # two objects never share state, also with default counters and IVs
    k = gen.raw(rng, 16); d = gen.raw(rng, 40)
    for m in ('cbc', 'cfb', 'ofb', 'ctr'):
        e = d[:16] if m == 'cbc' else d
        a = make(m, k, None, 1, None); a.encrypt(e)
        b = make(m, k, None, 1, None)
        mon.eq(b.encrypt(e), cipher(m, k, None, 1, None, e), 'shared-state', m); mon.ev('isolation')
    c = pyaes.Counter(5); before = list(c.value); x = pyaes.AESModeOfOperationCTR(k, pyaes.Counter(5))
    mon.eq(x.encrypt(d), aes.ctr(k, 5, d), 'ctr-encrypt'); mon.eq(list(c.value), before, 'shared-state', 'counter')

def counters(rng, mon, i):
    for _ in range(60):
        v = counter0(rng) % (1 << 128); c = pyaes.Counter(v)
        for j in range(rng.randint(1, 6)):
            mon.eq(bytes(c.value), ((v + j) % (1 << 128)).to_bytes(16, 'big'), 'counter', start=v, steps=j)
            c.increment(); mon.ev('increments')
        mon.seen('counter', v)
    mon.eq(bytes(pyaes.Counter().value), (1).to_bytes(16, 'big'), 'counter-default')

FAMILIES = [Family('long', long, 24, 500), Family('histories', history, 600, 20000), Family('blocks', block, 100, 3000), Family('refused', refuse, 4, 40), Family('counters', counters, 20, 400)]
REQUIRED = dict({m: 100 for m in MODES}, **{'special-cipher-text': 200, 'very-long': 4}, calls=5000, refused_block=300, counter_wraps=20, long_calls=16)
