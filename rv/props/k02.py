from ..core import Family, Violation
from .. import gen
from ..ref import codec
from nbc.util import key
ANCHORS = ['nbc/util/key.py', 'nbc/util/base58.py']
RULE = '32-byte keys (boundary, sparse, random) with and without compression mark; edited texts and re-checksummed malformed payloads; distinct = distinct key or text'
AL = codec.AL.encode()

def good(rng, mon, i):
    for _ in range(15):
        d = gen.scalar(rng).to_bytes(32, 'big') if rng.random() < .7 else rng.choice([gen.raw(rng, 32), b'\0' * 31 + b'\1', b'\xff' * 32, b'\0' * 32, gen.raw(rng, 31) + b'\1'])
        for c in (False, True):
            t = mon.ok('encode', 'privkey_to_wif', key.privkey_to_wif, d + (b'\1' if c else b''))
            mon.eq(t, codec.wif(d, c), 'wif-text', 'not the standard text', key=d)
            for form in (t, t.decode()):
                mon.eq(mon.ok('decode', 'privkey_from_wif', key.privkey_from_wif, form), d, 'wif-roundtrip', 'key changed', key=d, compressed=c)
            mon.ev('good'); mon.seen(t)
    mon.sample(key=d.hex(), wif=t)

def refuse(mon, t):
    st, v = mon.call(key.privkey_from_wif, t)
    mon.check(st == 'exc', 'damaged-accepted', 'not a valid encoding, yet a key is returned', text=t, got=v)
    mon.check(isinstance(v, ValueError), 'wrong-error', 'refused with %s instead of ValueError' % type(v).__name__, text=t)
    mon.ev('refused')

def judge(mon, t):
    w = codec.unwif(t)
    if w is None: refuse(mon, t); return
    first = t[:1]
    st, v = mon.call(key.privkey_from_wif, t)
    mon.check(st == 'ok' and v == w[0], 'valid-refused', text=t, got=v)

def damaged(rng, mon, i):
    for _ in range(12):
        d = gen.scalar(rng).to_bytes(32, 'big'); c = rng.random() < .5
        t = codec.wif(d, c)
        for _ in range(6): 
            m = gen.mutate(rng, t, AL if rng.random() < .8 else None); judge(mon, m); mon.seen(m)
        refuse(mon, t[:rng.randrange(len(t))]); refuse(mon, t + bytes([rng.choice(AL)])); refuse(mon, b'1' + t)
        refuse(mon, t.lower() if t.lower() != t else t.upper())

def payloads(rng, mon, i):
    """well check-summed texts of malformed payloads"""
    for _ in range(12):
        d = gen.scalar(rng).to_bytes(32, 'big')
        pre = rng.choice([b'\x80', b'\x80', b'\x80', b'\xef', b'\0', b'\x7f', b'\x81', bytes([rng.getrandbits(8)]), b''])
        body = rng.choice([d, d + b'\1', d + bytes([rng.randint(2, 255)]), d + b'\0', d + b'\1\1', d[:31], d[1:] + b'', gen.raw(rng, rng.choice([0, 1, 16, 30, 31, 33, 34, 35, 64])), d[:31] + b'\1'])
        t = codec.b58check_e(pre + body)
        judge(mon, t); mon.seen(t)
    for t in (b'', b'1', b'5', b'K', b'L', '', b'\xff\xfe', '\u4e2d\u6587', codec.b58check_e(b''), codec.b58e(b'\x5d\xf6\xe0\xe2')):
        refuse(mon, t)

def oneedit(rng, mon, i):
    """every single-character replacement at one position of a text"""
    d = gen.scalar(rng).to_bytes(32, 'big'); t = codec.wif(d, i % 2)
    p = (i // 2) % len(t)
    for c in AL:
        if c != t[p]: judge(mon, t[:p] + bytes([c]) + t[p+1:])

ROUND = ['\n', ' ', '\t', '\r\n', '\x0b', '\x0c', '\0', '"', "'", ';', ',', '=', '\x85', '\xa0', '\ufeff', '\u2003', '\u200b']
def around(rng, mon, i):
    """texts with something before, after or inside that many readers pass over"""
    d = gen.scalar(rng).to_bytes(32, 'big'); t = codec.wif(d, i % 2).decode(); p = rng.randrange(1, len(t))
    for x in ROUND:
        for m in (x + t, t + x, x + t + x, t[:p] + x + t[p:], t + x * 3):
            refuse(mon, m)
            try: refuse(mon, m.encode('latin-1'))
            except UnicodeError: refuse(mon, m.encode('utf-8'))
    for m in ('0x' + t, 'wif:' + t, t + t, t + '1', '1' + t, t[::-1], t[1:], t[:-1]): refuse(mon, m); refuse(mon, m.encode())
    mon.ev('surrounded', len(ROUND)); mon.seen(t)

def every(rng, mon, i):
    """every wrong last byte, every wrong first byte and every wrong length, well check-summed"""
    d = gen.scalar(rng).to_bytes(32, 'big')
    for b in range(256):
        judge(mon, codec.b58check_e(b'\x80' + d + bytes([b]))); judge(mon, codec.b58check_e(bytes([b]) + d)); judge(mon, codec.b58check_e(bytes([b]) + d + b'\1'))
    for n in range(0, 130):
        if n in (32, 33): continue
        for tail in (b'', b'\1', b'\1' * 8): t = codec.b58check_e(b'\x80' + (gen.raw(rng, n) + tail)[-n:] if n else b'\x80'); judge(mon, t); judge(mon, t.decode()); mon.ev('length-KL5', t[:1] in (b'K', b'L', b'5'))
    mon.ev('every'); mon.seen(d)

FAMILIES = [Family('every-byte', every, 8, 60), Family('surrounded', around, 12, 400), Family('good', good, 300, 20000), Family('edited', damaged, 300, 20000), Family('rechecksummed', payloads, 300, 20000),
            Family('single-edits', oneedit, 110, 2000)]
REQUIRED = {'good': 1000, 'refused': 10000, 'surrounded': 100, 'every': 8, 'length-KL5': 8}
