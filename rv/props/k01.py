from ..core import Family, Violation
from .. import gen
from ..ref import codec
from nbc.util import base58
ANCHORS = ['nbc/util/base58.py']
RULE = 'byte strings (lengths 0-300, leading zeros, all one/two byte strings), edited texts; non-trivial = non-empty distinct input'
AL = codec.AL.encode()
ASSUMPTIONS = ['the independent base58 model in rv/ref/codec.py (self-tested against published vectors)']

def judge_bytes(b, mon):
    want = codec.b58e(b)
    got = mon.ok('encode-raises', 'b58encode', base58.b58encode, b)
    mon.eq(got, want, 'encode', 'not the standard Base58 text', data=b)
    mon.check(type(got) is bytes, 'encode-type', got=got)
    mon.eq(mon.ok('decode-raises', 'b58decode', base58.b58decode, want), b, 'decode', 'decoding does not return the encoded bytes', text=want)
    mon.eq(mon.ok('decode-raises', 'b58decode str', base58.b58decode, want.decode()), b, 'decode-str', 'str input differs', text=want)
    if b: mon.seen(b)
    mon.ev('roundtrip')

def small(rng, mon, i):
    # all strings of length 0..2, in blocks of 256
    for j in range(i * 256, i * 256 + 256):
        if j == 0: judge_bytes(b'', mon)
        if j < 256: judge_bytes(bytes([j]), mon)
        judge_bytes(j.to_bytes(2, 'big'), mon)

def rnd(rng, mon, i):
    for _ in range(20):
        b = b'\0' * rng.choice([0, 0, 0, 1, 2, 5, 30]) + gen.data(rng)
        if rng.random() < .02: b = b'\0' * rng.choice([0, 1, 100, 300]) + gen.raw(rng, rng.choice([500, 1000, 1024, rng.randint(300, 4000)])); mon.ev('long')
        judge_bytes(b, mon)
        if all(c < 128 for c in b):
            mon.eq(mon.ok('encode-raises', 'b58encode str', base58.b58encode, b.decode('ascii')), codec.b58e(b), 'encode-str', 'text input encodes differently')
    mon.sample(data=b, text=codec.b58e(b))

def texts(rng, mon, i):
    for _ in range(25):
        t = bytes(rng.choice(AL) for _ in range(rng.randint(0, 60)))
        if rng.random() < .4: t = b'1' * rng.randint(1, 8) + t
        mon.eq(mon.ok('decode-raises', 'b58decode', base58.b58decode, t), codec.b58d(t), 'decode', 'decoded value differs from the model', text=t)
        mon.eq(base58.b58encode(base58.b58decode(t)), t, 'text-roundtrip', text=t)
        mon.seen(t); mon.ev('text')
        bad = bytearray(t or b'2'); c = rng.choice([c for c in range(256) if c not in AL])
        p = rng.randrange(len(bad))
        bad[p] = c
        mon.refused('bad-char', 'text outside the alphabet is accepted', base58.b58decode, bytes(bad))
        if rng.random() < .3:
            mon.refused('bad-char', 'text outside the alphabet is accepted', base58.b58decode, bytes(bad).decode('latin-1'))
        for x in (b'\n', b' ', b'\t', b'\r\n', b'\0', b'\x0b', b'\x0c', b'=', b'-', b'_', b','):
            m = rng.choice([x + t, t + x, x + t + x]) if rng.random() < .8 else t[:len(t) // 2] + x + t[len(t) // 2:]
            mon.refused('bad-char', 'text outside the alphabet is accepted', base58.b58decode, m if rng.random() < .5 else m.decode()); mon.ev('surrounded')
            st, v = mon.call(base58.decode_check, m if rng.random() < .5 else m.decode()); mon.check(st == 'exc' or v is None, 'bad-char', 'decode_check accepts text outside the alphabet', text=m)
    for _ in range(10):          # the integers
        k = rng.choice([0, 1, 57, 58, 59, rng.getrandbits(8), rng.getrandbits(64), rng.getrandbits(600)])
        w = codec.b58e(k.to_bytes((k.bit_length() + 7) // 8, 'big')) or b'1'
        mon.eq(mon.ok('encode-raises', 'b58encode_int', base58.b58encode_int, k), w, 'encode-int', number=k)
        for t in (w, w.decode(), b'1' * rng.randrange(4) + w): mon.eq(mon.ok('decode-raises', 'b58decode_int', base58.b58decode_int, t), k, 'decode-int', text=t)
        mon.ev('integers')
    mon.eq(base58.b58encode_int(0, False), b'', 'encode-int', 'no digit asked for'); mon.eq(base58.b58decode_int(b''), 0, 'decode-int')
    mon.refused('bad-char', 'text outside the alphabet is accepted', base58.b58decode_int, bytes(bad))
    for v in (None, 5, [b'a'], 1.5):
        mon.refused('bad-type', 'non-text accepted', base58.b58decode, v)
        mon.refused('bad-type', 'non-bytes accepted', base58.b58encode, v)

def check(rng, mon, i):
    for _ in range(20):
        b = b'\0' * rng.choice([0, 0, 1, 3]) + (gen.data(rng, 100) if rng.random() < .98 else gen.raw(rng, rng.randint(300, 2500)))
        t = mon.ok('encode-check', 'encode_check', base58.encode_check, b)
        mon.eq(t, codec.b58check_e(b), 'encode-check', 'not standard Base58Check', data=b)
        mon.eq(mon.ok('decode-check', 'decode_check', base58.decode_check, t), b, 'decode-check', 'payload lost', data=b)
        mon.eq(mon.ok('decode-check', 'decode_check', base58.decode_check, t.decode()), b, 'decode-check-str', 'payload lost', data=b)
        for x in ('\n', ' ', '\t ', '\0'):
            m = rng.choice([x + t.decode(), t.decode() + x])
            st, v = mon.call(base58.decode_check, m if rng.random() < .5 else m.encode()); mon.check(st == 'exc' or v is None, 'bad-char', 'decode_check accepts text outside the alphabet', text=m, got=v)
        mon.seen(b)
        full = b + codec.dsha(b)[:4]
        for _ in range(6):
            k = rng.random()
            if k < .4: m = gen.mutate(rng, t, AL)
            elif k < .7: m = codec.b58e(gen.mutate(rng, full))
            elif k < .8:      # one bit of the checksum or payload
                f = bytearray(full); f[-1 - rng.randrange(min(len(f), 8))] ^= 1 << rng.randrange(8); m = codec.b58e(bytes(f))
            elif k < .9: m = codec.b58e(full[:rng.randrange(len(full))])
            else: m = codec.b58e(gen.raw(rng, rng.randint(0, 5)))
            want = codec.b58check_d(m)
            st, v = mon.call(base58.decode_check, m)
            if want is None:
                mon.check(st == 'exc' or v is None, 'bad-checksum-accepted', 'data with a wrong checksum decodes', text=m, got=v)
                mon.ev('damaged')
            else: mon.check(st == 'ok' and v == want, 'decode-check', 'good text refused', text=m, got=v)
    mon.sample(payload=b, text=t)

FAMILIES = [Family('all-1-2-byte-strings', small, 256, 256, exhaustive=True), Family('random-bytes', rnd, 300, 20000),
            Family('texts', texts, 150, 10000), Family('base58check', check, 200, 20000)]
REQUIRED = {'long': 40, 'roundtrip': 65000, 'text': 1000, 'integers': 1000, 'surrounded': 10000, 'damaged': 2000}
