import hashlib
from ..core import Family, Violation
from .. import gen
from ..ref import codec
from nbc.util.ecdsa import der, ecdsa
ANCHORS = ['nbc/util/ecdsa/der.py', 'nbc/util/ecdsa/ecdsa.py']
RULE = 'integers of 0-2100 bits, lengths to 70000, OIDs with large parts, nested sequences; every cut and edited encodings; distinct = distinct value or encoding'

def rest(rng): return b'' if rng.random() < .3 else gen.raw(rng, rng.randint(1, 40))
CODECS = ['integer', 'octet', 'bits', 'seq', 'cons', 'oid']
def make(rng, k):
    """(encode thunk, reference encoding, decode function, decoded value)"""
    big = rng.choice([0, 1, 2, 20, 100, 126, 127, 128, 129, 200, 255, 256, 257, 300, 1000, 65535, 65536, 70000]) if rng.random() < .5 else rng.randint(0, 140)
    if k == 'integer':
        v = gen.integer(rng, 0, 1 << rng.choice([7, 8, 15, 16, 31, 64, 127, 128, 256, 521, 1015, 1016, 1024, 2040, 2100]))
        return lambda: der.encode_integer(v), codec.der_int(v), der.remove_integer, v
    if k == 'octet': v = gen.raw(rng, big); return lambda: der.encode_octet_string(v), codec.der_tlv(4, v), der.remove_octet_string, v
    if k == 'bits': v = gen.raw(rng, big); return lambda: der.encode_bitstring(v), codec.der_tlv(3, v), der.remove_bitstring, v
    if k == 'seq':
        parts = [gen.raw(rng, rng.randint(0, max(1, big // 3))) for _ in range(rng.randint(0, 4))]
        return lambda: der.encode_sequence(*parts), codec.der_seq(*parts), der.remove_sequence, b''.join(parts)
    if k == 'cons':
        t, v = rng.randint(0, 31), gen.raw(rng, big)
        return lambda: der.encode_constructed(t, v), codec.der_tlv(0xa0 + t, v), der.remove_constructed, (t, v)
    o = (rng.randint(0, 2), rng.randint(0, 39)) + tuple(gen.integer(rng, 0, 1 << rng.choice([6, 7, 8, 14, 15, 21, 32, 64])) for _ in range(rng.randint(0, 8)))
    return lambda: der.encode_oid(*o), codec.der_oid(o), der.remove_object, o

def split(k, res): return ((res[0], res[1]), res[2]) if k == 'cons' else res

def roundtrip(rng, mon, i):
    for _ in range(40):
        k = rng.choice(CODECS); enc, want, dec, val = make(rng, k)
        got = mon.ok('encode-raises', 'encode ' + k, enc)
        mon.eq(got, want, 'encode-' + k, 'not the standard DER', value=val)
        t = rest(rng)
        v, r = split(k, mon.ok('decode-raises', 'decode ' + k, dec, got + t))
        mon.check(v == val and type(v) is type(val), 'decode-' + k, 'another value', value=val, got=v)
        mon.eq(r, t, 'rest-' + k, 'unread rest wrong', value=val)
        mon.ev('roundtrip'); mon.ev('long-length', 1 if len(want) > 130 else 0); mon.seen(k, val)
    for _ in range(10):                                      # the integer strings of X9.62
        v = gen.integer(rng, 0, 1 << rng.choice([8, 16, 64, 160, 256, 521, 2048, 9000])); w = v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')
        mon.eq(mon.ok('x962-raises', 'int_to_string', ecdsa.int_to_string, v), w, 'x962-encode', 'not the integer string', value=v)
        mon.eq(mon.ok('x962-raises', 'string_to_int', ecdsa.string_to_int, b'\0' * rng.randrange(4) + w), v, 'x962-decode', 'another value', value=v)
        mon.eq(mon.ok('x962-raises', 'digest_integer', ecdsa.digest_integer, v), int.from_bytes(hashlib.sha1(w).digest(), 'big'), 'x962-digest', 'not SHA-1 of the integer string', value=v)
        mon.refused('x962-negative', 'a negative number is encoded', ecdsa.int_to_string, -1 - v); mon.ev('x962')
    mon.eq(ecdsa.string_to_int(b''), 0, 'x962-decode')
    mon.sample(kind=k, value=val, der=want)

def header(n, tag, form):
    """length octets in a possibly non-minimal form"""
    b = n.to_bytes((n.bit_length() + 7) // 8 or 1, 'big')
    if form == 0: return bytes([tag]) + codec.der_len(n)
    b = b'\0' * (form - 1) + b
    return bytes([tag, 0x80 | len(b)]) + b

TAG = {'integer': 2, 'octet': 4, 'bits': 3, 'seq': 0x30, 'oid': 6}
DEC = {'integer': der.remove_integer, 'octet': der.remove_octet_string, 'bits': der.remove_bitstring, 'seq': der.remove_sequence, 'oid': der.remove_object, 'cons': der.remove_constructed}
def cuts(rng, mon, i):
    """every proper prefix is refused"""
    for _ in range(8):
        k = rng.choice(CODECS); enc, want, dec, val = make(rng, k)
        if len(want) > 400: want2 = want; ps = sorted(rng.sample(range(len(want)), 40)) + list(range(8))
        else: ps = range(len(want))
        for p in ps:
            mon.refused('cut-' + k, 'data ending before its length is decoded', dec, want[:p]); mon.ev('cut')
        # length announced longer than the data, short and long forms, huge values
        body = gen.raw(rng, rng.randint(0, 20)); tag = TAG.get(k, 0xa0 + rng.randint(0, 31))
        body = b'\x01' + body
        for _ in range(4):
            n = len(body) + rng.choice([1, 1, 2, 100, 127, 128, 255, 256, 65536, 1 << 31, 1 << 32, 1 << 64, 1 << 200])
            mon.refused('short-' + k, 'data shorter than its length is decoded', dec, header(n, tag, rng.choice([0, 0, 1, 2, 3])) + body); mon.ev('short')
        for bad in (bytes([tag]), bytes([tag, 0x81]), bytes([tag, 0x82, 1]), bytes([tag, 0x84, 0, 0, 0]), bytes([tag, 0xff]) + b'\0' * 20, b''):
            mon.refused('length-cut-' + k, 'length octets cut off', dec, bad)

def tags(rng, mon, i):
    for k in CODECS:
        body = b'\x2a' if k == 'oid' else b'\x05'
        for t in range(256):
            okt = (t & 0xe0) == 0xa0 if k == 'cons' else t == TAG[k]
            st, v = mon.call(DEC[k], bytes([t, 1]) + body)
            if k == 'integer' and t >= 128:
                for x in (b'', b'\0', b'\xff', gen.raw(rng, 31)): mon.refused('negative', 'a negative integer is decoded', DEC[k], codec.der_tlv(2, bytes([t]) + x))
            mon.check((st == 'ok') == okt, 'tag-' + k, 'wrong tag accepted' if st == 'ok' else 'right tag refused', tag=t, got=v); mon.ev('tag')

def wild(rng, mon, i):
    """arbitrary bytes: the decoded value is what a bounded reader finds, or an error"""
    for _ in range(60):
        k = rng.choice(CODECS); enc, want, dec, val = make(rng, k)
        if len(want) > 300: continue
        b = gen.mutate(rng, want + rest(rng)) if rng.random() < .7 else bytes([TAG.get(k, 0xa3)]) + gen.raw(rng, rng.randint(0, 40))
        st, v = mon.call(dec, b); mon.ev('wild'); mon.seen(k, b)
        if st == 'exc': continue
        v, r = split(k, v)
        try: body, rr = codec.der_rd(b, b[0])
        except codec.Bad: raise Violation('read-past-' + k, 'bytes no bounded reader can decode are decoded', {'data': b.hex(), 'got': repr(v)})
        mon.eq(r, rr, 'rest-' + k, 'unread rest wrong', data=b)
        mon.ev('wild-decoded')
        if k in ('octet', 'bits', 'seq'): mon.eq(v, body, 'decode-' + k, data=b)
        elif k == 'cons': mon.eq(v, (b[0] & 0x1f, body), 'decode-cons', data=b)
        elif k == 'integer': mon.check(body and v == int.from_bytes(body, 'big') and body[0] < 128, 'decode-integer', data=b, got=v)
        else: mon.check(body and body[-1] < 128, 'oid-cut', 'identifier cut off in the middle of a number', data=b, got=v)

def lengths(rng, mon, i):
    for n in range(i * 40, i * 40 + 40):
        mon.eq(mon.ok('encode-raises', 'encode_length', der.encode_length, n), codec.der_len(n), 'encode-length', n=n)
        t = gen.raw(rng, 3)
        mon.eq(tuple(mon.ok('decode-raises', 'read_length', der.read_length, codec.der_len(n) + t)), (n, len(codec.der_len(n))), 'read-length', n=n); mon.ev('length')
    for n in (gen.integer(rng, 0, 1 << rng.choice([8, 16, 24, 32, 64, 1000])) for _ in range(20)):
        for p in range(len(codec.der_len(n))): mon.refused('length-cut', 'length octets cut off', der.read_length, codec.der_len(n)[:p])
        mon.eq(der.encode_length(n), codec.der_len(n), 'encode-length', n=n)
        mon.eq(tuple(der.read_length(codec.der_len(n))), (n, len(codec.der_len(n))), 'read-length', n=n)
        e = der.encode_number(n); r = [n & 127]; m = n >> 7
        while m: r.insert(0, 128 | m & 127); m >>= 7
        mon.eq(e, bytes(r), 'encode-number', n=n); mon.eq(tuple(der.read_number(e + b'\x81')), (n, len(e)), 'read-number', n=n)
        for p in range(len(e)): mon.refused('number-cut', 'number cut off', der.read_number, e[:p])
    mon.refused('negative', 'negative integer encoded', der.encode_integer, -1 - rng.getrandbits(20)); mon.refused('negative', 'negative length', der.encode_length, -1)

def pems(rng, mon, i):
    for _ in range(10):
        b = gen.data(rng, 400); nm = rng.choice(['PUBLIC KEY', 'EC PRIVATE KEY'])
        t = mon.ok('encode-raises', 'topem', der.topem, b, nm)
        mon.eq(mon.ok('decode-raises', 'unpem', der.unpem, t), b, 'pem', data=b); mon.eq(mon.ok('decode-raises', 'unpem', der.unpem, t.decode()), b, 'pem', data=b)
        l = t.split(b'\n'); mon.check(l[0] == ('-----BEGIN %s-----' % nm).encode() and l[-2] == ('-----END %s-----' % nm).encode() and l[-1] == b'' and all(0 < len(x) <= 64 for x in l[1:-2]), 'pem-layout', text=t)
        mon.ev('pem')

FAMILIES = [Family('roundtrip', roundtrip, 200, 10000), Family('cuts', cuts, 120, 6000), Family('tags', tags, 1, 1, exhaustive=True), Family('wild', wild, 150, 10000), Family('lengths', lengths, 40, 2000), Family('pem', pems, 60, 2000)]
REQUIRED = {'roundtrip': 8000, 'long-length': 1000, 'cut': 10000, 'short': 3000, 'tag': 1536, 'wild': 5000, 'wild-decoded': 1000, 'length': 1600}
