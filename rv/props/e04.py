import base64, hashlib, os, subprocess, tempfile
from ..core import Family, Violation, Inconclusive
from .. import gen
from ..ref import ec, codec
from nbc.util.ecdsa import keys, curves, util, der, ecdsa
ANCHORS = ['nbc/util/ecdsa/keys.py', 'nbc/util/ecdsa/der.py', 'nbc/util/ecdsa/util.py', 'nbc/util/ecdsa/curves.py']
RULE = 'keys on six curves incl. ones whose encodings have leading zero bytes, all forms, exchanged with openssl; edited/truncated encodings; signature pairs at the limits; distinct = distinct key, corrupted encoding or signature'
ASSUMPTIONS = ['the openssl command line tool']
CV = list(zip(ec.CURVES, [curves.NIST192p, curves.NIST224p, curves.NIST256p, curves.NIST384p, curves.NIST521p, curves.SECP256k1]))
WEIGHT = [0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 5]
PK = (1, 2, 840, 10045, 2, 1)

def key(rng, c):
    """(d, Q); sometimes with a zero leading byte in x or y or d"""
    k = rng.random()
    if k < .35:
        d = gen.scalar(rng, c.n); Q = c.mul(d, c.G); top = 256 ** (c.blen - 1) if c.name != 'NIST521p' else 256 ** (c.blen - 2)
        for _ in range(3000):
            if Q is None or Q[0] < top or Q[1] < top: break
            d += 1; Q = c.add(Q, c.G)
        if Q is not None and 1 <= d < c.n: return d, Q
    d = gen.scalar(rng, c.n)
    return d, c.mul(d, c.G)

def pem(name, b):
    t = base64.b64encode(b).decode(); l = [t[i:i + 64] for i in range(0, len(t), 64)]
    return ('-----BEGIN %s-----\n%s\n-----END %s-----\n' % (name, '\n'.join(l), name)).encode()
def forms(c, d, Q):
    L = c.blen
    raw = Q[0].to_bytes(L, 'big') + Q[1].to_bytes(L, 'big')
    vder = codec.der_seq(codec.der_seq(codec.der_oid(PK), codec.der_oid(c.oid)), codec.der_tlv(3, b'\0\4' + raw))
    sraw = d.to_bytes(L, 'big')
    sder = codec.der_seq(codec.der_int(1), codec.der_tlv(4, sraw), codec.der_tlv(0xa0, codec.der_oid(c.oid)), codec.der_tlv(0xa1, codec.der_tlv(3, b'\0\4' + raw)))
    return raw, vder, sraw, sder

def is_vk(mon, vk, c, Q, how):
    mon.eq((vk.pubkey.point.x(), vk.pubkey.point.y(), vk.curve.name), (Q[0], Q[1], c.name), 'verifying-key-changed', how)
def is_sk(mon, sk, c, d, Q, how):
    mon.eq((sk.privkey.secret_multiplier, sk.curve.name), (d, c.name), 'signing-key-changed', how)
    is_vk(mon, sk.get_verifying_key(), c, Q, how)

def roundtrip(rng, mon, i):
    c, rc = CV[rng.choice(WEIGHT)]
    d, Q = key(rng, c); raw, vder, sraw, sder = forms(c, d, Q)
    sk = mon.ok('from-exponent', 'from_secret_exponent', keys.SigningKey.from_secret_exponent, d, rc)
    is_sk(mon, sk, c, d, Q, 'from_secret_exponent'); vk = sk.get_verifying_key()
    mon.eq(mon.ok('raises', 'to_string', sk.to_string), sraw, 'sk-raw', curve=c.name, d=d)
    mon.eq(mon.ok('raises', 'to_der', sk.to_der), sder, 'sk-der', 'not the standard encoding', curve=c.name, d=d)
    mon.eq(mon.ok('raises', 'to_pem', sk.to_pem), pem('EC PRIVATE KEY', sder), 'sk-pem', curve=c.name, d=d)
    mon.eq(mon.ok('raises', 'to_string', vk.to_string), raw, 'vk-raw', curve=c.name, d=d)
    mon.eq(mon.ok('raises', 'to_der', vk.to_der), vder, 'vk-der', 'not the standard encoding', curve=c.name, d=d)
    mon.eq(mon.ok('raises', 'to_pem', vk.to_pem), pem('PUBLIC KEY', vder), 'vk-pem', curve=c.name, d=d)
    k = i % 3
    if k == 0:
        is_vk(mon, mon.ok('raises', 'from_string', keys.VerifyingKey.from_string, raw, rc), c, Q, 'raw')
        is_sk(mon, mon.ok('raises', 'from_string', keys.SigningKey.from_string, sraw, rc), c, d, Q, 'raw')
    elif k == 1:
        is_vk(mon, mon.ok('raises', 'from_der', keys.VerifyingKey.from_der, vder), c, Q, 'der')
        is_sk(mon, mon.ok('raises', 'from_der', keys.SigningKey.from_der, sder), c, d, Q, 'der')
        if rng.random() < .4:      # secret stored without its leading zero bytes
            short = sraw.lstrip(b'\0') or b'\0'
            o = codec.der_seq(codec.der_int(1), codec.der_tlv(4, short), codec.der_tlv(0xa0, codec.der_oid(c.oid)), codec.der_tlv(0xa1, codec.der_tlv(3, b'\0\4' + raw)))
            is_sk(mon, mon.ok('raises', 'from_der', keys.SigningKey.from_der, o), c, d, Q, 'short der')
    else:
        p, s = pem('PUBLIC KEY', vder), pem('EC PRIVATE KEY', sder)
        if rng.random() < .5: p, s = p.decode(), s.decode()
        elif rng.random() < .4: s = b'-----BEGIN EC PARAMETERS-----\nBggqhkjOPQMBAQ==\n-----END EC PARAMETERS-----\n' + s
        is_vk(mon, mon.ok('raises', 'from_pem', keys.VerifyingKey.from_pem, p), c, Q, 'pem')
        is_sk(mon, mon.ok('raises', 'from_pem', keys.SigningKey.from_pem, s), c, d, Q, 'pem')
    if raw[0] == 0 or raw[c.blen] == 0 or sraw[0] == 0: mon.ev('leading-zero')
    mon.ev('roundtrip'); mon.seen(c.name, d); mon.sample(curve=c.name, d=d)

HASHES = [hashlib.sha1, hashlib.sha224, hashlib.sha256, hashlib.sha384, hashlib.sha512, hashlib.md5]
def hashes(rng, mon, i):
    """the hash function given on loading is the one used, SHA-1 if none is"""
    c, rc = CV[[0, 1, 2, 5, 2, 5, 3][i % 7]]; d, Q = key(rng, c); raw, vder, sraw, sder = forms(c, d, Q)
    h = rng.choice([h for h in HASHES if h().digest_size <= c.blen]); other = rng.choice([x for x in HASHES if x is not h and x().digest_size <= c.blen] or [hashlib.md5])
    m = gen.data(rng); z = int.from_bytes(h(m).digest(), 'big')
    S, V = keys.SigningKey, keys.VerifyingKey
    ways = [('from_string', lambda: S.from_string(sraw, rc, h)), ('from_string', lambda: S.from_string(sraw, curve=rc, hashfunc=h)), ('from_der', lambda: S.from_der(sder, h)), ('from_der', lambda: S.from_der(sder, hashfunc=h)),
            ('from_pem', lambda: S.from_pem(pem('EC PRIVATE KEY', sder), h)), ('from_pem', lambda: S.from_pem(pem('EC PRIVATE KEY', sder).decode(), hashfunc=h)), ('from_secret_exponent', lambda: S.from_secret_exponent(d, rc, h)),
            ('generate', lambda: S.generate(rc, lambda n: (d - 1).to_bytes(n, 'big'), h) if h is not None else None)]
    if h is hashlib.sha1: ways += [('from_string', lambda: S.from_string(sraw, rc)), ('from_der', lambda: S.from_der(sder)), ('from_pem', lambda: S.from_pem(pem('EC PRIVATE KEY', sder)))]
    for how, fn in rng.sample(ways, 2):
        sk = mon.ok('raises', how, fn); gd, gQ = sk.privkey.secret_multiplier, Q
        if how == 'generate': gQ = c.mul(gd, c.G)
        else: mon.eq(gd, d, 'signing-key-changed', how)
        a, b = rng.choice([('sign', lambda: sk.sign(m)), ('sign_deterministic', lambda: sk.sign_deterministic(m)), ('sign', lambda: sk.sign(m, hashfunc=h))]); sig = mon.ok('raises', a, b)
        r, t = int.from_bytes(sig[:c.blen], 'big'), int.from_bytes(sig[c.blen:], 'big')
        mon.check(c.verify(gQ, z, r, t), 'hash-function', 'the key of %s does not sign with the hash function it was given' % how, curve=c.name, hash=h().name)
        mon.eq(mon.ok('hash-function-public', 'its public key verifies', sk.get_verifying_key().verify, sig, m), True, 'hash-function-public', how)
    k = gen.scalar(rng, c.n); r, t = c.sign(d, z, k); sig = r.to_bytes(c.blen, 'big') + t.to_bytes(c.blen, 'big')
    ways = [('from_string', lambda: V.from_string(raw, rc, h)), ('from_string', lambda: V.from_string(raw, curve=rc, hashfunc=h)), ('from_public_point', lambda: V.from_public_point(V.from_string(raw, rc).pubkey.point, rc, h))]
    if h is hashlib.sha1: ways += [('from_der', lambda: V.from_der(vder)), ('from_pem', lambda: V.from_pem(pem('PUBLIC KEY', vder)))]
    how, fn = rng.choice(ways); vk = mon.ok('raises', how, fn)
    mon.eq(mon.ok('hash-function', 'the key of %s does not verify with the hash function it was given' % how, vk.verify, sig, m), True, 'hash-function')
    mon.eq(mon.ok('hash-function', 'hash function named', V.from_string(raw, rc, other).verify, sig, m, h), True, 'hash-function'); mon.refused('hash-function', 'another hash function', vk.verify, sig, m, other)
    mon.ev('hash'); mon.seen('hash', c.name, h().name, d)

def corrupt(rng, mon, i):
    c, rc = CV[rng.choice(WEIGHT)]; d, Q = key(rng, c); raw, vder, sraw, sder = forms(c, d, Q)
    L = c.blen
    def ok_vk(b, f, *a):
        st, v = mon.call(f, b, *a); mon.ev('corrupted')
        if st == 'ok':
            P = (v.pubkey.point.x(), v.pubkey.point.y()); cc = [x for x, y in CV if y is v.curve][0]
            mon.check(0 <= P[0] < cc.p and 0 <= P[1] < cc.p and cc.on(P), 'invalid-public-accepted', 'a public key that is no curve point', enc=b, point=P)
            mon.ev('corrupted-still-valid')
        mon.seen(b)
    def ok_sk(b, f, *a):
        st, v = mon.call(f, b, *a); mon.ev('corrupted')
        if st == 'ok':
            cc = [x for x, y in CV if y is v.curve][0]; e = v.privkey.secret_multiplier
            mon.check(1 <= e < cc.n, 'invalid-private-accepted', 'secret outside the range', enc=b)
            P = v.get_verifying_key().pubkey.point
            mon.eq((P.x(), P.y()), cc.mul(e, cc.G), 'mismatched-keys', enc=b); mon.ev('corrupted-still-valid')
        mon.seen(b)
    for _ in range(3):
        ok_vk(gen.mutate(rng, vder), keys.VerifyingKey.from_der); ok_sk(gen.mutate(rng, sder), keys.SigningKey.from_der)
        ok_vk(vder[:rng.randrange(len(vder))], keys.VerifyingKey.from_der); ok_sk(sder[:rng.randrange(40)], keys.SigningKey.from_der)
        ok_vk(gen.mutate(rng, raw), keys.VerifyingKey.from_string, rc)
        ok_vk(gen.mutate(rng, pem('PUBLIC KEY', vder)), keys.VerifyingKey.from_pem)
    ok_sk(gen.mutate(rng, pem('EC PRIVATE KEY', sder)), keys.SigningKey.from_pem)
    ok_sk(gen.mutate(rng, sraw), keys.SigningKey.from_string, rc)
    # strictly refused
    ref = mon.refused
    for b in (raw[:-1], raw + b'\0', b'', raw[1:], b'\4' + raw): ref('length', 'raw public key of wrong length', keys.VerifyingKey.from_string, b, rc)
    for b in (sraw[:-1], sraw + b'\0', b''): ref('length', 'raw private key of wrong length', keys.SigningKey.from_string, b, rc)
    for e in (0, c.n, c.n + 1, 256 ** L - 1):
        if e < 256 ** L: ref('range', 'secret outside the range', keys.SigningKey.from_string, e.to_bytes(L, 'big'), rc)
        ref('range', 'secret outside the range', keys.SigningKey.from_secret_exponent, e, rc)
    y2 = (Q[1] + 1) % c.p
    ref('off-curve', 'point off the curve', keys.VerifyingKey.from_string, Q[0].to_bytes(L, 'big') + y2.to_bytes(L, 'big'), rc)
    ref('off-curve', 'point off the curve', keys.VerifyingKey.from_der, codec.der_seq(codec.der_seq(codec.der_oid(PK), codec.der_oid(c.oid)), codec.der_tlv(3, b'\0\4' + Q[0].to_bytes(L, 'big') + y2.to_bytes(L, 'big'))))
    for lo in range(1, 400):                             # a coordinate out of range that reduces to a point
        y = c.lift_x(lo)
        if y is not None and (lo + c.p) < 256 ** L:
            ref('unreduced', 'x coordinate beyond the field', keys.VerifyingKey.from_string, (lo + c.p).to_bytes(L, 'big') + y.to_bytes(L, 'big'), rc); break
    ref('junk', 'trailing bytes after a DER public key', keys.VerifyingKey.from_der, vder + b'\0')
    ref('junk', 'trailing bytes after a DER private key', keys.SigningKey.from_der, sder + b'\0')
    ref('oid', 'unknown curve', keys.VerifyingKey.from_der, codec.der_seq(codec.der_seq(codec.der_oid(PK), codec.der_oid((1, 3, 132, 0, 77))), codec.der_tlv(3, b'\0\4' + raw)))
    ref('oid', 'not an EC key', keys.VerifyingKey.from_der, codec.der_seq(codec.der_seq(codec.der_oid((1, 2, 840, 113549, 1, 1, 1)), codec.der_oid(c.oid)), codec.der_tlv(3, b'\0\4' + raw)))
    ref('form', 'compressed-form bit string taken as uncompressed', keys.VerifyingKey.from_der, codec.der_seq(codec.der_seq(codec.der_oid(PK), codec.der_oid(c.oid)), codec.der_tlv(3, b'\0\2' + raw)))
    for f in (keys.SigningKey, keys.VerifyingKey): ref('direct', 'a key made of nothing', f)
    for v in (2, 0, rng.choice([3, 128, 256, 257, 65537])): ref('version', 'DER private key of version %d' % v, keys.SigningKey.from_der, codec.der_seq(codec.der_int(v), codec.der_tlv(4, sraw), codec.der_tlv(0xa0, codec.der_oid(c.oid))))
    for t in rng.sample(range(1, 32), 4) + [2]: ref('tag', 'DER private key whose curve has tag %d' % t, keys.SigningKey.from_der, codec.der_seq(codec.der_int(1), codec.der_tlv(4, sraw), codec.der_tlv(0xa0 + t, codec.der_oid(c.oid))))
    for x in (b'\0\3', b'\0\0', b'\0\5', b'\0\6', b'\0\7', b'\4\4', b'\4'): ref('form', 'bit string with head %s' % x.hex(), keys.VerifyingKey.from_der, codec.der_seq(codec.der_seq(codec.der_oid(PK), codec.der_oid(c.oid)), codec.der_tlv(3, x + raw)))
    mon.ev('structures')

def signatures(rng, mon, i):
    for _ in range(20):
        c, rc = CV[rng.randrange(6)]; n = c.n; L = c.blen
        r, s = gen.integer(rng, 1, n - 1), gen.integer(rng, 1, n - 1)
        if rng.random() < .3: s = rng.choice([n // 2, n // 2 + 1, n // 2 - 1, n // 2 + 2])
        cs = min(s, n - s)
        rb, sb, cb = (v.to_bytes(L, 'big') for v in (r, s, cs))
        want = {'sigencode_string': rb + sb, 'sigencode_strings': (rb, sb), 'sigencode_der': codec.der_sig(r, s),
                'sigencode_string_canonize': rb + cb, 'sigencode_strings_canonize': (rb, cb), 'sigencode_der_canonize': codec.der_sig(r, cs)}
        for nm, w in want.items():
            got = mon.ok('raises', nm, getattr(util, nm), r, s, n)
            mon.eq(got, w, nm, 'not the standard encoding', curve=c.name, r=r, s=s)
            dec = {'string': util.sigdecode_string, 'strings': util.sigdecode_strings, 'der': util.sigdecode_der}[nm.split('_')[1]]
            mon.eq(tuple(mon.ok('raises', 'decode ' + nm, dec, got, n)), (r, cs if 'canonize' in nm else s), 'sig-roundtrip', curve=c.name, form=nm, r=r, s=s)
            mon.ev('signature')
        ref = mon.refused
        ref('sig-length', 'raw signature of wrong length', util.sigdecode_string, (rb + sb)[:-1], n); ref('sig-length', 'raw signature of wrong length', util.sigdecode_string, rb + sb + b'\0', n)
        ref('sig-length', 'pair of wrong length', util.sigdecode_strings, (rb[:-1], sb), n); ref('sig-length', 'pair of wrong length', util.sigdecode_strings, (rb, sb + b'\0'), n); ref('sig-length', 'pair of wrong length', util.sigdecode_strings, (rb, sb[1:]), n)
        ds = codec.der_sig(r, s)
        ref('sig-junk', 'trailing bytes', util.sigdecode_der, ds + b'\0', n); ref('sig-junk', 'trailing bytes inside', util.sigdecode_der, codec.der_seq(codec.der_int(r), codec.der_int(s), b'\0'), n)
        ref('sig-cut', 'truncated signature', util.sigdecode_der, ds[:rng.randrange(len(ds))], n)
        cut = bytearray(ds); cut = ds[:-1]
        ref('sig-cut', 'truncated signature', util.sigdecode_der, cut, n)
        ref('sig-cut', 'inner integer longer than the sequence', util.sigdecode_der, codec.der_seq(codec.der_int(r), codec.der_int(s)[:-1]), n)
        mon.seen(c.name, r, s)

def numbers(rng, mon, i):
    """integers to bytes and back"""
    for _ in range(40):
        x = rng.choice([0, 1, 127, 128, 255, 256, 65535, 65536, rng.getrandbits(rng.randrange(1, 700))])
        b = x.to_bytes(max(1, (x.bit_length() + 7) // 8), 'big')
        mon.eq(mon.ok('raises', 'int_to_string', ecdsa.int_to_string, x), b, 'int_to_string', number=x)
        mon.eq(ecdsa.string_to_int(b'\0' * rng.randrange(3) + b), x, 'string_to_int', number=x)
        mon.eq(ecdsa.digest_integer(x), int.from_bytes(hashlib.sha1(b).digest(), 'big'), 'digest_integer', number=x)
        n = rng.choice([c.n for c in ec.CURVES] + [2, 255, 256, 257, 1 << rng.randrange(1, 300)]); L = (n.bit_length() + 7) // 8
        y = gen.integer(rng, 0, 256 ** L - 1); w = y.to_bytes(L, 'big')
        mon.eq(mon.ok('raises', 'number_to_string', util.number_to_string, y, n), w, 'number_to_string', number=y, order=n)
        mon.eq(util.string_to_number(w), y, 'string_to_number'); mon.eq(util.string_to_number_fixedlen(w, n), y, 'string_to_number_fixedlen')
        mon.eq(util.orderlen(n), L, 'orderlen', order=n)
        big = 256 ** L + rng.getrandbits(8 * L)
        mon.refused('number-length', 'number too long for the order', util.number_to_string, big, n)
        mon.eq(mon.ok('raises', 'number_to_string_crop', util.number_to_string_crop, y, n), w, 'number_to_string_crop')
        for bad in (w[1:], w + b'\0'): mon.refused('number-length', 'string of the wrong length', util.string_to_number_fixedlen, bad, n)
        mon.ev('number'); mon.seen('number', x, y, n)

def run(*a, inp=b'', fail=False):
    p = subprocess.run(['openssl'] + list(a), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode and not fail: return None
    return p.stdout

def interop(rng, mon, i):
    c, rc = CV[i % 6 if i < 12 else rng.choice(WEIGHT)]; d, Q = key(rng, c); raw, vder, sraw, sder = forms(c, d, Q)
    tmp = tempfile.mkdtemp(); f = lambda n: os.path.join(tmp, n)
    sk = keys.SigningKey.from_secret_exponent(d, rc); vk = sk.get_verifying_key()
    # openssl reads ours
    mon.eq(run('ec', '-outform', 'DER', inp=sk.to_pem()), sder, 'openssl-reads-pem', curve=c.name, d=d)
    mon.eq(run('ec', '-inform', 'DER', '-pubout', '-outform', 'DER', inp=sk.to_der()), vder, 'openssl-reads-der', curve=c.name, d=d)
    mon.eq(run('pkey', '-pubin', '-inform', 'DER', '-outform', 'PEM', inp=vk.to_der()), vk.to_pem(), 'openssl-public', curve=c.name, d=d)
    # we read openssl's own
    kp = run('ecparam', '-name', ec.OPENSSL[c.name], '-genkey')
    if kp is None: raise Inconclusive('openssl genkey failed')
    mine = mon.ok('reads-openssl', 'from_pem of an openssl key', keys.SigningKey.from_pem, kp)
    mon.eq(run('ec', '-outform', 'DER', inp=kp), mine.to_der(), 'reads-openssl', 'key changed', curve=c.name)
    pub = run('ec', '-pubout', '-outform', 'PEM', inp=kp)
    v2 = mon.ok('reads-openssl', 'from_pem of an openssl public key', keys.VerifyingKey.from_pem, pub)
    mon.eq(v2.to_string(), mine.get_verifying_key().to_string(), 'reads-openssl-public', curve=c.name)
    # signatures both ways
    h, hf = ('sha1', hashlib.sha1) if c.blen < 32 else ('sha256', hashlib.sha256)
    msg = gen.data(rng); open(f('m'), 'wb').write(msg); open(f('k'), 'wb').write(kp); open(f('p'), 'wb').write(vk.to_pem())
    sig = sk.sign(msg, hashfunc=hf, sigencode=rng.choice([util.sigencode_der, util.sigencode_der_canonize])); open(f('s'), 'wb').write(sig)
    mon.check(b'Verified OK' in (run('dgst', '-' + h, '-verify', f('p'), '-signature', f('s'), f('m')) or b''), 'openssl-rejects', 'openssl rejects our signature', curve=c.name, d=d, msg=msg)
    osig = run('dgst', '-' + h, '-sign', f('k'), f('m'))
    mon.check(mon.ok('rejects-openssl', 'verify an openssl signature', v2.verify, osig, msg, hashfunc=hf, sigdecode=util.sigdecode_der) is True, 'rejects-openssl')
    mon.ev('openssl'); mon.seen(c.name, d)

FAMILIES = [Family('roundtrip', roundtrip, 150, 4000), Family('hashes', hashes, 42, 1500), Family('corrupted', corrupt, 70, 2500), Family('signatures', signatures, 100, 5000), Family('numbers', numbers, 60, 2000), Family('openssl', interop, 36, 600)]
REQUIRED = {'hash': 42, 'number': 1000, 'roundtrip': 150, 'leading-zero': 20, 'corrupted': 1000, 'signature': 5000, 'openssl': 36}
