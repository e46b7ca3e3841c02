import os, random, tempfile
from ..core import Family
from .. import gen, wal
from ..ref import codec, ec
from ..ref.codec import Node, ser_pub, wif
from ..wal import M
from nbc import wallet
from nbc.wallet import Address, HDWallet
from nbc.util import ecc
ANCHORS = ['nbc/wallet/address.py', 'nbc/wallet/hdwallet.py', 'nbc/util/ecc.py', 'nbc/util/ecdsa/keys.py', 'nbc/util/ecdsa/ecdsa.py']
RULE = 'random keys, messages of 0 to 2000 bytes, every kind of wallet holding the key, altered messages, keys and signatures; the nonce of each signature is recovered from the known key and judged; distinct = distinct signatures judged'
K, n = ec.K1, ec.K1.n
ASSUMPTIONS = ['the independent ECDSA model in rv/ref/ec.py', '(r, n-s) verifies like (r, s) in standard ECDSA and is not counted as altered']

def zof(msg): return int.from_bytes(codec.dsha(msg), 'big')

def message(rng):
    k = rng.random()
    if k < .1: return b''
    if k < .2: return gen.raw(rng, rng.choice([1, 63, 64, 65, 119, 120, 2000, 4096, 70000, 300000, 1 << 20 | 1, 2500000]))
    if k < .25: return '中文'.encode('utf-8')
    return gen.data(rng)

def signers(rng, d, P):
    """wallets holding the private key"""
    node = Node(d, P, gen.raw(rng, 32), 3, b'abcd', 9)
    p = node.ext(True)
    out = [('plain', lambda: Address(privKey=wif(d, True))), ('plain5', lambda: Address(privKey=wif(d, False), testnet=True)), ('hd', lambda: HDWallet(d, node.chain)),
           ('xprv', lambda: HDWallet.from_extended_key(p)), ('converted', lambda: Address(privKey=wif(d, True)).decompress()), ('converted5', lambda: Address(privKey=wif(d, False)).compress())]
    def again(w, kind):
        fn = os.path.join(tempfile.mkdtemp(), 'w'); wallet.saveTo(fn, w, b'pw'); return wallet.loadFrom(fn, b'pw')
    out += [('reloaded', lambda: again(Address(privKey=wif(d, rng.random() < .5)), 0)), ('reloaded-hd', lambda: again(HDWallet(d, node.chain), 1))]
    return out

def watchers(rng, d, P):
    """wallets holding the public key only"""
    node = Node(None, P, gen.raw(rng, 32), 3, b'abcd', 9)
    def again(w):
        fn = os.path.join(tempfile.mkdtemp(), 'w'); wallet.saveTo(fn, w); return wallet.loadFrom(fn)
    return [('watch', lambda: Address(pubKey=ser_pub(P, True))), ('watch4', lambda: Address(pubKey=ser_pub(P, False))), ('xpub', lambda: HDWallet.from_extended_key(node.ext(False))), ('hd-point', lambda: HDWallet(wal.point(P), node.chain)),
            ('watch-converted', lambda: Address(pubKey=ser_pub(P, True)).decompress()), ('watch-converted4', lambda: Address(pubKey=ser_pub(P, False)).compress()),
            ('watch-reloaded', lambda: again(Address(pubKey=ser_pub(P, rng.random() < .5)))), ('xpub-reloaded', lambda: again(HDWallet(wal.point(P), node.chain))),
            ('neutered', lambda: HDWallet.from_extended_key(HDWallet(d, node.chain).to_extended_key()))]

def read(mon, sig, **w):
    """strict standard DER"""
    try: r, s = codec.liberal_sig(sig)
    except Exception as e: mon.check(False, 'not-der', 'the signature is not DER: %r' % e, sig=sig, **w)
    mon.check(0 < r < n and 0 < s < n, 'range', 'r or s out of range', r=r, s=s)
    mon.eq(sig, codec.der_sig(r, s), 'not-standard-der', 'not the standard DER form')
    return r, s

def accepts(rng, mon, i):
    d, P = gen.keypair(rng)
    name, mk = signers(rng, d, P)[i % 8]
    w = mon.ok('make-raises', name, mk); msg = message(rng)
    sig = mon.ok('sign-raises', 'signing with %s' % name, w.sign, msg)
    r, s = read(mon, sig)
    mon.check(K.verify(P, zof(msg), r, s), 'invalid', 'signature of %s is not standard ECDSA over the double SHA-256' % name, msg=msg, key=d, sig=sig)
    ws = watchers(rng, d, P) + signers(rng, d, P)
    for h, mk2 in [ws[i % len(ws)], rng.choice(ws)]:
        v = mon.ok('make-raises', h, mk2)
        mon.eq(mon.ok('verify-raises', 'verify', v.verify, msg, sig), True, 'rejected', '%s does not accept the signature of %s' % (h, name), msg=msg, key=d, sig=sig); mon.ev('accepted'); mon.ev('holder-' + h)
    # a signature made elsewhere (own nonce) is accepted just as well
    msg2 = message(rng); k = gen.scalar(rng, n); R = K.mul(k, K.G); r2 = R[0] % n; s2 = pow(k, -1, n) * (zof(msg2) + r2 * d) % n
    if r2 and s2:
        if rng.random() < .5: s2 = n - s2
        mon.eq(mon.ok('verify-raises', 'verify', v.verify, msg2, codec.der_sig(r2, s2)), True, 'foreign', 'a valid signature made elsewhere is rejected by %s' % h, msg=msg2, key=d, r=r2, s=s2); mon.ev('foreign')
    mon.seen(sig); mon.sample(wallet=name, msg=msg, sig=sig)

def rejects(rng, mon, i):
    d, P = gen.keypair(rng); msg = message(rng)
    k = gen.scalar(rng, n); R = K.mul(k, K.G); r = R[0] % n; s = pow(k, -1, n) * (zof(msg) + r * d) % n
    if rng.random() < .2:
        w = Address(privKey=wif(d, True)); sig = w.sign(msg); r, s = codec.liberal_sig(sig)
    ws = watchers(rng, d, P) + signers(rng, d, P); h, mk = ws[i % len(ws)]
    v = mon.ok('make-raises', h, mk)
    sig = codec.der_sig(r, s)
    def no(v, msg2, sig2, what):
        mon.eq(mon.ok('verify-raises', 'verify', v.verify, msg2, sig2), False, 'accepted-' + what, '%s accepts a signature after change of %s' % (h, what), key=d, msg=msg2, sig=sig2); mon.ev('rejected'); mon.ev('changed-' + what); mon.seen(what, msg2, sig2)
    if i % 6 == 0: msg = gen.raw(rng, rng.choice([1 << 16, 1 << 20, 1 << 21, 3000000])); r = R[0] % n; s = pow(k, -1, n) * (zof(msg) + r * d) % n; sig = codec.der_sig(r, s); mon.ev('large-message')
    m2 = msg[:-1] + bytes([msg[-1] ^ 1]) if i % 6 == 0 else rng.choice([lambda: gen.mutate(rng, msg), lambda: msg + b'\0', lambda: b'\0' + msg, lambda: codec.dsha(msg), lambda: msg[:-1] if msg else b'x', lambda: message(rng) + b'!', lambda: msg.swapcase() if msg.swapcase() != msg else msg + b' '])()
    no(v, m2, sig, 'message')
    d2 = rng.choice([n - d, d % (n - 1) + 1, gen.scalar(rng)]); P2 = K.mul(d2, K.G)
    if P2 != P:
        h2, mk2 = rng.choice(watchers(rng, d2, P2) + signers(rng, d2, P2)); no(mk2(), msg, sig, 'key')
    bit = 1 << rng.randrange(256)
    alts = [(r ^ bit, s), (r, s ^ bit), (r + 1, s), (r, s + 1), (r, s - 1), (s, r), (n - r, s), (r + n, s), (r, s + n), (r, 2 * n - s), (0, s), (r, 0), (n, s), (r, n), (r, r), (R[0] ^ 1, s), (r, k), (1, 1), (r << 8, s), (r, s >> 1), (r, (1 << 256) + s)]
    for r2, s2 in rng.sample(alts, 3):
        if (r2, s2) == (r, s) or (r2, s2) == (r, n - s) or r2 < 0 or s2 < 0: continue
        if 0 < r2 < n and 0 < s2 < n and K.verify(P, zof(msg), r2, s2): continue
        no(v, msg, codec.der_sig(r2, s2), 'r or s')

def der_signed(*vs):
    return codec.der_seq(*[codec.der_tlv(2, x.to_bytes((x.bit_length() + 8) // 8 + 1, 'big', signed=True)) for x in vs])

def bytes_changed(rng, mon, i):
    """the signature text itself altered: negated integers, bytes and bits changed, cut, swapped"""
    d, P = gen.keypair(rng); msg = message(rng)
    w = Address(privKey=wif(d, rng.random() < .5)); sig = w.sign(msg); r, s = read(mon, sig)
    ws = watchers(rng, d, P) + signers(rng, d, P); h, mk = ws[i % len(ws)]; v = mon.ok('make-raises', h, mk)
    alts = [der_signed(-r, s), der_signed(r, -s), der_signed(-r, -s), der_signed(r - n, s), der_signed(r, s - n), der_signed(-r, n - s)]
    for _ in range(3):
        b = bytearray(sig); b[rng.randrange(len(b))] ^= 1 << rng.randrange(8); alts.append(bytes(b))
    alts += [sig[:-1], sig[:len(sig) // 2], b'', sig[1:], gen.mutate(rng, sig), sig[:4] + bytes(32) + sig[36:], bytes(len(sig)), sig[::-1]]
    for a in rng.sample(alts[:6], 2) + rng.sample(alts[6:], 3):
        try: rs = codec.liberal_sig(a)
        except Exception: rs = None
        if rs and (K.verify(P, zof(msg), *rs)): continue
        mon.eq(mon.ok('verify-raises', 'verify', v.verify, msg, a), False, 'accepted-bytes', '%s accepts altered signature bytes' % h, key=d, msg=msg, sig=a, original=sig)
        mon.ev('bytes-changed'); mon.seen(msg, a)

def nonces(rng, mon, i):
    """every signature's nonce, recovered with the known key"""
    d, P = gen.keypair(rng)
    name, mk = signers(rng, d, P)[i % 8]; w = mk()
    same = message(rng); ks = []; rep = []
    def one(msg):
        sig = w.sign(msg); r, s = read(mon, sig); k = (zof(msg) + r * d) * pow(s, -1, n) % n
        mon.check(0 < k < n and K.mul(k, K.G)[0] % n == r, 'invalid', 'not a signature of the key', msg=msg, sig=sig)
        ks.append(min(k, n - k) if False else k); return k
    for j in range(40): one(same if j % 4 == 0 else message(rng))
    # seeding the ordinary generator does not repeat a nonce
    st = random.getstate()
    try:
        for _ in range(2):
            random.seed(12345); one(same); rep.append(ks[-1])
    finally: random.setstate(st)
    # two processes never draw the same nonce
    r_, w_ = os.pipe(); kids = []
    for _ in range(2):
        pid = os.fork()
        if not pid:
            try: os.write(w_, b'%064x' % one(same))
            finally: os._exit(0)
        kids.append(pid)
    for pid in kids: os.waitpid(pid, 0)
    os.close(w_); b = os.read(r_, 4096); os.close(r_)
    for j in range(0, len(b), 64): ks.append(int(b[j:j + 64], 16))
    mon.check(len(set(ks)) == len(ks) and len(set(min(k, n - k) for k in ks)) == len(ks), 'nonce-repeated', 'a nonce was used twice: the private key can be computed', key=d, nonces=[hex(k) for k in ks if ks.count(k) > 1])
    for b_ in range(256):
        mon.check(len(set(k >> b_ & 1 for k in ks)) == 2, 'nonce-bit', 'bit %d of the nonce never changes in %d signatures' % (b_, len(ks)), nonces=[hex(k) for k in ks[:4]])
    # no relation that lets the key be computed from two signatures
    for a, b_ in zip(ks, ks[1:]):
        mon.check(abs(a - b_) > 1 << 160 and (a + b_) % n > 1 << 160, 'nonce-related', 'consecutive nonces are close', a=hex(a), b=hex(b_))
    zs = [zof(same)]
    for k in ks[:8]: mon.check(k not in (d, n - d, zs[0] % n), 'nonce-derived', 'the nonce is the key or the digest')
    mon.ev('nonces', len(ks)); mon.seen('nonces', ks[0])

def refuses(rng, mon, i):
    d, P = gen.keypair(rng)
    for h, mk in watchers(rng, d, P):
        w = mon.ok('make-raises', h, mk); msg = message(rng)
        mon.refused('watch-signs', '%s wallet without private key signed' % h, w.sign, msg); mon.ev('refused-to-sign'); mon.seen('watch', h, msg)
        if hasattr(w, 'child') and w.depth() < 255: mon.refused('watch-signs', 'public child signed', w.child(rng.choice([0, 0x7fffffff])).sign, msg)

FAMILIES = [Family('nonces', nonces, 8, 160, cpu=120), Family('accepts', accepts, 160, 6000), Family('rejects', rejects, 160, 6000), Family('bytes', bytes_changed, 64, 3000), Family('refuses', refuses, 24, 400)]
REQUIRED = {'large-message': 20, 'accepted': 300, 'foreign': 100, 'rejected': 500, 'changed-message': 100, 'changed-key': 100, 'changed-r or s': 200, 'bytes-changed': 150, 'nonces': 300, 'refused-to-sign': 150}
