"""Random wallets with their models, and comparison of a wallet with its model."""
from . import gen
from .ref import codec, ec
from .ref.codec import Node, ser_pub, wif, address
from nbc import wallet
from nbc.wallet import Address, HDWallet
from nbc.util.ecdsa import ellipticcurve, SECP256k1
N = ec.K1.n

class M(object):
    """kind 'addr': d (or None), P, comp, vcn, testnet;  kind 'hd': node, vcn"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def __repr__(self):
        if self.kind == 'addr': return 'addr(d=%s, P=%s, comp=%s, vcn=%#x, testnet=%s)' % (self.d and hex(self.d), self.P, self.comp, self.vcn, self.testnet)
        n = self.node
        return 'hd(d=%s, P=%s, chain=%s, depth=%d, num=%#x, fp=%s, vcn=%#x, testnet=%s)' % (n.d and hex(n.d), n.P, n.chain.hex(), n.depth, n.num, n.fp.hex(), self.vcn, n.testnet)
    @property
    def secret(self): return self.d if self.kind == 'addr' else self.node.d
    @property
    def pub(self): return self.P if self.kind == 'addr' else self.node.P
    @property
    def net(self): return self.testnet if self.kind == 'addr' else self.node.testnet

def point(P): return ellipticcurve.Point(SECP256k1.curve, P[0], P[1], SECP256k1.order) if P else None

def addr_model(rng, private=None):
    d, P = gen.keypair(rng)
    if private is None: private = rng.random() < .6
    return M(kind='addr', d=d if private else None, P=P, comp=rng.random() < .5, vcn=gen.vcn(rng), testnet=rng.random() < .5)

def hd_model(rng, private=None):
    """arbitrary node (not derived from a seed)"""
    d, P = gen.keypair(rng)
    if private is None: private = rng.random() < .6
    depth = rng.choice([0, 0, 1, 2, 5, 254, 255, rng.randint(1, 255)])
    num = 0 if depth == 0 else rng.choice([0, 1, 0x7fffffff, 0x80000000, 0xffffffff, rng.getrandbits(32)])
    fp = bytes(4) if depth == 0 else rng.choice([gen.raw(rng, 4), gen.raw(rng, 4), bytes(4), b'\0\0\0\1', b'\xff' * 4])
    chain = rng.choice([gen.raw(rng, 32)] * 4 + [bytes(32), bytes(8) + gen.raw(rng, 24), b'\xff' * 32])
    return M(kind='hd', node=Node(d if private else None, P, chain, depth, fp, num, rng.random() < .5), vcn=gen.vcn(rng))

def any_model(rng, private=None):
    return addr_model(rng, private) if rng.random() < .5 else hd_model(rng, private)

def make(rng, m):
    """a wallet for the model"""
    if m.kind == 'addr':
        v = m.vcn + 65536 * rng.choice([0, 0, 0, 1, -1, 1 << 70])
        if m.d: return Address(privKey=wif(m.d, m.comp), vcn=v, testnet=m.testnet)
        return Address(pubKey=ser_pub(m.P, m.comp), vcn=v, testnet=m.testnet)
    n = m.node
    if rng.random() < .4: return HDWallet.from_extended_key(n.ext(n.d is not None), vcn=m.vcn)
    kw = {}
    if n.depth or rng.random() < .3: kw = dict(depth=n.depth, parentfp=n.fp, childnum=n.num)
    return HDWallet(n.d if n.d is not None else point(n.P), n.chain, vcn=m.vcn, testnet=n.testnet, **kw)

def text(m):
    ver = b'\x6f' if m.net else b'\x00'
    if m.kind == 'addr': return address(ser_pub(m.P, m.comp), m.vcn, ver)
    return address(ser_pub(m.node.P, True), m.vcn, ver)

def tob(x): return x.encode('latin-1') if isinstance(x, str) else x

def compare(mon, w, m, key, deep=None, rng=None):
    """every accessor of the wallet against the model"""
    def eq(got, want, what): mon.eq(tob(got) if isinstance(want, bytes) else got, want, '%s-%s' % (key, what), 'of a %s' % m.kind, model=m)
    if m.kind == 'addr':
        mon.check(type(w).__name__ == 'Address', key + '-class', type(w).__name__)
        eq(w.pubKey, ser_pub(m.P, False), 'pubkey'); eq(w.publicKey(), ser_pub(m.P, m.comp), 'public-key')
        if m.d: eq(w.privKey, wif(m.d, m.comp), 'privkey')
        else: mon.check(w.privKey is None, key + '-watch-only', 'private key appeared', got=w.privKey)
        eq(bool(w.compressed), m.comp, 'compressed'); eq(bool(w.testnet), m.testnet, 'network'); eq(w.vcn, m.vcn, 'nonce'); eq(w.address, text(m), 'address')
    else:
        n = m.node
        mon.check(type(w).__name__ == 'HDWallet', key + '-class', type(w).__name__)
        if n.d is not None: eq(w.prvkey(), n.d.to_bytes(32, 'big'), 'privkey')
        else: mon.check(w.prvkey() is None, key + '-watch-only', 'private key appeared', got=w.prvkey())
        eq(w.chain(), n.chain, 'chain'); eq(w.depth(), n.depth, 'depth'); eq(w.childnum(), n.num, 'childnum'); eq(w.vcn, m.vcn, 'nonce'); eq(w.parentfp(), n.fp, 'parentfp')
        if n.d is not None: eq(w.to_extended_key(True), n.ext(True), 'xprv')
        if deep is not False:
            eq(w.pubkey(), ser_pub(n.P, False)[1:], 'pubkey'); eq(w.address(), text(m), 'address')
            eq(w.fingerprint(), codec.hash160(ser_pub(n.P, True))[:4], 'fingerprint'); eq(w.to_extended_key(), n.ext(False), 'xpub')
    if deep:
        msg = gen.data(rng, 100)
        if m.secret is not None:
            s = mon.ok(key + '-sign', 'signing', w.sign, msg)
            z = int.from_bytes(codec.dsha(msg), 'big')
            mon.check(ec.K1.verify(m.pub, z, *codec.liberal_sig(s)), key + '-signature', 'reloaded wallet signs with another key', model=m)
        else:
            mon.refused(key + '-sign', 'watch-only wallet signed', w.sign, msg)
            z = int.from_bytes(codec.dsha(msg), 'big')
        if m.secret is None:
            mon.check(w.verify(msg, codec.der_sig(7, 7)) is False, key + '-verify')
        elif rng.random() < .5: mon.check(w.verify(msg, s) is True, key + '-verify', model=m)
        if m.kind == 'hd' and m.node.depth < 255:
            i = rng.choice([0, 1, 0x7fffffff] + ([0x80000000, 0xffffffff] if m.node.d is not None else []))
            c = mon.ok(key + '-child', 'deriving', w.child, i)
            compare(mon, c, M(kind='hd', node=m.node.child(i), vcn=m.vcn), key + '-child')

def plain_forms(d):
    """plain forms of a private key"""
    import base64
    k = d.to_bytes(32, 'big'); out = {'raw': k, 'hex': k.hex().encode(), 'base64': base64.b64encode(k)[:42], 'decimal': str(d).encode(), 'reversed': k[::-1]}
    for c in (0, 1):
        w = wif(d, c); out['wif%d' % c] = w; out['wif%d-hex' % c] = w.hex().encode(); out['wif%d-base64' % c] = base64.b64encode(w)[:60]
    for i in (1, 2): out['base64+%d' % i] = base64.b64encode(b'xy'[:i] + k)[4:40]
    return out

def leaks(data, d, windows=True):
    """names of the plain forms of d found in the bytes (also below one hex layer)"""
    import re, base64
    found = []
    layers = [data]
    for h in re.findall(rb'[0-9a-fA-F]{16,}', data):
        for o in (0, 1):
            x = h[o:]; layers.append(bytes.fromhex(x[:len(x) & ~1].decode()))
    for h in re.findall(rb'[0-9A-Za-z+/]{16,}=*', data):
        for o in range(4):
            x = h[o:].rstrip(b'='); x = x[:len(x) & ~3]
            if x: layers.append(base64.b64decode(x))
    for L in layers:
        for n, f in plain_forms(d).items():
            if f in L or f.lower() in L.lower() and n.split('-')[-1] == 'hex': found.append(n)
        if windows:
            k = d.to_bytes(32, 'big')
            if any(k[i:i + 8] in L for i in range(25)): found.append('part of raw key')
            for c in (0, 1):
                w = wif(d, c)
                if any(w[i:i + 12] in L for i in range(len(w) - 11)): found.append('part of wif')
    return sorted(set(found))

def write_file(rng, m, passphrase=b''):
    """the file format, written independently"""
    import json
    from .ref import aes
    def prv(b):
        b = b'%02x' % len(b) + b
        if passphrase:
            b += bytes(-len(b) % 16); b = aes.cbc_e(passphrase[:16].ljust(16, b'\0'), bytes(16), b)
        return b.hex()
    cfg = {'encrypted': bool(passphrase) and m.secret is not None, 'vcn': m.vcn, 'testnet': m.net}
    if m.kind == 'addr':
        cfg.update(type='default', prvkey=None, pubkey=None)
        if m.d: cfg['prvkey'] = prv(wif(m.d, m.comp))
        else: cfg['pubkey'] = ser_pub(m.P, m.comp).hex()
    else:
        n = m.node
        cfg.update(type='HD', chain=n.chain.hex(), depth=n.depth, parentfp=n.fp.hex(), childnum=n.num, prvkey=None, pubkey=None)
        if n.d is not None: cfg['prvkey'] = prv(n.d.to_bytes(32, 'big'))
        else: cfg['pubkey'] = ser_pub(n.P, True).hex()
    return json.dumps(cfg)
