from ..core import Family
from .. import gen, wal
from ..ref import codec, ec
from ..ref.codec import Node, ser_pub, b58e, dsha
from ..wal import M, N
from .h01 import index, seed
from .w04 import nonce
from nbc.wallet import HDWallet
ANCHORS = ['nbc/wallet/hdwallet.py', 'nbc/util/base58.py']
RULE = 'extended keys of random nodes, both kinds, networks and all depths; malformed ones: edited texts, wrong length, version, checksum, key prefix, key out of range, x coordinate not on the curve; distinct = distinct texts'
ASSUMPTIONS = ['a parent fingerprint or child number other than zero at depth zero is not judged']
K = ec.K1
VERS = {(0, 0): '0488b21e', (0, 1): '0488ade4', (1, 0): '043587cf', (1, 1): '04358394'}

def imp(mon, t, **kw): return mon.ok('import-raises', 'importing a valid extended key', HDWallet.from_extended_key, t, **kw)

def roundtrip(rng, mon, i):
    m = wal.hd_model(rng); n = m.node
    if rng.random() < .3: n.depth = rng.randint(1, 255); n.num = index(rng)
    for prv in ([False, True] if n.d is not None else [False]):
        t = n.ext(prv); g, v = nonce(rng)
        m2 = M(kind='hd', node=n if prv else n.neuter(), vcn=v)
        w = imp(mon, t if rng.random() < .6 else t.decode(), vcn=g)
        if rng.random() < .5: mon.eq(wal.tob(w.to_extended_key(prv)), t, 'text', 'the imported wallet has another extended key')
        wal.compare(mon, w, m2, 'imported')
        mon.eq(wal.tob(w.to_extended_key(prv)), t, 'text', 'the imported wallet has another extended key')
        w2 = imp(mon, w.to_extended_key(prv), vcn=v); wal.compare(mon, w2, m2, 'imported-again')
        mon.ev('imported-private' if prv else 'imported-public'); mon.ev('testnet' if n.testnet else 'mainnet'); mon.seen(t)
        if n.depth < 255 and rng.random() < .3: x = index(rng, prv); wal.compare(mon, w.child(x), M(kind='hd', node=m2.node.child(x), vcn=v), 'imported-child')
        if rng.random() < .15: wal.compare(mon, w, m2, 'imported', deep=True, rng=rng)
    # what a wallet built otherwise exports, it imports as the same
    w = wal.make(rng, m)
    for prv in ([False, True] if n.d is not None else [False]):
        wal.compare(mon, imp(mon, w.to_extended_key(prv), vcn=m.vcn), M(kind='hd', node=n if prv else n.neuter(), vcn=m.vcn), 'exported')
    mon.sample(node=m, xpub=n.ext(False))

def pack(ver, depth, fp, num, chain, key): return bytes.fromhex(ver) + bytes([depth]) + fp + num.to_bytes(4, 'big') + chain + key
def chk(b): return b58e(b + dsha(b)[:4])

def hostile(rng, n):
    """(what, text) of malformed extended keys"""
    good = n.ext(n.d is not None); raw = codec.b58check_d(good)
    prvv, pubv = VERS[int(n.testnet), 1], VERS[int(n.testnet), 0]
    k = rng.randrange(9)
    if k == 0:
        t = gen.mutate(rng, good, codec.AL.encode() if rng.random() < .8 else None)
        return 'edited', t
    if k == 1:
        b = rng.choice([raw[:-1], raw + b'\0', raw[1:], b'\0' + raw, raw[:rng.randrange(78)], raw + gen.raw(rng, rng.randint(1, 30)), b'', raw + raw, raw[:45] + raw[46:], raw[:4] + raw[5:]])
        return 'length', chk(b)
    if k == 2:
        v = rng.choice([gen.raw(rng, 4), bytes(4), b'\xff' * 4, bytes.fromhex('0488b21f'), bytes.fromhex('0488ade5'), bytes.fromhex('043587d0'), bytes.fromhex('04b24746'), bytes.fromhex('045f1cf6'), gen.mutate(rng, raw[:4])[:4].ljust(4, b'\0'), raw[:4][::-1]])
        if v.hex() in VERS.values(): return None
        return 'version', chk(v + raw[4:])
    if k == 3:
        c = dsha(raw)[:4]; c2 = rng.choice([c[::-1], bytes(4), bytes([c[0] ^ 1]) + c[1:], c[:3] + bytes([c[3] ^ 128]), c[:2] + bytes([c[2] ^ 4]) + c[3:], dsha(raw)[4:8], dsha(dsha(raw))[:4], __import__('hashlib').sha256(raw).digest()[:4]])
        return ('checksum', b58e(raw + c2)) if c2 != c else None
    if k == 4:
        z = rng.choice([0, N, N + 1, 2**256 - 1, N + rng.getrandbits(100), 2 ** 256 - 1 - rng.getrandbits(30)])
        return ('key-range', chk(bytes.fromhex(prvv) + raw[4:45] + b'\0' + z.to_bytes(32, 'big'))) if z < 2**256 else None
    if k == 5:
        while True:
            x = rng.choice([rng.getrandbits(256) % K.p, rng.randrange(100), K.p - 1 - rng.randrange(100)])
            if K.lift_x(x, 0) is None: break
        return 'off-curve', chk(bytes.fromhex(pubv) + raw[4:45] + bytes([2 + rng.randrange(2)]) + x.to_bytes(32, 'big'))
    if k == 6:
        while True:
            x = K.p + rng.randrange(2**256 - K.p) if rng.random() < .5 else K.p + rng.randrange(100)
            if rng.random() < .2 or K.lift_x(x % K.p, 0) is not None: break
        return 'x-range', chk(bytes.fromhex(pubv) + raw[4:45] + bytes([2 + rng.randrange(2)]) + x.to_bytes(32, 'big'))
    if k == 7:
        pre = rng.choice([0, 1, 4, 5, 6, 7, 0x80, 0x82, 255, rng.randrange(256)])
        if pre in (2, 3): return None
        return 'prefix-public', chk(bytes.fromhex(pubv) + raw[4:45] + bytes([pre]) + n.P[0].to_bytes(32, 'big'))
    pre = rng.choice([1, 2, 3, 4, 0x80, 255, rng.randrange(1, 256)])
    return 'prefix-private', chk(bytes.fromhex(prvv) + raw[4:45] + bytes([pre]) + (n.d or 5).to_bytes(32, 'big'))

def malformed(rng, mon, i):
    m = wal.hd_model(rng); n = m.node
    for _ in range(25):
        h = hostile(rng, n)
        if not h: continue
        what, t = h
        b = codec.b58check_d(t)
        if what == 'edited' and b is not None and len(b) == 78: continue
        mon.refused('accepted-' + what, 'a malformed extended key was imported', HDWallet.from_extended_key, t if rng.random() < .7 else t.decode('latin-1'), vcn=1)
        mon.ev('malformed'); mon.ev('bad-' + what); mon.seen(t)
    good = n.ext(n.d is not None)
    for t in (b'', '', b'1', good[:-1], good + b' ', b' ' + good, good + b'\n', good + b'\r\n', b'\t' + good, b'\n' + good, good + b'\t', good + b'\x0b', good + b'\x85', b'\xa0' + good, good[:50] + b' ' + good[50:], good[:50] + b'\n' + good[50:], b'"' + good + b'"', good + b'1', b'1' + good, good + good, good.replace(b'x', b'X'), good.lower(), b'\0' + good, good + b'\0', None, 5, [], good[1:], codec.wif(5, 1), b'xprv', codec.b58d(good), codec.b58d(good).hex(), wal.text(m)):
        if t == good: continue
        if isinstance(t, bytes): mon.refused('accepted-text', 'something that is not an extended key was imported', HDWallet.from_extended_key, t.decode('latin-1'), vcn=1)
        mon.refused('accepted-key', 'an HD wallet was made from something that is not a key', HDWallet, rng.choice([str(t), 1.5, b'k' * 32, (1, 2)]) , b'c' * 32, vcn=1)
        mon.refused('accepted-text', 'something that is not an extended key was imported', HDWallet.from_extended_key, t, vcn=1); mon.ev('malformed')

FAMILIES = [Family('roundtrip', roundtrip, 200, 8000), Family('malformed', malformed, 120, 6000)]
REQUIRED = {'imported-private': 80, 'imported-public': 150, 'testnet': 50, 'malformed': 2500, 'bad-edited': 100, 'bad-length': 100, 'bad-version': 100, 'bad-checksum': 100, 'bad-key-range': 80, 'bad-off-curve': 80, 'bad-x-range': 80, 'bad-prefix-public': 80, 'bad-prefix-private': 80}
