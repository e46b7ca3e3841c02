import json, os, tempfile
from ..core import Family
from .. import gen, wal
from ..ref import codec, ec
from ..ref.codec import Node, ser_pub
from ..wal import M, N
from .h01 import index, seed, Forced
from nbc import wallet
from nbc.wallet import HDWallet
ANCHORS = ['nbc/wallet/hdwallet.py', 'nbc/wallet/__init__.py']
RULE = 'random trees; each non-hardened path is derived from the private side, from the public side and mixed (neutering at every point), and everything the public side yields is searched for private keys; distinct = distinct nodes'
ASSUMPTIONS = ['the BIP32 model in rv/ref/codec.py']

def neuter(mon, rng, w, m):
    """the public side of a wallet, several ways"""
    k = rng.randrange(4)
    if k == 0: v = HDWallet.from_extended_key(w.to_extended_key(), vcn=m.vcn)
    elif k == 1: v = HDWallet.from_extended_key(wal.tob(w.to_extended_key(False)).decode(), m.vcn)
    elif k == 2: v = HDWallet(w.point(), w.chain(), vcn=m.vcn, testnet=m.net, depth=w.depth(), parentfp=w.parentfp(), childnum=w.childnum())
    else:
        v = HDWallet.from_extended_key(w.to_extended_key(), vcn=m.vcn); fn = os.path.join(tempfile.mkdtemp(), 'w')
        wallet.saveTo(fn, v, *([b'pass'] if rng.random() < .5 else [])); v = wallet.loadFrom(fn)
    return v, M(kind='hd', node=m.node.neuter(), vcn=m.vcn)

def yields(mon, w):
    """everything a wallet shows, as one byte string"""
    out = []
    def add(x):
        if isinstance(x, bytes): out.append(x)
        elif isinstance(x, int): out.append(x.to_bytes((max(x.bit_length(), 1) + 7) // 8, 'big') if x >= 0 else b''); out.append(str(x).encode())
        else: out.append(str(x).encode('latin-1', 'replace'))
    for f in (w.to_extended_key, lambda: w.to_extended_key(False), lambda: w.to_extended_key(include_prv=0), w.address, w.pubkey, w.chain, w.fingerprint, w.parentfp, w.childnum, w.depth, lambda: str(w), lambda: repr(w), lambda: w.point().x(), lambda: w.point().y()):
        st, v = mon.call(f)
        if st == 'ok':
            add(v)
            b = codec.b58check_d(wal.tob(v)) if isinstance(v, (str, bytes)) and len(v) > 80 else None
            if b: out.append(b)
        else: mon.check(False, 'accessor-raises', '%r' % v)
    return b'|'.join(out)

def secrets_in(data, d):
    if d.bit_length() < 128: return []                    # short numbers occur by chance
    return wal.leaks(data, d, windows=d.bit_length() > 200)

def public_only(mon, rng, v, m, ds):
    """a public wallet refuses and shows nothing"""
    for x in (0x80000000, 0xffffffff, index(rng) | 0x80000000): mon.refused('hardened', 'hardened derivation from a public wallet', v.child, x); mon.ev('hardened-refused')
    mon.refused('signs', 'a public wallet signed', v.sign, gen.data(rng))
    mon.refused('xprv', 'a public wallet gave an extended private key', v.to_extended_key, True)
    mon.refused('xprv', 'a public wallet gave an extended private key', v.to_extended_key, include_prv=1)
    mon.check(v.prvkey() is None, 'prvkey', 'a public wallet has a private key', got=v.prvkey())
    for p in (b'', b'secret'):
        fn = os.path.join(tempfile.mkdtemp(), 'w')
        mon.ok('save-raises', 'saving', wallet.saveTo, fn, v, p)
        b = open(fn, 'rb').read(); j = json.loads(b)
        mon.check(not j.get('prvkey'), 'saved-prvkey', 'the file of a public wallet has a private key', file=b)
        for d in ds: mon.check(not secrets_in(b, d), 'saved-leak', 'the file of a public wallet contains private material', file=b)
        r = wallet.loadFrom(fn); mon.check(r.prvkey() is None, 'reloaded-prvkey', 'the reloaded public wallet has a private key'); mon.refused('signs', 'signed', r.sign, b'x'); mon.refused('hardened', 'hardened from reloaded', r.child, 0x80000000)
        mon.ev('files')
    y = yields(mon, v)
    for d in ds: mon.check(not secrets_in(y, d), 'leak', 'a public wallet shows private material', forms=secrets_in(y, d), wallet=m)
    mon.ev('searched')

def agree(rng, mon, i):
    net = rng.random() < .5; v = gen.vcn(rng)
    if rng.random() < .5: m = M(kind='hd', node=Node.master(seed(rng), net), vcn=v)
    else:
        m = wal.hd_model(rng, True)
        if m.node.depth > 250: m.node.depth = 250
    w = wal.make(rng, m)
    if rng.random() < .3:                                    # below a hardened node
        x = index(rng) | 0x80000000; w = w.child(x); m = M(kind='hd', node=m.node.child(x), vcn=m.vcn)
    ds = [m.node.d]; p, pm = neuter(mon, rng, w, m)
    wal.compare(mon, p, pm, 'neutered')
    for _ in range(rng.randint(1, 4)):
        x = index(rng, False)
        w = mon.ok('child-raises', 'private child', w.child, x); p = mon.ok('child-raises', 'public child', p.child, x)
        m = M(kind='hd', node=m.node.child(x), vcn=m.vcn); pm = M(kind='hd', node=m.node.neuter(), vcn=m.vcn); ds.append(m.node.d)
        wal.compare(mon, w, m, 'private'); wal.compare(mon, p, pm, 'public')
        q, qm = neuter(mon, rng, w, m)
        for f in ('chain', 'fingerprint', 'address', 'pubkey', 'depth', 'childnum', 'parentfp', 'to_extended_key'):
            mon.eq(getattr(p, f)(), getattr(q, f)(), 'sides-' + f, 'public derivation and neutered private derivation differ')
        mon.eq((p.point().x(), p.point().y()), m.node.P, 'point'); mon.eq((p.vcn, q.vcn), (m.vcn,) * 2, 'nonce')
        mon.ev('agreed'); mon.seen(m.node.ext(False))
        if rng.random() < .3: p = q                           # neutering anywhere is the same
    y = yields(mon, w)                                        # the private wallet's public outputs
    for d in ds: mon.check(not secrets_in(y, d), 'private-leak', 'public output of a private wallet contains private material', forms=secrets_in(y, d), wallet=m)
    x = w.to_extended_key(); b = codec.b58check_d(x); mon.check(b is not None and b[:4] in (bytes.fromhex('0488b21e'), bytes.fromhex('043587cf')) and b[45] in (2, 3), 'xpub-form', got=x)
    public_only(mon, rng, p, pm, ds)
    if i % 4 == 0:
        msg = gen.data(rng); s = w.sign(msg); mon.eq(p.verify(msg, s), True, 'verify', 'public side rejects the private side\'s signature'); mon.ev('verified')
    mon.sample(path_end=pm, xpub=x)

def forced(rng, mon, i):
    """derivation output at its limits agrees on both sides"""
    d, P = gen.keypair(rng); chain = gen.raw(rng, 32); x = index(rng, False)
    w = HDWallet(d, chain, vcn=2); p = HDWallet(wal.point(P), chain, vcn=2)
    for IL in [0, 1, 2, N - 1, d, 2 * d % N, (1 - d) % N, (2 - d) % N, N - d, N, 2**256 - 1, rng.getrandbits(64), (rng.getrandbits(90) - d) % N]:
        with Forced(IL) as f: a, b = mon.call(w.child, x), mon.call(p.child, x)
        if not f.calls: continue
        mon.eq(a[0], b[0], 'forced-verdict', 'one side refuses a child, the other derives it', IL=hex(IL), private=a, public=b)
        if IL in (N - d, N, 2**256 - 1): mon.eq(a[0], 'exc', 'forced-unusable', 'unusable material accepted', IL=hex(IL)); mon.ev('forced-refused'); continue
        if a[0] == 'ok':
            A, B = a[1], b[1]
            for g in ('chain', 'fingerprint', 'address', 'pubkey', 'depth', 'childnum', 'parentfp', 'to_extended_key'):
                mon.eq(getattr(A, g)(), getattr(B, g)(), 'forced-' + g, 'public and private derivation differ', IL=hex(IL))
            mon.ev('forced'); mon.seen('forced', d, IL)

def siblings(rng, mon, i):
    """many public children of one node: their points must sum to n*parent + (sum of the key halves)*G"""
    import hashlib, hmac
    m = wal.hd_model(rng, True)
    if i % 4 and m.node.depth < 4: m.node.depth, m.node.fp = rng.randint(4, 250), gen.raw(rng, 4)
    if m.node.depth > 250: m.node.depth = 250
    p = HDWallet.from_extended_key(m.node.neuter().ext(False), vcn=m.vcn)
    C = ec.K1; key = m.node.chain; head = ser_pub(m.node.P, True); tot = None; sl = 0; n = 0
    base = rng.choice([0, 0, rng.getrandbits(31), 0x7fffffff - 150])
    for x in range(base, min(base + 120, 0x80000000)):
        I = hmac.new(key, head + x.to_bytes(4, 'big'), hashlib.sha512).digest(); il = int.from_bytes(I[:32], 'big')
        c = mon.ok('child-raises', 'public child %d' % x, p.child, x)
        mon.eq((c.chain(), c.childnum(), c.depth(), c.parentfp(), c.vcn), (I[32:], x, m.node.depth + 1, codec.hash160(head)[:4], m.vcn), 'sibling-fields', index=x)
        tot = C.add(tot, (c.point().x(), c.point().y())); sl += il; n += 1
    want = C.add(C.mul(n, m.node.P), C.mul(sl % N, C.G))
    mon.eq(tot, want, 'sibling-points', 'some public child of these is a wrong point', first=base, count=n, wallet=m)
    mon.ev('siblings', n); mon.seen('siblings', m.node.P, base)

FAMILIES = [Family('agree', agree, 110, 4000), Family('forced', forced, 24, 600), Family('siblings', siblings, 24, 600)]
REQUIRED = {'agreed': 150, 'hardened-refused': 300, 'files': 200, 'searched': 100, 'verified': 20, 'siblings': 2000}
