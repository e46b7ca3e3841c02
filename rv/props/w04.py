import os, random
from ..core import Family
from .. import gen, wal
from ..ref import codec, ec
from ..ref.codec import Node, ser_pub, wif, address
from ..wal import M
from nbc import util
from nbc.util import key as nkey
from nbc.wallet import Address, HDWallet
ANCHORS = ['nbc/wallet/address.py', 'nbc/wallet/hdwallet.py', 'nbc/util/key.py']
RULE = 'random keys x compression x network x nonce (limits, negative and huge integers) x way of building the wallet; drawn nonces: 1.6 million wallets per constructor, every 16-bit value must occur; distinct = distinct address texts / drawn values'

def nonce(rng):
    """(given, effective)"""
    v = gen.vcn(rng)
    k = rng.random()
    if k < .3: g = v
    elif k < .5: g = v - 65536
    elif k < .6: g = v + 65536
    elif k < .75: g = v + 65536 * rng.randint(-5, 5)
    else: g = v + 65536 * rng.choice([1, -1]) * rng.getrandbits(rng.choice([8, 16, 40, 64, 200]))
    if v in (0, 1) and rng.random() < .1: g = bool(v)
    return g, v

def judge(mon, w, m, key):
    wal.compare(mon, w, m, key)
    t = wal.text(m); a = w.address() if m.kind == 'hd' else w.address
    mon.check(t.decode() in str(w), key + '-str', 'the printed wallet shows another address', got=str(w), want=t)
    b = codec.b58check_d(a)
    mon.check(b is not None and b[:1] == (b'\x6f' if m.net else b'\0') and b[1:5] == b'%04x' % m.vcn and len(b) == 37, key + '-form', 'address text is not of the documented form', got=a)
    if m.kind == 'hd':
        for ver in (b'\0', b'\x6f', b'\x05'):
            mon.eq(wal.tob(w.address(ver)), address(ser_pub(m.pub, True), m.vcn, ver), key + '-version', 'address with a version byte given')
        mon.eq(wal.tob(w.address()), t, key + '-version-sticks', 'asking for another version changed the address')
    mon.ev('addresses'); mon.seen(a)

def forms(rng, mon, i):
    """one key in every form"""
    d, P = gen.keypair(rng); g, v = nonce(rng); net = rng.random() < .5
    made = {}
    for comp in (False, True):
        for how in rng.sample(['pub', 'prv'], 2):
            m = M(kind='addr', d=d if how == 'prv' else None, P=P, comp=comp, vcn=v, testnet=net)
            kw = dict(vcn=g, testnet=net)
            w = mon.ok('make-raises', 'Address', Address, privKey=wif(d, comp), **kw) if how == 'prv' else mon.ok('make-raises', 'Address', Address, pubKey=ser_pub(P, comp), **kw)
            judge(mon, w, m, how)
            made[how, comp] = w
            k = made.setdefault(comp, w.address)
            mon.eq(w.address, k, 'disagree', 'wallet from public and from private key have different addresses')
    # conversions, any number of them
    for how in ('pub', 'prv'):
        comp = rng.random() < .5; w = made[how, comp]
        for _ in range(5):
            up = rng.random() < .5; old = w, w.address, comp
            w = mon.ok('convert-raises', 'conversion', w.compress if up else w.decompress); comp = up
            mon.eq(w.address, made[comp], 'convert-address', 'conversion gives another address', how=how)
            m = M(kind='addr', d=d if how == 'prv' else None, P=P, comp=comp, vcn=v, testnet=net)
            wal.compare(mon, w, m, 'converted'); mon.ev('conversions')
            mon.eq(old[0].address, old[1], 'convert-original', 'conversion changed the original'); mon.eq(bool(old[0].compressed), old[2], 'convert-original')
    comp = rng.random() < .5
    for pk in (ser_pub(P, comp), ser_pub(P, not comp), ser_pub(gen.keypair(rng)[1], comp), b''): mon.refused('both', 'a wallet of a private and a public key', Address, pubKey=pk, privKey=wif(d, comp), vcn=g, testnet=net)
    mon.refused('neither', 'a wallet of no key', Address, vcn=g, testnet=net)
    # HD of the same key: same compressed address
    n = Node(d, P, gen.raw(rng, 32), testnet=net)
    for key in (d, wal.point(P)):
        w = HDWallet(key, n.chain, vcn=g, testnet=net)
        m = M(kind='hd', node=n if key is d else n.neuter(), vcn=v)
        judge(mon, w, m, 'hd'); mon.eq(wal.tob(w.address()), wal.tob(made[True]), 'hd-disagree', 'HD and plain wallet of the key have different addresses')
        x = n.ext(key is d); judge(mon, HDWallet.from_extended_key(x if rng.random() < .5 else x.decode(), vcn=g), m, 'ext')
    c = rng.choice([0, 7, 0x7fffffff, 0x80000000, 0xffffffff])
    judge(mon, HDWallet(d, n.chain, vcn=g, testnet=net).child(c), M(kind='hd', node=n.child(c), vcn=v), 'child')
    mon.sample(key=d, nonce=g, network=net, compressed=made[True], uncompressed=made[False])

def text(rng, mon, i):
    """the text builders for arbitrary public keys"""
    for _ in range(60):
        pub = gen.raw(rng, 33) if rng.random() < .5 else gen.raw(rng, 65)
        pub = bytes([rng.choice([2, 3]) if len(pub) == 33 else 4]) + pub[1:]
        if rng.random() < .15: pub = gen.data(rng)
        g, v = nonce(rng); ver = rng.choice([b'\0', b'\x6f', bytes([rng.randrange(256)])])
        mon.eq(wal.tob(mon.ok('text-raises', 'publickey_to_address', nkey.publickey_to_address, pub, g, ver)), address(pub, v, ver), 'text', nonce=g)
        if ver == b'\0': mon.eq(wal.tob(nkey.publickey_to_address(pub, g)), address(pub, v, ver), 'text-default')
        mon.eq(wal.tob(nkey.pubkeyhash_to_address(pub[:32], g, ver)), codec.b58check_e(ver + b'%04x' % v + pub[:32]), 'hash-text', nonce=g)
        mon.ev('texts'); mon.seen(pub, v, ver)
        # watch-only wallets of on-curve uncompressed keys are cheap: many nonces
    d, P = gen.keypair(rng); pk = ser_pub(P, False)
    for _ in range(150):
        g, v = nonce(rng); net = rng.random() < .5
        w = Address(pubKey=pk, vcn=g, testnet=net)
        mon.eq((w.vcn, wal.tob(w.address)), (v, address(pk, v, b'\x6f' if net else b'\0')), 'nonce', 'nonce not counted modulo 65536', given=g); mon.ev('nonces'); mon.seen(g)

def every(rng, mon, i):
    """all 65536 nonces in turn, in 64 parts"""
    d, P = gen.keypair(rng); pk = ser_pub(P, False); net = i % 2 == 1; ver = b'\x6f' if net else b'\0'
    for v in range((i % 64) * 1024, (i % 64) * 1024 + 1024):
        w = Address(pubKey=pk, vcn=v, testnet=net)
        mon.eq((w.vcn, wal.tob(w.address)), (v, address(pk, v, ver)), 'every-nonce', given=v)
        if v % 4 == i % 4: mon.eq(wal.tob(nkey.publickey_to_address(pk, v - 65536, ver)), address(pk, v, ver), 'every-nonce-text', given=v - 65536)
    mon.ev('every-nonce', 1024); mon.seen('every', i % 64, net)

def allvalues(mon, key, parts):
    total = bytearray(65536); n = 0
    for b in parts:
        for j, x in enumerate(b):
            if x: total[j] = 1
    missing = [j for j in range(65536) if not total[j]]
    mon.check(not missing, key, 'drawn nonces never take %d of the 65536 values' % len(missing), missing=missing[:8])
    mon.ev('drawn-values', 65536)
    mon.seen('all', key)

def shards(fn, k):
    """runs fn() -> bytearray in k processes"""
    kids = []
    for _ in range(k):
        r, w = os.pipe(); pid = os.fork()
        if not pid:
            try:
                os.close(r); random.seed(); out = bytes(fn())
                while out: out = out[os.write(w, out):]
            finally: os._exit(0)
        os.close(w); kids.append((pid, r))
    res = []
    for pid, r in kids:
        b = b''
        while True:
            x = os.read(r, 1 << 16)
            if not x: break
            b += x
        os.close(r); os.waitpid(pid, 0); res.append(b)
    return [b for b in res if len(b) == 65536]

def drawn(rng, mon, i):
    """a nonce not given is drawn from the whole range"""
    d, P = gen.keypair(rng); pk = ser_pub(P, False); chain = gen.raw(rng, 32)
    if i % 2 == 0:
        seen = bytearray(65536)
        for _ in range(1600000): seen[HDWallet(d, chain).vcn] = 1
        mon.ev('draws', 1600000); allvalues(mon, 'drawn-hd', [seen])
    else:
        def go():
            seen = bytearray(65536)
            for _ in range(230000): seen[Address(pubKey=pk).vcn] = 1
            return seen
        parts = shards(go, 8)
        if len(parts) == 8: mon.ev('draws', 8 * 230000); allvalues(mon, 'drawn-address', parts)
        else: mon.ev('shards-failed'); go()

def drawn_other(rng, mon, i):
    """every other way of leaving the nonce out: each bit takes both values"""
    d, P = gen.keypair(rng); n = Node(d, P, gen.raw(rng, 32))
    ways = {'generate': lambda: Address.generate(), 'generate-testnet': lambda: Address.generate(None, True, False), 'private': lambda: Address(privKey=wif(d, True)), 'private5': lambda: Address(privKey=wif(d, False), testnet=True),
            'seed': lambda: HDWallet.from_master_seed(gen.raw(rng, 16)), 'xprv': lambda: HDWallet.from_extended_key(n.ext(True)), 'xpub': lambda: HDWallet.from_extended_key(n.ext(False)), 'hd-public': lambda: HDWallet(wal.point(P), n.chain), 'compressed': lambda: Address(pubKey=ser_pub(P, True))}
    name = sorted(ways)[i % len(ways)]
    vs = []
    for _ in range(45):
        w = ways[name](); vs.append(w.vcn); mon.check(0 <= w.vcn <= 0xffff, 'drawn-range', vcn=w.vcn)
        if isinstance(w, HDWallet): t = wal.tob(w.address())
        else: t = wal.tob(w.address)
        mon.check(codec.b58check_d(t)[1:5] == b'%04x' % w.vcn, 'drawn-address-nonce', 'the address has another nonce than the wallet', got=t, vcn=w.vcn)
    w2 = w.child(0) if isinstance(w, HDWallet) else w.decompress() if w.compressed else w.compress()
    mon.eq(w2.vcn, w.vcn, 'drawn-lost', 'child or conversion drew another nonce')
    for b in range(16):
        mon.check(len(set(v >> b & 1 for v in vs)) == 2, 'drawn-bit', 'bit %d of the nonce drawn by %s never changes' % (b, name), vs=vs)
    mon.ev('draw-ways'); mon.seen('way', name, vs[0])

FAMILIES = [Family('drawn', drawn, 2, 12, wall=800, cpu=300), Family('forms', forms, 120, 4000), Family('text', text, 100, 4000), Family('every', every, 64, 128, exhaustive=True), Family('drawn-other', drawn_other, 9, 90)]
REQUIRED = {'addresses': 800, 'conversions': 500, 'texts': 2000, 'nonces': 5000, 'draws': 1000000, 'draw-ways': 9, 'every-nonce': 65536}
ASSUMPTIONS = ['the independent address model in rv/ref/codec.py', 'a value absent from 1.6 million draws cannot occur (an honest generator misses any of the 65536 with probability below 1e-5)']
