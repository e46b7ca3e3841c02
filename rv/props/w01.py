import getpass, json, os, pathlib, tempfile
from ..core import Family, VERIF, everywhere
from .. import gen, wal
from ..ref import codec, ec
from ..ref.codec import Node
from ..wal import M
from nbc import wallet
ANCHORS = ['nbc/wallet/__init__.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py']
RULE = 'random wallets (kind x private/public x compression x network x nonce x tree position), pass phrases of 0 to 1000 bytes, save/load/convert/derive histories, files written by the released code; distinct = distinct (wallet, pass phrase length)'
_real = getpass.getpass

WORDS = ['\u5bc6\u7801', '\u5bc6', '\u20ac', '\u0416', '\U0001f511', 'a\u0142b', '\u94b1\u5305 ok', '\u7801\xe9']
def phrase(rng):
    k = rng.random()
    if k < .3: return b''
    n = rng.choice([1, 2, 8, 15, 16, 17, 31, 32, 40, rng.choice([48, 63, 64, 65, 100, 128, 300, 1000])])
    if k < .4: return ''.join(rng.choice(WORDS) for _ in range(rng.choice([1, 2, 3, 5, 6, 12]))).encode()
    if k < .7: return bytes(rng.randint(33, 126) for _ in range(n))
    return bytes(rng.getrandbits(8) for _ in range(n))

class Prompt(object):
    """stands in for the terminal"""
    def __init__(self, answers): self.answers, self.asked = list(answers), 0
    def __call__(self, *a, **k):
        self.asked += 1
        if not self.answers: raise EOFError('nobody types')
        return self.answers.pop(0)
    def __enter__(self):
        getpass.getpass = self
        everywhere(_real, self); return self
    def __exit__(self, *a):
        getpass.getpass = _real; everywhere(self, _real)

def load(mon, rng, fn, p, private):
    """with the pass phrase given, or typed"""
    if not p: return mon.ok('load-raises', 'loading', wallet.loadFrom, fn) if rng.random() < .7 else mon.ok('load-raises', 'loading', wallet.loadFrom, fn, b'')
    t = p.decode('latin-1'); how = rng.random()
    try: u = p.decode('utf-8')
    except ValueError: u = ''
    if any(ord(c) > 255 for c in u) and rng.random() < .7: t = u; mon.ev('words'); how *= .7    # text no single-byte encoding has, as in README
    if how < .35 and t.strip() == t:
        with Prompt([''] * rng.choice([0, 0, 1, 2]) + [t]) as pr: w = mon.ok('load-raises', 'loading with the pass phrase typed', wallet.loadFrom, fn)
        if private: mon.check(pr.asked >= 1, 'not-asked', 'opened without pass phrase'); mon.ev('typed')
        return w
    return mon.ok('load-raises', 'loading', wallet.loadFrom, fn, t if t == u and how < .6 or rng.random() < .2 else p)

def target(rng):
    d = tempfile.mkdtemp()
    k = rng.randrange(4); fn = os.path.join(d, rng.choice(['wallet.cfg', 'w', 'a b.json', 'x.tmp']))
    if k == 1: open(fn, 'w').write(rng.choice(['', '{}', 'x' * 5000, json.dumps({'type': 'HD'})]))
    if k == 2 and rng.random() < .5: os.symlink(os.path.join(d, 'real'), fn); open(os.path.join(d, 'real'), 'w').close()
    return fn

NAMES = ['wallet.cfg', 'a b.json', '100%s.cfg', '%d', '{0}', 'v\u00e4ske.json', '\u94b1\u5305', '-w', '.w', 'a\nb', "it's", 'w.tmp', 'x' * 219, 'x' * 255, 'l' * 250 + '.json', '\u94b1' * 80]
def named(rng, mon, i):
    """a wallet file is called and given as files can be"""
    d = tempfile.mkdtemp(); name = NAMES[i % len(NAMES)]; how = ['text', 'bytes', 'path', 'relative', 'link', 'up', 'relative-bytes'][i // len(NAMES) % 7]
    fn = os.path.join(d, name)
    if how == 'link': os.mkdir(os.path.join(d, 'sub')); os.symlink(os.path.join(d, 'sub'), os.path.join(d, 'there')); fn = os.path.join(d, 'there', name)
    if how == 'up': os.mkdir(os.path.join(d, 'sub')); fn = os.path.join(d, 'sub', '..', name)
    given = {'bytes': os.fsencode, 'path': pathlib.Path, 'relative': os.path.relpath, 'relative-bytes': lambda f: os.fsencode(os.path.relpath(f))}.get(how, str)(fn)
    for step in range(3):                                           # new, over itself, over itself
        m = wal.any_model(rng); p = phrase(rng); w = wal.make(rng, m); before = sorted(os.listdir(os.path.dirname(fn)))
        save(mon, rng, given, w, p)
        mon.eq(sorted(set(os.listdir(os.path.dirname(fn))) - {name}), sorted(set(before) - {name}), 'files', 'files beside the wallet after saving it as %r' % (given,))
        for f in (given, fn): wal.compare(mon, load(mon, rng, f, p, m.secret is not None), m, 'named', deep=False)
        mon.ev('loads', 2); mon.ev('name-' + how)
    mon.seen('named', name, how)

def save(mon, rng, fn, w, p):
    if p: mon.ok('save-raises', 'saving', wallet.saveTo, fn, w, p)
    elif rng.random() < .5: mon.ok('save-raises', 'saving', wallet.saveTo, fn, w)
    else: mon.ok('save-raises', 'saving', wallet.saveTo, fn, w, b'')

def roundtrip(rng, mon, i):
    m = wal.any_model(rng); p = phrase(rng); fn = target(rng)
    w = mon.ok('make-raises', 'constructing %r' % m, wal.make, rng, m)
    if rng.random() < .4: wal.compare(mon, w, m, 'made')           # touching accessors first must not matter
    save(mon, rng, fn, w, p)
    v = load(mon, rng, fn, p, m.secret is not None)
    wal.compare(mon, v, m, 'loaded', deep=rng.random() < .25, rng=rng)
    wal.compare(mon, w, m, 'saved')                                # the saved wallet is unchanged
    # a copy of the loaded wallet under another pass phrase; the first file stays readable
    q = phrase(rng); f2 = target(rng); save(mon, rng, f2, v, q)
    wal.compare(mon, load(mon, rng, f2, q, m.secret is not None), m, 'reloaded')
    wal.compare(mon, load(mon, rng, fn, p, m.secret is not None), m, 'loaded-again')
    mon.ev('loads', 3); mon.ev('%s-%s' % (m.kind, 'private' if m.secret else 'public')); mon.seen(repr(m), len(p), len(q))
    if p: mon.ev('encrypted')
    if m.net: mon.ev('testnet')
    mon.sample(wallet=m, passphrase=p, file=open(fn).read())

def history(rng, mon, i):
    """one file, many saves, conversions and derivations in between"""
    m = wal.any_model(rng); fn = target(rng); w = wal.make(rng, m)
    for step in range(8):
        k = rng.randrange(4)
        if m.kind == 'addr':
            if k == 0: w = w.compress(); m = M(**dict(m.__dict__, comp=True))
            elif k == 1: w = w.decompress(); m = M(**dict(m.__dict__, comp=False))
        elif k == 0 and m.node.depth < 255:
            c = rng.choice([0, 1, 5, 0x7fffffff] + ([0x80000000, 0xffffffff] if m.node.d is not None else []))
            w = mon.ok('child-raises', 'child', w.child, c); m = M(kind='hd', node=m.node.child(c), vcn=m.vcn)
        elif k == 1 and m.node.d is not None and rng.random() < .3:
            w = wallet.HDWallet.from_extended_key(w.to_extended_key(), vcn=m.vcn); m = M(kind='hd', node=m.node.neuter(), vcn=m.vcn)
        if k < 3:
            p = phrase(rng); save(mon, rng, fn, w, p); w = load(mon, rng, fn, p, m.secret is not None); mon.ev('loads')
            wal.compare(mon, w, m, 'history', deep=False)
    wal.compare(mon, w, m, 'history'); mon.seen('history', repr(m)); mon.ev('histories')

GOLD = json.load(open(os.path.join(VERIF, 'rv', 'golden', 'wallets.json')))
def golden(rng, mon, i):
    """files of the released version, and files written independently in its format"""
    g = GOLD[i % len(GOLD)]; fn = target(rng); P = tuple(g['P'])
    if g['kind'] == 'addr': m = M(kind='addr', d=g['d'], P=P, comp=g['comp'], vcn=g['vcn'], testnet=g['testnet'])
    else: m = M(kind='hd', node=Node(g['d'], P, bytes.fromhex(g['chain']), g['depth'], bytes.fromhex(g['fp']), g['num'], g['testnet']), vcn=g['vcn'])
    p = bytes.fromhex(g['passphrase'])
    for src, mm, pp in [(g['file'], m, p)] + [(wal.write_file(rng, x, y), x, y) for x, y in [(wal.any_model(rng), phrase(rng)) for _ in range(2)]]:
        open(fn, 'w').write(src)
        w = load(mon, rng, fn, pp, mm.secret is not None)
        wal.compare(mon, w, mm, 'golden'); mon.ev('golden'); mon.seen('golden', src)
        q = phrase(rng); save(mon, rng, fn, w, q); wal.compare(mon, load(mon, rng, fn, q, mm.secret is not None), mm, 'golden-resaved', deep=False)

class NoSync(object):
    def __enter__(self): self.old = os.fsync; os.fsync = lambda fd: None
    def __exit__(self, *a): os.fsync = self.old
class Key(object):
    def __init__(self, **kw): self.__dict__.update(kw)
def text(w): return w.address() if callable(w.address) else w.address
def nonces(rng, mon, i):
    """every nonce through a file, both kinds"""
    d, P = gen.keypair(rng); pub = codec.ser_pub(P, False); chain = gen.raw(rng, 32); pt = wal.point(P)
    with NoSync(), tempfile.TemporaryDirectory(dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None) as tmp:
        fn = os.path.join(tmp, 'w')
        for v in range(i * 512, i * 512 + 512):
            net = v & 1 == 0
            for w in (wallet.Address(pubKey=pub, vcn=v, testnet=net), wallet.HDWallet(d, chain, vcn=v, testnet=net) if v % 64 == 0 else wallet.HDWallet(pt, chain, vcn=v, testnet=net)):
                mon.ok('save-raises', 'saving', wallet.saveTo, fn, w); x = mon.ok('load-raises', 'loading', wallet.loadFrom, fn)
                mon.eq(text(x), text(w), 'nonce-address', 'the address changed in the file', vcn=v); mon.eq(text(x), codec.address(pub if isinstance(w, wallet.Address) else codec.ser_pub(P, True), v, b'\x6f' if net else b'\0'), 'nonce-address', vcn=v)
        for k in range(i % 128 * 2, i % 128 * 2 + 2):                # every depth
            n = Node(None, P, chain, k, gen.raw(rng, 4) if k else bytes(4), rng.getrandbits(32) if k else 0, bool(i & 1)); w = wallet.HDWallet.from_extended_key(n.ext(False), vcn=1)
            mon.ok('save-raises', 'saving', wallet.saveTo, fn, w); x = mon.ok('load-raises', 'loading', wallet.loadFrom, fn); mon.eq(x.to_extended_key(), n.ext(False), 'depth', 'the extended key changed in the file', depth=k); mon.ev('depths')
    mon.ev('nonces', 512); mon.seen('nonces', i)

FAMILIES = [Family('named', named, 112, 224, exhaustive=True), Family('nonces', nonces, 128, 128, exhaustive=True), Family('roundtrip', roundtrip, 260, 10000), Family('history', history, 80, 3000), Family('golden', golden, 80, 2000)]
REQUIRED = {'name-bytes': 20, 'name-path': 20, 'name-relative': 20, 'name-link': 20, 'nonces': 65536, 'depths': 256, 'loads': 900, 'golden': 200, 'encrypted': 100, 'typed': 20, 'words': 30, 'testnet': 50, 'addr-private': 30, 'addr-public': 20, 'hd-private': 30, 'hd-public': 20}
