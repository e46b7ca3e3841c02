import json, os, stat, sys, tempfile
from ..core import Family, VERIF
from .. import gen, wal
from ..ref import aes, codec, ec
from ..wal import M
from nbc import wallet
from .w01 import target
ANCHORS = ['nbc/wallet/__init__.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py']
RULE = 'high-entropy keys saved under random pass phrases; every pass phrase differing in one bit, byte, case or length, random ones, and ones searched so that the decrypted length prefix is plausible; distinct = (wallet, wrong pass phrase)'
TRI = json.load(open(os.path.join(VERIF, 'rv', 'golden', 'wrongpass.json')))

def model(rng):
    d = rng.randrange(1 << 200, ec.K1.n); P = ec.K1.mul(d, ec.K1.G)
    if rng.random() < .5: return M(kind='addr', d=d, P=P, comp=rng.random() < .5, vcn=gen.vcn(rng), testnet=rng.random() < .5)
    m = wal.hd_model(rng, True); m.node.d, m.node.P = d, P
    return m

def phrase(rng):
    n = rng.choice([1, 2, 5, 8, 12, 15, 16, 17, 20, 32])
    b = bytes(rng.randint(33, 126) for _ in range(n)) if rng.random() < .6 else gen.raw(rng, n)
    if rng.random() < .25 and len(b) > 3:                          # NULs inside count
        b = bytearray(b)
        for j in rng.sample(range(1, len(b)), min(3, len(b) - 1)): b[j] = 0
        b = bytes(b)
    return b if b.strip(b'\0') else b'x' + b

eff = lambda p: p[:16].ljust(16, b'\0')

def hidden(rng, mon, i):
    m = model(rng); fn = target(rng); w = wal.make(rng, m); p = phrase(rng)
    mon.ok('save-raises', 'saving', wallet.saveTo, fn, w, p)
    d = open(fn, 'rb').read()
    f = wal.leaks(d, m.secret)
    mon.check(not f, 'key-visible', 'the file shows the private key: %s' % f, file=d, passphrase=p)
    if len(eff(p).rstrip(b'\0')) >= 8:
        mon.check(p not in d and p.hex().encode() not in d and eff(p).hex().encode() not in d, 'passphrase-visible', 'the file holds the pass phrase', file=d)
    # self-test of the search: the unencrypted file shows it
    wallet.saveTo(fn, w); mon.check(wal.leaks(open(fn, 'rb').read(), m.secret), 'search-blind', 'the search does not find the key in an unencrypted file')
    mon.ev('searched'); mon.seen('hidden', m.secret, p)
    # the same wallet saved under the same phrase again and over an unencrypted file
    wallet.saveTo(fn, w, p); f = wal.leaks(open(fn, 'rb').read(), m.secret)
    mon.check(not f, 'key-visible', 'saving over an unencrypted file leaves the key visible: %s' % f, passphrase=p)
    for x in os.listdir(os.path.dirname(fn)):
        y = os.path.join(os.path.dirname(fn), x)
        if os.path.isfile(y): mon.check(not wal.leaks(open(y, 'rb').read(), m.secret), 'key-visible', 'in %s' % x)
    mon.sample(passphrase=p, file=d)

def printed(rng, mon, i):
    """what a wallet prints of itself holds no key"""
    for _ in range(6):
        m = model(rng)
        if m.kind == 'hd' and rng.random() < .6:
            m.node.depth = rng.randint(0, 255)
            if not m.node.depth: m.node.fp, m.node.num = bytes(4), 0
        w = wal.make(rng, m)
        if rng.random() < .5: fn = target(rng); p = phrase(rng); wallet.saveTo(fn, w, p); w = wallet.loadFrom(fn, p)
        for how, f in (('str', str), ('repr', repr), ('format', '{}'.format), ('%s', lambda x: '%s' % x), ('list', lambda x: str([x]))):
            t = mon.ok('print-raises', how, f, w); bad = wal.leaks(t.encode('utf-8', 'replace'), m.secret)
            mon.check(not bad, 'printed-key', '%s of a wallet shows its private key: %s' % (how, bad), model=m, text=t)
            if m.kind == 'hd': mon.check(m.node.ext(True).decode()[20:] not in t, 'printed-key', '%s shows the extended private key' % how, model=m)
        mon.ev('printed'); mon.seen('printed', m.secret)

def near(rng, p):
    out = []
    b = bytearray(p); j = rng.randrange(min(16, len(b))); b[j] ^= 1 << rng.randrange(8); out.append(bytes(b))
    for j in range(min(len(p), 16)):
        b = bytearray(p); b[j] ^= rng.choice([1, 32, 128]); out.append(bytes(b))
    out += [p.swapcase(), p.upper(), p[:-1], p[1:], p + b'x', b' ' + p, p + b' ', p + b'\n', p[::-1], p + p, p[:15], p[:8], p[:1], b'\0' + p, p[:16] + b'x', p + b'\0', gen.raw(rng, 16), gen.raw(rng, 5), b'password']
    return [x for x in out if x]

def plausible(rng, first, kind, n):
    """wrong pass phrases that decrypt the first block to a believable length prefix"""
    out = []
    lo, hi = (31, 46) if kind == 'hd' else (47, 62)
    for _ in range(n):
        q = bytes(rng.randint(33, 126) for _ in range(7)); t = aes.AES(eff(q)).dec(first)[:2]
        try: v = int(t, 16)
        except ValueError: continue
        if lo <= v <= hi or v in (0, 32, 33, 51, 52): out.append(q)
    return out

def open_(mon, fn, q):
    return mon.call(wallet.loadFrom, fn, q)

def wrong(rng, mon, i):
    m = model(rng); fn = target(rng); w = wal.make(rng, m); p = phrase(rng)
    wallet.saveTo(fn, w, p)
    first = bytes.fromhex(json.load(open(fn))['prvkey'])[:16]
    qs = near(rng, p) + plausible(rng, first, m.kind, 900)
    for q in qs:
        st, v = open_(mon, fn, q)
        if eff(q) == eff(p):
            mon.check(st == 'ok', 'right-phrase-refused', 'equal in the first 16 bytes', right=p, given=q, error=v)
            wal.compare(mon, v, m, 'same-effective', deep=False); mon.ev('same_effective')
        else:
            mon.check(st == 'exc', 'wrong-phrase-accepted', 'a wallet was returned', right=p, given=q, model=m); mon.ev('wrong')
        mon.seen(m.secret, q)
    t = open(fn).read()
    mon.check(t == open(fn).read(), 'file-changed')

def triples(rng, mon, i):
    """wrong pass phrase under which the length prefix decrypts to exactly the right one"""
    d, p1, p2 = TRI[i % len(TRI)]; d = int(d, 16); fn = target(rng)
    m = M(kind='hd', node=codec.Node(d, (0, 0), gen.raw(rng, 32), 1, gen.raw(rng, 4), 0, False), vcn=gen.vcn(rng))
    w = wallet.HDWallet(d, m.node.chain, vcn=m.vcn, depth=1, parentfp=m.node.fp, childnum=0)
    wallet.saveTo(fn, w, bytes.fromhex(p1))
    st, v = mon.call(wallet.loadFrom, fn, p2.encode())
    mon.check(st == 'exc', 'wrong-phrase-accepted', 'a wallet with another key was returned', key=d, right=p1, given=p2)
    v = mon.ok('right-phrase-refused', 'the right pass phrase', wallet.loadFrom, fn, bytes.fromhex(p1)); mon.eq(v.prvkey(), d.to_bytes(32, 'big'), 'privkey')
    first = bytes.fromhex(json.load(open(fn))['prvkey'])[:16]
    if aes.AES(eff(p2.encode())).dec(first)[:2] == b'20': mon.ev('plausible_prefix')
    mon.seen('triple', d)

def types(rng, mon, i):
    m = model(rng); fn = target(rng); w = wal.make(rng, m); old = wal.any_model(rng)
    wallet.saveTo(fn, wal.make(rng, old)); before = open(fn, 'rb').read(); names = sorted(os.listdir(os.path.dirname(fn)))
    for p in ('secret', 'x', '\u20ac', 5, 1.5, [1], ['a'], {'a': 1}, (b'x',), True, object()):
        mon.refused('phrase-type-accepted', 'pass phrase %r' % (p,), wallet.saveTo, fn, w, p)
        mon.eq(open(fn, 'rb').read(), before, 'refused-save-changed-file', 'pass phrase %r' % (p,)); mon.ev('refused_types')
        mon.eq(sorted(os.listdir(os.path.dirname(fn))), names, 'refused-save-left-files')
    wal.compare(mon, wallet.loadFrom(fn), old, 'kept', deep=False)
    f2 = os.path.join(os.path.dirname(fn), 'new'); mon.refused('phrase-type-accepted', 'text', wallet.saveTo, f2, w, 'secret')
    mon.check(not os.path.exists(f2), 'refused-save-created-file')
    mon.seen('types', m.secret)

class Watch(object):
    """at every executed line, the permission bits of every file in a folder that shows a secret"""
    def __init__(self, folder, shows): self.folder, self.shows, self.worst, self.looks = folder, shows, {}, 0
    def look(self):
        self.looks += 1
        for x in os.listdir(self.folder):
            y = os.path.join(self.folder, x)
            try: m = stat.S_IMODE(os.lstat(y).st_mode)
            except OSError: continue
            if os.path.islink(y) or not os.path.isfile(y): continue
            self.worst[x] = self.worst.get(x, 0) | m
    def __enter__(self):
        def local(frame, event, arg):
            if event in ('line', 'return'): self.look()
            return local
        def tr(frame, event, arg):
            return local if '/nbc/wallet/' in frame.f_code.co_filename or frame.f_code.co_filename.endswith(('shutil.py', 'tempfile.py')) else None
        sys.settrace(tr); return self
    def __exit__(self, *a): sys.settrace(None)

MODES = [0o600, 0o400, 0o640, 0o440, 0o644, 0o660, 0o664, 0o666, 0o700, 0o604]
UMASKS = [0o022, 0o077, 0o027, 0o002, 0]

def modes(rng, mon, i):
    m = model(rng); fn = target(rng); p = phrase(rng) if rng.random() < .4 else None
    old = wal.any_model(rng); folder = os.path.dirname(os.path.realpath(fn))
    wallet.saveTo(fn, wal.make(rng, old))
    mode = MODES[i % len(MODES)]; um = UMASKS[(i // len(MODES)) % len(UMASKS)]
    os.chmod(fn, mode); before = os.umask(um)
    w = wal.make(rng, m); wt = Watch(folder, m.secret)
    try:
        with wt: st, e = mon.call(wallet.saveTo, fn, w, p) if p else mon.call(wallet.saveTo, fn, w)
    finally: os.umask(before)
    mon.check(st == 'ok', 'save-raises', 'saving over a file of mode %o' % mode, error=e)
    mon.check(wt.looks > 5, 'watch-blind', 'the save was not observed')
    for x, got in wt.worst.items():
        mon.check(not got & ~mode & 0o077, 'readable-by-others', 'while saving over a file of mode %o, umask %o, %s of the same folder had mode %o' % (mode, um, 'the file' if x == os.path.basename(fn) else 'another file', got), mode=oct(mode), umask=oct(um))
    got = stat.S_IMODE(os.stat(fn).st_mode)
    mon.eq(oct(got), oct(mode), 'permissions-changed', 'after saving over a file of mode %o, umask %o' % (mode, um))
    wal.compare(mon, wallet.loadFrom(fn, p or b''), m, 'saved', deep=False)
    mon.ev('modes'); mon.ev('mode_looks', wt.looks); mon.seen('mode', mode, um, bool(p), m.kind)

FAMILIES = [Family('hidden', hidden, 80, 4000), Family('wrong', wrong, 60, 3000), Family('triples', triples, len(TRI), len(TRI), exhaustive=True), Family('types', types, 16, 300), Family('modes', modes, 100, 1000), Family('printed', printed, 40, 1500)]
REQUIRED = {'searched': 80, 'wrong': 900, 'same_effective': 40, 'plausible_prefix': 20, 'refused_types': 150, 'modes': 100, 'mode_looks': 800, 'printed': 200}
