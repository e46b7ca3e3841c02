import json, os
from ..core import Family
from .. import gen, wal
from ..ref import codec
from nbc import wallet
from .w01 import phrase, target
ANCHORS = ['nbc/wallet/__init__.py', 'nbc/wallet/address.py', 'nbc/wallet/hdwallet.py']
RULE = 'files of random wallets of every kind, plain and encrypted, cut at every byte, without each of their fields, of unknown kinds, with key material cut, lengthened or damaged, and files that are no wallets at all; distinct = (wallet, damage)'
ASSUMPTIONS = ['damage the format can not show - a bit of an HD key, a chain code, a compressed public key, a nonce, a number - is not judged', 'the missing mark of encryption counts as not encrypted']

def load(fn, p): return wallet.loadFrom(fn, p) if p else wallet.loadFrom(fn)

def judge(rng, mon, fn, s, p, m, what, same=False):
    """refused, or (when nothing of it is lost) the same wallet; the file stays as it is"""
    d = s if isinstance(s, bytes) else s.encode()
    open(fn, 'wb').write(d); st, w = mon.call(load, fn, p)
    if st == 'exc': mon.check(not isinstance(w, NameError), 'refusal', 'not a refusal: %r' % w, damage=what); mon.ev('refused')
    else:
        mon.check(same, 'accepted', 'a damaged wallet file is loaded as a wallet (%s)' % what, wallet=m, file=d[:400], got=w)
        wal.compare(mon, w, m, 'accepted', deep=False); mon.ev('same')
    mon.check(open(fn, 'rb').read() == d, 'file-changed', 'loading changes the file'); mon.eq(sorted(os.listdir(os.path.dirname(fn))), [os.path.basename(fn)], 'stray', 'loading leaves files behind')

def saved(rng, i):
    m = wal.any_model(rng, private=i % 2 == 0); p = phrase(rng) if i % 4 < 2 else b''; fn = os.path.join(os.path.dirname(target(rng)), 'w.cfg'); w = wal.make(rng, m)
    for x in os.listdir(os.path.dirname(fn)): os.remove(os.path.join(os.path.dirname(fn), x))
    wallet.saveTo(fn, w, p); return m, p, fn, open(fn).read()

def cut(rng, mon, i):
    """every beginning of the file, and some ends"""
    m, p, fn, s = saved(rng, i)
    for k in range(len(s)): judge(rng, mon, fn, s[:k], p, m, 'cut after %d of %d bytes' % (k, len(s)))
    for _ in range(10):
        k = rng.randrange(1, len(s)); judge(rng, mon, fn, s[k:], p, m, 'the first %d bytes are missing' % k)
        judge(rng, mon, fn, s[:k] + '\0' * (len(s) - k), p, m, 'zeros from byte %d on' % k)
    judge(rng, mon, fn, s, p, m, 'nothing', True); mon.ev('%s-%s' % (m.kind, 'private' if m.secret else 'public')); mon.seen('cut', repr(m)); mon.sample(wallet=m, bytes=len(s))

def fields(rng, mon, i):
    """fields missing, of unknown kind"""
    m, p, fn, s = saved(rng, i); c = json.loads(s)
    for k in c:
        d = dict(c); del d[k]; enc = c['encrypted'] and k == 'encrypted'
        judge(rng, mon, fn, json.dumps(d), p, m, 'without the field %r' % k, k == 'encrypted' and not enc); mon.ev('missing')
    for t in ('hd', 'HDX', 'H', '', None, 'Default', 'defaultx', 1, True, [], {}, ['HD'], 'watch'): judge(rng, mon, fn, json.dumps(dict(c, type=t)), p, m, 'of the kind %r' % (t,)); mon.ev('kinds')
    for k in ('prvkey', 'pubkey'):
        if c[k]:
            for v in (None, '', False, 0, []): judge(rng, mon, fn, json.dumps(dict(c, **{k: v})), p, m, '%s = %r' % (k, v))
    if m.kind == 'hd' or m.secret is not None: judge(rng, mon, fn, json.dumps(dict(c, type='HD' if c['type'] == 'default' else 'default')), p, m, 'of the other kind') if m.secret is not None else None
    mon.seen('fields', repr(m))

def material(rng, mon, i):
    """key material cut, lengthened, damaged"""
    m, p, fn, s = saved(rng, i); c = json.loads(s)
    for k in ('prvkey', 'pubkey', 'chain', 'parentfp'):
        x = c.get(k)
        if not x: continue
        b = bytes.fromhex(x); out = []
        for n in {1, 2, 3, 15, 16, 17, len(b) // 2, len(b) - 1, rng.randrange(1, len(b))}:
            if n < len(b): out.append((b[:-n].hex(), 'the last %d bytes of %s are missing' % (n, k), False))
        out += [(x[:-1], 'half a byte of %s is missing' % k, False), ('zz' + x[2:], '%s is no hex text' % k, False), (x[:-2] + ' ', 'blank', False)]
        for n in (1, 2, 16, 32): out.append(((b + gen.raw(rng, n - 1) + b'\1').hex(), '%s is %d bytes longer' % (k, n), False)); out.append(((b + bytes(n)).hex(), '%s is %d zeros longer' % (k, n), k == 'prvkey'))
        if k != 'prvkey': out += [(b[n:].hex(), 'the first %d bytes of %s are missing' % (n, k), False) for n in (1, 2, 3)] + [(('00' * n + x), '%d zeros before %s' % (n, k), False) for n in (1, 2)]
        if k == 'pubkey': out += [('%02x' % t + x[2:], 'prefix %d' % t, False) for t in (0, 1, 5, 8, 0x80, 0xff)]
        if k == 'prvkey' and m.kind == 'addr':
            for _ in range(8):
                y = bytearray(b); y[rng.randrange(len(y))] ^= 1 << rng.randrange(8); out.append((bytes(y).hex(), 'one bit of the private key is another', True))
            y = bytearray(b); a = rng.randrange(len(y) - 1); y[a], y[a + 1] = y[a + 1], y[a]
            out.append((bytes(y).hex(), 'two neighbours of the private key are exchanged', True))
        if k == 'prvkey' and c['encrypted']: out = [o for o in out if 'longer' not in o[1]]
        for v, what, same in out: judge(rng, mon, fn, json.dumps(dict(c, **{k: v})), p, m, what, same); mon.ev('material')
    mon.seen('material', repr(m))

def foreign(rng, mon, i):
    """no wallet files"""
    m, p, fn, s = saved(rng, i); j = rng.choice
    for d in [b'', b'{}', b'[]', b'null', b'3', b'"HD"', b'{"type": "HD"}', b'{"type": "default"}', b'[' + s.encode() + b']', s.encode() + s.encode(), s.encode() + b'x', b'x' + s.encode(), codec.wif(5, True), gen.raw(rng, 300), bytes(len(s)), b'\xff\xfe' + s.encode(), json.dumps(s).encode(), b'{"wallet": ' + s.encode() + b'}',
              json.dumps({'type': j(['HD', 'default']), 'prvkey': None, 'pubkey': None, 'vcn': 0, 'testnet': False}).encode(), json.dumps({'type': 'HD', 'prvkey': '', 'pubkey': '', 'chain': '00' * 32, 'vcn': 0, 'testnet': False, 'depth': 0, 'childnum': 0, 'parentfp': '00000000'}).encode()]:
        judge(rng, mon, fn, d, j([p, b'', b'pw']), m, 'no wallet'); mon.ev('foreign')
    os.remove(fn); mon.refused('absent', 'a file that does not exist is loaded', load, fn, p); mon.eq(os.listdir(os.path.dirname(fn)), [], 'created', 'loading created a file')
    mon.refused('absent', 'a folder is loaded', load, os.path.dirname(fn), p); mon.seen('foreign', repr(m))

FAMILIES = [Family('cut', cut, 60, 2000), Family('fields', fields, 100, 3000), Family('material', material, 160, 5000), Family('foreign', foreign, 40, 1000)]
REQUIRED = {'refused': 10000, 'same': 100, 'addr-private': 3, 'addr-public': 3, 'hd-private': 3, 'hd-public': 3, 'missing': 500, 'kinds': 500, 'material': 1500, 'foreign': 500}
