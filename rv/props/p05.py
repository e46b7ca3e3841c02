import hashlib, struct
from ..core import Family
from .. import gen
from ..ref import wire
from ..ref.codec import dsha
from nbc import protocol, coins, util
from nbc.protocol import format as F
from .p01 import MAGIC
ANCHORS = ['nbc/protocol/format.py', 'nbc/util/__init__.py', 'nbc/coins/newbitcoin.py']
RULE = 'random transactions, headers and out-points, built and parsed, hashed in different orders with other operations; transaction lists of 1 to 70; distinct = distinct content'

def txns(rng, mon, i):
    for _ in range(12):
        v = wire.value(rng, 'tx'); b = wire.enc('tx', v); want = dsha(b)
        t = wire.build(rng, F, 'tx', v)
        order = ['hash', 'bin', 'hash', 'str', 'hash']; rng.shuffle(order)
        for o in order:
            if o == 'hash': mon.eq(t.hash, want, 'tx-hash', 'not the double SHA-256 of the serialisation', tx=b)
            elif o == 'bin': mon.eq(t.binary(), b, 'tx-bytes')
            else: mon.ok('str-raises', 'str', str, t)
        n, p = F.Txn.parse(b + gen.raw(rng, rng.choice([0, 3])))
        mon.eq(p.hash, want, 'tx-hash-parsed', tx=b); mon.eq(p.binary(), b, 'tx-bytes')
        blk = protocol.Block(1, bytes(32), bytes(32), 0, 0, 0, [t, p])
        q = protocol.Message.parse(blk.binary(MAGIC), MAGIC)
        for x in q.txns: mon.eq(x.hash, want, 'tx-hash-block', tx=b)
        mon.eq(blk.binary(MAGIC)[24:], b'\1' + bytes(79) + b'\2' + b + b, 'block-bytes')
        # any change of the content changes the hash
        w = gen.mutate(rng, b)
        try: v2, o = wire.dec('tx', w)
        except wire.Bad: v2 = None
        if v2 is not None and wire.enc('tx', v2) == w[:o] and w[:o] != b:
            mon.eq(F.Txn.parse(w)[1].hash, dsha(w[:o]), 'tx-hash', 'of a changed transaction')
        mon.ev('txns'); mon.seen(b)

class Stub(object): pass

def large(rng, mon, i):
    """transactions with many inputs and outputs or long scripts"""
    v = wire.value(rng, 'tx', 1); one, two = v['tx_in'][0] if v.get('tx_in') else None, v['tx_out'][0] if v.get('tx_out') else None
    while not one or not two:
        v = wire.value(rng, 'tx', 1); one, two = (v['tx_in'] or [None])[0], (v['tx_out'] or [None])[0]
    k = i % 4; big = rng.choice([252, 253, 254, 300, 1000])
    if k == 0: v['tx_in'] = [dict(one, sequence=j) for j in range(big)]
    elif k == 1: v['tx_out'] = [dict(two, value=j) for j in range(big)]
    else:
        l = rng.choice([252, 253, 254, 255, 256, 10000, 65535, 65536, 70000, 200000])
        if k == 2: v['tx_in'] = [dict(one, signature_script=gen.raw(rng, l))]
        else: v['tx_out'] = [dict(two, pk_script=gen.raw(rng, l))]
    b = wire.enc('tx', v); want = dsha(b); t = wire.build(rng, F, 'tx', v)
    mon.eq(t.hash, want, 'tx-hash', 'large transaction'); mon.eq(t.binary(), b, 'tx-bytes', 'large transaction')
    n, p = F.Txn.parse(b); mon.eq(n, len(b), 'tx-size'); mon.eq(p.hash, want, 'tx-hash-parsed', 'large transaction'); mon.eq(p.binary(), b, 'tx-bytes', 'large transaction')
    mon.ev('large'); mon.seen('large', want)

def headers(rng, mon, i):
    for _ in range(25):
        v = wire.value(rng, 'header'); b = wire.enc('header', v); want = dsha(b[:80])
        h = wire.build(rng, F, 'header', v)
        if rng.random() < .5: mon.eq(h.binary(), b, 'header-bytes')
        mon.eq(h.hash, want, 'header-hash', 'not the double SHA-256 of the 80 bytes', header=b)
        mon.eq(h.binary(), b, 'header-bytes'); mon.eq(h.hash, want, 'header-hash-again')
        p = F.BlockHeader.parse(b)[1]; mon.eq(p.hash, want, 'header-hash-parsed', header=b)
        w = dict(v, txn_count=wire.value(rng, 'varint')); mon.eq(wire.build(rng, F, 'header', w).hash, want, 'header-hash-count', 'hash depends on the transaction count')
        m = protocol.Message.parse(protocol.Headers([h, p]).binary(MAGIC), MAGIC)
        for x in m.headers: mon.eq(x.hash, want, 'header-hash-wire')
        st = Stub(); st.version, st.previous_hash, st.merkle_root, st.timestamp, st.bits, st.nonce = v['version'], v['prev_block'], v['merkle_root'], v['timestamp'], v['bits'], v['nonce']
        st.transactions = [wire.build(rng, F, 'tx', wire.value(rng, 'tx', 2)) for _ in range(rng.randint(0, 3))]
        x = mon.ok('from-block-raises', 'from_block', F.BlockHeader.from_block, st)
        mon.eq(x.binary(), b[:80] + bytes([len(st.transactions)]), 'from-block'); mon.eq(x.hash, want, 'from-block-hash')
        y = protocol.Block.from_block(st); mon.eq(y.binary(MAGIC)[24:104], b[:80], 'block-from-block'); mon.eq(len(y.txns), len(st.transactions), 'block-from-block')
        mon.ev('headers'); mon.seen('h', b)

def merkle(rng, mon, i):
    n = i % 70 + 1 if i % 10 else rng.choice([127, 128, 129, 255, 256, 257, 511, 512, 513, rng.randint(71, 1100)])
    pool = [wire.value(rng, 'tx', 1) for _ in range(min(n, 6))]
    vs = [dict(rng.choice(pool), lock_time=j if rng.random() < .9 else 0) for j in range(n)]
    ts = [wire.build(rng, F, 'tx', v) for v in vs]; hs = [dsha(wire.enc('tx', v)) for v in vs]
    arg = ts if rng.random() < .5 else tuple(ts)
    mon.eq(mon.ok('merkle-raises', 'get_merkle_root', util.get_merkle_root, arg), wire.merkle(hs), 'merkle', 'of %d transactions' % n, hashes=hs)
    mon.check(len(ts) == n and all(a.hash == h for a, h in zip(ts, hs)), 'merkle-argument-changed')
    mon.eq(util.get_merkle_root(arg), wire.merkle(hs), 'merkle-again')
    p = list(range(n)); rng.shuffle(p)
    mon.eq(util.get_merkle_root([ts[j] for j in p]), wire.merkle([hs[j] for j in p]), 'merkle', 'shuffled')
    if n > 1: mon.eq(util.get_merkle_root(ts[:-1]), wire.merkle(hs[:-1]), 'merkle', 'of %d' % (n - 1))
    mon.ev('merkle'); mon.seen('merkle', n, hs[0])

def outpoints(rng, mon, i):
    hs = [gen.raw(rng, 32) for _ in range(3)]
    hs.append(hs[0][:-1] + bytes([hs[0][-1] ^ 1])); hs.append(bytes([hs[0][0] ^ 128]) + hs[0][1:]); hs.append(hs[0][::-1])
    ix = [0, 1, 2, 0xffffffff, rng.getrandbits(32)]; b = rng.sample(range(32), 3); ix += [ix[4] ^ 1 << b[0], ix[4] ^ 1 << b[1], 1 << b[2]]; ix = sorted(set(ix))
    pts = [(h, n) for h in hs for n in ix]
    d, s = {}, set()
    for k in pts:
        o = F.OutPoint(*k); d[o] = k; s.add(o); d.setdefault(F.OutPoint(*k), 'other')
    mon.eq(len(d), len(set(pts)), 'outpoint-dict-size', 'equal out-points are separate keys, or different ones the same')
    for k in pts:
        a = F.OutPoint.parse(k[0] + struct.pack('<I', k[1]))[1] if rng.random() < .5 else F.OutPoint(hash=k[0], index=k[1])
        mon.check(a in s and a in d and d[a] == k, 'outpoint-not-found', point=k)
        for l in pts:
            b = F.OutPoint(*l)
            mon.check((a == b) is (k == l) and (a != b) is (k != l), 'outpoint-eq', a=k, b=l)
            if k == l: mon.check(hash(a) == hash(b), 'outpoint-hash')
            mon.ev('pairs')
        f = F.OutPoint(gen.raw(rng, 32), k[1]); mon.check(f not in s, 'outpoint-found')
    for other in (None, 5, 'x', k, k[0], F.InventoryVector(1, k[0]), object()): mon.check(not (a == other) and a != other, 'outpoint-eq-other', got=other)
    mon.seen('outpoints', pts[0])

def genesis(rng, mon, i):
    c = coins.Newbitcoin
    b = struct.pack('<I32s32sIII', c.genesis_version, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce)
    mon.eq(dsha(b), c.genesis_block_hash, 'genesis', 'the constants do not hash to the genesis hash')
    mon.eq(util.get_block_header(c.genesis_version, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce), b, 'genesis-header')
    mon.eq(F.BlockHeader(c.genesis_version, bytes(32), c.genesis_merkle_root, c.genesis_timestamp, c.genesis_bits, c.genesis_nonce, 1).hash, c.genesis_block_hash, 'genesis-hash')
    mon.eq(c.genesis_block_hash[::-1].hex(), '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f', 'genesis-published')
    for name, kw in (('newbitcoin', dict(name='newbitcoin')), ('NEWBITCOIN', dict(name='NewBitcoin')), ('NBC', dict(symbol='nbc')), ('NBC', dict(symbol='NBC'))):
        mon.check(coins.get_coin(**kw) is c, 'get-coin', name)
    d = gen.data(rng); mon.eq(util.sha256d(d), dsha(d), 'sha256d'); mon.eq(util.hash160(d), hashlib.new('ripemd160', hashlib.sha256(d).digest()).digest(), 'hash160')
    mon.eq(util.ripemd160(d), hashlib.new('ripemd160', d).digest(), 'ripemd160'); mon.eq(util.sha256(d), hashlib.sha256(d).digest(), 'sha256'); mon.eq(util.sha1(d), hashlib.sha1(d).digest(), 'sha1')
    mon.ev('genesis')

FAMILIES = [Family('transactions', txns, 1200, 20000), Family('large', large, 24, 600), Family('headers', headers, 300, 6000), Family('merkle', merkle, 140, 4200), Family('out-points', outpoints, 20, 500), Family('genesis', genesis, 4, 100)]
REQUIRED = {'large': 24, 'txns': 1000, 'headers': 1000, 'merkle': 140, 'pairs': 5000, 'genesis': 4}
