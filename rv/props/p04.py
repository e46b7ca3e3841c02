import struct
from ..core import Family, StepGuard, StepLimit, MemGuard, out_of_memory
from .. import gen
from ..alloc import Allocated
from ..ref import wire
from nbc.protocol import Message, Alert
from nbc import protocol
from .p01 import MAGIC, CMDS, same
ANCHORS = ['nbc/protocol/format.py', 'nbc/protocol/messages.py']
RULE = 'payloads cut at every byte, counts and lengths replaced by huge, negative-looking and slightly wrong ones, long lists of minimal elements, random bytes; steps executed in the library and memory held are measured; distinct = distinct payload'
ASSUMPTIONS = ['work is counted in executed lines, calls and jumps of library code, memory as the most held by Python objects while parsing, copying as the bytes all objects asked the allocator for (four times the payload: at most 7 times as many)']
PER_BYTE, FIXED = 120, 4000
MEM_BYTE, MEM_FIXED = 1000, 300000
def memory(mon, what, n, m, st, r, p):
    mon.check(m.peak <= MEM_FIXED + MEM_BYTE * n and not (st == 'exc' and out_of_memory(r)), 'unbounded-memory', '%s of %d bytes took %d bytes of memory' % (what, n, m.peak), payload=p); mon.ev('measured')

def judge(mon, c, p):
    b = wire.raw_frame(MAGIC, c, p)
    g = StepGuard(FIXED + PER_BYTE * len(b))
    try:
        with MemGuard() as m, g: st, r = mon.call(Message.parse, b, MAGIC)
    except StepLimit as e:
        mon.check(False, 'unbounded-work', 'parsing a %d-byte %s payload took more than %d steps' % (len(p), c, g.limit), payload=p)
    memory(mon, 'a %s payload' % c, len(b), m, st, r, p)
    mon.ev('steps', g.count); mon.ev('payload_bytes', len(p)); mon.seen(c, p)
    try: v, o = wire.dec(wire.MSG[c][2], p)
    except wire.Bad:
        mon.check(st == 'exc', 'half-filled', '%s announces more than its payload holds, yet gave a message' % c, payload=p, got=r)
        mon.ev('refused_payload'); return
    mon.ev('complete')
    if st == 'exc':
        mon.check(not wire.limits_ok(wire.MSG[c][2], v), 'complete-refused', '%s: %r' % (c, r), payload=p); return
    same(mon, r, c, v, 'parsed', payload=p)

def cuts(rng, mon, i):
    c = CMDS[i % len(CMDS)]
    for _ in range(3):
        v = wire.value(rng, wire.MSG[c][2]); p = wire.enc(wire.MSG[c][2], v)
        for n in range(len(p) + 1) if len(p) < 250 else sorted(set(list(range(0, 120)) + [rng.randrange(len(p)) for _ in range(60)] + list(range(len(p) - 60, len(p) + 1)))):
            judge(mon, c, p[:n])

HUGE = [b'\xff' + b'\xff' * 8, b'\xff' + b'\xff' * 7 + b'\x7f', b'\xfe\xff\xff\xff\xff', b'\xfe\xff\xff\xff\x7f', b'\xfd\xff\xff', b'\xfc', b'\xff\0\0\0\0\1\0\0\0', b'\xff\0\0\0\0\0\0\0\x80', b'\xfe\0\0\0\x80', b'\xfe\x40\x42\x0f\0', b'\xff\x00\xca\x9a\x3b\0\0\0\0']

def enc_hostile(rng, k, v, hit):
    """encoding with some counts/lengths replaced"""
    def count(n):
        if rng.random() < hit:
            return rng.choice(HUGE + [wire.varint(n + rng.choice([1, 2, 3, 10])), wire.varint(max(0, n - 1)), b'\xfd' + n.to_bytes(2, 'little') if n < 65536 else b'\xff'] + [wire.varint(n + (k << b)) for k, b in ((1, 8), (1, 16), (1, 31), (rng.randint(1, 9), 32), (1, 40), (1, 63))])
        return wire.varint(n)
    if isinstance(k, wire.L): return count(len(v)) + b''.join(enc_hostile(rng, k.kind, x, hit) for x in v)
    if isinstance(k, list): return b''.join(enc_hostile(rng, kk, v[n], hit) for n, kk in k)
    if k in wire.STRUCT: return enc_hostile(rng, wire.STRUCT[k][1], v, hit)
    if k == 'str': return count(len(v)) + v
    return wire.enc(k, v)

COUNTED = [c for c in CMDS if c in ('version', 'addr', 'inv', 'getdata', 'notfound', 'getblocks', 'getheaders', 'tx', 'block', 'headers', 'reject', 'alert')]
def counts(rng, mon, i):
    c = COUNTED[i % len(COUNTED)]
    for _ in range(12):
        v = wire.value(rng, wire.MSG[c][2])
        p = enc_hostile(rng, wire.MSG[c][2], v, rng.choice([.2, .5, 1]))
        judge(mon, c, p)
        judge(mon, c, p + gen.raw(rng, rng.randint(1, 50)))
        if len(p) < 400: judge(mon, c, gen.mutate(rng, p) if p else b'\xff')

def many(rng, mon, i):
    """long lists of the smallest elements: the work stays linear in executed steps"""
    n = rng.choice([300, 500, 800])
    small = {'tx': dict(version=1, tx_in=(), tx_out=(), lock_time=0)}
    x = {'txin': dict(previous_output=dict(hash=bytes(32), index=0), signature_script=b'', sequence=0), 'txout': dict(value=0, pk_script=b'')}
    for c, v in (('block', dict(version=1, prev_block=bytes(32), merkle_root=bytes(32), timestamp=0, bits=0, nonce=0, txns=(small['tx'],) * n)),
                 ('tx', dict(version=1, tx_in=(x['txin'],) * (n // 3), tx_out=(x['txout'],) * n, lock_time=0)),
                 ('getblocks', dict(version=1, block_locator_hashes=(bytes(32),) * (n // 3), hash_stop=bytes(32))),
                 ('inv', dict(inventory=(dict(object_type=1, hash=bytes(32)),) * n)),
                 ('addr', dict(addr_list=(wire.value(rng, 'netaddr'),) * n)),
                 ('headers', dict(headers=(wire.value(rng, 'header'),) * (n // 3)))):
        p = wire.enc(wire.MSG[c][2], v)
        judge(mon, c, p); judge(mon, c, p[:-1]); judge(mon, c, p[:len(p) // 2]); mon.ev('long_lists')
    # huge announced count over a large payload
    for c in ('inv', 'addr', 'headers'): judge(mon, c, b'\xff' + b'\xff' * 8 + bytes(3000)); mon.ev('long_lists')
    judge(mon, 'tx', b'\1\0\0\0' + b'\xfe\xff\xff\xff\xff' + bytes(5000)); judge(mon, 'block', bytes(80) + b'\xff' * 9 + bytes(5000))

GROW = 7                                                        # four times the payload may take at most this many times the bytes
def copies(rng, mon, i):
    """the bytes allocated (copied) while parsing grow with the payload, not with its square"""
    n = rng.randint(1500, 3000)
    tin = dict(previous_output=dict(hash=bytes(32), index=0), signature_script=b'', sequence=0); tout = dict(value=0, pk_script=b''); tx = dict(version=1, tx_in=(), tx_out=(), lock_time=0)
    big = dict(version=1, tx_in=(dict(tin, signature_script=gen.raw(rng, 200)),), tx_out=(tout,), lock_time=0)
    kinds = [('inv', lambda n: dict(inventory=(dict(object_type=1, hash=bytes(32)),) * n)), ('getdata', lambda n: dict(inventory=(dict(object_type=1, hash=bytes(32)),) * n)), ('notfound', lambda n: dict(inventory=(dict(object_type=1, hash=bytes(32)),) * n)),
             ('addr', lambda n: dict(addr_list=(dict(timestamp=1, services=1, address=b'\0' * 10 + b'\xff\xff\1\2\3\4', port=1),) * n)),
             ('headers', lambda n: dict(headers=(dict(version=1, prev_block=bytes(32), merkle_root=bytes(32), timestamp=0, bits=0, nonce=0, txn_count=0),) * n)),
             ('getblocks', lambda n: dict(version=1, block_locator_hashes=(bytes(32),) * n, hash_stop=bytes(32))), ('getheaders', lambda n: dict(version=1, block_locator_hashes=(bytes(32),) * n, hash_stop=bytes(32))),
             ('tx', lambda n: dict(version=1, tx_in=(tin,) * n, tx_out=(tout,), lock_time=0)), ('tx', lambda n: dict(version=1, tx_in=(tin,), tx_out=(tout,) * (2 * n), lock_time=0)),
             ('block', lambda n: dict(version=1, prev_block=bytes(32), merkle_root=bytes(32), timestamp=0, bits=0, nonce=0, txns=(tx,) * n)), ('block', lambda n: dict(version=1, prev_block=bytes(32), merkle_root=bytes(32), timestamp=0, bits=0, nonce=0, txns=(big,) * (n // 4))),
             ('block', lambda n: dict(version=1, prev_block=bytes(32), merkle_root=bytes(32), timestamp=0, bits=0, nonce=0, txns=(dict(big, tx_out=(tout,) * n), big)))]
    c, f = kinds[i % len(kinds)]; cut = rng.choice([0, 0, 1, 50])
    def cost(k):
        p = wire.enc(wire.MSG[c][2], f(k)); b = wire.raw_frame(MAGIC, c, p[:len(p) - cut])
        with Allocated() as a: st, r = mon.call(Message.parse, b, MAGIC)
        if cut: mon.check(st == 'exc', 'half-filled', 'a %s payload cut short gave a message' % c)
        elif c != 'addr' or k <= 1000: mon.check(st == 'ok', 'complete-refused', '%s: %r' % (c, r), n=k)
        mon.ev('allocated', a.total); mon.seen('copies', c, k, cut); return a.total, len(b)
    cost(10); (x, lx), (y, ly) = cost(n), cost(4 * n)
    mon.check(y <= GROW * x, 'unbounded-copying', 'parsing %s payloads: %d bytes took %d bytes of copies and objects, %d bytes took %d' % (c, lx, x, ly, y)); mon.ev('copies')
    def alert(k, which):
        p = struct.pack('<iqqii', 1, 2, 3, 4, 5) + (wire.varint(k) + bytes(4 * k) if which == 0 else b'\0') + bytes(8) + (wire.varint(k) + bytes(k) if which == 1 else b'\0') + bytes(4) + (b'\0' * 3 if which < 2 else (wire.varint(k) + bytes(k)) * 3)
        o = Alert(p, b'')
        with Allocated() as a: st, r = mon.call(getattr, o, 'reserved')
        mon.check(st == 'ok', 'complete-refused', 'alert: %r' % (r,)); return a.total, len(p)
    w = i % 3; alert(10, w); (x, lx), (y, ly) = alert(n, w), alert(4 * n, w)
    mon.check(y <= GROW * x, 'unbounded-copying', 'reading alerts: %d bytes took %d bytes of copies and objects, %d bytes took %d' % (lx, x, ly, y)); mon.ev('copies')

def garbage(rng, mon, i):
    for c in CMDS:
        for _ in range(6):
            k = rng.random()
            p = gen.data(rng, 300) if k < .6 else bytes([rng.getrandbits(8)]) * rng.choice([1, 9, 80, 81, 82, 200, 1000]) if k < .8 else gen.raw(rng, rng.choice([4, 80])) + rng.choice(HUGE) + gen.raw(rng, rng.randint(0, 200))
            judge(mon, c, p)

def alerts(rng, mon, i):
    """the alert's inner payload: same bounds, on access"""
    for _ in range(10):
        v = wire.value(rng, wire.ALERT); p = enc_hostile(rng, wire.ALERT, v, rng.choice([0, .3, 1]))
        if len(p) > 5000: continue
        if rng.random() < .3: p = p[:rng.randrange(len(p))]
        if rng.random() < .2: p = gen.mutate(rng, p)
        if rng.random() < .1: p = p[:28] + b'\xff' * 9 + bytes(2000)
        a = Alert(p, b''); name = rng.choice(wire.ALERT)[0]
        g = StepGuard(FIXED + PER_BYTE * len(p))
        try:
            with MemGuard() as m, g: st, r = mon.call(getattr, a, name)
        except StepLimit: mon.check(False, 'unbounded-work', 'reading an alert of %d bytes took more than %d steps' % (len(p), g.limit), payload=p)
        memory(mon, 'an alert', len(p), m, st, r, p)
        try: w, _ = wire.dec(wire.ALERT, p)
        except wire.Bad: mon.check(st == 'exc', 'half-filled', 'alert cut off, yet %s was read' % name, payload=p, got=r)
        mon.ev('alerts'); mon.seen('alert', p, name)

FAMILIES = [Family('cuts', cuts, 17 * 5, 17 * 200), Family('counts', counts, 12 * 16, 12 * 800), Family('long-lists', many, 3, 60), Family('copies', copies, 36, 700), Family('garbage', garbage, 40, 2500), Family('alerts', alerts, 120, 5000)]
REQUIRED = {'refused_payload': 5000, 'complete': 800, 'long_lists': 20, 'alerts': 600, 'steps': 100000, 'measured': 5000, 'copies': 40}
