from ..core import Family
from .. import gen
from ..ref import wire
from nbc import protocol
from nbc.protocol import format as F
ANCHORS = ['nbc/protocol/format.py', 'nbc/protocol/messages.py']
RULE = 'random field values of every message type, biased to limits and varint steps, built with positional and keyword arguments; distinct = distinct frame'
MAGIC = b'\xf9\x6e\x62\x63'
CMDS = sorted(wire.MSG)

def read_msg(mon, m, c, key):
    try: return wire.read(wire.MSG[c][2], m)
    except (wire.Bad, ValueError) as e: mon.check(False, key, 'field is not a value of its type: %s' % e, message=c)

def same(mon, m, c, v, key, **w):
    mon.check(type(m).__name__ == wire.MSG[c][0] and m.command == c and m.name == wire.MSG[c][1], key + '-type', 'wrong type', got=type(m).__name__, command=c)
    d = wire.first_diff(wire.MSG[c][2], read_msg(mon, m, c, key), v)
    mon.check(d is None, '%s-%s' % (key, c), 'field differs', where=d, **w)

def trip(rng, mon, c, v):
    magic = MAGIC if rng.random() < .6 else gen.raw(rng, 4)
    m, kw = mon.ok('build-refused', 'constructing %s' % c, wire.build_msg, rng, protocol, F, c, v)
    want = wire.frame(magic, c, v)
    same(mon, m, c, v, 'built')
    b = mon.ok('serialise-raises', c, m.binary, magic)
    mon.eq(b, want, 'frame-' + c, 'not the standard frame', fields=v)
    mon.eq(m.binary(magic), want, 'frame-again-' + c, 'second serialisation differs')
    n = rng.choice([20, 23, 24, len(want)])
    mon.eq(protocol.Message.first_msg_len(want[:max(20, n)] + (gen.raw(rng, 5) if n == len(want) else b'')), len(want), 'announced-length', command=c)
    mon.eq(protocol.Message.first_msg_len(want[:rng.randrange(20)]), None, 'announced-length-early', 'length before the header is there')
    p = mon.ok('parse-refused', 'parsing %s' % c, protocol.Message.parse, want, magic)
    same(mon, p, c, v, 'parsed', frame=want)
    mon.eq(p.magic, magic, 'magic')
    mon.eq(mon.ok('serialise-raises', c, p.binary, magic), want, 'reserialise-' + c, fields=v)
    other = gen.raw(rng, 4)
    mon.eq(p.binary(other), wire.frame(other, c, v), 'frame-' + c, 'with another magic')
    for x in (m, p) * (c != 'alert'): mon.check(isinstance(mon.ok('print-raises', 'printing %s' % c, str, x), str), 'print', 'no text')
    mon.ev('trip_' + c); mon.seen(want)

def roundtrip(rng, mon, i):
    c = CMDS[i % len(CMDS)]
    for _ in range(6): trip(rng, mon, *wire.message(rng, c))
    mon.sample(command=c)

def foreign(rng, mon, i):
    """frames of other implementations: no relay byte, non-minimal counts, surplus payload"""
    for _ in range(6):
        c, v = wire.message(rng, rng.choice(CMDS)); p = wire.enc(wire.MSG[c][2], v)
        if c == 'version' and rng.random() < .6:
            p = p[:-1]; v = dict(v, relay=1)
        elif rng.random() < .4: p += gen.raw(rng, rng.randint(1, 9)) if c not in ('verack', 'getaddr', 'mempool') or rng.random() < .3 else b''
        m = mon.ok('parse-refused', 'parsing %s' % c, protocol.Message.parse, wire.raw_frame(MAGIC, c, p), MAGIC)
        same(mon, m, c, v, 'foreign', payload=p); mon.ev('foreign'); mon.seen('f', c, p)
        mon.eq(m.binary(MAGIC), wire.frame(MAGIC, c, v), 'reserialise-' + c, fields=v)

HUGE = [(c, n) for c in CMDS for n, k in wire.MSG[c][2] if isinstance(k, wire.L) or k == 'str']
def huge(rng, mon, i):
    """one field as large as real traffic makes it, every element its own"""
    c, name = HUGE[i % len(HUGE)]; v = wire.message(rng, c)[1]; k = dict(wire.MSG[c][2])[name]
    if k == 'str': v[name] = rng.randbytes(rng.choice([65536, 65537, 100000, 1 << 20, rng.randrange(70000, 1500000)]))
    else:
        n = rng.choice([1000, 2000, 2001, 4095, 4096, 5000, 10000, rng.randrange(1000, 9000)] + ([50000] if k.kind == 'inv' else [])) if k.kind != 'tx' else rng.choice([255, 256, 400, 1000]); n = min(n, k.hi or n)
        pool = [wire.value(rng, k.kind, 2) for _ in range(64)]; out = []
        for j in range(n):
            x = rng.choice(pool)
            if isinstance(x, dict):
                x = dict(x)
                for f, kk in wire.STRUCT[k.kind][1]:
                    if kk in ('b32', 'b8'): x[f] = rng.randbytes(int(kk[1:]))
                    elif kk in ('u32', 'u64', 'u16be') and rng.random() < .5: x[f] = wire.num(rng, *wire.lim(kk))
            elif isinstance(x, bytes): x = rng.randbytes(len(x))
            out.append(x)
        v[name] = tuple(out)
    trip(rng, mon, c, v); mon.ev('huge_%s_%s' % (c, name))

KINDS = sorted(wire.STRUCT)
def parts(rng, mon, i):
    """structures and field types on their own"""
    for _ in range(10):
        k = rng.choice([x for x in KINDS if x != 'netaddr_nots']); v = wire.value(rng, k)
        o = mon.ok('build-refused', k, wire.build, rng, F, k, v)
        b = wire.enc(k, v)
        mon.eq(o.binary(), b, 'struct-' + k, fields=v)
        n, p = mon.ok('parse-refused', k, type(o).parse, b + gen.raw(rng, rng.choice([0, 1, 40])))
        mon.eq(n, len(b), 'struct-length-' + k)
        for x in (o, p): mon.check(isinstance(mon.ok('print-raises', 'printing %s' % k, str, x), str), 'print', 'no text')
        d = wire.first_diff(k, wire.read(k, p), v); mon.check(d is None, 'struct-parsed-' + k, 'field differs', where=d)
        mon.seen(k, b); mon.ev('structs')
    for _ in range(40):
        n = gen.integer(rng, 0, 2**64 - 1); b = wire.varint(n)
        mon.eq(F.FtVarInteger.binary(n), b, 'varint', n=n)
        mon.eq(tuple(F.FtVarInteger.parse(b + b'xy')), (len(b), n), 'varint-parse', n=n)
        a = wire.ip(rng); t = wire.ip_text(rng, a); ft = F.FtIPAddress()
        mon.eq(ft.binary(t), a, 'ip', text=t)
        l, x = ft.parse(a + b'\x20\x8d'); mon.eq((l, wire.read('ip', x)), (16, a), 'ip-parse', text=t)
        mon.ev('atoms', 2)

FAMILIES = [Family('roundtrip', roundtrip, 17 * 100, 17 * 4000), Family('huge', huge, 2 * len(HUGE), 20 * len(HUGE)), Family('foreign', foreign, 600, 20000), Family('parts', parts, 300, 10000)]
REQUIRED = dict({'trip_' + c: 100 for c in CMDS}, foreign=500, structs=500, **{'huge_%s_%s' % h: 2 for h in HUGE})
