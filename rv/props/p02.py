import ipaddress
from ..core import Family, Violation
from .. import gen
from ..ref import wire
from nbc import protocol
from nbc.protocol import format as F
from .p01 import MAGIC, CMDS, same, read_msg
ANCHORS = ['nbc/protocol/format.py']
RULE = 'every field of every message and structure set to values just and far outside its wire range, wrong types, odd lengths and malformed address texts; argument-count errors; aliasing of list arguments; distinct = (field, bad value)'

class Odd(object):
    def __repr__(self): return '<Odd>'

def bad_ip(rng):
    while True:
        k = rng.random()
        t = wire.ip_text(rng, wire.ip(rng))
        if k < .6: t = gen.mutate(rng, t.encode(), b'0123456789abcdefABCDEFgG:.:. /%+-_').decode('latin-1')
        elif k < .75: t = rng.choice(['', '.', ':', ':::', '1.2.3', '1.2.3.4.5', '256.1.1.1', '1.2.3.256', '1..2.3', '.1.2.3', '1.2.3.', '1:2:3:4:5:6:7', '1:2:3:4:5:6:7:8:9',
                '1::2::3', '12345::', '::12345', '::g', '-1.2.3.4', '1.2.3.-4', '+1.2.3.4', '1e1.2.3.4', ':1:2:3:4:5:6:7:8', '1:2:3:4:5:6:7:8:', '1:2:3:4:5:6:7::8:9', ':1::', '::1:', 'localhost',
                '\u0661.2.3.4', '1.2.3.4\n', ' 1.2.3.4', '1.2.3.4 ', '0x7f.0.0.1', '::-1', '::+1', '::1 ', '1 ::', '2130706433', '1.2.3.999999999999999999999', '::fffff', '99999::'])
        elif k < .9: t = t + rng.choice([':', '.', '1:2', '.1', ' ', '\0', '/24', '%0', ':1:1:1:1:1:1:1:1', '::'])
        else: t = rng.choice([':', '.', ' ', '0x', '-', '::']) + t
        if '%' in t or ('.' in t and ':' in t): continue
        if '.' in t and any(len(x) > 1 and x[0] == '0' for x in t.split('.')): continue
        try: ipaddress.ip_address(t)
        except ValueError: return t

def wrong(rng, k, good):
    """(description, value) no wire field of kind k can carry"""
    g = lambda: rng.choice([None, Odd(), {}, {1: 2}, object, set([1]), ValueError('x'), b'x', 'x', 1, 2.5, [1], (1,), [], [None], lambda: 1])
    if isinstance(k, L_):
        r = rng.random()
        if r < .25 and k.lo: return 'too short', rng.choice([[], ()])
        if r < .4 and k.hi: return 'too long', [wire.build(rng, F, k.kind, wire.value(rng, k.kind, 2))] * (k.hi + rng.choice([1, 1, 2, 300]))
        if r < .8 and good:
            d, b = wrong(rng, k.kind, list(good)[0])
            return 'element ' + d, (list if rng.random() < .5 else tuple)(ins(rng, list(good), b))
        b = rng.choice([None, Odd(), 5, 'abc', b'abc', {}, 2.5, set(), {1: 2}])
        return 'not a list', b
    if k in wire.STRUCT:
        other = rng.choice([x for x in ('inv', 'txin', 'txout', 'header', 'netaddr', 'tx') if wire.STRUCT[x][0] != wire.STRUCT[k][0]])
        if rng.random() < .4: return 'other structure', wire.build(rng, F, other, wire.value(rng, other))
        return 'not a structure', g()
    if k == 'ip':
        r = rng.random()
        if r < .8: return 'bad address', bad_ip(rng)
        return 'not text', rng.choice([None, Odd(), 5, b'1.2.3.4', b'::1', ['1.2.3.4'], ipaddress.ip_address('1.2.3.4'), (1, 2, 3, 4), 2130706433])
    if k in ('b32', 'b8'):
        n = int(k[1:])
        r = rng.random()
        if r < .7:
            m = rng.choice([n - 1, n + 1, 0, 2 * n, 1, rng.randint(0, 70)])
            if m == n: m += 1
            return 'length', bytes(m)
        return 'not bytes', rng.choice([None, 'a' * n, [0] * n, tuple(range(n)), n, Odd(), bytearray(n), 2.5])
    if k == 'str':
        if rng.random() < .4: return 'no byte form', rng.choice(['\u0100', 'abc\u20acdef', 'x' * 300 + '\U0001f600', '\ud800', '\u0141'])
        return 'not text', rng.choice([None, 5, Odd(), ['a'], {}, 2.5, bytearray(b'abc')])
    if k == 'varint': lo, hi = 0, 2**64 - 1
    else: lo, hi = wire.lim(k.rstrip('f'))
    r = rng.random()
    if r < .65: return 'range', rng.choice([lo - 1, hi + 1, lo - rng.getrandbits(40) - 1, hi + 1 + rng.getrandbits(rng.choice([8, 40, 80])), -hi - 2, -1 if lo == 0 else lo - 2, 2 * (hi + 1), -(1 << 70), 1 << 70])
    if r < .75 and k[-1] == 'f': return 'range', rng.choice([float('nan'), float('inf'), float('-inf'), 1e30, -1e30, float(hi + 1)] + ([-.5, -.001, -1e-300] if lo == 0 else []))
    b = rng.choice([None, '1', b'1', Odd(), [1], (1,), {}, 1j] + ([] if k[-1] == 'f' else [1.0, 2.5, float('nan'), 0.0]))
    return 'not a number', b

L_ = wire.L
def ins(rng, l, b):
    p = rng.randint(0, len(l)); l[p:p + rng.randint(0, 1)] = [b]; return l

TARGETS = [(c, None) for c in CMDS if wire.MSG[c][2]] + [(None, k) for k in sorted(wire.STRUCT) if k != 'netaddr_nots']

def pick(rng, t):
    c, k = t
    if c:
        v = wire.value(rng, wire.MSG[c][2]); fields = wire.MSG[c][2]
        cls = getattr(protocol, wire.MSG[c][0])
    else:
        v = wire.value(rng, k); fields = wire.STRUCT[k][1]; cls = getattr(F, wire.STRUCT[k][0])
    return cls, fields, {n: wire.build(rng, F, kk, v[n]) for n, kk in fields}, v

def refuse(rng, mon, i):
    t = TARGETS[i % len(TARGETS)]
    for _ in range(4):
        cls, fields, kw, v = pick(rng, t)
        for n, kk in fields:
            if kk == 'relay': continue
            what, b = wrong(rng, kk, kw[n] if isinstance(kk, L_) else None)
            bad = dict(kw); bad[n] = b
            if rng.random() < .5: e = mon.refused('bad-field-accepted', '%s.%s: %s' % (cls.__name__, n, what), cls, **bad)
            else: e = mon.refused('bad-field-accepted', '%s.%s: %s' % (cls.__name__, n, what), cls, *[bad[x] for x, _ in fields])
            mon.check(n in str(e), 'error-does-not-name-field', '%s.%s: %r' % (cls.__name__, n, e), value=b)
            mon.ev('refused_fields'); mon.ev('refused_' + what.split()[-1]); mon.seen(cls.__name__, n, what, repr(b)[:200])
            mon.sample(cls=cls.__name__, field=n, value=b)

def arguments(rng, mon, i):
    t = (TARGETS + [(c, None) for c in CMDS if not wire.MSG[c][2]])[i % (len(TARGETS) + 3)]
    cls, fields, kw, v = pick(rng, t); names = [n for n, _ in fields]
    mon.ok('good-arguments-refused', cls.__name__, cls, **kw)
    pos = [kw[n] for n in names]
    for n in names:
        less = dict(kw); del less[n]
        mon.refused('missing-accepted', '%s without %s' % (cls.__name__, n), cls, **less)
        for extra in ('unknown', n + '_', n.upper(), 'magic', 'self_', '_properties', '__hash'):
            mon.refused('unknown-accepted', '%s %s for %s' % (cls.__name__, extra, n), cls, **dict(less, **{extra: kw[n]}))
        j = names.index(n)
        mon.refused('repeated-accepted', '%s %s twice' % (cls.__name__, n), cls, *pos[:j + 1], **{m: kw[m] for m in names[j:]})
        mon.refused('repeated-accepted', '%s %s twice' % (cls.__name__, n), cls, *pos, **{n: kw[n]})
        if j: mon.refused('repeated-accepted', '%s %s instead of %s' % (cls.__name__, names[0], n), cls, *pos[:j], **dict({m: kw[m] for m in names[j + 1:]}, **{names[0]: kw[names[0]]}))
        mon.refused('missing-accepted', '%s first %d' % (cls.__name__, j), cls, *pos[:j])
        mon.ev('arguments', 6)
    mon.refused('surplus-accepted', cls.__name__, cls, *(pos + [rng.choice([0, None, b'x', 'x'])]))
    mon.refused('surplus-accepted', cls.__name__, cls, *(pos + [1, 2, 3]))
    mon.refused('unknown-accepted', cls.__name__, cls, *pos, **{'extra': rng.choice([0, None])})
    mon.refused('unknown-accepted', cls.__name__, cls, **dict(kw, extra=None))
    mon.seen('args', cls.__name__, i)

def weird(rng, k, g):
    """values that may or may not be acceptable"""
    class I(int): pass
    class S(str): pass
    class B(bytes): pass
    class T(list): pass
    r = rng.random()
    if isinstance(k, L_):
        if r < .3: return T(g)
        if r < .6: return tuple(g)
        if r < .8: return [weird(rng, k.kind, x) for x in g]
        return (x for x in g)
    if k in ('str', 'ip', 'b32', 'b8'):
        if isinstance(g, str): return rng.choice([S(g), g + ' ', g.upper(), g.encode('latin-1'), bytearray(g.encode('latin-1'))])
        return rng.choice([B(g), bytearray(g), memoryview(g), g.decode('latin-1')])
    if k in wire.STRUCT: return g
    if k == 'relay': return rng.choice([True, False, 0, 1, 2, 255, 256, -1, None, 'x', 1.0, 1 << 64])
    return rng.choice([I(int(g)), True, False, float(int(g) % 1000), int(g), -0.0, 0.9, -0.5, 1e18])

def accepted(rng, mon, i):
    """whatever is accepted serialises to something that decodes to equal fields"""
    c = [c for c in CMDS if wire.MSG[c][2]][i % 14]
    for _ in range(8):
        cls, fields, kw, v = pick(rng, (c, None))
        for n, kk in fields:
            if rng.random() < .5: kw[n] = weird(rng, kk, kw[n])
        st, m = mon.call(cls, **kw)
        if st == 'exc': mon.ev('weird_refused'); continue
        mon.ev('weird_accepted')
        try:
            v = wire.read(wire.MSG[c][2], m)
            want = wire.frame(MAGIC, c, v)
        except Exception as e:
            mon.check(False, 'accepted-no-wire-value', '%s accepted a value the wire cannot carry: %r' % (c, e), fields=kw)
        b = mon.ok('accepted-not-serialisable', c, m.binary, MAGIC)
        mon.eq(b, want, 'accepted-frame', fields=kw)
        p = mon.ok('accepted-not-parsable', c, protocol.Message.parse, b, MAGIC)
        same(mon, p, c, v, 'accepted', fields=kw); mon.seen(c, b)

def carried(rng, mon, i):
    """the extremes of every field are accepted"""
    t = TARGETS[i % len(TARGETS)]
    cls, fields, kw, v = pick(rng, t)
    for n, kk in fields:
        for val in extremes(rng, kk):
            o = mon.ok('good-field-refused', '%s.%s' % (cls.__name__, n), cls, **dict(kw, **{n: wire.build(rng, F, kk, val)}))
            mon.eq(wire.read(kk, getattr(o, n)), val, 'field-changed', '%s.%s' % (cls.__name__, n))
            b = o.binary(MAGIC)[24:] if t[0] else o.binary()
            mon.eq(b, wire.enc(fields, dict(v, **{n: val})), 'field-bytes', '%s.%s' % (cls.__name__, n)); mon.ev('extremes'); mon.seen(cls.__name__, n, repr(val)[:100])

def extremes(rng, k):
    if isinstance(k, L_):
        x = wire.value(rng, k.kind, 2); out = [(x,) * m for m in (k.lo, max(1, k.lo), 252, 253)]
        if k.hi and k.hi < 2000: out += [(x,) * k.hi, (x,) * (k.hi - 1)]
        return out
    if k in wire.STRUCT: return [wire.value(rng, k)]
    if k == 'ip': return [wire.ip(rng) for _ in range(20)] + [bytes(16), b'\xff' * 16, wire.V4 + bytes(4), wire.V4 + b'\xff' * 4]
    if k in ('b32', 'b8'): return [bytes(int(k[1:])), b'\xff' * int(k[1:])]
    if k == 'str': return [b'', b'\0', bytes(range(256)), b'\xff' * 253, b'x' * 65536]
    if k == 'relay': return [0, 1, 255]
    if k == 'varint': return [0, 252, 253, 0xffff, 0x10000, 2**32 - 1, 2**32, 2**64 - 1]
    lo, hi = wire.lim(k.rstrip('f'))
    return [lo, hi, 0, 1, lo + 1, hi - 1]

def longest(rng, mon, i):
    """the limits of list lengths exactly"""
    for c, f, k, n in (('addr', 'addr_list', 'netaddr', 1000), ('inv', 'inventory', 'inv', 50000), ('getdata', 'inventory', 'inv', 50000), ('notfound', 'inventory', 'inv', 50000)):
        x = wire.value(rng, k); o = wire.build(rng, F, k, x); cls = getattr(protocol, wire.MSG[c][0])
        m = mon.ok('good-field-refused', '%s of %d' % (c, n), cls, [o] * n)
        mon.eq(m.binary(MAGIC), wire.frame(MAGIC, c, {f: (x,) * n}), 'longest-list', c)
        mon.refused('bad-field-accepted', '%s of %d' % (c, n + 1), cls, [o] * (n + 1)); mon.ev('longest')

def scramble(rng, l):
    k = rng.randrange(4)
    if k == 0: del l[:]
    elif k == 1: l.append(l[0] if l else None)
    elif k == 2 and l: l[0] = None
    else: l.insert(0, b'x')

def alias(rng, mon, i):
    for _ in range(6):
        c = rng.choice(['addr', 'inv', 'getdata', 'notfound', 'getblocks', 'getheaders', 'tx', 'block', 'headers'])
        v = wire.value(rng, wire.MSG[c][2]); lists = []
        def mk(k, x):
            if isinstance(k, L_): l = [mk(k.kind, y) for y in x]; lists.append(l); return l
            if k in wire.STRUCT:
                kw = {n: mk(kk, x[n]) for n, kk in wire.STRUCT[k][1]}
                return getattr(F, wire.STRUCT[k][0])(**kw)
            return wire.build(rng, F, k, x)
        kw = {n: mk(k, v[n]) for n, k in wire.MSG[c][2]}
        m = getattr(protocol, wire.MSG[c][0])(**kw)
        if rng.random() < .5: m.binary(MAGIC)
        for l in lists:
            if rng.random() < .7: scramble(rng, l)
        mon.eq(mon.ok('alias-raises', c, m.binary, MAGIC), wire.frame(MAGIC, c, v), 'list-aliased', 'changing an argument list changed the message', fields=v)
        mon.ev('alias'); mon.seen('alias', c, len(lists))

def addresses(rng, mon, i):
    """address texts near the border: accepted exactly when they are IPv4 or IPv6"""
    for _ in range(80):
        good = rng.random() < .4
        a = wire.ip(rng); t = wire.ip_text(rng, a) if good else bad_ip(rng)
        st, o = mon.call(F.NetworkAddress, 0, 1, t, 8333)
        if good:
            mon.check(st == 'ok', 'good-address-refused', t); mon.eq(o.binary(), wire.enc('netaddr', dict(timestamp=0, services=1, address=a, port=8333)), 'address-bytes', t); mon.ev('ip_good')
        else: mon.check(st == 'exc', 'bad-field-accepted', 'address %r' % t); mon.ev('ip_bad')
        mon.seen('ip', t)

FAMILIES = [Family('bad-fields', refuse, 21 * 100, 21 * 2000), Family('arguments', arguments, 24 * 4, 24 * 40), Family('accepted', accepted, 14 * 60, 14 * 2000), Family('extremes', carried, 21 * 8, 21 * 100),
            Family('longest', longest, 1, 4), Family('aliasing', alias, 100, 4000), Family('addresses', addresses, 100, 4000)]
REQUIRED = {'refused_fields': 5000, 'arguments': 1000, 'weird_accepted': 300, 'extremes': 1500, 'longest': 4, 'alias': 500, 'ip_good': 2000, 'ip_bad': 3000}
