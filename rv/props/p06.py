from ..core import Family
from .. import gen
from ..ref import codec, ec, wire
from ..ref.codec import dsha
from nbc import protocol
from nbc.protocol import Alert, Message
from .p01 import MAGIC
ANCHORS = ['nbc/protocol/messages.py']
RULE = 'random alert payloads (fields at their limits, long sets) read field by field in random order, cut at every byte; signatures by the right key, other keys, over changed payloads; distinct = distinct payload'
FIELDS = [n for n, _ in wire.ALERT]

def norm(x):
    if isinstance(x, (list, tuple)): return tuple(norm(y) for y in x)
    return x.encode('latin-1') if isinstance(x, str) else x

def make(rng, p, s=b''):
    """constructed, or arrived over the wire"""
    a = Alert(p, s) if rng.random() < .5 else Alert(payload=p, signature=s)
    return a if rng.random() < .5 else Message.parse(a.binary(MAGIC), MAGIC)

def value(rng, big=False):
    while True:
        v = wire.value(rng, wire.ALERT); p = wire.enc(wire.ALERT, v)
        if big: v[rng.choice(['comment', 'status_bar', 'reserved'])] = rng.randbytes(rng.choice([5000, 9000, 65535, 65536, 70000])); v['set_cancel'] = tuple(wire.num(rng, *wire.lim('i32')) for _ in range(rng.choice([3, 300, 5000]))); return v, wire.enc(wire.ALERT, v)
        if len(p) < 3000: return v, p

def fields(rng, mon, i):
    for q in range(12):
        v, p = value(rng, i % 4 == 0 and q == 0)
        a = make(rng, p + (gen.raw(rng, rng.randint(1, 9)) if rng.random() < .2 else b''))
        order = FIELDS * 2; rng.shuffle(order)
        for n in order[:rng.randint(1, 26)]:
            x = mon.ok('field-raises', 'alert.%s' % n, getattr, a, n)
            mon.eq(norm(x), v[n], 'field-' + n, 'not the value encoded in the payload', payload=p); mon.ev('fields')
        b = make(rng, p)
        s = mon.ok('str-raises', 'printing an alert', str, b)
        mon.check(isinstance(s, str) and str(v['id']) in s, 'str', got=s)
        for n in FIELDS: mon.eq(norm(getattr(b, n)), v[n], 'field-' + n, 'after printing', payload=p)
        mon.seen(p)
    mon.sample(payload=p)

def cut(rng, mon, i):
    v, p = value(rng)
    while len(p) > 400: v, p = value(rng)
    for n in range(len(p)):
        a = make(rng, p[:n])
        names = FIELDS[:]; rng.shuffle(names)
        for name in names[:3] + names[:2]:                   # the second access must fail as well
            mon.refused('cut-read', '%s of an alert cut to %d of %d bytes' % (name, n, len(p)), getattr, a, name); mon.ev('cut')
        mon.refused('cut-read', 'printing a cut alert', str, a)
        mon.refused('cut-read', 'after printing', getattr, a, names[0])
    mon.seen('cut', p)
    for name in FIELDS: mon.eq(norm(getattr(make(rng, p), name)), v[name], 'field-' + name, payload=p)
    # announced sets and strings longer than the payload
    for _ in range(30):
        from .p04 import enc_hostile
        q = enc_hostile(rng, wire.ALERT, v, .4)
        try: w, _ = wire.dec(wire.ALERT, q)
        except wire.Bad: w = None
        a = make(rng, q)
        for name in rng.sample(FIELDS, 4):
            if w is None: mon.refused('cut-read', name, getattr, a, name)
            else: mon.eq(norm(mon.ok('field-raises', name, getattr, a, name)), w[name], 'field-' + name, payload=q)

def separate(rng, mon, i):
    """alerts do not share what they parsed"""
    vs = [value(rng) for _ in range(6)]; al = [make(rng, p) for _, p in vs]
    for _ in range(60):
        j = rng.randrange(6); n = rng.choice(FIELDS)
        mon.eq(norm(getattr(al[j], n)), vs[j][0][n], 'field-' + n, 'with other alerts around', payload=vs[j][1]); mon.ev('separate')

def verify(rng, mon, i):
    d, P = gen.keypair(rng)
    _, p = value(rng)
    if i % 5 == 0: p = gen.data(rng)
    z = int.from_bytes(dsha(p), 'big')
    r, s = ec.K1.sign(d, z, gen.scalar(rng))
    pub = codec.ser_pub(P, False); sig = codec.der_sig(r, s)
    def ask(a, key, what): return mon.ok('verify-raises', what, a.verify, key)
    mon.check(ask(make(rng, p, sig), pub, 'genuine') is True, 'genuine-refused', payload=p, sig=sig); mon.ev('genuine')
    mon.check(ask(make(rng, p, codec.der_sig(r, ec.K1.n - s)), pub, 'genuine') is True, 'genuine-refused', payload=p)
    q = gen.mutate(rng, p)
    _, P2 = gen.keypair(rng)
    while P2[0] == P[0]: _, P2 = gen.keypair(rng)
    bad = [(q, sig, pub, 'changed payload'), (p, codec.der_sig(r, (s + 1) % ec.K1.n or 1), pub, 'changed s'), (p, codec.der_sig((r + 1) % ec.K1.n or 1, s), pub, 'changed r'),
           (p, sig, codec.ser_pub(P2, False), 'other key'), (p, b'', pub, 'no signature'), (p, sig[:-1], pub, 'cut signature'), (dsha(p), sig, pub, 'hash as payload'),
           (p, sig, b'', 'no key'), (p, sig, pub[:-1], 'cut key'), (p + b'\0', sig, pub, 'extended payload')]
    for q, g, k, what in rng.sample(bad, 5):
        mon.check(ask(make(rng, q, g), k, what) is False, 'forged-accepted', what, payload=q, sig=g, key=k); mon.ev('forged')
    mon.seen('verify', p, sig)

FAMILIES = [Family('fields', fields, 400, 10000), Family('cut', cut, 24, 1000), Family('separate', separate, 20, 500), Family('verify', verify, 40, 2500)]
REQUIRED = {'fields': 10000, 'cut': 5000, 'genuine': 40, 'forged': 200, 'separate': 1000}
