from ..core import Family, Violation
from .. import gen
from ..ref import ec, nt
from nbc.util.ecdsa import ellipticcurve as E, curves, ecdsa, numbertheory
from nbc.util import ecc
ANCHORS = ['nbc/util/ecdsa/ellipticcurve.py', 'nbc/util/ecdsa/numbertheory.py']
RULE = 'all curves over small primes with all pairs of points and scalars 0..2N+2; random large curves and the six standard ones with boundary scalars; distinct = distinct operands'
CV = list(zip(ec.CURVES, [curves.NIST192p, curves.NIST224p, curves.NIST256p, curves.NIST384p, curves.NIST521p, curves.SECP256k1]))
JOBS = []
def setup(tier):
    del JOBS[:]
    for p in ((5, 7, 11, 13) if tier == 'quick' else (5, 7, 11, 13, 17, 19, 23)):
        for a in range(p):
            for b in range(p):
                if (4 * a ** 3 + 27 * b * b) % p: JOBS.append((p, a, b))
    if tier == 'quick': JOBS.extend([(17, a, (a * a + 1) % 17) for a in range(17) if (4 * a ** 3 + 27 * (a * a + 1) ** 2) % 17])
    FAMILIES[0].counts[tier] = len(JOBS)

def xy(P): return None if P == E.INFINITY else (P.x(), P.y())
def val(mon, c, res, want, key, /, **w):
    got = xy(res)
    mon.check(got == want, key, 'group law gives %r' % (want,), got=got, p=c.p, a=c.a, b=c.b, **w)

def small(rng, mon, i):
    p, a, b = JOBS[i]
    c = ec.Curve('toy', p, a, b, None, 0)
    aa = rng.choice([a, a - p])                      # coefficients as given in the library may be negative (-3)
    cv = E.CurveFp(p, aa, b)
    pts = ec.curve_points(p, a, b); N = len(pts) + 1
    O = {P: E.Point(cv, *P) for P in pts}; O[None] = E.INFINITY
    mul = {}
    for P in [None] + pts:
        acc, l = None, [None]
        for k in range(2 * N + 2): acc = c.add(acc, P); l.append(acc)
        mul[P] = l
    for P in O:
        val(mon, c, mon.ok('raises', 'double', O[P].double), c.add(P, P), 'double', P=P)
        for Q in O:
            R = mon.ok('raises', 'add %s %s' % (P, Q), lambda: O[P] + O[Q])
            want = c.add(P, Q)
            val(mon, c, R, want, 'add', P=P, Q=Q)
            mon.check((R == O[want]) is True and (O[want] == R) is True, 'equal', 'equal points compare different', P=P, Q=Q)
            mon.check((O[P] == O[Q]) == (P == Q) and (O[P] != O[Q]) == (P != Q), 'equality', P=P, Q=Q)
            mon.ev('add')
        for k in range(2 * N + 3):
            val(mon, c, mon.ok('raises', '%s * %d on p=%d a=%d b=%d' % (P, k, p, a, b), lambda: O[P] * k), mul[P][k], 'mul', P=P, k=k)
            mon.ev('mul')
        val(mon, c, mon.ok('raises', 'rmul', lambda: (N + 1) * O[P]), P, 'rmul', P=P)
        for k in (rng.randint(2 * N, 4 * p * p), rng.randint(p * p, 1000 * p ** 3), rng.getrandbits(rng.choice([64, 256, 1000]))):
            val(mon, c, mon.ok('raises', 'mul', lambda: O[P] * k), mul[P][k % ec.point_order(c, P)] if P is not None else None, 'mul', P=P, k=k); mon.ev('mul-beyond')
        if P is not None:
            n = ec.point_order(c, P)
            W = mon.ok('raises', 'point with order', E.Point, cv, P[0], P[1], n)
            for k in list(range(n + 3)) + [2 * n, 3 * n + 1, 10 ** 6]:
                val(mon, c, mon.ok('raises', 'mul %d (order %d)' % (k, n), lambda: W * k), mul[P][k % n], 'mul-order', P=P, k=k, order=n)
            if P[1] == 0: mon.ev('order-two-point')
            mon.seen(p, a, b, P)
    for x in range(p):
        for y in range(p):
            st, v = mon.call(cv.contains_point, x, y)
            mon.check(st == 'ok' and bool(v) == ((x, y) in O), 'contains', 'membership wrong', p=p, a=a, b=b, x=x, y=y)
            if (x, y) not in O: mon.refused('off-curve', 'point off the curve is built', E.Point, cv, x, y)
    mon.ev('curve')

def big(rng, mon, i):
    bits = rng.choice([16, 31, 32, 64, 128, 255, 256, 384, 521])
    p = nt.rand_prime(rng, bits)
    while True:
        a, x0, y0 = rng.randrange(p), rng.randrange(p), rng.randrange(p)
        if rng.random() < .2: a = p - 3
        b = (y0 * y0 - x0 ** 3 - a * x0) % p
        if (4 * a ** 3 + 27 * b * b) % p: break
    c = ec.Curve('rnd', p, a, b, None, 0); cv = E.CurveFp(p, a, b)
    P = (x0, y0)
    pts = [P, c.neg(P), c.add(P, P), c.mul(rng.getrandbits(bits), P), c.mul(rng.getrandbits(8), P), None]
    if rng.random() < .3:
        try:
            t = numbertheory_root(rng, c)
            if t is not None: pts.append((t, 0))
        except ValueError: pass
    O = {Q: E.INFINITY if Q is None else E.Point(cv, *Q) for Q in pts}
    for _ in range(12):
        A, B = rng.choice(pts), rng.choice(pts)
        val(mon, c, mon.ok('raises', 'add', lambda: O[A] + O[B]), c.add(A, B), 'add', A=A, B=B)
        val(mon, c, mon.ok('raises', 'double', O[A].double), c.add(A, A), 'double', A=A)
        mon.ev('big-add')
    for _ in range(4):
        A = rng.choice(pts); k = gen.integer(rng, 0, 1 << (bits + 2))
        k = k if rng.random() < .8 else rng.getrandbits(rng.choice([2, 3]) * bits + 20)
        val(mon, c, mon.ok('raises', 'mul', lambda: O[A] * k), c.mul(k, A), 'mul', A=A, k=k)
        mon.ev('big-mul'); mon.seen(p, A, k)
    # associativity and equality of different routes
    A, B, C3 = (O[rng.choice(pts)] for _ in range(3))
    mon.check((A + B) + C3 == A + (B + C3), 'associative', p=p, a=a, b=b)
    k, l = rng.getrandbits(20), rng.getrandbits(20)
    mon.check(O[P] * k + O[P] * l == O[P] * (k + l), 'distributive', p=p, a=a, b=b, P=P, k=k, l=l)

def numbertheory_root(rng, c):
    """an x with x^3+ax+b = 0, when easily found"""
    for x in range(50):
        if (x ** 3 + c.a * x + c.b) % c.p == 0: return x
    return None

def shaped(rng, mon, i):
    """multipliers next to powers of two, their thirds and other awkward places: by the same point, built up step by step"""
    bits = rng.choice([64, 128, 256, 521]); p = nt.rand_prime(rng, bits); P = (rng.randrange(1, p), rng.randrange(1, p)); a = rng.randrange(p); b = (P[1] ** 2 - P[0] ** 3 - a * P[0]) % p
    if not (4 * a ** 3 + 27 * b * b) % p: return
    c = ec.Curve('rnd', p, a, b, None, 0); O = E.Point(E.CurveFp(p, a, b), *P); dbl = [P]
    for j in range(bits + 2): dbl.append(c.add(dbl[-1], dbl[-1]))
    def mul(k):
        r = None
        for j in range(k.bit_length()):
            if k >> j & 1: r = c.add(r, dbl[j])
        return r
    ks = {(1 << e) // 3 + d for e in rng.sample(range(2, bits + 2), 5) for d in (0, 1)} | {(1 << e) + d for e in rng.sample(range(2, bits + 1), 2) for d in (-1, 0, 1)} | {gen.shaped(rng, 1 << bits) for _ in range(10)}
    for k in ks:
        val(mon, c, mon.ok('raises', 'mul', lambda: O * k), mul(k), 'mul-shaped', P=P, k=k); mon.ev('mul-shaped')
    mon.seen('shaped', p, P)

def params(rng, mon, i):
    c, rc = CV[i]
    g = rc.generator
    mon.eq((rc.curve.p(), rc.curve.a() % c.p, rc.curve.b() % c.p, g.x(), g.y(), rc.order, g.order(), rc.name, tuple(rc.oid), rc.baselen),
           (c.p, c.a, c.b, c.G[0], c.G[1], c.n, c.n, c.name, c.oid, c.blen), 'parameters', 'not the published parameters', curve=c.name)
    mon.check(curves.find_curve(c.oid) is rc, 'find-curve', curve=c.name)
    mon.check(g * c.n == E.INFINITY, 'order')
    for d in (1, 2, 3, gen.scalar(rng), ec.K1.n - 1):        # the shorthand for points of the project's curve
        Q = ec.K1.mul(d, ec.K1.G); P = mon.ok('raises', 'ecc.point', ecc.point, *Q)
        mon.check(xy(P) == Q and P == curves.SECP256k1.generator * d, 'point', 'not the point of these coordinates', Q=Q)
        mon.refused('off-curve', 'point off the curve is built', ecc.point, Q[0], (Q[1] + 1) % ec.K1.p)
    mon.refused('unknown-curve', 'unknown curve found', curves.find_curve, (1, 3, 132, 0, 99))
    mon.ev('parameters')

def std(rng, mon, i):
    c, rc = CV[rng.choice([0, 0, 1, 2, 2, 3, 4, 5, 5])]
    G = rc.generator
    k = rng.choice([0, 1, 2, c.n - 1, c.n, c.n + 1, 2 * c.n, 2 * c.n + 5, gen.scalar(rng, c.n), gen.scalar(rng, c.n), gen.shaped(rng, c.n), gen.shaped(rng, c.n), gen.shaped(rng, 1 << 540), rng.getrandbits(600), 1 << 521, (1 << 256) - 1])
    val(mon, c, mon.ok('raises', 'mul', lambda: k * G), c.mul(k % c.n, c.G), 'mul-std', k=k, curve=c.name)
    d = gen.scalar(rng, c.n); Q = c.mul(d, c.G)
    P = E.Point(rc.curve, *Q)
    val(mon, c, mon.ok('raises', 'mul', lambda: P * k), c.mul(k, Q), 'mul-std', k=k, Q=Q)
    val(mon, c, mon.ok('raises', 'add', lambda: P + G), c.add(Q, c.G), 'add-std', Q=Q)
    val(mon, c, mon.ok('raises', 'add', lambda: P + E.Point(rc.curve, Q[0], c.p - Q[1])), None, 'add-inverse', Q=Q)
    val(mon, c, mon.ok('raises', 'double', P.double), c.add(Q, Q), 'double-std', Q=Q)
    mon.check(P == G * d and not (P == G) or d == 1, 'equal-std', d=d, curve=c.name)
    if i % 3 == 0:                                           # points that know their order: the answer depends on the whole point, each time it is asked
        e = rng.choice([gen.scalar(rng, c.n), gen.scalar(rng, c.n), c.n - 1, 2, 3]); m = (Q[0], c.p - Q[1]); R = c.mul(e, Q); W = c.mul(e, c.G)
        for S, T in rng.choice([((Q, R), (m, c.neg(R)), (c.G, W), (Q, R)), ((m, c.neg(R)), (Q, R), (m, c.neg(R)), (c.G, W))]):
            val(mon, c, mon.ok('raises', 'mul', lambda: E.Point(rc.curve, *S, c.n) * e), T, 'mul-ordered', k=e, Q=S); mon.ev('ordered')
    mon.ev('std'); mon.seen(c.name, k, d)
    mon.sample(curve=c.name, k=k, d=d)

FAMILIES = [Family('small-curves', small, 1, 1, exhaustive=True, cpu=120), Family('random-curves', big, 120, 4000), Family('shaped-multipliers', shaped, 60, 1500), Family('parameters', params, 6, 6, exhaustive=True), Family('standard-curves', std, 100, 3000)]
REQUIRED = {'add': 10000, 'mul': 10000, 'mul-beyond': 1000, 'order-two-point': 100, 'curve': 100, 'big-mul': 400, 'mul-shaped': 500, 'parameters': 6, 'std': 90, 'ordered': 100}
