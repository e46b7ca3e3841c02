from math import prod
from ..core import Family, Violation
from .. import gen
from ..ref import ec, nt
from nbc.util.ecdsa import numbertheory as T
ANCHORS = ['nbc/util/ecdsa/numbertheory.py']
RULE = 'every argument in small ranges (all numbers to 1e6 for primality), boundary and random large ones, large primes of every residue class; distinct = distinct arguments'
BIG = [c.p for c in ec.CURVES] + [c.n for c in ec.CURVES] + [2**61-1, 2**127-1, 2**255-19, 2**130-5, 3 * 2**30 + 1, 2**64 - 59, 0xFFFFFFFF00000001]
SV = {}
def setup(tier): SV['s'] = nt.sieve(1000200)

BLK = 5000
def primality(rng, mon, i):
    s = SV['s']
    for n in range(i * BLK, (i + 1) * BLK + (1 if i == 199 else 0)):
        v = T.is_prime(n)
        if bool(v) != bool(s[n]): raise Violation('is-prime', 'is_prime(%d) is %r' % (n, v))
    mon.ev('is-prime', BLK); mon.seen(i)

def bigprimes(rng, mon, i):
    for _ in range(6):
        bits = rng.choice([21, 31, 32, 33, 48, 64, 65, 90, 99, 100, 101, 128, 150, 160, 200, 256, 350, 521, 650])
        p = BIG[i] if i < len(BIG) and _ == 0 else nt.rand_prime(rng, bits)
        mon.check(mon.ok('raises', 'is_prime', T.is_prime, p) is True, 'prime-called-composite', 'a prime is called composite', p=p)
        mon.ev('big-prime'); mon.seen(p)
    for _ in range(6):                                   # composites without small factors, at random
        b = rng.choice([20, 32, 50, 80, 128]); n = nt.rand_prime(rng, b) * nt.rand_prime(rng, b)
        mon.check(not T.is_prime(n), 'composite-called-prime', n=n); mon.ev('big-composite')

def small_next(rng, mon, i):
    s = SV['s']; lo = i * 400
    for v in range(lo, lo + 400):
        w = v + 1
        while not s[w]: w += 1
        mon.eq(mon.ok('raises', 'next_prime', T.next_prime, v), w, 'next-prime', start=v); mon.ev('next-prime')
    for v in (-5, -1, 0, 1): mon.eq(T.next_prime(v), 2, 'next-prime', start=v)
def big_next(rng, mon, i):
    for _ in range(3):
        v = rng.choice([rng.randint(10 ** 4, 10 ** 6), rng.getrandbits(rng.choice([40, 64, 100, 160])), nt.rand_prime(rng, 40)])
        p = T.next_prime(v); w = v + 1
        while not nt.prime(w, 12): w += 1
        mon.eq(p, w, 'next-prime', start=v); mon.ev('next-prime-big'); mon.seen(v)

def roots_small(rng, mon, i):
    ps = [p for p in range(2, SV.get('rootmax', 800)) if SV['s'][p]]
    p = ps[i]
    sq = {x * x % p for x in range(p)}
    for a in range(p):
        st, v = mon.call(T.square_root_mod_prime, a, p)
        if a in sq:
            mon.check(st == 'ok' and isinstance(v, int) and v * v % p == a and 0 <= v < p, 'square-root', 'not a square root', a=a, p=p, got=v); mon.ev('root')
        else:
            mon.check(st == 'exc', 'non-residue', 'a non-residue gets a root', a=a, p=p, got=v); mon.ev('non-residue')
    mon.seen(p)
def nroots(hi): return sum(nt.sieve(hi)[:hi])

def roots_big(rng, mon, i):
    cls = [lambda p: p % 4 == 3, lambda p: p % 8 == 5, lambda p: p % 8 == 1, lambda p: p % 16 == 1, lambda p: p % 64 == 1]
    p = BIG[i] if i < len(BIG) else nt.rand_prime(rng, rng.choice([12, 20, 32, 64, 128, 256, 384]), cls[i % 5])
    for _ in range(4):
        x = gen.integer(rng, 0, p - 1); a = x * x % p
        v = mon.ok('raises', 'square_root_mod_prime(%d, %d)' % (a, p), T.square_root_mod_prime, a, p)
        mon.check(v in (x, (-x) % p), 'square-root', 'not a square root', a=a, p=p, got=v)
        mon.ev('big-root'); mon.ev('class-%d-mod-8' % (p % 8)); mon.seen(p, a)
        b = gen.integer(rng, 1, p - 1); leg = pow(b, (p - 1) // 2, p)
        want = 1 if leg == 1 else -1
        if p > 2: mon.eq(T.jacobi(b, p), want, 'jacobi', 'Legendre symbol wrong', a=b, n=p)
        if want == -1: mon.refused('non-residue', 'a non-residue gets a root', T.square_root_mod_prime, b, p)
    mon.sample(p=p, a=a)

def inv_small(rng, mon, i):
    m = i + 2
    for a in range(-m - 3, 2 * m + 3):
        st, v = mon.call(T.inverse_mod, a, m)
        if nt.gcd(a % m, m) == 1: mon.check(st == 'ok' and 0 <= v < m and a * v % m == 1 % m, 'inverse', 'not the inverse', a=a, m=m, got=v); mon.ev('inverse')
        else: mon.check(st == 'exc', 'non-invertible', 'a non-invertible element gets an inverse', a=a, m=m, got=v); mon.ev('non-invertible')
    mon.seen(m)
def inv_big(rng, mon, i):
    for _ in range(30):
        m = rng.choice(BIG) if rng.random() < .4 else gen.integer(rng, 2, 1 << rng.randint(2, 600))
        a = rng.choice([gen.integer(rng, 1, m), gen.integer(rng, 1, m), -rng.randrange(1, m + 1), rng.getrandbits(700), m - 1, m + 1])
        st, v = mon.call(T.inverse_mod, a, m)
        if nt.gcd(a % m, m) == 1: mon.check(st == 'ok' and 0 <= v < m and a * v % m == 1 % m, 'inverse', 'not the inverse', a=a, m=m, got=v); mon.ev('inverse')
        else: mon.check(st == 'exc', 'non-invertible', a=a, m=m, got=v); mon.ev('non-invertible')
        e = gen.integer(rng, 0, 1 << 200)
        mon.eq(mon.ok('raises', 'modular_exp', T.modular_exp, a, e, m), pow(a, e, m), 'modular-exp', a=a, e=e, m=m)
        mon.refused('negative-exponent', 'negative exponent', T.modular_exp, a, -1 - rng.getrandbits(10), m)
        mon.seen(a, m)
    # exponentiation by definition
    a, m = rng.randint(-50, 50), rng.randint(1, 200)
    for e in range(12): mon.eq(T.modular_exp(a, e, m), a ** e % m, 'modular-exp', a=a, e=e, m=m)

def jac(rng, mon, i):
    n = 2 * i + 3
    for a in range(-n, 2 * n + 1) if n < 200 else [rng.randint(-3 * n, 3 * n) for _ in range(150)]:
        mon.eq(mon.ok('raises', 'jacobi', T.jacobi, a, n), nt.jacobi(a, n), 'jacobi', a=a, n=n); mon.ev('jacobi')
    mon.refused('jacobi-domain', 'even n', T.jacobi, 3, n + 1)
    mon.seen(n)

def gcds(rng, mon, i):
    for _ in range(60):
        k = rng.random(); hi = 60 if k < .4 else 10 ** 6 if k < .7 else 1 << 300
        g = rng.choice([1, 1, rng.randint(1, 1000)])
        l = [g * rng.randint(1, hi) for _ in range(rng.choice([1, 2, 2, 3, 4, 6]))]
        wg, wl = l[0], l[0]
        for v in l[1:]: wg = nt.gcd(wg, v); wl = wl * v // nt.gcd(wl, v)
        for f, w in ((T.gcd, wg), (T.lcm, wl)):
            mon.eq(mon.ok('raises', f.__name__, f, *l), w, f.__name__, args=l); mon.eq(mon.ok('raises', f.__name__, f, l), w, f.__name__ + '-list', args=l); mon.eq(mon.ok('raises', f.__name__, f, tuple(l)), w, f.__name__ + '-tuple', args=l)
        a, b = rng.randint(0, hi), rng.randint(0, hi)
        mon.eq(T.gcd(a, b), nt.gcd(a, b), 'gcd', a=a, b=b); mon.eq(T.gcd2(a, b), nt.gcd(a, b), 'gcd2', a=a, b=b)
        mon.ev('gcd'); mon.seen(*l)

def phi_of(f): return prod(p ** (e - 1) * (p - 1) for p, e in f)
def carm_of(f):
    r = 1
    for p, e in f:
        v = 2 ** (e - 2) if p == 2 and e > 2 else p ** (e - 1) * (p - 1)
        r = r * v // nt.gcd(r, v)
    return r
def facts(mon, n, f=None):
    f = f or nt.factor(n)
    got = mon.ok('raises', 'factorization', T.factorization, n)
    mon.eq(sorted(tuple(x) for x in got), sorted(f), 'factorization', n=n)
    mon.eq(mon.ok('raises', 'phi', T.phi, n), phi_of(f), 'phi', n=n)
    mon.eq(mon.ok('raises', 'carmichael', T.carmichael, n), carm_of(f), 'carmichael', n=n)
    if f:
        mon.eq(mon.ok('raises', 'carmichael_of_factorized', T.carmichael_of_factorized, f), carm_of(f), 'carmichael-factorized', n=n)
        mon.eq(T.carmichael_of_ppower(f[0]), carm_of(f[:1]), 'carmichael-ppower', pp=f[0])
    mon.ev('factorization'); mon.seen(n)
def fact_small(rng, mon, i):
    for n in range(i * 100 + 1, i * 100 + 101): facts(mon, n)
def fact_big(rng, mon, i):
    ps = [p for p in (1201, 1213, 1217, 1223, 1229, 1231, 1237, 1249, 1259, 1277, 1511, 5003, 7919, 10007, 65537)]
    for _ in range(6):
        k = rng.random()
        if k < .3: l = [rng.choice(ps) for _ in range(rng.randint(1, 3))]
        elif k < .5: l = [rng.choice(ps)] * 2 + [2] * rng.randint(0, 10)
        elif k < .7: l = [nt.rand_prime(rng, rng.choice([14, 15, 16])), nt.rand_prime(rng, 14)]
        elif k < .85: l = [rng.choice([2, 3, 5, 7, 11, 1229]) for _ in range(rng.randint(1, 12))]
        else: l = [nt.rand_prime(rng, rng.choice([20, 40, 64]))] + [rng.choice([2, 3, 7]) for _ in range(rng.randint(0, 3))]
        f = {}
        for p in l: f[p] = f.get(p, 0) + 1
        facts(mon, prod(l), sorted(f.items()))

def orders(rng, mon, i):
    m = i + 2
    for x in range(0, 2 * m + 2):
        st, v = mon.call(T.order_mod, x, m)
        if nt.gcd(x % m, m) == 1:
            k, z = 1, x % m
            while z != 1 % m: z = z * x % m; k += 1
            mon.check(st == 'ok' and v == k, 'order-mod', 'not the order (%d)' % k, x=x, m=m, got=v); mon.ev('order')
        else: mon.check(st == 'exc', 'order-undefined', 'no order exists', x=x, m=m, got=v)
        if x >= 1:
            a = m
            while nt.gcd(a, x) > 1: a //= nt.gcd(a, x)
            mon.eq(mon.ok('raises', 'largest_factor_relatively_prime', T.largest_factor_relatively_prime, m, x), a, 'largest-factor', a=m, b=x)
            if a > 1:
                k, z = 1, x % a
                while z != 1 % a: z = z * x % a; k += 1
                mon.eq(mon.ok('raises', 'kinda_order_mod', T.kinda_order_mod, x, m), k, 'kinda-order', x=x, m=m)
    mon.seen(m)

FAMILIES = [Family('primality-to-1e6', primality, 200, 200, exhaustive=True), Family('big-primes', bigprimes, 40, 1500), Family('next-prime-small', small_next, 50, 1000, exhaustive=True), Family('next-prime-big', big_next, 40, 1500),
            Family('roots-small', roots_small, nroots(800), nroots(800), exhaustive=True), Family('roots-big', roots_big, 120, 4000), Family('inverse-small', inv_small, 200, 1000, exhaustive=True), Family('inverse-big', inv_big, 60, 3000),
            Family('jacobi', jac, 300, 6000), Family('gcd', gcds, 60, 3000), Family('factor-small', fact_small, 150, 3000, exhaustive=True), Family('factor-big', fact_big, 80, 3000), Family('orders', orders, 150, 700, exhaustive=True)]
REQUIRED = {'is-prime': 1000000, 'root': 20000, 'non-residue': 20000, 'big-root': 400, 'class-1-mod-8': 100, 'class-5-mod-8': 50, 'inverse': 10000, 'non-invertible': 5000, 'jacobi': 20000, 'gcd': 3000, 'factorization': 15000, 'order': 5000}
