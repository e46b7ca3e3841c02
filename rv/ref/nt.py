"""Plain number theory by definition."""
import random
def sieve(n):
    s = bytearray([1]) * (n + 1); s[0:2] = b'\0\0'
    for i in range(2, int(n ** .5) + 1):
        if s[i]: s[i*i::i] = bytes(len(s[i*i::i]))
    return s
def gcd(a, b):
    while b: a, b = b, a % b
    return a
def prime(n, rounds=40):
    """Miller-Rabin, random bases"""
    if n < 2: return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    rnd = random.Random(n)
    for _ in range(rounds):
        x = pow(rnd.randrange(2, n - 1), d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def rand_prime(rng, bits, cond=lambda p: True):
    while True:
        p = rng.getrandbits(bits) | 1 | (1 << (bits - 1))
        if cond(p) and prime(p): return p
def factor(n):
    out = []; d = 2
    while d * d <= n:
        e = 0
        while n % d == 0: n //= d; e += 1
        if e: out.append((d, e))
        d += 1
    if n > 1: out.append((n, 1))
    return out
def jacobi(a, n):
    """by factoring n and Euler's criterion"""
    r = 1
    for p, e in factor(n):
        l = pow(a % p, (p - 1) // 2, p)
        l = 0 if a % p == 0 else (1 if l == 1 else -1)
        r *= l ** e
    return r
