"""Independent elliptic-curve model (Jacobian coordinates), ECDSA, RFC 6979."""
import hashlib, hmac

class Curve(object):
    def __init__(self, name, p, a, b, G, n, oid=None):
        self.name, self.p, self.a, self.b, self.G, self.n, self.oid = name, p, a % p, b % p, G, n, oid
        self.blen = (n.bit_length() + 7) // 8

    # points: None = infinity, or (x, y)
    def on(self, P):
        if P is None: return True
        x, y = P
        return (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0

    def neg(self, P):
        return None if P is None else (P[0], (-P[1]) % self.p)

    def add(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        p = self.p
        x1, y1 = P; x2, y2 = Q
        x1 %= p; x2 %= p; y1 %= p; y2 %= p
        if x1 == x2:
            if (y1 + y2) % p == 0: return None
            l = (3 * x1 * x1 + self.a) * pow(2 * y1, -1, p) % p
        else:
            l = (y2 - y1) * pow(x2 - x1, -1, p) % p
        x3 = (l * l - x1 - x2) % p
        return (x3, (l * (x1 - x3) - y1) % p)

    def _jdbl(self, P):
        X, Y, Z = P; p = self.p
        if not Y or not Z: return (1, 1, 0)
        YY = Y * Y % p
        S = 4 * X * YY % p
        M = (3 * X * X + self.a * pow(Z, 4, p)) % p
        X3 = (M * M - 2 * S) % p
        return (X3, (M * (S - X3) - 8 * YY * YY) % p, 2 * Y * Z % p)

    def _jadd(self, P, Q):
        if not P[2]: return Q
        if not Q[2]: return P
        p = self.p
        X1, Y1, Z1 = P; X2, Y2, Z2 = Q
        a1 = Z1 * Z1 % p; a2 = Z2 * Z2 % p
        U1 = X1 * a2 % p; U2 = X2 * a1 % p
        S1 = Y1 * a2 * Z2 % p; S2 = Y2 * a1 * Z1 % p
        if U1 == U2:
            return self._jdbl(P) if S1 == S2 else (1, 1, 0)
        H = (U2 - U1) % p; R = (S2 - S1) % p
        HH = H * H % p; HHH = H * HH % p; V = U1 * HH % p
        X3 = (R * R - HHH - 2 * V) % p
        return (X3, (R * (V - X3) - S1 * HHH) % p, H * Z1 * Z2 % p)

    def mul(self, k, P):
        if P is None or k == 0: return None
        if k < 0: k, P = -k, self.neg(P)
        R = (1, 1, 0); Q = (P[0] % self.p, P[1] % self.p, 1)
        while k:
            if k & 1: R = self._jadd(R, Q)
            Q = self._jdbl(Q); k >>= 1
        if not R[2]: return None
        zi = pow(R[2], -1, self.p); z2 = zi * zi % self.p
        return (R[0] * z2 % self.p, R[1] * z2 * zi % self.p)

    def lift_x(self, x, odd=None):
        """y with given parity, or None."""
        if not 0 <= x < self.p: return None
        y = sqrt_mod((x * x * x + self.a * x + self.b) % self.p, self.p)
        if y is None: return None
        if odd is not None and (y & 1) != odd: y = (-y) % self.p
        if odd is not None and (y & 1) != odd: return None
        return y

    def verify(self, Q, z, r, s):
        n = self.n
        if not (1 <= r < n and 1 <= s < n) or Q is None or not self.on(Q): return False
        w = pow(s, -1, n)
        X = self.add(self.mul(z * w % n, self.G), self.mul(r * w % n, Q))
        return X is not None and X[0] % n == r

    def sign(self, d, z, k):
        R = self.mul(k, self.G)
        if R is None: return None
        r = R[0] % self.n
        s = pow(k, -1, self.n) * (z + r * d) % self.n
        return (r, s) if r and s else None

def sqrt_mod(a, p):
    a %= p
    if a == 0: return 0
    if p == 2: return a
    if pow(a, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0                         # Tonelli-Shanks
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1: t2 = t2 * t2 % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return r

P192 = Curve('NIST192p', 2**192-2**64-1, -3, 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1,
  (0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, 0x07192b95ffc8da78631011ed6b24cdd573f977a11e794811),
  0xffffffffffffffffffffffff99def836146bc9b1b4d22831, (1, 2, 840, 10045, 3, 1, 1))
P224 = Curve('NIST224p', 2**224-2**96+1, -3, 0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4,
  (0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21, 0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34),
  0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d, (1, 3, 132, 0, 33))
P256 = Curve('NIST256p', 2**256-2**224+2**192+2**96-1, -3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
  (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
  0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551, (1, 2, 840, 10045, 3, 1, 7))
P384 = Curve('NIST384p', 2**384-2**128-2**96+2**32-1, -3, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
  (0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
   0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f),
  0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973, (1, 3, 132, 0, 34))
P521 = Curve('NIST521p', 2**521-1, -3, 0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
  (0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
   0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650),
  0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409, (1, 3, 132, 0, 35))
K1 = Curve('SECP256k1', 2**256-2**32-977, 0, 7,
  (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8),
  0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141, (1, 3, 132, 0, 10))
CURVES = [P192, P224, P256, P384, P521, K1]
OPENSSL = {'NIST192p': 'prime192v1', 'NIST224p': 'secp224r1', 'NIST256p': 'prime256v1',
           'NIST384p': 'secp384r1', 'NIST521p': 'secp521r1', 'SECP256k1': 'secp256k1'}

# ---------------------------------------------------------------- toy curves
def curve_points(p, a, b):
    roots = {}
    for y in range(p): roots.setdefault(y * y % p, []).append(y)
    return [(x, y) for x in range(p) for y in roots.get((x**3 + a*x + b) % p, ())]

def point_order(c, P):
    k, Q = 1, P
    while Q is not None: Q = c.add(Q, P); k += 1
    return k

def is_prime(n):
    if n < 2: return False
    i = 2
    while i * i <= n:
        if n % i == 0: return False
        i += 1
    return True

def toy_curves(primes, want_prime_order=True):
    """All (p,a,b) curves whose group has prime order (cofactor one), with a generator."""
    for p in primes:
        for a in range(p):
            for b in range(p):
                if (4*a**3 + 27*b**2) % p == 0: continue
                pts = curve_points(p, a, b); n = len(pts) + 1
                if want_prime_order and (not is_prime(n) or n < 5): continue
                yield p, a, b, pts, n

# ---------------------------------------------------------------- RFC 6979
def rfc6979_candidates(n, x, hashf, h1):
    qlen = n.bit_length(); rlen = (qlen + 7) // 8
    def b2i(b):
        v = int.from_bytes(b, 'big'); l = len(b) * 8
        return v >> (l - qlen) if l > qlen else v
    hl = hashf().digest_size
    bx = x.to_bytes(rlen, 'big') + (b2i(h1) % n).to_bytes(rlen, 'big')
    V, K = b'\x01' * hl, b'\x00' * hl
    K = hmac.new(K, V + b'\x00' + bx, hashf).digest(); V = hmac.new(K, V, hashf).digest()
    K = hmac.new(K, V + b'\x01' + bx, hashf).digest(); V = hmac.new(K, V, hashf).digest()
    while True:
        T = b''
        while len(T) * 8 < qlen:
            V = hmac.new(K, V, hashf).digest(); T += V
        yield b2i(T)
        K = hmac.new(K, V + b'\x00', hashf).digest(); V = hmac.new(K, V, hashf).digest()

def rfc6979(n, x, hashf, h1):
    """(k, number of rejected candidates)"""
    for i, k in enumerate(rfc6979_candidates(n, x, hashf, h1)):
        if 1 <= k < n: return k, i
