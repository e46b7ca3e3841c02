"""Independent base58, WIF, address, BIP32 and DER models."""
import hashlib, hmac
from .ec import K1

AL = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def dsha(b): return hashlib.sha256(hashlib.sha256(b).digest()).digest()

def b58e(b):
    n = int.from_bytes(b, 'big'); out = []
    while n: n, r = divmod(n, 58); out.append(AL[r])
    z = 0
    while z < len(b) and b[z] == 0: z += 1
    return ('1' * z + ''.join(reversed(out))).encode()

def b58d(t):
    if isinstance(t, bytes): t = t.decode('latin-1')
    n = 0
    for c in t: n = n * 58 + AL.index(c)
    z = 0
    while z < len(t) and t[z] == '1': z += 1
    return b'\0' * z + (n.to_bytes((n.bit_length() + 7) // 8, 'big') if n else b'')

def b58check_e(b): return b58e(b + dsha(b)[:4])
def b58check_d(t):
    """payload or None"""
    try: b = b58d(t)
    except ValueError: return None
    if len(b) < 4 or dsha(b[:-4])[:4] != b[-4:]: return None
    return b[:-4]

def wif(d, compressed):
    k = d if isinstance(d, bytes) else d.to_bytes(32, 'big')
    return b58check_e(b'\x80' + k + (b'\x01' if compressed else b''))

def unwif(t):
    """(32-byte key, compressed) or None; strict."""
    b = b58check_d(t)
    if b is None or b[:1] != b'\x80': return None
    if len(b) == 33: return b[1:], False
    if len(b) == 34 and b[-1] == 1: return b[1:-1], True
    return None

def ser_pub(P, compressed):
    x, y = P
    if compressed: return bytes([2 + (y & 1)]) + x.to_bytes(32, 'big')
    return b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')

def parse_pub(b):
    """strict SEC1 point on secp256k1, or None"""
    c = K1
    if len(b) == 65 and b[0] == 4:
        P = (int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big'))
        return P if max(P) < c.p and c.on(P) else None
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        y = c.lift_x(x, b[0] & 1) if x < c.p else None
        return None if y is None else (x, y)
    return None

def address(pubser, vcn, ver):
    h = hashlib.sha512(pubser).digest()
    rip = lambda x: hashlib.new('ripemd160', x).digest()
    hh = hashlib.sha256(rip(h[:32]) + rip(h[32:])).digest()
    return b58check_e(ver + ('%04x' % (vcn % 65536)).encode() + hh)

def hash160(b): return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()

class Node(object):
    """BIP32 node."""
    def __init__(self, d, P, chain, depth=0, fp=b'\0'*4, num=0, testnet=False):
        self.d, self.P, self.chain, self.depth, self.fp, self.num, self.testnet = d, P, chain, depth, fp, num, testnet
        if P is None: self.P = K1.mul(d, K1.G)
    @staticmethod
    def master(seed, testnet=False):
        I = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
        return Node(int.from_bytes(I[:32], 'big') % K1.n, None, I[32:], testnet=testnet)
    def child(self, i):
        if i & 0x80000000: data = b'\0' + self.d.to_bytes(32, 'big')
        else: data = ser_pub(self.P, True)
        I = hmac.new(self.chain, data + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        t = int.from_bytes(I[:32], 'big')
        fp = hash160(ser_pub(self.P, True))[:4]
        if self.d is not None:
            return Node((self.d + t) % K1.n, None, I[32:], self.depth + 1, fp, i, self.testnet)
        return Node(None, K1.add(self.P, K1.mul(t, K1.G)), I[32:], self.depth + 1, fp, i, self.testnet)
    def neuter(self):
        return Node(None, self.P, self.chain, self.depth, self.fp, self.num, self.testnet)
    def ext(self, prv):
        v = {(0, 0): '0488b21e', (0, 1): '0488ade4', (1, 0): '043587cf', (1, 1): '04358394'}[(int(self.testnet), int(prv))]
        key = b'\0' + self.d.to_bytes(32, 'big') if prv else ser_pub(self.P, True)
        return b58check_e(bytes.fromhex(v) + bytes([self.depth]) + self.fp + self.num.to_bytes(4, 'big') + self.chain + key)

# ---------------------------------------------------------------- DER
def der_len(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 | len(b)]) + b
def der_tlv(t, v): return bytes([t]) + der_len(len(v)) + v
def der_int(n): return der_tlv(2, n.to_bytes(n.bit_length() // 8 + 1, 'big'))
def der_seq(*p): return der_tlv(0x30, b''.join(p))
def der_oid(o):
    out = [40 * o[0] + o[1]]; r = []
    for v in o[2:]:
        g = [v & 127]; v >>= 7
        while v: g.insert(0, 128 | (v & 127)); v >>= 7
        r += g
    first = out[0]; g = [first & 127]; first >>= 7
    while first: g.insert(0, 128 | (first & 127)); first >>= 7
    return der_tlv(6, bytes(g + r))
def der_sig(r, s): return der_seq(der_int(r), der_int(s))

class Bad(Exception): pass
def der_rd(b, tag):
    """strict on bounds, liberal on minimality: (body, rest)"""
    if len(b) < 2 or b[0] != tag: raise Bad('tag')
    n, i = b[1], 2
    if n & 128:
        k = n & 127
        if k == 0 or len(b) < 2 + k: raise Bad('length')
        n = int.from_bytes(b[2:2+k], 'big'); i = 2 + k
    if i + n > len(b): raise Bad('short')
    return b[i:i+n], b[i+n:]
def liberal_sig(b):
    """all (r,s) readings a tolerant DER reader may take of b: trailing bytes, unminimal or sign-less integers"""
    body, rest = der_rd(b, 0x30)
    r, rest = der_rd(body, 2); s, rest = der_rd(rest, 2)
    if not r or not s: raise Bad('empty')
    return int.from_bytes(r, 'big'), int.from_bytes(s, 'big')
