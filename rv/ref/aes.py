"""Textbook AES (FIPS-197, byte oriented) and SP800-38A modes."""
def _xt(a): a <<= 1; return (a ^ 0x11b) & 0xff if a & 0x100 else a
def _mul(a, b):
    r = 0
    while b:
        if b & 1: r ^= a
        a = _xt(a); b >>= 1
    return r
def _mk():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if _mul(a, b) == 1: inv[a] = b; break
    S = []
    for a in range(256):
        x = inv[a]; y = 0
        for i in range(8):
            bit = (x >> i ^ x >> ((i + 4) % 8) ^ x >> ((i + 5) % 8) ^ x >> ((i + 6) % 8) ^ x >> ((i + 7) % 8) ^ 0x63 >> i) & 1
            y |= bit << i
        S.append(y)
    return S
S = _mk(); IS = [0] * 256
for _i, _v in enumerate(S): IS[_v] = _i
M = {c: [_mul(a, c) for a in range(256)] for c in (2, 3, 9, 11, 13, 14)}

def expand(key):
    nk = len(key) // 4; nr = nk + 6
    w = [list(key[4*i:4*i+4]) for i in range(nk)]; rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i-1])
        if i % nk == 0:
            t = [S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]]; rc = _xt(rc)
        elif nk > 6 and i % nk == 4: t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i-nk], t)])
    return [sum(w[4*r:4*r+4], []) for r in range(nr + 1)]

class AES(object):
    def __init__(self, key): self.k = expand(key)
    def enc(self, blk):
        s = [a ^ b for a, b in zip(blk, self.k[0])]
        n = len(self.k) - 1
        for r in range(1, n + 1):
            s = [S[x] for x in s]
            s = [s[(4 * (c + w) + w) % 16] for c in range(4) for w in range(4)]
            if r < n:
                o = []
                for c in range(4):
                    a, b, d, e = s[4*c:4*c+4]
                    o += [M[2][a] ^ M[3][b] ^ d ^ e, a ^ M[2][b] ^ M[3][d] ^ e, a ^ b ^ M[2][d] ^ M[3][e], M[3][a] ^ b ^ d ^ M[2][e]]
                s = o
            s = [a ^ b for a, b in zip(s, self.k[r])]
        return bytes(s)
    def dec(self, blk):
        n = len(self.k) - 1
        s = [a ^ b for a, b in zip(blk, self.k[n])]
        for r in range(n - 1, -1, -1):
            s = [s[(4 * (c - w) + w) % 16] for c in range(4) for w in range(4)]
            s = [IS[x] for x in s]
            s = [a ^ b for a, b in zip(s, self.k[r])]
            if r:
                o = []
                for c in range(4):
                    a, b, d, e = s[4*c:4*c+4]
                    o += [M[14][a] ^ M[11][b] ^ M[13][d] ^ M[9][e], M[9][a] ^ M[14][b] ^ M[11][d] ^ M[13][e],
                          M[13][a] ^ M[9][b] ^ M[14][d] ^ M[11][e], M[11][a] ^ M[13][b] ^ M[9][d] ^ M[14][e]]
                s = o
        return bytes(s)

def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))
def ecb_e(k, d): c = AES(k); return b''.join(c.enc(d[i:i+16]) for i in range(0, len(d), 16))
def cbc_e(k, iv, d):
    c = AES(k); o = b''; p = iv
    for i in range(0, len(d), 16): p = c.enc(xor(d[i:i+16], p)); o += p
    return o
def cbc_d(k, iv, d):
    c = AES(k); o = b''; p = iv
    for i in range(0, len(d), 16): b = d[i:i+16]; o += xor(c.dec(b), p); p = b
    return o
def cfb_e(k, iv, seg, d):
    c = AES(k); o = b''; sh = iv
    for i in range(0, len(d), seg):
        x = xor(d[i:i+seg], c.enc(sh)); o += x; sh = (sh + x)[-16:]
    return o
def ofb(k, iv, d):
    c = AES(k); s = b''; p = iv
    while len(s) < len(d): p = c.enc(p); s += p
    return xor(d, s)
def ctr(k, n, d):
    c = AES(k); s = b''
    while len(s) < len(d): s += c.enc((n % (1 << 128)).to_bytes(16, 'big')); n += 1
    return xor(d, s)
def pkcs7(d): n = 16 - len(d) % 16; return d + bytes([n]) * n
