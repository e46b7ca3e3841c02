"""Boundary-biased generators and a dictionary of constants harvested from the code under test."""
import random, sys, time, types
from .core import NBC
from .ref import ec, codec
N = ec.K1.n; Pp = ec.K1.p

_dict = None
def harvest():
    """ints and byte strings used as constants anywhere in the loaded repository modules"""
    global _dict
    if _dict is not None: return _dict
    ints, bys, strs = set(), set(), set()
    todo = []
    for m in list(sys.modules.values()):
        f = getattr(m, '__file__', None)
        if f and f.startswith(NBC):
            for v in list(vars(m).values()): grab(v, todo, ints, bys, strs)
            try: todo.append(compile(open(f).read(), f, 'exec'))
            except Exception: pass
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) in seen: continue
        seen.add(id(c))
        for k in c.co_consts:
            if isinstance(k, types.CodeType): todo.append(k)
            else: grab(k, todo, ints, bys, strs)
    _dict = (sorted(ints), sorted(bys), sorted(strs))
    return _dict

def grab(v, todo, ints, bys, strs):
    if isinstance(v, bool): return
    if isinstance(v, int): ints.add(v)
    elif isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e18 else False: ints.add(int(v))
    elif isinstance(v, bytes) and len(v) <= 80: bys.add(v)
    elif isinstance(v, str) and len(v) <= 40: strs.add(v)
    elif isinstance(v, (tuple, frozenset, list)) and len(v) < 300:
        for x in v: grab(x, todo, ints, bys, strs)

def raw(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))

def data(rng, maxlen=300):
    """arbitrary byte string, short ones and special fillings favoured"""
    k = rng.random()
    if k < .05: return b''
    if k < .12:
        d = harvest()[1]
        if d: return rng.choice(d)
    n = rng.choice([1, 2, 3, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 127, 128]) if k < .5 else rng.randint(1, maxlen)
    f = rng.random()
    if f < .1: return b'\0' * n
    if f < .2: return b'\xff' * n
    if f < .3: return b'\0' * (n // 2) + raw(rng, n - n // 2)
    if f < .4: return raw(rng, n - n // 2) + b'\0' * (n // 2)
    return raw(rng, n)

def integer(rng, lo, hi):
    """integer in [lo, hi], biased to the limits, powers of two and code constants"""
    k = rng.random()
    if k < .25: return min(hi, lo + rng.choice([0, 0, 1, 2, 3]))
    if k < .45: return max(lo, hi - rng.choice([0, 0, 1, 2, 3]))
    if k < .65:
        v = (1 << rng.randint(0, max(1, hi.bit_length()))) + rng.choice([-1, 0, 1])
        if lo <= v <= hi: return v
    if k < .75:
        c = [v for v in harvest()[0] if lo <= v + 1 and v - 1 <= hi]
        if c:
            v = rng.choice(c) + rng.choice([-1, 0, 1])
            if lo <= v <= hi: return v
    if k < .82 and hi > 3:
        v = shaped(rng, hi)
        if lo <= v: return v
    return rng.randint(lo, hi)

def shaped(rng, hi):
    """integer in [1, hi] of a shape that arithmetic stumbles over: next to a fraction of a power of two, runs of ones or zeros, repeated digits, few bits set, next to what a float holds"""
    b = rng.randint(2, max(2, hi.bit_length())); k = rng.randrange(8); j = rng.randint(-3, 3)
    if k < 2: v = (1 << b) * rng.choice([1, 1, 2]) // rng.choice([3, 3, 5, 6, 7, 9]) + j
    elif k == 2: v = (1 << b) + j
    elif k == 3: v = ((1 << rng.randint(1, b)) - 1) << rng.randint(0, b)
    elif k == 4: v = int((rng.choice(['0', '1']) + rng.choice(['01', '10', '0011', '01111111', '10000000', '00000001', '11110000', '011']) * b)[:b + 1], 2)
    elif k == 5: v = sum(1 << rng.randrange(b) for _ in range(rng.randint(1, 3)))
    elif k == 6: v = (1 << b) - sum(1 << rng.randrange(b) for _ in range(rng.randint(1, 2)))
    else: v = int(float(rng.getrandbits(b) or 1)) + j if b < 1000 else 1 << b
    return v if 1 <= v <= hi else (v % hi) + 1

def scalar(rng, n=N):
    """secret exponent in [1, n-1] with short, long, sparse and dense ones"""
    k = rng.random()
    if k < .1: return rng.choice([1, 2, 3, n - 1, n - 2, n // 2, n // 2 + 1])
    if k < .2: return shaped(rng, n - 1)
    if k < .35: return max(1, rng.getrandbits(n.bit_length()) >> rng.randint(1, n.bit_length() - 1)) % n or 1
    if k < .43:
        b = bytearray((rng.getrandbits(n.bit_length() - 1) % n).to_bytes((n.bit_length() + 7) // 8, 'big'))
        b[rng.randrange(len(b))] = 0; b[0] = 0
        return int.from_bytes(b, 'big') % n or 1
    return rng.randint(1, n - 1)

_pool = {}
def keypair(rng, cache=True):
    """(d, P) on secp256k1"""
    d = scalar(rng)
    return d, ec.K1.mul(d, ec.K1.G)

def vcn(rng):
    return rng.choice([0, 1, 15, 16, 255, 256, 0x0fff, 0x1000, 0x8000, 0xffff, rng.getrandbits(16), rng.getrandbits(16), rng.getrandbits(16)])

def mutate(rng, b, alphabet=None):
    """a byte string different from b, a few edits away"""
    while True:
        o = bytearray(b)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.random()
            ch = rng.choice(alphabet) if alphabet else rng.getrandbits(8)
            if k < .45 and o:
                p = rng.randrange(len(o)); o[p] = ch if rng.random() < .6 else o[p] ^ (1 << rng.randrange(8)) if not alphabet else ch
            elif k < .6: o.insert(rng.randint(0, len(o)), ch)
            elif k < .75 and o: del o[rng.randrange(len(o))]
            elif k < .85 and o: del o[rng.randrange(len(o)):]
            elif k < .92 and len(o) > 1:
                i, j = rng.randrange(len(o)), rng.randrange(len(o)); o[i], o[j] = o[j], o[i]
            else: o += bytes(o[:rng.randint(0, 4)]) or b'\0'
        if bytes(o) != b: return bytes(o)

class Pauses(object):
    """a trace function: gives way to other threads at random lines of some files"""
    def __init__(self, seed, p, files=('nbc/node', 'nbc/protocol')): self.rng, self.p, self.files = random.Random(seed), p, files
    def __call__(self, frame, ev, arg):
        f = frame.f_code.co_filename
        return self.line if any(x in f for x in self.files) else None
    def line(self, frame, ev, arg):
        if self.rng.random() < self.p: time.sleep(self.rng.choice([0, 0, .0002, .001]))
        return self.line
