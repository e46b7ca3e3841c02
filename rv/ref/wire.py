"""Independent model of the wire format.  Values: ints, bytes, tuples for lists, dicts for structures;
an IP address is its 16 bytes."""
import ipaddress, struct
from .codec import dsha

class Bad(Exception): pass
NUM = {'i8': ('<b', 1), 'u8': ('<B', 1), 'i32': ('<i', 4), 'u32': ('<I', 4), 'i64': ('<q', 8), 'u64': ('<Q', 8), 'u16be': ('>H', 2)}
def lim(k):
    n = 8 * NUM[k][1]
    return (-(1 << n - 1), (1 << n - 1) - 1) if k[0] == 'i' else (0, (1 << n) - 1)

class L(object):
    def __init__(self, kind, lo=0, hi=None): self.kind, self.lo, self.hi = kind, lo, hi

ADDR = [('services', 'u64'), ('address', 'ip'), ('port', 'u16be')]
TXIN = [('previous_output', 'outpoint'), ('signature_script', 'str'), ('sequence', 'u32')]
TX = [('version', 'u32'), ('tx_in', L('txin', 1)), ('tx_out', L('txout', 1)), ('lock_time', 'u32')]
HEAD = [('version', 'u32'), ('prev_block', 'b32'), ('merkle_root', 'b32'), ('timestamp', 'u32f'), ('bits', 'u32'), ('nonce', 'u32')]
STRUCT = {
    'netaddr': ('NetworkAddress', [('timestamp', 'u32f')] + ADDR),
    'netaddr_nots': ('NetworkAddress', ADDR),
    'inv': ('InventoryVector', [('object_type', 'u32'), ('hash', 'b32')]),
    'outpoint': ('OutPoint', [('hash', 'b32'), ('index', 'u32')]),
    'txin': ('TxnIn', TXIN),
    'txout': ('TxnOut', [('value', 'i64'), ('pk_script', 'str')]),
    'tx': ('Txn', TX),
    'header': ('BlockHeader', HEAD + [('txn_count', 'varint')]),
}
LOC = [('version', 'u32'), ('block_locator_hashes', L('b32', 1)), ('hash_stop', 'b32')]
INV = [('inventory', L('inv', 0, 50000))]
MSG = {     # command: class, handler name, fields
    'version': ('Version', 'version', [('version', 'i32'), ('services', 'u64'), ('timestamp', 'i64f'), ('addr_recv', 'netaddr_nots'), ('addr_from', 'netaddr_nots'),
                ('nonce', 'b8'), ('user_agent', 'str'), ('start_height', 'i32'), ('relay', 'relay')]),
    'verack': ('VersionAck', 'version_ack', []),
    'addr': ('Address', 'address', [('addr_list', L('netaddr', 0, 1000))]),
    'inv': ('Inventory', 'inventory', INV), 'getdata': ('GetData', 'get_data', INV), 'notfound': ('NotFound', 'not_found', INV),
    'getblocks': ('GetBlocks', 'get_blocks', LOC), 'getheaders': ('GetHeaders', 'get_headers', LOC),
    'tx': ('Transaction', 'transaction', TX),
    'block': ('Block', 'block', HEAD + [('txns', L('tx'))]),
    'headers': ('Headers', 'headers', [('headers', L('header'))]),
    'getaddr': ('GetAddress', 'get_address', []), 'mempool': ('MemoryPool', 'memory_pool', []),
    'ping': ('Ping', 'ping', [('nonce', 'b8')]), 'pong': ('Pong', 'pong', [('nonce', 'b8')]),
    'reject': ('Reject', 'reject', [('message', 'str'), ('ccode', 'u8'), ('reason', 'str')]),
    'alert': ('Alert', 'alert', [('payload', 'str'), ('signature', 'str')]),
}
UNSUPPORTED = ['filterload', 'filteradd', 'filterclear', 'merkleblock']

def varint(n):
    if n < 0xfd: return bytes([n])
    if n < 1 << 16: return b'\xfd' + n.to_bytes(2, 'little')
    if n < 1 << 32: return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')
def rd_varint(b, o):
    if o >= len(b): raise Bad('varint')
    w = {0xfd: 2, 0xfe: 4, 0xff: 8}.get(b[o], 0)
    if not w: return b[o], o + 1
    if o + 1 + w > len(b): raise Bad('varint')
    return int.from_bytes(b[o+1:o+1+w], 'little'), o + 1 + w

def enc(k, v):
    if isinstance(k, L): return varint(len(v)) + b''.join(enc(k.kind, x) for x in v)
    if isinstance(k, list): return b''.join(enc(kk, v[n]) for n, kk in k)
    if k in STRUCT: return enc(STRUCT[k][1], v)
    if k == 'varint': return varint(v)
    if k == 'str': return varint(len(v)) + v
    if k in ('ip', 'b32', 'b8'): return v
    if k == 'relay': return bytes([v])
    f = NUM[k.rstrip('f')][0]
    return struct.pack(f, v)

def dec(k, b, o=0):
    """(value, next offset); counts are bounded by the bytes present"""
    if isinstance(k, L):
        n, o = rd_varint(b, o)
        if n > len(b) - o: raise Bad('count')      # every element takes a byte at least
        out = []
        for _ in range(n): v, o = dec(k.kind, b, o); out.append(v)
        return tuple(out), o
    if isinstance(k, list):
        d = {}
        for n, kk in k: d[n], o = dec(kk, b, o)
        return d, o
    if k in STRUCT: return dec(STRUCT[k][1], b, o)
    if k == 'varint': return rd_varint(b, o)
    if k == 'str':
        n, o = rd_varint(b, o)
        if o + n > len(b): raise Bad('string')
        return b[o:o+n], o + n
    if k == 'relay': return (b[o], o + 1) if o < len(b) else (1, o)
    n = {'ip': 16, 'b32': 32, 'b8': 8}.get(k)
    if n:
        if o + n > len(b): raise Bad(k)
        return b[o:o+n], o + n
    f, n = NUM[k.rstrip('f')]
    if o + n > len(b): raise Bad(k)
    return struct.unpack(f, b[o:o+n])[0], o + n

def limits_ok(k, v):
    if isinstance(k, L): return len(v) >= k.lo and (k.hi is None or len(v) <= k.hi) and all(limits_ok(k.kind, x) for x in v)
    if isinstance(k, list): return all(limits_ok(kk, v[n]) for n, kk in k)
    if k in STRUCT: return limits_ok(STRUCT[k][1], v)
    return True

def raw_frame(magic, command, payload, length=None, checksum=None):
    if isinstance(command, str): command = command.encode('latin-1')
    return magic + command.ljust(12, b'\0') + struct.pack('<I', len(payload) if length is None else length) + (dsha(payload)[:4] if checksum is None else checksum) + payload
def frame(magic, command, v): return raw_frame(magic, command, enc(MSG[command][2], v))

# ------------------------------------------------------------ random values
V4 = b'\0' * 10 + b'\xff\xff'
def ip(rng):
    k = rng.random()
    if k < .45: return V4 + bytes(rng.choice([0, 1, 10, 99, 100, 127, 192, 255, rng.getrandbits(8)]) for _ in range(4))
    if k < .5: return rng.choice([bytes(16), b'\0' * 15 + b'\1', b'\xff' * 16, b'\0' * 12 + b'\1\2\3\4', b'\0' * 10 + b'\xff\xfe\1\2\3\4', b'\0' * 9 + b'\1\xff\xff\1\2\3\4'])
    b = bytearray(rng.getrandbits(8) for _ in range(16))
    for g in range(8):
        if rng.random() < .4: b[2*g:2*g+2] = rng.choice([b'\0\0', b'\0\0', b'\0\7', b'\xff\xff', b'\0\xab', b'\x0c\xde'])
    return bytes(b)

def ip_text(rng, b):
    """some text form of the address"""
    if b[:12] == V4 and rng.random() < .85: return '.'.join(str(x) for x in b[12:])
    g = [int.from_bytes(b[i:i+2], 'big') for i in range(0, 16, 2)]
    t = [('%04x' if rng.random() < .2 else '%x') % x for x in g]
    if rng.random() < .3: t = [x.upper() for x in t]
    runs = [(i, j) for i in range(8) for j in range(i + 1, 9) if not any(g[i:j])]
    if runs and rng.random() < .7:
        i, j = rng.choice(runs)
        return ':'.join(t[:i]) + '::' + ':'.join(t[j:])
    return ':'.join(t)

def size(rng, big=True):
    k = rng.random()
    if k < .15: return 0
    if k < .75: return rng.randint(1, 40)
    if k < .92 or not big: return rng.choice([252, 253, 254, 255, 256])
    if k < .96: return rng.choice([1000, 5000])
    return rng.choice([65535, 65536, 65537])

def num(rng, lo, hi):
    k = rng.random()
    if k < .2: return lo + rng.choice([0, 1])
    if k < .4: return hi - rng.choice([0, 1])
    if k < .6:
        v = rng.choice([1, 1, -1]) * ((1 << rng.randint(0, hi.bit_length())) + rng.choice([-1, 0, 1]))
        if lo <= v <= hi: return v
    if k < .65 and lo < 0: return rng.choice([-1, 0])
    return rng.randint(lo, hi)

def value(rng, k, depth=0):
    if isinstance(k, L):
        r = rng.random()
        if depth: n = rng.choice([k.lo, k.lo, 1, 2])
        else: n = k.lo if r < .15 else rng.randint(max(k.lo, 1), 5) if r < .9 else rng.choice([252, 253, 254, 20])
        if n > 100 and k.kind == 'tx': n = 3
        if n > 20:
            pool = [value(rng, k.kind, 2) for _ in range(3)]
            return tuple(rng.choice(pool) for _ in range(n))
        return tuple(value(rng, k.kind, depth + 1) for _ in range(n))
    if isinstance(k, list): return {n: value(rng, kk, depth) for n, kk in k}
    if k in STRUCT: return value(rng, STRUCT[k][1], depth + 1)
    if k == 'varint': return rng.choice([0, 1, 252, 253, 254, 0xffff, 0x10000, 0xffffffff, 0x100000000, (1 << 64) - 1, rng.getrandbits(rng.randint(1, 64))])
    if k == 'str':
        n = size(rng, depth == 0)
        return rng.randbytes(n) if n < 300 or rng.random() < .7 else bytes([rng.getrandbits(8)]) * n
    if k in ('b32', 'b8'):
        n = int(k[1:])
        return rng.choice([bytes(n), b'\xff' * n] + [bytes(rng.getrandbits(8) for _ in range(n))] * 5)
    if k == 'ip': return ip(rng)
    if k == 'relay': return rng.choice([0, 1, 1, 2, 255])
    if k == 'i64f': return num(rng, *lim('i64')) if rng.random() < .5 else rng.choice([0, 1, -1, 1700000000, rng.randint(0, 1 << 33)])
    return num(rng, *lim(k.rstrip('f')))

def message(rng, command=None):
    """(command, fields)"""
    if command is None: command = rng.choice(sorted(MSG))
    return command, value(rng, MSG[command][2])

# ------------------------------------------------------------ real objects
def build(rng, P, k, v):
    """the library's object for a value (P: nbc.protocol.format)"""
    if isinstance(k, L):
        out = [build(rng, P, k.kind, x) for x in v]
        return out if rng.random() < .6 else tuple(out)
    if k in STRUCT:
        cls, fields = STRUCT[k]
        kw = {n: build(rng, P, kk, v[n]) for n, kk in fields}
        if k == 'netaddr_nots': kw['timestamp'] = rng.choice([0, 0, 1, 1700000000, 1.5, (1 << 32) - 1])
        c = getattr(P, cls)
        if k != 'netaddr_nots' and rng.random() < .3: return c(*[kw[n] for n, _ in fields])
        return c(**kw)
    if k == 'ip': return ip_text(rng, v)
    if k == 'str': return v if rng.random() < .7 else v.decode('latin-1')
    if k == 'relay': return bool(v) if v < 2 and rng.random() < .7 else v
    if k[-1] == 'f' and abs(v) < 1 << 51 and v >= 0 and rng.random() < .3: return v + rng.choice([0.0, .25, .5]) if v < lim(k.rstrip('f'))[1] else float(v)
    return v

def build_msg(rng, protocol, P, command, v):
    cls, _, fields = MSG[command]
    kw = {n: build(rng, P, kk, v[n]) for n, kk in fields}
    c = getattr(protocol, cls); names = [n for n, _ in fields]
    m = rng.randint(0, len(names)) if rng.random() < .5 else 0
    return c(*[kw[n] for n in names[:m]], **{n: kw[n] for n in names[m:]}), kw

def read(k, x):
    """model value of a library value; raises Bad when it is none"""
    if isinstance(k, L):
        if not isinstance(x, (list, tuple)): raise Bad('not a list: %r' % (x,))
        return tuple(read(k.kind, y) for y in x)
    if isinstance(k, list): return {n: read(kk, getattr(x, n)) for n, kk in k}
    if k in STRUCT:
        if type(x).__name__ != STRUCT[k][0]: raise Bad('not a %s: %r' % (STRUCT[k][0], x))
        return read(STRUCT[k][1], x)
    if k == 'ip':
        a = ipaddress.ip_address(x)
        return V4 + a.packed if a.version == 4 else a.packed
    if k in ('str', 'b32', 'b8'):
        if isinstance(x, str): x = x.encode('latin-1')
        if not isinstance(x, bytes): raise Bad('not bytes: %r' % (x,))
        return x
    if not isinstance(x, (int, float)): raise Bad('not a number: %r' % (x,))
    return int(x)

def first_diff(k, a, b, path=''):
    if isinstance(k, list):
        for n, kk in k:
            d = first_diff(kk, a[n], b[n], path + '.' + n)
            if d: return d
        return None
    if not isinstance(k, L) and k in STRUCT: return first_diff(STRUCT[k][1], a, b, path)
    if isinstance(k, L):
        if len(a) != len(b): return path + ' length', len(a), len(b)
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_diff(k.kind, x, y, '%s[%d]' % (path, i))
            if d: return d
        return None
    return None if a == b else (path, a, b)

# ------------------------------------------------------------ alerts
ALERT = [('version', 'i32'), ('relay_until', 'i64'), ('expiration', 'i64'), ('id', 'i32'), ('cancel', 'i32'), ('set_cancel', L('i32')), ('min_ver', 'i32'), ('max_ver', 'i32'),
         ('set_sub_ver', L('str')), ('priority', 'i32'), ('comment', 'str'), ('status_bar', 'str'), ('reserved', 'str')]
def merkle(hashes):
    h = list(hashes)
    while len(h) > 1:
        if len(h) & 1: h.append(h[-1])
        h = [dsha(h[i] + h[i+1]) for i in range(0, len(h), 2)]
    return h[0]

def selftest():
    import random
    rng = random.Random(3)
    # bitcoin documentation's version message (protocol 60002) and verack
    f = raw_frame(bytes.fromhex('f9beb4d9'), 'verack', b'')
    assert f.hex() == 'f9beb4d976657261636b000000000000000000005df6e0e2'
    pl = bytes.fromhex('62ea0000010000000000000011b2d05000000000010000000000000000000000000000000000ffff000000000000000000000000000000000000000000000000ffff0000000000003b2eb35d8ce617650f2f5361746f7368693a302e372e322fc03e0300')
    v, o = dec(MSG['version'][2], pl)
    assert v['version'] == 60002 and v['user_agent'] == b'/Satoshi:0.7.2/' and v['start_height'] == 212672 and v['timestamp'] == 0x50d0b211 and o == len(pl) and v['relay'] == 1
    assert enc(MSG['version'][2], v)[:-1] == pl
    # bitcoin genesis block
    g = bytes.fromhex('0100000000000000000000000000000000000000000000000000000000000000000000003ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a29ab5f49ffff001d1dac2b7c0101000000010000000000000000000000000000000000000000000000000000000000000000ffffffff4d04ffff001d0104455468652054696d65732030332f4a616e2f32303039204368616e63656c6c6f72206f6e206272696e6b206f66207365636f6e64206261696c6f757420666f722062616e6b73ffffffff0100f2052a01000000434104678afdb0fe5548271967f1a67130b7105cd6a828e03909a67962e0ea1f61deb649f6bc3f4cef38c4f35504e51ec112de5c384df7ba0b8d578a4c702b6bf11d5fac00000000')
    v, o = dec(MSG['block'][2], g)
    assert o == len(g) and enc(MSG['block'][2], v) == g and len(v['txns']) == 1
    assert merkle([dsha(enc('tx', v['txns'][0]))]) == v['merkle_root'] and dsha(g[:80])[::-1].hex() == '000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f'
    for _ in range(300):
        c, v = message(rng); p = enc(MSG[c][2], v)
        assert dec(MSG[c][2], p) == (v, len(p))
        if p and c != 'version':
            try: dec(MSG[c][2], p[:-1]); assert 0
            except Bad: pass
        a = ip(rng); t = ip_text(rng, a); x = ipaddress.ip_address(t)
        assert (V4 + x.packed if x.version == 4 else x.packed) == a, t
