import binascii, hashlib, os
from ..core import Family
from .. import gen
from ..ref import codec
from nbc import util, coins
from nbc.util import hash as H
ANCHORS = ['nbc/util/hash.py', 'nbc/util/__init__.py', 'nbc/coins/__init__.py', 'nbc/coins/coin.py', 'nbc/coins/newbitcoin.py']
RULE = 'byte strings of every length around the block sizes and long ones, standard vectors; integers of every size and sign; coin names and symbols in random case and near misses; genesis constants; home directories; distinct = distinct arguments'
ASSUMPTIONS = ['a lookup by a name and a symbol that contradict each other is not judged']
VEC = [(b'', 'da39a3ee5e6b4b0d3255bfef95601890afd80709', 'e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855', '9c1185a5c5e9fc54612808977ee8f548b2258d31'),
    (b'abc', 'a9993e364706816aba3e25717850c26c9cd0d89d', 'ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad', '8eb208f7e05d987a9b044a8e98c6b087f15a0bfc'),
    (b'abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq', '84983e441c3bd26ebaae4aa1f95129e5e54670f1', '248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1', '12a053384a9c0c88e405a06c27dcf49ada62eb2b')]

def hashes(rng, mon, i):
    for m, s1, s2, r in VEC:
        mon.eq(H.sha1(m).hex(), s1, 'sha1'); mon.eq(H.sha256(m).hex(), s2, 'sha256'); mon.eq(H.ripemd160(m).hex(), r, 'ripemd160')
    for q in range(40):
        n = rng.choice([1 << 20, (1 << 20) + 1, 3000000, rng.randrange(1 << 20, 5 << 20)]) if q == i % 40 else rng.choice([0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128, 1000, rng.randrange(300), rng.randrange(100000)]); m = rng.randbytes(n); keep = bytes(m)
        if rng.random() < .2: m = bytearray(m)
        a, b = hashlib.sha256(m).digest(), hashlib.new('ripemd160')
        mon.eq(util.sha1(m), hashlib.sha1(m).digest(), 'sha1', data=m); mon.eq(util.sha256(m), a, 'sha256', data=m); mon.eq(util.sha256d(m), hashlib.sha256(a).digest(), 'sha256d', data=m)
        b.update(m); mon.eq(util.ripemd160(m), b.digest(), 'ripemd160', data=m); b = hashlib.new('ripemd160'); b.update(a); mon.eq(util.hash160(m), b.digest(), 'hash160', data=m)
        mon.eq(bytes(m), keep, 'changed'); mon.ev('hashed'); mon.seen(keep)
        for f in (util.sha1, util.sha256, util.sha256d, util.ripemd160, util.hash160): mon.check(type(f(m)) is bytes, 'type')

def numbers(rng, mon, i):
    for _ in range(60):
        n = rng.choice([0, 999, 1000, 999999, 1000000, -1, -999, -1000, rng.getrandbits(rng.randint(1, 90)), -rng.getrandbits(rng.randint(1, 90))])
        t = mon.ok('commify-raises', 'commify', util.commify, n); s = str(abs(n)); want = ('-' if n < 0 else '') + ','.join(s[max(0, k):k + 3] if k >= 0 else s[:k + 3] for k in range(len(s) - 3 * ((len(s) - 1) // 3) - 3, len(s), 3))
        mon.eq(t, want, 'commify', number=n); mon.eq(int(t.replace(',', '')), n, 'commify'); mon.ev('commified'); mon.seen(n)

def lookup(rng, mon, i):
    C = coins.Newbitcoin
    def case(s): return ''.join(rng.choice([c.upper(), c.lower()]) for c in s)
    for _ in range(20):
        n = case(C.name); y = case(rng.choice(C.symbols))
        for kw in ({'name': n}, {'symbol': y}, {'name': n, 'symbol': None}, {'name': None, 'symbol': y}, {'name': n, 'symbol': y}): mon.check(mon.ok('lookup-raises', 'get_coin', coins.get_coin, **kw) is C, 'lookup', 'a coin is not found', **kw)
        mon.check(coins.get_coin(n) is C, 'lookup'); mon.ev('found')
        w = gen.mutate(rng, n.encode()).decode('latin-1'); z = rng.choice(['', 'N', 'NB', 'BC', 'NBCC', ' NBC', 'NBC ', 'NBC\n', 'BTC', gen.raw(rng, 3).decode('latin-1')])
        for kw in ({'name': w}, {'symbol': z}, {'name': w, 'symbol': z}, {}, {'name': None, 'symbol': None}, {'name': ''}, {'name': rng.choice([' ', '', '\n', '\0']) + n + rng.choice([' ', '\n', '\0', 's'])}, {'name': n[:-1]}, {'name': n[0]}, {'name': n * 2}, {'name': ' ' + n}, {'name': 'NBC'}, {'symbol': 'newbitcoin'}):
            if (kw.get('name') or '').lower() == C.name or (kw.get('symbol') or '').upper() in C.symbols: continue
            mon.check(mon.ok('lookup-raises', 'get_coin', coins.get_coin, **kw) is None, 'invented', 'an unknown coin is found', **kw); mon.ev('unknown'); mon.seen(w, z)

def genesis(rng, mon, i):
    for C in coins.Coins:
        h = util.get_block_header(C.genesis_version, bytes(32), C.genesis_merkle_root, C.genesis_timestamp, C.genesis_bits, C.genesis_nonce)
        mon.eq(codec.dsha(h), C.genesis_block_hash, 'genesis', 'the header made of the coin\'s genesis constants does not have the genesis hash')
        class P(object):
            proof_of_work = staticmethod(util.sha256d)
        class B(object):
            bits = C.genesis_bits
            def binary(self): return h + b'\0'
        mon.eq(util.verify_target(P, B()), True, 'genesis-pow', 'the genesis block does not meet its own target')
        mon.eq(len(C.magic), 4, 'magic'); mon.check(C.symbol in C.symbols and C.magic != bytes(4), 'symbol'); mon.eq(coins.satoshi_per_coin, 10**8, 'unit'); k = C.alert_public_key; mon.check(codec.parse_pub(k) is not None, 'alert-key', 'the alert key is not a point of the curve'); mon.ev('genesis'); mon.seen(C.name)
        mon.check(hash(C()) == hash(C()), 'hash'); mon.eq(str(C()), '<Newbitcoin>', 'str')

def home(rng, mon, i):
    old = os.environ.get('HOME')
    try:
        for h in ('/home/someone', '/tmp/x y', '/root', '/ä'):
            os.environ['HOME'] = h; mon.eq(mon.ok('home-raises', 'default_data_directory', util.default_data_directory), h + '/.newbitcoin/data', 'home', 'the data directory is not in the user\'s home'); mon.ev('homes'); mon.seen(h)
    finally:
        if old is None: del os.environ['HOME']
        else: os.environ['HOME'] = old

FAMILIES = [Family('hashes', hashes, 60, 4000), Family('numbers', numbers, 60, 4000), Family('lookup', lookup, 40, 2000), Family('genesis', genesis, 1, 1), Family('home', home, 1, 1)]
REQUIRED = {'hashed': 2000, 'commified': 3000, 'found': 500, 'unknown': 2000, 'genesis': 1, 'homes': 4}
