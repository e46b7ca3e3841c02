import sys
from ..core import Family
from . import a01, a02, e01, e02, e03, e04, e05, e06, e07, h01, h03, k01, k02, k03, k04, k05, n01, n02, n03, n04, n05, n06, n07, n08, n09, n10, n11, p01, p02, p03, p04, p05, p06, u01, u04, w01, w02, w05, w06, w07
OPTIMIZE = 1        # this check runs in python -O (see core.load)
ANCHORS = ['nbc/wallet/hdwallet.py', 'nbc/wallet/address.py', 'nbc/util/ecdsa/keys.py', 'nbc/util/ecdsa/ellipticcurve.py', 'nbc/util/ecdsa/util.py', 'nbc/util/ecdsa/der.py', 'nbc/util/ecdsa/numbertheory.py', 'nbc/util/key.py', 'nbc/util/base58.py', 'nbc/util/ecc.py', 'nbc/protocol/format.py', 'nbc/node/basenode.py']
RULE = 'the refusing inputs of the other properties, judged by their oracles in an interpreter started with -O; distinct as there'

def take(mod, name, quick, thorough):
    f = [f for f in mod.FAMILIES if f.name == name][0]
    p = mod.__name__.split('.')[-1]
    def fn(rng, mon, i):
        if not sys.flags.optimize: raise RuntimeError('the interpreter does not run optimised')
        f.fn(rng, mon, i); mon.ev('optimised'); mon.ev('of-' + p)
    return Family('%s-%s' % (p, name), fn, quick, thorough, cpu=f.cpu, wall=f.wall)

def plain(rng, mon, i):
    """calls refused by a plain check of their arguments"""
    from nbc.wallet import Address, HDWallet
    from nbc.util import ecdsa, ecc, key, piecewise
    from nbc.util.ecdsa import util, ecdsa as low
    from nbc.util.pyaes import aes
    from .. import gen
    from ..ref import codec
    if not sys.flags.optimize: raise RuntimeError('the interpreter does not run optimised')
    d, P = gen.keypair(rng); d2, P2 = gen.keypair(rng); c = rng.choice([ecdsa.NIST192p, ecdsa.NIST224p, ecdsa.NIST256p, ecdsa.NIST384p, ecdsa.SECP256k1]); n = c.order
    w, x = codec.wif(d, True), codec.ser_pub(P2, True); x = x if isinstance(x, bytes) else bytes(x); w = w if isinstance(w, bytes) else w.encode()
    sk = ecdsa.SigningKey.from_secret_exponent(rng.randrange(1, n), c); k = rng.choice([n, n + 1, n + 5, n + rng.getrandbits(100), 2 * n - 1, -1, -5]); h = gen.raw(rng, 20)
    for name, fn, a in [
            ('both-keys', Address, (x, w)), ('no-key', Address, ()), ('text-key', Address, (None, w.decode())), ('text-pub', Address, (x.hex(),)), ('short-pub', Address, (x[:-1],)), ('long-pub', Address, (x + b'\0',)), ('off-pub', Address, (b'\x05' + x[1:],)),
            ('nonce-range', sk.sign_number, (rng.getrandbits(150), None, k)), ('nonce-digest', lambda k: sk.sign_digest(h, k=k), (k,)), ('digest-long', lambda: sk.sign_digest(bytes(c.baselen + 1)), ()), ('digest-long-verify', lambda: sk.get_verifying_key().verify_digest(bytes(2 * c.baselen), bytes(c.baselen + 1)), ()),
            ('key-range', ecdsa.SigningKey.from_secret_exponent, (rng.choice([0, n, n + 1, n + rng.getrandbits(64), -1]), c)), ('key-length', ecdsa.SigningKey.from_string, (bytes(c.baselen - 1) + b'\1' * rng.choice([0, 2]), c)), ('number-range', util.number_to_string, (1 << (8 * c.baselen), n)), ('string-length', util.string_to_number_fixedlen, (b'\1' * (c.baselen + rng.choice([-1, 1])), n)),
            ('sig-length', util.sigdecode_string, (b'\1' * (2 * c.baselen + rng.choice([-1, 1])), n)), ('sig-strings', util.sigdecode_strings, ((b'\1' * (c.baselen - 1), b'\1' * (c.baselen + 1)), n)), ('order', util.randrange, (rng.choice([1, 0, -5]),)),
            ('master-key', HDWallet, (rng.choice([0, ecdsa.SECP256k1.order, -1]), bytes(32))), ('chain', HDWallet, (d, bytes(rng.choice([0, 31, 33])))), ('key-type', HDWallet, (rng.choice(['1', b'1', 1.5, None]), bytes(32))),
            ('negative-x962', low.int_to_string, (-rng.randint(1, 1 << 70),)), ('uncompressed-only', piecewise.get_address, (x, w)), ('compress-compressed', key.compress_public_key, (x,)), ('no-wif', key.privkey_from_wif, (rng.choice([b'', '', w[:-1], w + b'1', w[::-1]]),)),
            ('secret-range', ecc.shared_secret, (x, codec.wif(rng.choice([0, ecdsa.SECP256k1.order]), rng.random() < .5))), ('aes-key', aes.AES, (bytes(rng.choice([0, 15, 17, 31, 33, 64])),)), ('aes-iv', aes.AESModeOfOperationCBC, (bytes(16), bytes(rng.choice([15, 17])))), ('aes-block', aes.AESModeOfOperationCBC(bytes(16)).encrypt, (bytes(rng.choice([0, 15, 17])),)), ('aes-block-ecb', aes.AESModeOfOperationECB(bytes(16)).encrypt, (bytes(rng.choice([0, 15, 17])),)), ('aes-unblock', aes.AESModeOfOperationCBC(bytes(16)).decrypt, (bytes(rng.choice([0, 15, 17])),))]:
        mon.refused('plain-' + name, '%s: refused by the plain interpreter' % name, fn, *a); mon.ev('plain'); mon.seen(name, repr(a))
    mon.ev('optimised'); mon.ev('of-plain')

def setup(tier):
    e05.setup('quick'); e06.setup('quick')

FAMILIES = [take(*x) for x in (
    (w07, 'cut', 16, 600), (w07, 'fields', 24, 900), (w07, 'material', 40, 1500), (w07, 'foreign', 10, 300),
    (w01, 'roundtrip', 40, 1500), (w02, 'wrong', 10, 300), (w02, 'types', 8, 100), (w05, 'refuses', 8, 200), (w05, 'rejects', 24, 800), (w06, 'limits', 16, 600), (w06, 'seeded', 12, 300), (w06, 'small', 40, 263),
    (h01, 'refusals', 16, 200), (h03, 'malformed', 48, 2000), (h03, 'roundtrip', 24, 800),
    (k01, 'base58check', 40, 2000), (k02, 'edited', 60, 2000), (k02, 'rechecksummed', 60, 2000), (k03, 'malformed', 16, 600), (k03, 'any-x', 12, 600), (k04, 'invalid', 40, 1500), (k05, 'vanity', 32, 1000), (k05, 'combine', 24, 1000), (k05, 'mixed', 24, 1000),
    (e01, 'crafted', 60, 1500), (e02, 'hostile', 12, 600), (e02, 'keys', 16, 800), (e02, 'strict', 12, 500), (e04, 'corrupted', 24, 900), (e04, 'signatures', 30, 1500), (e04, 'numbers', 20, 600),
    (e05, 'small-curves', 1, 1), (e05, 'random-curves', 24, 800), (e05, 'standard-curves', 24, 800), (e06, 'jacobi', 60, 1500), (e06, 'inverse-small', 60, 200), (e06, 'inverse-big', 16, 800), (e06, 'roots-small', 40, 120), (e06, 'roots-big', 24, 800), (e06, 'orders', 40, 150), (e06, 'gcd', 16, 600),
    (e07, 'roundtrip', 40, 2000), (e07, 'tags', 1, 1), (e07, 'wild', 30, 2000), (e07, 'cuts', 30, 1500), (e07, 'lengths', 10, 400),
    (a01, 'refused', 2, 10), (a01, 'blocks', 12, 400), (a02, 'padding', 3, 40), (a02, 'corrupt', 40, 800),
    (p02, 'bad-fields', 21 * 20, 21 * 500), (p02, 'arguments', 24, 24 * 10), (p02, 'addresses', 20, 800), (p03, 'flips', 170, 17 * 300), (p03, 'commands', 120, 2000), (p03, 'registry', 2, 10), (p04, 'cuts', 34, 17 * 40), (p04, 'counts', 48, 12 * 160), (p05, 'headers', 40, 1000), (p05, 'merkle', 24, 800),
    (n01, 'streams', 24, 900), (n01, 'bare', 12, 400), (n03, 'scripts', 24, 900), (n05, 'histories', 24, 900), (n02, 'flows', 24, 800), (n04, 'histories', 10, 300), (n06, 'histories', 60, 2000), (n06, 'maximum', 12, 300), (n07, 'histories', 12, 400), (n08, 'histories', 24, 800), (n09, 'seek', 8, 200), (n10, 'serve', 30, 900), (n10, 'maps', 60, 2000), (n11, 'trace', 10, 300),
    (p01, 'roundtrip', 17 * 4, 17 * 150), (p06, 'fields', 16, 500), (p06, 'verify', 8, 200), (e03, 'nonces', 10, 400), (h01, 'paths', 8, 200),
    (u01, 'targets', 10, 400), (u01, 'helpers', 10, 400), (u04, 'hashes', 10, 500), (u04, 'lookup', 10, 400))] + [Family('plain', plain, 24, 1000)]
REQUIRED = dict({'of-' + p: 1 for p in {f.name.split('-')[0] for f in FAMILIES}}, optimised=1500, malformed=1000, refused=2000)
