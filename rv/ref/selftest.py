"""Checks the reference models against published vectors and openssl."""
import hashlib, os, random, shutil, subprocess, tempfile
from . import aes, codec, ec

def openssl(*a, inp=b''):
    return subprocess.run(['openssl'] + list(a), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=True).stdout

def main():
    rng = random.Random(1)
    r = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    # base58, BIP32 vector 1 and 2 heads
    assert codec.b58e(b'Hello World!') == b'2NEpo7TZRRrLZSi2U'
    assert codec.b58e(bytes.fromhex('0000287fb4cd')) == b'11233QC4' and codec.b58d('11233QC4') == bytes.fromhex('0000287fb4cd')
    m = codec.Node.master(bytes.fromhex('000102030405060708090a0b0c0d0e0f'))
    assert m.ext(0) == b'xpub661MyMwAqRbcFtXgS5sYJABqqG9YLmC4Q1Rdap9gSE8NqtwybGhePY2gZ29ESFjqJoCu1Rupje8YtGqsefD265TMg7usUDFdp6W1EGMcet8'
    assert m.ext(1) == b'xprv9s21ZrQH143K3QTDL4LXw2F7HEK3wJUD2nW2nRk4stbPy6cq3jPPqjiChkVvvNKmPGJxWUtg6LnF5kejMRNNU3TGtRBeJgk33yuGBxrMPHi'
    c = m.child(0x80000000)
    assert c.ext(1) == b'xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7'
    assert c.child(1).ext(0) == c.neuter().child(1).ext(0) == b'xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ'
    assert codec.wif(0x0C28FCA386C7A227600B2FE50B7CAE11EC86D3BF1FBE471BE89827E19D72AA1D, False) == b'5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ'
    # AES: FIPS-197 appendix C and openssl in all modes
    for n, ct in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'), (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'), (32, '8ea2b7ca516745bfeafc49904b496089')):
        k = bytes(range(n)); pt = bytes.fromhex('00112233445566778899aabbccddeeff')
        assert aes.AES(k).enc(pt).hex() == ct and aes.AES(k).dec(bytes.fromhex(ct)) == pt
        for mode in ('ecb', 'cbc', 'cfb', 'cfb8', 'ofb', 'ctr'):
            k, iv, d = r(n), r(16), r(96)
            if mode == 'ctr': iv = b'\xff' * 15 + b'\xfe'
            o = openssl('enc', '-aes-%d-%s' % (n * 8, mode), '-K', k.hex(), *(() if mode == 'ecb' else ('-iv', iv.hex())), '-nopad', inp=d)
            mine = {'ecb': lambda: aes.ecb_e(k, d), 'cbc': lambda: aes.cbc_e(k, iv, d), 'cfb': lambda: aes.cfb_e(k, iv, 16, d), 'cfb8': lambda: aes.cfb_e(k, iv, 1, d),
                    'ofb': lambda: aes.ofb(k, iv, d), 'ctr': lambda: aes.ctr(k, int.from_bytes(iv, 'big'), d)}[mode]()
            assert o == mine, (n, mode)
            if mode == 'cbc': assert aes.cbc_d(k, iv, o) == d
    # curves and ECDSA against openssl
    tmp = tempfile.mkdtemp(prefix='rv-')
    try:
        f = lambda n: os.path.join(tmp, n)
        for cv in ec.CURVES:
            assert cv.on(cv.G) and cv.mul(cv.n, cv.G) is None and cv.add(cv.mul(cv.n - 1, cv.G), cv.G) is None
            assert cv.add(cv.G, cv.G) == cv.mul(2, cv.G) and cv.lift_x(cv.G[0], cv.G[1] & 1) == cv.G[1]
            open(f('k'), 'wb').write(openssl('ecparam', '-name', ec.OPENSSL[cv.name], '-genkey', '-noout'))
            pub = openssl('ec', '-in', f('k'), '-pubout', '-outform', 'DER')
            fl = (cv.p.bit_length() + 7) // 8
            Q = (int.from_bytes(pub[-2 * fl:-fl], 'big'), int.from_bytes(pub[-fl:], 'big'))
            assert pub == codec.der_seq(codec.der_seq(codec.der_oid((1, 2, 840, 10045, 2, 1)), codec.der_oid(cv.oid)), codec.der_tlv(3, b'\0\4' + pub[-2 * fl:]))
            assert cv.on(Q)
            for _ in range(4):
                msg = r(50); open(f('m'), 'wb').write(msg)
                sig = openssl('dgst', '-sha256', '-sign', f('k'), f('m'))
                rr, ss = codec.liberal_sig(sig)
                z = int.from_bytes(hashlib.sha256(msg).digest(), 'big')
                if cv.n.bit_length() < 256: z >>= 256 - cv.n.bit_length()
                assert cv.verify(Q, z, rr, ss) and not cv.verify(Q, z ^ 1, rr, ss) and codec.der_sig(rr, ss) == sig
            d = rng.randrange(1, cv.n); z = rng.getrandbits(200)
            assert cv.verify(cv.mul(d, cv.G), z, *cv.sign(d, z, rng.randrange(1, cv.n)))
    finally:
        shutil.rmtree(tmp)
    # RFC 6979 A.1 and A.2.5, A.2.3
    q = 0x4000000000000000000020108A2E0CC0D99F8A5EF
    assert ec.rfc6979(q, 0x09A4D6792295A7F730FC3F2B49CBC0F62E862272F, hashlib.sha256, hashlib.sha256(b'sample').digest())[0] == 0x23AF4074C90A02B3FE61D286D5C87F425E6BDD81B
    x = 0xC9AFA9D845BA75166B5C215767B1D6934E50C3DB36E89B127B8A622B120F6721
    assert ec.rfc6979(ec.P256.n, x, hashlib.sha1, hashlib.sha1(b'sample').digest())[0] == 0x882905F1227FD620FBF2ABF21244F0BA83D0DC3A9103DBBEE43A1FB858109DB4
    assert ec.rfc6979(ec.P256.n, x, hashlib.sha256, hashlib.sha256(b'sample').digest())[0] == 0xA6E3C57DD01ABE90086538398355DD4C3B17AA873382B0F24D6129493D8AAD60
    try:
        from . import wire
    except ImportError: wire = None
    if wire: wire.selftest()
    print('reference models: self-test passed')

if __name__ == '__main__': main()
