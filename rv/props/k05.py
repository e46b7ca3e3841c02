import base64, itertools
from ..core import Family, Violation
from .. import gen
from ..ref import codec, ec
from nbc.util import piecewise as pw
ANCHORS = ['nbc/util/piecewise.py']
RULE = 'keys (boundary and random), share counts, m-of-n key-sets with all or random subsets of sets, foreign and damaged shares; distinct = distinct (key, choice)'
N = ec.K1.n

def sec(t):
    w = codec.unwif(t if isinstance(t, bytes) else t.encode())
    if w is None: raise Violation('not-wif', 'result is not a wallet-import text', {'text': repr(t)})
    return int.from_bytes(w[0], 'big')

def split(rng, mon, i):
    for _ in range(6):
        d = gen.scalar(rng); cnt = rng.choice([1, 2, 2, 3, 5, 10, 40, rng.choice([41, 64, 65, 100, 256, 300])])
        shares = mon.ok('split-raises', 'split', pw.split_private_key, codec.wif(d, rng.random() < .5), cnt)
        mon.eq(len(shares), cnt, 'share-count')
        ss = [sec(s) for s in shares]
        mon.check(all(0 <= s < N for s in ss), 'share-range', 'share outside the group', shares=ss)
        mon.eq(sum(ss) % N, d, 'split-sum', 'shares do not sum to the key', key=d)
        for _ in range(2):
            rng.shuffle(shares)
            mon.eq(sec(mon.ok('combine-raises', 'combine', pw.combine_private_keys, shares)), d, 'recombine', 'shares give another key', key=d, count=cnt)
        if cnt > 1:
            part = rng.sample(shares, rng.randint(1, cnt - 1))
            mon.check(sec(pw.combine_private_keys(part)) != d, 'incomplete', 'part of the shares gives the key', key=d, count=cnt)
            mon.eq(len(set(shares)), cnt, 'share-reuse', 'shares repeat', key=d)
            again = pw.split_private_key(codec.wif(d, False), cnt)
            mon.check(not set(shares) & set(again), 'shares-predictable', 'another split of the key repeats a share', key=d)
        mon.ev('split'); mon.seen(d, cnt)
    mon.sample(key=d, count=cnt)

def combine(rng, mon, i):
    for _ in range(6):
        ds = [gen.scalar(rng) for _ in range(rng.choice([1, 2, 2, 3, 8]))]
        if rng.random() < .15: ds.append(ds[0])
        if sum(ds) % N == 0: continue
        got = mon.ok('combine-raises', 'combine', pw.combine_private_keys, [codec.wif(d, rng.random() < .5) for d in ds])
        mon.eq(sec(got), sum(ds) % N, 'combine-sum', 'not the sum of the keys', keys=ds)
        bad = [codec.wif(d, True) for d in ds]; k = rng.randrange(len(bad)); bad[k] = gen.mutate(rng, bad[k], codec.AL.encode())
        if codec.unwif(bad[k]) is None: mon.refused('damaged-share', 'damaged private key combined', pw.combine_private_keys, bad)
        mon.ev('combine'); mon.seen(*ds)

def vanity(rng, mon, i):
    (a, A), (b, B) = gen.keypair(rng), gen.keypair(rng)
    if rng.random() < .1: b, B = a, A
    if (a + b) % N == 0: return
    S = ec.K1.mul((a + b) % N, ec.K1.G)
    ver, vcn = rng.choice([(b'\0', 0), (b'\x6f', 0), (b'\0', gen.vcn(rng)), (b'\x6f', gen.vcn(rng))])
    kw = {}
    if ver != b'\0' or rng.random() < .3: kw['version'] = ver
    if vcn or rng.random() < .3: kw['vcn'] = vcn
    got = mon.ok('address-raises', 'get_address', pw.get_address, codec.ser_pub(A, False), codec.wif(b, rng.random() < .5), **kw)
    mon.eq(got, codec.address(codec.ser_pub(S, False), vcn, ver), 'vanity-address', 'not the address of the combined key', a=a, b=b)
    mon.refused('vanity-bad-public', 'malformed public key', pw.get_address, codec.ser_pub(A, False)[:64], codec.wif(b, False))
    u = codec.ser_pub(A, False)
    mon.refused('vanity-bad-public', 'off-curve public key', pw.get_address, u[:33] + ((A[1] + 1) % ec.K1.p).to_bytes(32, 'big'), codec.wif(b, False))
    for bad in (b'\x05' + u[1:], b'\0' + u[1:], u + b'\0', u[:33], b'', b'\x04' + bytes(64)): mon.refused('vanity-bad-public', 'malformed public key', pw.get_address, bad, codec.wif(b, False))
    st, v = mon.call(pw.get_address, codec.ser_pub(A, True), codec.wif(b, False))
    mon.check(st == 'exc' or v == codec.address(codec.ser_pub(S, False), 0, b'\0') or v == codec.address(codec.ser_pub(S, True), 0, b'\0'), 'vanity-address', 'a compressed public key gives another address', a=a, b=b, got=v)
    t = gen.mutate(rng, codec.wif(b, rng.random() < .5), codec.AL.encode())
    if codec.unwif(t) is None: mon.refused('vanity-bad-private', 'damaged private key', pw.get_address, u, t)
    mon.ev('vanity'); mon.seen(a, b)

def adjacent(sub, m, n):
    """does the subset hold all parts of one split: m cyclically consecutive sets"""
    s = set(sub)
    return any(all((k - j) % n in s for j in range(m)) for k in range(n))

def make(rng, mon, m, n):
    d = gen.scalar(rng); w = codec.wif(d, rng.random() < .5)
    sets = mon.ok('partial-split-raises', 'partial_split', pw.partial_split_private_key, w, m, n)
    mon.eq(len(sets), n, 'set-count'); mon.check(all(len(s) == m for s in sets), 'set-size', sets=[len(s) for s in sets])
    mon.check(all(t[:2] in (b'6C', '6C') for s in sets for t in s), 'set-prefix', 'keys do not begin with 6C')
    return d, sets

def judge(rng, mon, d, sets, sub, m, n):
    keys = [t for k in sub for t in sets[k]]
    rng.shuffle(keys)
    if rng.random() < .2 and keys: keys.append(rng.choice(keys))       # a share given twice
    got = mon.ok('partial-combine-raises', 'partial_combine', pw.partial_combine_private_keys, keys)
    if got is not None:
        mon.eq(sec(got), d, 'wrong-key', 'another key is recovered', key=d, m=m, n=n, sets=sub)
        mon.check(len(set(sub)) >= m, 'too-few-sets', 'fewer than m sets give the key', m=m, n=n, sets=sub)
        mon.ev('recovered')
    else:
        if adjacent(sub, m, n): raise Violation('not-recovered', '%d-of-%d: complete sets %s do not recover the key' % (m, n, sub))
        mon.ev('not-recovered')
        if len(set(sub)) >= m: return True
    mon.seen(d, m, n, tuple(sub))

def partial_small(rng, mon, i):
    """all subsets of all m-of-n with n <= 5"""
    mn = [(m, n) for n in range(1, 6) for m in range(1, n + 1)]
    m, n = mn[i % len(mn)]
    d, sets = make(rng, mon, m, n)
    lost = None
    for r in range(0, n + 1):
        for sub in itertools.combinations(range(n), r):
            if judge(rng, mon, d, sets, sub, m, n): lost = (sub, m, n)
    mon.ev('all-subsets')

def partial_big(rng, mon, i):
    n = rng.choice([6, 7, 10, 20]); m = rng.randint(1, n)
    if rng.random() < .1: n, m = rng.choice([(255, 3), (100, 12), (40, 40)])
    d, sets = make(rng, mon, m, n)
    for _ in range(12):
        k = rng.random()
        if k < .4: st = rng.randrange(n); sub = [(st + j) % n for j in range(rng.randint(max(0, m - 1), min(n, m + 1)))]
        else: sub = rng.sample(range(n), rng.randint(0, n))
        judge(rng, mon, d, sets, sub, m, n)
    # single shares, not whole sets
    for _ in range(6):
        allk = [t for s in sets for t in s]
        keys = rng.sample(allk, rng.randint(0, len(allk)))
        got = mon.ok('partial-combine-raises', 'partial_combine', pw.partial_combine_private_keys, keys)
        if got is not None: mon.eq(sec(got), d, 'wrong-key', key=d)
    mon.sample(m=m, n=n, key=d)

def many(rng, mon, i):
    """more sets than a sheet of paper holds"""
    m = n = [129, 160, 200, 255, 128, 127][i % 6]; n += i % 2 and n < 255
    d, sets = make(rng, mon, m, n)
    judge(rng, mon, d, sets, rng.sample(range(n), n), m, n)
    for miss in (1, 2): judge(rng, mon, d, sets, rng.sample(range(n), m - miss), m, n)
    keys = [t for s in sets for t in s]; got = mon.ok('partial-combine-raises', 'partial_combine', pw.partial_combine_private_keys, rng.sample(keys, len(keys) - rng.randint(1, m - 1)))
    mon.check(got is not None or n > m, 'not-recovered', 'a few shares of many missing'); mon.ev('many')
    if got is not None: mon.eq(sec(got), d, 'wrong-key', key=d)
    k = rng.randrange(n)
    for s in (sets[0], sets[k]):
        if qr_holds(idx(s)):
            t = mon.ok('qr-encode-raises', 'qr_encode of %d shares' % len(s), pw.partial_split_qr_encode, s)
            mon.eq(set(mon.ok('qr-decode-raises', 'qr_decode', pw.partial_split_qr_decode, t)), set(s), 'qr-roundtrip', 'key-set changed by its QR form', m=m, n=n); mon.ev('many-qr')

def anyset(rng, mon, i):
    """the documented promise: any m of the n sets"""
    n = rng.randint(3, 8); m = rng.randint(2, n - 1)
    d, sets = make(rng, mon, m, n)
    mon.ev('any-m')
    for _ in range(8):
        sub = rng.sample(range(n), rng.randint(m, n))
        if judge(rng, mon, d, sets, sub, m, n):
            raise Violation('non-adjacent-sets', '%d-of-%d: sets %s do not recover the key' % (m, n, sorted(sub)), {'key': d, 'm': m, 'n': n, 'sets': sorted(sub)})

def mixed(rng, mon, i):
    n = rng.randint(2, 6); m = rng.randint(2, n)
    d, A = make(rng, mon, m, n); e, B = make(rng, mon, m, n)
    if d == e: return
    keys = [t for s in A for t in s]
    foreign = rng.choice(sorted(rng.choice(B)))
    k2 = list(keys); k2.insert(rng.randint(0, len(k2)), foreign)
    mon.refused('mixed', 'share of another key is accepted', pw.partial_combine_private_keys, k2)
    got = pw.partial_combine_private_keys(keys + [foreign], ignore_errors=True)
    mon.eq(sec(got), d, 'ignore-errors', 'foreign share not ignored', key=d)
    # another split size of the same key
    o = rng.choice([x for x in (1, 2, 3, 4, 5, 6, 7) if x != m])
    C = pw.partial_split_private_key(codec.wif(d, False), o, 7)
    k2 = list(keys); k2.insert(rng.randint(0, len(k2)), rng.choice(sorted(rng.choice(C))))
    mon.refused('mixed-required', 'share of a split with another m is accepted', pw.partial_combine_private_keys, k2)
    mon.eq(sec(pw.partial_combine_private_keys(keys + [t for s in C for t in s], ignore_errors=True)), d, 'ignore-errors', 'shares of another split size are not ignored', key=d)
    mon.refused('impossible', 'more sets required than there are', pw.partial_split_private_key, codec.wif(d, False), n + rng.choice([1, 2, 50]), n)
    # another split of the same key: never a wrong key
    D = pw.partial_split_private_key(codec.wif(d, False), m, n)
    for _ in range(8):
        pool = rng.sample(keys, rng.randint(0, len(keys))) + rng.sample([t for s in D for t in s], rng.randint(0, n * m))
        st, v = mon.call(pw.partial_combine_private_keys, pool)
        mon.check(st == 'exc' or v is None or sec(v) == d, 'wrong-key', 'mixing two splits gives a wrong key', key=d, got=v)
        mon.ev('mixed-splits')
    # damaged shares
    for _ in range(6):
        k2 = list(keys); j = rng.randrange(len(k2)); t = gen.mutate(rng, k2[j], codec.AL.encode())
        b = codec.b58check_d(t)
        if b is None or len(b) != 40: k2[j] = t; mon.refused('damaged', 'damaged share is accepted', pw.partial_combine_private_keys, k2)
    # re-checksummed damage inside the key: never a wrong key
    for _ in range(6):
        k2 = list(keys); j = rng.randrange(len(k2)); b = bytearray(codec.b58check_d(k2[j])); b[rng.randrange(8, 40)] ^= 1 << rng.randrange(8)
        k2[j] = codec.b58check_e(bytes(b))
        st, v = mon.call(pw.partial_combine_private_keys, k2[j:] + k2[:j])
        mon.check(st == 'exc' or v is None or sec(v) == d, 'wrong-key', 'a damaged share gives a wrong key', key=d, got=v)
    # the check field changed in all shares alike
    bit = rng.randrange(32); k3 = []
    for t in keys: b = bytearray(codec.b58check_d(t)); b[4 + bit // 8] ^= 1 << bit % 8; k3.append(codec.b58check_e(bytes(b)))
    st, v = mon.call(pw.partial_combine_private_keys, k3)
    mon.check(st == 'exc' or v is None, 'check-field', 'shares whose check field contradicts the key give a key', key=d, bit=bit, got=v); mon.ev('check-field')
    for t in (b'', codec.wif(d, False), b'6C', codec.b58check_e(b'\x10\x01')):
        mon.refused('damaged', 'not a share', pw.partial_combine_private_keys, [t] + keys)
    mon.seen(d, m, n)

def idx(s): return sorted((codec.b58check_d(t)[2]) for t in s)
def qr_holds(ix):
    """index lists the text form can carry: 0.. with at most one left out"""
    m = len(ix)
    return ix == list(range(m)) or (len(set(ix)) == m and ix[-1] == m)

def qr(rng, mon, i):
    n = rng.randint(1, 9) if i % 30 else rng.choice([65, 70, 100]); m = rng.randint(1, n) if rng.random() < .4 and n < 10 else max(1, n - 1)
    d, sets = make(rng, mon, m, n)
    for s in sets:
        ix = idx(s)
        if not qr_holds(ix): continue
        t = mon.ok('qr-encode-raises', 'qr_encode', pw.partial_split_qr_encode, s if rng.random() < .5 else rng.sample(sorted(s), len(s)))
        raw = t.encode() if isinstance(t, str) else t
        mon.check(all(c in b'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567' for c in raw), 'qr-alphabet', text=t)
        for form in (raw, raw.decode()):
            back = mon.ok('qr-decode-raises', 'qr_decode', pw.partial_split_qr_decode, form)
            mon.eq(set(back), set(s), 'qr-roundtrip', 'key-set changed by its QR form', m=m, n=n, indices=ix)
        mon.ev('qr'); mon.seen(d, tuple(ix))
        # cut text is refused or loses shares, never gives foreign ones
        cut = raw[:rng.randrange(len(raw))]
        st, v = mon.call(pw.partial_split_qr_decode, cut)
        mon.check(st == 'exc' or set(v) <= set(s) , 'qr-cut', 'cut text gives other shares', got=v)
    while True:
        od = gen.scalar(rng)
        if od != d: break
    o = pw.partial_split_private_key(codec.wif(od, False), m, n)
    if m > 1:
        mon.refused('qr-mixed', 'shares of two keys in one QR text', pw.partial_split_qr_encode, sorted(sets[0])[:m - 1] + sorted(o[0])[:1])
        mon.refused('qr-mixed', 'shares of two split sizes in one QR text', pw.partial_split_qr_encode, sorted(sets[0])[:m - 1] + [codec.b58check_e(b'\x10\x01' + bytes([m - 1]) + bytes([m + 1]) + codec.b58check_d(sorted(sets[0])[0])[4:])])
    mon.refused('qr-bad', 'not a share', pw.partial_split_qr_encode, [codec.wif(d, False)])
    mon.refused('qr-bad', 'bad header', pw.partial_split_qr_decode, base64.b32encode(gen.raw(rng, 41)).strip(b'='))

def qr_any(rng, mon, i):
    n = rng.randint(2, 9); m = rng.randint(1, n)
    d, sets = make(rng, mon, m, n)
    mon.ev('qr-any')
    for s in sets:
        back = set(pw.partial_split_qr_decode(pw.partial_split_qr_encode(s)))
        if back != set(s):
            if qr_holds(idx(s)): raise Violation('qr-roundtrip', 'key-set changed', {'m': m, 'n': n})
            # the defect known: only the indices are lost
            strip = lambda q: sorted(codec.b58check_d(t)[:2] + codec.b58check_d(t)[3:] for t in q)
            mon.eq(strip(back), strip(s), 'qr-content', 'share contents changed by the QR form', m=m, n=n)
            raise Violation('qr-indices', '%d-of-%d: the QR text of the set with indices %s decodes to indices %s' % (m, n, idx(s), idx(back)), {'key': d})

FAMILIES = [Family('split', split, 120, 6000), Family('combine', combine, 150, 8000), Family('vanity', vanity, 100, 4000),
            Family('all-subsets', partial_small, 30, 600), Family('big', partial_big, 60, 3000), Family('many', many, 6, 36), Family('any-m', anyset, 20, 600),
            Family('mixed', mixed, 100, 5000), Family('qr', qr, 120, 5000), Family('qr-any', qr_any, 20, 600)]
REQUIRED = {'split': 500, 'combine': 600, 'vanity': 80, 'all-subsets': 30, 'recovered': 400, 'not-recovered': 300, 'mixed-splits': 500, 'qr': 200, 'many': 6, 'many-qr': 4, 'check-field': 80}
