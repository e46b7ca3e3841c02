"""Writes rv/golden/*.json with the wallet code as released (base commit), run once:
VERIF_REPO=<worktree of the base commit> /opt/venv/bin/python tools/mkgolden.py"""
import sys, os, json, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.environ['VERIF_REPO'])
from rv import wal, gen
from nbc import wallet
rng = random.Random('golden'); out = []
while len(out) < 40:
    m = wal.any_model(rng)
    if m.secret is None and m.kind == 'addr' and m.comp: continue      # the release saved these uncompressed
    n = getattr(m, 'node', None)
    try:
        if m.kind == 'addr': w = wal.make(rng, m)
        else: w = wal.HDWallet(n.d if n.d is not None else wal.point(n.P), n.chain, vcn=m.vcn, testnet=n.testnet, depth=n.depth, parentfp=n.fp, childnum=n.num)
        p = rng.choice([b'', b'', b'x', b'secret', b'0123456789abcdef', b'0123456789abcdef-more', bytes(range(1, 9)), '\xe9t\xe9'.encode('latin-1')])
        wallet.saveTo('/tmp/golden.tmp', w, p) if p else wallet.saveTo('/tmp/golden.tmp', w)
    except Exception as e: print('skip', m, repr(e)); continue
    out.append({'file': open('/tmp/golden.tmp').read(), 'passphrase': p.hex(), 'kind': m.kind, 'd': m.secret, 'P': m.pub, 'vcn': m.vcn, 'testnet': m.net,
        'comp': getattr(m, 'comp', None), 'chain': n and n.chain.hex(), 'depth': n and n.depth, 'fp': n and n.fp.hex(), 'num': n and n.num})
json.dump(out, open(os.path.join(HERE, 'rv/golden/wallets.json'), 'w'), indent=0)
