from collections import Counter
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC
from ..ref import wire
from .n03 import packed
from .n01 import bad
ANCHORS = ['nbc/node/basenode.py', 'nbc/node/connection.py']
RULE = 'histories of version messages reporting few or many addresses, by a few or dozens of peers (also repeated ones changing their mind), peers leaving, being removed and new ones joining, the operator setting and unsetting an address; distinct = (votes, guess) states'
ASSUMPTIONS = ['the guess is judged after each version message, not between them', 'with several most reported addresses any of them is right']

def vote(rng, address):
    v = wire.value(rng, wire.MSG['version'][2]); v['relay'] = 1; v['addr_recv'] = dict(v['addr_recv'], address=address); return wire.frame(MAGIC, 'version', v)

def crowd(rng, mon, i):
    """more votes than one digit counts"""
    with Lab(rng, mon) as lab:
        node = lab.node; n = rng.choice([11, 19, 21, 23, 41]); big = rng.randint(n // 2 + 1, n); a, b = sorted([wire.V4 + gen.raw(rng, 4), wire.V4 + gen.raw(rng, 4)])
        if rng.random() < .5: a, b = b, a
        votes = [a] * big + [b] * (n - big)
        if rng.random() < .3: votes = [a] * 10 + [b] * 9
        rng.shuffle(votes); c = Counter()
        for v in votes:
            p = lab.dial('127.0.3.%d' % rng.randint(1, 200)); q = lab.find(p); mon.check(q, 'not-connected'); f = vote(rng, v); p.send(f); lab.until(lambda: q.rx_bytes >= len(f)); lab.poll(1); p.pull(); c[v] += 1
            best = [x for x in c if c[x] == max(c.values())]; mon.check(packed(node.external_ip) in best, 'majority', 'the believed address is not one most peers report', believed=node.external_ip, votes=sorted(c.values()), its=c[packed(node.external_ip)]); mon.ev('decided'); mon.seen('crowd', tuple(sorted(c.values())))
        mon.ev('crowds', max(c.values()) > 9)

def histories(rng, mon, i):
    with Lab(rng, mon) as lab:
        node = lab.node; live = []; operator = None
        some = [wire.V4 + gen.raw(rng, 4) for _ in range(rng.choice([1, 2, 3]))] + [wire.ip(rng) for _ in range(rng.choice([0, 1, 3]))]
        def joined():
            p = lab.dial() if rng.random() < .6 else lab.call_out()[0]; c = lab.find(p); mon.check(c, 'not-connected')
            lab.until(lambda: (p.pull(), p.total > 24)[1]); lab.settle(30); f = p.frames(mon); mon.eq(f[0][0], 'version', 'greeting')
            mon.eq(f[0][1]['addr_from']['address'], packed(node.external_ip), 'announced', 'the address announced to a new peer is not the one believed'); mon.ev('announced')
            live.append(dict(p=p, c=c, vote=None))
        def settle(q, f):
            want = q['c'].rx_bytes + len(f)
            while f: n = q['p'].send(f); f = f[n:]; lab.poll(1)
            lab.until(lambda: q['c'].rx_bytes >= want); lab.poll(1)
        for step in range(rng.choice([25, 60])):
            k = rng.random()
            if len(live) < 2 or k < .2 and len(live) < 12: joined()
            elif k < .65:
                q = rng.choice(live); a = rng.choice(some) if rng.random() < .95 else wire.ip(rng); q['vote'] = a
                settle(q, vote(rng, a))
                votes = Counter(x['vote'] for x in live if x['vote'] is not None); top = max(votes.values()); best = [x for x in votes if votes[x] == top]
                if operator is not None: mon.eq(packed(node.external_ip), operator, 'operator', 'a reported address took precedence over the operator\'s'); mon.ev('overruled')
                else: mon.check(packed(node.external_ip) in best, 'majority', 'the believed address is not one most peers report', believed=node.external_ip, votes=sorted(votes.values()), its=votes.get(packed(node.external_ip), 0)); mon.ev('decided'); mon.ev('contested', len(votes) > 1); mon.ev('clear', len(best) == 1 and len(votes) > 1)
                mon.seen(tuple(sorted(votes.values())), votes.get(packed(node.external_ip), 0), operator is None)
            elif k < .8:
                q = rng.choice(live); live.remove(q)
                if rng.random() < .4: node.remove_peer(q['c'].address)
                else: q['p'].close(rng.random() < .5)
                lab.until(lambda: q['c'] not in node.peers, 4); mon.ev('left'); mon.ev('left-voters', q['vote'] is not None)
                if operator is not None: mon.eq(packed(node.external_ip), operator, 'operator', 'changed by a departure')
            elif k < .86:
                t = rng.choice(['198.51.100.%d' % rng.randrange(256), '2001:db8::5', '10.0.0.1']); node.external_ip = t; operator = packed(t); mon.eq(packed(node.external_ip), operator, 'operator'); mon.ev('operator'); joined()
            elif k < .93 and operator is not None:
                node.external_ip = None; operator = None; votes = Counter(x['vote'] for x in live if x['vote'] is not None)
            else:
                f, kind = bad(rng)
                if f[4:11] == b'version' and kind != 'damaged': continue
                settle(rng.choice(live), f)
        mon.sample(votes=[gen.short(x['vote']) if hasattr(gen, 'short') else str(x['vote']) for x in live], believed=node.external_ip)

def alone(rng, mon, i):
    """one peer at a time, saying it over and over: who has left has no voice"""
    with Lab(rng, mon) as lab:
        node = lab.node
        for r in range(rng.choice([2, 4])):
            a = wire.V4 + gen.raw(rng, 4); n = rng.choice([1, 1, 2, 8]) if r else rng.choice([1, 2, 8, 20]); m = rng.choice([1, 1, 3]); some = []
            for k in range(m): p = lab.dial() if rng.random() < .6 else lab.call_out()[0]; q = lab.find(p); mon.check(q, 'not-connected'); some.append((p, q))
            for p, q in some:
                for k in range(n):
                    f = vote(rng, a); want = q.rx_bytes + len(f)
                    while f: z = p.send(f); f = f[z:]; lab.poll(1); p.pull()
                    lab.until(lambda: q.rx_bytes >= want); lab.poll(1)
                    if p is some[0][0]: mon.eq(packed(node.external_ip), a, 'departed', 'the only peer with a report is not believed', believed=node.external_ip, round=r, repeats=k)
            mon.eq(packed(node.external_ip), a, 'departed', 'all peers report one address, another is believed', believed=node.external_ip, round=r)
            for p, q in some:
                if rng.random() < .4: node.remove_peer(q.address)
                else: p.close(rng.random() < .5)
                mon.check(lab.until(lambda: q not in node.peers), 'stays')
            mon.ev('alone'); mon.seen('alone', r, n, m)

FAMILIES = [Family('alone', alone, 40, 1000), Family('histories', histories, 900, 20000), Family('crowd', crowd, 40, 1000)]
REQUIRED = {'decided': 1500, 'contested': 800, 'clear': 300, 'overruled': 300, 'announced': 800, 'left': 300, 'left-voters': 150, 'operator': 150, 'crowds': 15, 'alone': 60}
