import contextlib, errno, io, re, socket
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC, protocol, BaseNode
from ..ref import wire
from nbc.protocol import format as F
from .n01 import sequence, cuts, judge, trap_for
ANCHORS = ['nbc/node/connection.py', 'nbc/node/basenode.py', 'nbc/protocol/messages.py']
RULE = 'message streams from several peers and messages sent by the node at every log level, the log compared with what was handled and received; logs that refuse characters, run full, are closed or break at random writes; distinct = (level, commands) histories and (failure, level) pairs'
ASSUMPTIONS = ['the wording of an entry is not judged beyond direction, peer and kind of message', 'what the library prints to standard output is not judged, but a standard output that fails must change nothing either']
NAMES = {c: v[0] for c, v in wire.MSG.items()}
LINE = re.compile(r'^\((.*?)\) (<<<|>>>) (.*)$')
def entries(text):
    """(host, direction, text) of the message entries, in order"""
    return [m.groups() for m in map(LINE.match, text.split('\n')) if m]
def put(lab, p, c, data, rng):
    want = c.rx_bytes + len(data)
    for part in cuts(rng, data):
        while part: n = p.send(part); part = part[n:]; lab.poll(1); p.pull()
    lab.until(lambda: c.rx_bytes >= want)

def trace(rng, mon, i):
    """every message once, in order, with its peer"""
    level = [0, 1, 0, 1, 2, 3, 4][i % 7]; log = io.StringIO()
    with Lab(rng, mon, log=log) as lab:
        node = lab.node; node.log_level = level; peers = []; sent = {}
        if rng.random() < .3: lab.trap = trap_for(rng, .3)
        for j in range(rng.choice([1, 2, 3])):
            p = lab.dial('127.0.1.%d' % (j + 1)) if rng.random() < .6 else lab.call_out(lab.server('127.0.1.%d' % (j + 11)))[0]
            c = lab.find(p); mon.check(c, 'not-connected'); peers.append((p, c)); sent[p] = []
        frames = {p: [] for p, _ in peers}
        for _ in range(rng.randint(2, 8)):
            p, c = rng.choice(peers)
            if rng.random() < .7:
                s = sequence(rng, rng.choice([1, 2, 5])); put(lab, p, c, b''.join(x[3] for x in s), rng); sent[p] += s
            else:
                for _ in range(rng.choice([1, 3])): cmd, v = wire.message(rng); m = wire.build_msg(rng, protocol, F, cmd, v)[0]; c.send_message(m)
            for q, _ in peers: q.pull(); frames[q] += q.frames(mon)
        lab.settle(3000)
        for q, _ in peers: q.pull(); frames[q] += q.frames(mon)
        text = log.getvalue(); got = entries(text); host = {c: c.address[0] for _, c in peers}
        for p, c in peers: mon.check(c in node.peers, 'dropped', 'a peer was dropped'); judge(lab, mon, c, sent[p], 'level %d' % level)
        if level > 1: mon.eq(got, [], 'unasked', 'messages are logged although the level does not ask for it', level=level); mon.ev('silent'); mon.seen(level, i % 50); return
        def same(want, have, key, what):
            mon.eq([(h, d) for h, d, _ in have], [(h, d) for h, d, _ in want], key, what + ' are not the log entries', want=want[:12], have=[x[:2] + (x[2][:40],) for x in have][:12])
            for (h, d, c), (_, _, t) in zip(want, have):
                mon.check(NAMES[c] in t.split()[0] or c == 'alert' and 'can not show' in t, 'name', 'a log entry does not name the message', want=NAMES[c], entry=t[:80]); mon.ev('entries')
                if c == 'alert': mon.ev('alert')
        same([(host[c], '<<<', cmd) for c, cmd, _, _ in lab.log if c in host and cmd in wire.MSG], [x for x in got if x[1] == '<<<'], 'in', 'the messages handled')
        for p, c in peers:
            mine = [x for x in got if x[0] == host[c] and x[1] == '>>>']; same([(host[c], '>>>', cmd) for cmd, _, _ in frames[p]], mine, 'out', 'the messages sent')
            pings = [v['nonce'] for cmd, v, _ in frames[p] if cmd in ('ping', 'pong')]; shown = [t for _, _, t in mine if t.startswith('<Ping') or t.startswith('<Pong')]
            for n, t in zip(pings, shown): mon.check(n.hex() in t, 'content', 'a log entry does not show the message', nonce=n, entry=t)
        mon.seen(level, tuple(x[1:2] + (x[2][:9],) for x in got[:20])); mon.ev('level%d' % level); mon.sample(level=level, entries=len(got), first=got[:3])

def levels(rng, mon, i):
    """a line is written when its level is reached, once and as given"""
    class Plain(BaseNode): pass
    log = io.StringIO(); off = rng.random() < .1
    tap = io.StringIO(); quiet = (contextlib.redirect_stdout(tap), contextlib.redirect_stderr(tap)) if off else (contextlib.nullcontext(),) * 2
    with quiet[0], quiet[1], Lab(rng, mon, log=None if off else log) as lab:
        node = lab.node; p = lab.dial('127.0.1.7') if rng.random() < .5 else None; c = p and lab.find(p)
        for k in range(60):
            if c and k == 20: c.add_banscore(rng.choice([0, 3, 6, 50]))
            if c and k == 40: p.close(rng.random() < .5); lab.until(lambda: c not in node.peers); log.seek(0, 2)   # it still has a name
            node.log_level = rng.choice([0, 1, 2, 3, 4, 4, 5, 10]); lv = rng.randint(0, 4); text = rng.choice(['', 'x', 'a b  c', '%s %d', '\u00e9\u4e2d', '{}', 'end ', '"\'\\', 'long ' + gen.raw(rng, 40).hex() * rng.choice([200, 200, 2000, 20000]), gen.raw(rng, 6).decode('latin-1')]) + '#%d' % k; at = len(log.getvalue()); use = c if rng.random() < .5 else None
            dflt = rng.random() < .2
            mon.ok('log-raises', 'log()', node.log, text, *([use] if use or rng.random() < .5 else []), **({} if dflt else {'level': lv})); new = log.getvalue()[at:]
            if off: mon.eq(new, '', 'off'); mon.check(text not in tap.getvalue(), 'off', 'a node without a log writes to the standard output', text=text); mon.ev('without'); continue
            if (2 if dflt else lv) < node.log_level: mon.eq(new, '', 'below', 'a line below the log level is written', level=lv, log_level=node.log_level); mon.ev('dropped')
            else:
                mon.check(new.count(text) == 1 and new.endswith(text + '\n') and new.count('\n') == 1 + text.count('\n'), 'line', 'a line is not written once and as given', text=text, got=new); mon.ev('written')
                mon.check(('127.0.1.7' if use else 'node') in new[:-len(text) - 1], 'source', 'the source of a line is not the one given', got=new)
            mon.seen(node.log_level, lv, bool(use), dflt, len(text))

class Full(io.StringIO):
    """a log that fails now and then, or from some write on"""
    def __init__(self, rng, kind): io.StringIO.__init__(self); self.rng, self.kind, self.n, self.after, self.p, self.bad = rng, kind, 0, rng.choice([0, 0, 3, 20]), rng.choice([1, .5]), 0
    def write(self, s):
        self.n += 1
        if self.kind == 'ascii': s.encode('ascii')
        elif self.n > self.after and self.rng.random() < self.p:
            self.bad += 1
            if self.kind == 'full': raise OSError(errno.ENOSPC, 'No space left on device')
            if self.kind == 'pipe': raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            if self.kind == 'io': raise IOError('input/output error')
            if self.kind == 'closed': raise ValueError('I/O operation on closed file.')
        return io.StringIO.write(self, s)
KINDS = ['full', 'pipe', 'io', 'closed', 'ascii']
def broken(rng, mon, i):
    """a log that cannot be written disturbs nothing"""
    kind = KINDS[i % 5]; level = (i // 5) % 5; log = Full(rng, kind); out = log if rng.random() < .5 else Full(rng, kind) if rng.random() < .5 else io.StringIO(); mon.ev('stdout-' + ('log' if out is log else 'fails' if isinstance(out, Full) else 'works'))
    with Lab(rng, mon, log=log) as lab, contextlib.redirect_stdout(out):
        lab.node.log_level = level; peers = []
        if rng.random() < .5: lab.trap = trap_for(rng, .4)
        for j in range(rng.choice([1, 2, 3])):
            p = lab.dial() if rng.random() < .7 else lab.call_out()[0]; c = lab.find(p); mon.check(c, 'not-connected', log=kind); peers.append((p, c, []))
        for _ in range(rng.randint(2, 8)):
            p, c, s = rng.choice(peers); t = sequence(rng, rng.choice([1, 3, 6])); put(lab, p, c, b''.join(x[3] for x in t), rng); s += t
            if rng.random() < .2: lab.clock.add(11); lab.poll(1)
            if rng.random() < .3:                                    # somebody who is not there
                z = socket.socket(); z.bind(('127.0.0.78', 0)); lab.servers.append(z); r = mon.call(lab.node.add_peer, rng.choice([z.getsockname(), ('::1', 5), ('no address', 1)])); mon.check(r[0] == 'ok', 'connect-raises', 'connecting raises although only the log failed: %r' % (r[1],), log=kind); mon.ev('failed-connects'); lab.settle(20)
            if rng.random() < .3: x = lab.dial(); mon.check(lab.find(x), 'not-served', log=kind); x.close(rng.random() < .5); lab.settle(40)
        lab.settle(3000)
        for p, c, s in peers: judge(lab, mon, c, s, 'log %s' % kind); mon.check(c in lab.node.peers, 'dropped', 'a peer was dropped although only the log failed', log=kind); p.frames(mon)
        lab.trap = None
        for p, c, s in peers:
            n = gen.raw(rng, 8); p.buf = b''; put(lab, p, c, wire.frame(MAGIC, 'ping', {'nonce': n}), rng); got = []
            mon.check(lab.until(lambda: (got.extend(p.frames(mon)), any(a == 'pong' and v['nonce'] == n for a, v, _ in got))[1]), 'unanswered', 'a ping is not answered', log=kind)
        mon.ev('log-' + kind); mon.ev('failed-writes', log.bad); mon.seen(kind, level, len(peers), log.bad)

FAMILIES = [Family('trace', trace, 200, 4000), Family('levels', levels, 60, 800), Family('broken', broken, 150, 3000)]
REQUIRED = {'entries': 500, 'level0': 30, 'level1': 30, 'silent': 50, 'dropped': 500, 'written': 500, 'failed-writes': 200, 'alert': 20, 'stdout-log': 30, 'stdout-fails': 10, 'failed-connects': 60}
REQUIRED['without'] = 100
REQUIRED.update({'log-' + k: 10 for k in KINDS})
