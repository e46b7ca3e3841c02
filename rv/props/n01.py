import io, os, socket, sys
from ..core import Family
from .. import gen, netlab
from ..netlab import Lab, MAGIC
from ..ref import wire
from nbc import protocol
ANCHORS = ['nbc/node/connection.py', 'nbc/node/basenode.py', 'nbc/protocol/messages.py']
RULE = 'one to four peers (made and accepted) sending random messages of all types between damaged, unknown, undecodable and foreign frames, cut into random packets and read in random portions, with urgent data in between, handlers failing at random messages, all log levels; distinct = distinct (stream, cut) histories'
ASSUMPTIONS = ['frames whose announced length is wrong desynchronise the stream and are not sent except as the last one', 'whether a payload of an impossible value is reported or only logged is not judged, that it is not handled is']
CMDS = sorted(wire.MSG)

class BadLog(io.StringIO):
    """a terminal that cannot show everything"""
    def write(self, s): s.encode('ascii'); return io.StringIO.write(self, s)

def bad(rng):
    """(frame, kind): a frame of right length that is not a message of ours"""
    c, v = wire.message(rng, rng.choice([x for x in CMDS if x not in ('block',)])); p = wire.enc(wire.MSG[c][2], v)
    k = rng.randrange(7)
    if k == 0:
        s = bytearray(wire.dsha(p)[:4]); s[rng.randrange(4)] ^= 1 << rng.randrange(8); return wire.raw_frame(MAGIC, c, p, checksum=bytes(s)), 'damaged'
    if k == 1 and p:
        q = bytearray(p); q[rng.randrange(len(q))] ^= 1 << rng.randrange(8); return wire.raw_frame(MAGIC, c, bytes(q), checksum=wire.dsha(p)[:4]), 'damaged'
    if k == 2:
        m = bytearray(MAGIC); m[rng.randrange(4)] ^= 1 << rng.randrange(8); return wire.raw_frame(bytes(m), c, p), 'damaged'
    if k == 3: return wire.raw_frame(MAGIC, rng.choice(['nosuch', 'Ping', 'pingx', 'sendheaders', 'feefilter', 'wtxidrelay', '', 'xxxxxxxxxxxx', '\xff\xfe']), rng.choice([b'', p, gen.raw(rng, 9)])), 'unknown'
    if k == 4: return wire.raw_frame(MAGIC, rng.choice(wire.UNSUPPORTED), gen.raw(rng, rng.randrange(30))), 'maybe'
    if k == 5:
        c = rng.choice(['ping', 'pong', 'version', 'inv', 'addr', 'tx', 'getblocks', 'reject', 'headers', 'alert'])
        p = wire.enc(wire.MSG[c][2], wire.value(rng, wire.MSG[c][2]))
        if len(p) > 1:
            q = p[:rng.randrange(len(p))] if c != 'version' else p[:rng.randrange(80)]
            try: wire.dec(wire.MSG[c][2], q)
            except Exception: return wire.raw_frame(MAGIC, c, q), 'short'
    q = b'\xff' + b'\xff' * 8 + gen.raw(rng, 5)
    return wire.raw_frame(MAGIC, rng.choice(['inv', 'addr', 'headers', 'getdata']), q), 'short'

class Boom(Exception): pass
def trap_for(rng, p):
    """handlers that raise at random"""
    excs = [ValueError('h'), KeyError('h'), Boom('\udcff'), AttributeError('h'), TypeError('h'), OSError(5, 'h'), RuntimeError('h'), IndexError(), AssertionError(), UnicodeDecodeError('ascii', b'\xff', 0, 1, 'h'), ZeroDivisionError(), RecursionError('h'), MemoryError(), StopIteration(), EOFError(), ConnectionResetError(104, 'h'), BrokenPipeError(32, 'h'), BlockingIOError(11, 'h'), TimeoutError('h'), NotImplementedError(), Exception()]
    def trap(peer, cmd, kw):
        if rng.random() < p: raise rng.choice(excs)
    return trap

def fields_of(mon, kw, c, v, key, **w):
    names = [n for n, _ in wire.MSG[c][2]]
    mon.eq(sorted(kw), sorted(names), key + '-names', 'handler of %s got other arguments' % c)
    class O(object): pass
    o = O(); o.__dict__.update(kw)
    try: got = wire.read(wire.MSG[c][2], o)
    except (wire.Bad, ValueError, TypeError) as e: mon.check(False, key, 'handler of %s got a value that is none of the field\'s: %s' % (c, e), **w)
    d = wire.first_diff(wire.MSG[c][2], got, v)
    mon.check(d is None, key, 'handler of %s got another field value than sent' % c, where=d, **w)

def judge(lab, mon, conn, sent, what):
    """sent: [(kind, command, fields, frame)] of one peer, all delivered"""
    want = [x for x in sent if x[0] == 'good']
    got = [(c, kw) for p, c, kw, _ in lab.log if p is conn and c in wire.MSG]
    for j, (x, g) in enumerate(zip(want, got)):
        mon.check(g[0] == x[1], 'order', '%s: message %d handled is %s, sent was %s (lost, repeated or reordered)' % (what, j, g[0], x[1]), sent=[y[1] for y in want][:12], handled=[y[0] for y in got][:12])
        fields_of(mon, g[1], x[1], x[2], 'fields', frame=x[3][:200])
    mon.check(len(got) == len(want), 'lost' if len(got) < len(want) else 'repeated', '%s: %d messages handled of %d sent' % (what, len(got), len(want)), sent=[y[:2] for y in sent][:20], handled=[y[0] for y in got][:20])
    inv = [pl for p, c, pl, _ in lab.log if p is conn and c == 'invalid']
    k = 0
    for x in sent:                              # reports in order; 'maybe' ones may be missing
        if x[0] in ('good',): continue
        if k < len(inv) and inv[k] == x[3]: k += 1
        elif x[0] in ('damaged', 'unknown'): mon.check(False, 'not-reported', 'an invalid frame was not reported to the hook (%s)' % x[0], frame=x[3][:100], reports=[y[:40] for y in inv[k:k + 2]])
    mon.eq(k, len(inv), 'reported', 'something else was reported as invalid', report=inv[k:k + 1])
    # order between handled and reported messages
    seq = [c if c != 'invalid' else pl for p, c, pl, _ in lab.log if p is conn and c in wire.MSG or p is conn and c == 'invalid']
    exp = [x[1] if x[0] == 'good' else x[3] for x in sent if x[0] == 'good' or x[3] in inv]
    mon.eq(seq, exp, 'order', 'handled and reported messages are not in the order sent')
    mon.eq(conn.rx_bytes, sum(len(x[3]) for x in sent), 'rx-bytes', '%s: received bytes miscounted' % what)

def sequence(rng, n, only_good=False, big=False):
    out = []
    for _ in range(n):
        if not only_good and rng.random() < .3: f, k = bad(rng); out.append((k, None, None, f)); continue
        c, v = wire.message(rng, rng.choice(CMDS + ['ping', 'ping', 'version', 'verack', 'getaddr', 'addr', 'inv', 'tx']))
        out.append(('good', c, v, wire.frame(MAGIC, c, v)))
    return out

def cuts(rng, b):
    """the packets"""
    k = rng.random(); out = []
    if k < .15: return [b]
    size = rng.choice([1, 3, 20, 24, 100, 1000, 8192, 8193]) if len(b) < 3000 else rng.choice([100, 1000, 4096, 8191, 8192, 8193, 20000])
    while b:
        n = size if k < .5 else rng.randint(1, 2 * size)
        out.append(b[:n]); b = b[n:]
    return out

def streams(rng, mon, i):
    log = rng.choice([io.StringIO(), io.StringIO(), BadLog(), None])
    with Lab(rng, mon, log=log) as lab:
        lab.node.log_level = i % 5
        if rng.random() < .7: lab.fault = netlab.random_faults(rng, p_again=rng.choice([0, .1, .3]))
        f, lab.fault = lab.fault, None
        if rng.random() < .5: lab.trap = trap_for(rng, rng.choice([.1, .5, 1]))
        peers = []
        for j in range(rng.choice([1, 1, 2, 4])):
            p = lab.dial() if rng.random() < .7 else lab.call_out()[0]
            peers.append((p, lab.find(p), sequence(rng, rng.choice([3, 8, 15]))))
        mon.check(all(c for _, c, _ in peers), 'not-connected')
        lab.fault = f
        todo = [[p, cuts(rng, b''.join(x[3] for x in s))] for p, c, s in peers]
        for p, cs in todo: mon.seen(tuple(map(len, cs)), cs[0][:50])
        rounds = 0
        while any(cs for _, cs in todo):
            rounds += 1
            t = rng.choice([t for t in todo if t[1]])
            n = t[0].send(t[1][0]); t[1][0] = t[1][0][n:]
            if not t[1][0]: del t[1][0]
            if rng.random() < .7: lab.poll(rng.choice([1, 1, 2]))
            for p, _ in todo: p.pull()
            if rounds > 20000: mon.check(False, 'stuck', 'the node stopped reading')
        lab.deliver(*[(c, sum(len(x[3]) for x in s)) for _, c, s in peers])
        lab.fault = None; lab.settle(4000)
        for j, (p, c, s) in enumerate(peers):
            judge(lab, mon, c, s, 'peer %d' % j); mon.ev('peers'); mon.ev('messages', sum(x[0] == 'good' for x in s))
            for x in s: mon.ev('sent-' + x[0])
            mon.check(c in lab.node.peers, 'dropped', 'a peer was dropped although it only sent frames'); p.frames(mon)
        if hasattr(lab.node, '_rx_bytes'): mon.eq(lab.node._rx_bytes, lab.came, 'node-rx-bytes', 'received bytes of the node miscounted')
        mon.eq(sum(c.rx_bytes for _, c, _ in peers), lab.came, 'rx-bytes')
        mon.ev('level%d' % lab.node.log_level); mon.ev('polls', lab.polls)
        mon.sample(peers=len(peers), packets=rounds, commands=[x[1] or x[0] for x in peers[0][2]][:12])

def every_cut(rng, mon, i):
    """one short stream cut at every place"""
    s = [('good', c, v, wire.frame(MAGIC, c, v)) for c, v in [('ping', {'nonce': gen.raw(rng, 8)}), ('verack', {})]]
    f, k = bad(rng)
    if len(f) < 200: s.insert(1, (k, None, None, f))
    last, v = [('pong', {'nonce': gen.raw(rng, 8)}), ('verack', {}), ('getaddr', {}), ('mempool', {}), ('inv', {'inventory': ()}), ('headers', {'headers': ()})][i // 2 % 6]; s.append(('good', last, v, wire.frame(MAGIC, last, v)))
    b = b''.join(x[3] for x in s)
    with Lab(rng, mon) as lab:
        lab.node.log_level = i % 5
        for at in sorted(set(range(i % 4, len(b), 4)) | {len(b) - 1, len(b) - 2}):
            p = lab.dial(); c = lab.find(p); p.send(b[:at]); lab.deliver((c, at)); lab.poll(2)
            done, n = 0, 0
            for x in s:
                n += len(x[3]); done += n <= at
            mon.eq(sum(1 for q, m, _, _ in lab.log if q is c and (m in wire.MSG or m == 'invalid')) <= done, True, 'early', 'handled before it was complete', at=at)
            p.send(b[at:]); lab.deliver((c, len(b))); lab.settle(60); judge(lab, mon, c, s, 'cut at %d' % at); mon.ev('cuts'); p.close(); lab.settle(30)
        mon.seen('every', b)

def large(rng, mon, i):
    """messages far larger than a packet, and many in one packet"""
    with Lab(rng, mon) as lab:
        p = lab.dial(); c = lab.find(p); one = i % 2
        n = [3000, 20000, 50000, 50000][i % 4]; ent = [{'object_type': rng.getrandbits(2), 'hash': gen.raw(rng, 32)} for _ in range(7)]
        s = [('good', 'inv', {'inventory': tuple(ent[j % 7] for j in range(n))}, None)] + [('good', 'ping', {'nonce': gen.raw(rng, 8)}, None) for _ in range(400)]
        if i % 4 == 3: s.append(('good', 'block', dict(wire.message(rng, 'block')[1], txns=({'version': 1, 'lock_time': 0, 'tx_in': ({'previous_output': {'hash': gen.raw(rng, 32), 'index': 0}, 'signature_script': rng.randbytes(rng.choice([1000001, 2100000, 3900000])), 'sequence': 0},), 'tx_out': ({'value': 1, 'pk_script': b'x'},)},)), None)); mon.ev('megabytes')
        rng.shuffle(s); s = [x[:3] + (wire.frame(MAGIC, x[1], x[2]),) for x in s]
        b = b''.join(x[3] for x in s)
        while b:
            n = p.send(b[:rng.choice([100000, 8192, 30000]) if not one else len(b)]); b = b[n:]; lab.poll(2); p.pull()
        lab.deliver((c, sum(len(x[3]) for x in s))); lab.settle(100)
        burst = [('good', 'mempool', {}, wire.frame(MAGIC, 'mempool', {}))] * rng.choice([340, 341, 341]); b = b''.join(x[3] for x in burst); s += burst     # as many as a read holds, then silence
        while b: n = p.send(b); b = b[n:]
        lab.deliver((c, sum(len(x[3]) for x in s))); lab.settle(100)
        judge(lab, mon, c, s, 'large'); mon.ev('messages', len(s)); mon.ev('large'); mon.seen('large', i)

def truncated(rng, mon, i):
    """what a dying peer leaves incomplete is not handled; others go on"""
    with Lab(rng, mon) as lab:
        a, b = lab.dial(), lab.dial(); ca, cb = lab.find(a), lab.find(b)
        s = sequence(rng, 4, True); last = s[-1][3]; full = s[:-1]
        cut = rng.randrange(1, len(last)); data = b''.join(x[3] for x in full) + last[:cut]
        while data:
            n = a.send(data); data = data[n:]; lab.poll(2); a.pull()
        lab.deliver((ca, sum(len(x[3]) for x in full) + cut)); lab.poll(3)
        got = [c for q, c, _, _ in lab.log if q is ca and c in wire.MSG]
        mon.eq(got, [x[1] for x in full], 'incomplete', 'an incomplete message was handled or a complete one was not')
        a.close(rng.random() < .5); s2 = sequence(rng, 5)
        data = b''.join(x[3] for x in s2)
        while data:
            n = b.send(data); data = data[n:]; lab.poll(2); b.pull()
        lab.deliver((cb, sum(len(x[3]) for x in s2))); lab.settle(2000); judge(lab, mon, cb, s2, 'other peer'); mon.eq([c for q, c, _, _ in lab.log if q is ca and c in wire.MSG], [x[1] for x in full], 'incomplete', 'the rest of a dead peer was handled')
        mon.ev('truncated'); mon.seen('truncated', i)

def bare(rng, mon, i):
    """a node that handles only some kinds of messages; the others are passed over"""
    own = [h for h in netlab.HANDLERS if hasattr(netlab.BaseNode, 'command_' + h)]; more = [h for h in netlab.HANDLERS if h not in own and rng.random() < rng.choice([0, .3])]
    known = {c for c, v in wire.MSG.items() if v[1] in own + more}; log = rng.choice([io.StringIO(), BadLog(), None])
    with Lab(rng, mon, cls=netlab.node_class(handlers=own + more), log=log) as lab:
        lab.node.log_level = i % 5; peers = []
        for j in range(rng.choice([1, 2])):
            p = lab.dial() if rng.random() < .7 else lab.call_out()[0]; s = [x if x[1] in known or x[0] != 'good' else ('passed',) + x[1:] for x in sequence(rng, rng.choice([6, 15]))]
            peers.append((p, lab.find(p), s))
        mon.check(all(c for _, c, _ in peers), 'not-connected'); todo = [[p, cuts(rng, b''.join(x[3] for x in s))] for p, c, s in peers]
        while any(cs for _, cs in todo):
            t = rng.choice([t for t in todo if t[1]]); n = t[0].send(t[1][0]); t[1][0] = t[1][0][n:]
            if not t[1][0]: del t[1][0]
            lab.poll(rng.choice([0, 1, 2]))
            for p, _ in todo: p.pull()
        lab.deliver(*[(c, sum(len(x[3]) for x in s)) for _, c, s in peers]); lab.settle(2000)
        for p, c, s in peers:
            judge(lab, mon, c, s, 'node with %d handlers' % len(known)); mon.check(c in lab.node.peers, 'dropped', 'a peer was dropped for a message the node does not handle'); mon.ev('passed', sum(x[0] == 'passed' for x in s)); mon.ev('messages', sum(x[0] == 'good' for x in s))
            got = [f[0] for f in p.frames(mon)]; want = ['version'] + [{'version': 'verack', 'ping': 'pong', 'getaddr': 'addr'}[x[1]] for x in s if x[1] in ('version', 'ping', 'getaddr')]
            mon.eq(got, want, 'replies', 'the library does not answer between messages without handler'); mon.seen(sorted(more), [x[1] or x[0] for x in s])

def late(rng, mon, i):
    """handlers put in place, replaced and taken away while the node runs: a message goes to the handler the node has then"""
    own = [h for h in netlab.HANDLERS if hasattr(netlab.BaseNode, 'command_' + h)]
    other = [h for h in netlab.HANDLERS if h not in own]; have = set(rng.sample(other, len(other) // 2))
    with Lab(rng, mon, cls=netlab.node_class(handlers=own + sorted(have))) as lab:
        p = lab.dial(); c = lab.find(p); mon.check(c, 'not-connected'); stage, seen, kinds = 0, [], {}
        for cmd, v in wire.MSG.items():
            if v[1] in other: kinds[v[1]] = cmd
        for _ in range(rng.choice([4, 8])):
            stage += 1
            for h in rng.sample(other, rng.randint(1, 4)):           # other handlers from now on
                def handler(peer, _h=h, _s=stage, **kw): seen.append((_h, _s, peer))
                kinds_now = rng.random()
                if kinds_now < .75: setattr(lab.node, 'command_' + h, handler); have.add((h, stage)); have = {x for x in have if not (isinstance(x, tuple) and x[0] == h and x[1] != stage)}; mon.ev('put')
                elif 'command_' + h in vars(lab.node): delattr(lab.node, 'command_' + h); have = {x for x in have if not (isinstance(x, tuple) and x[0] == h)}; mon.ev('taken')
            want = []; n0 = len(lab.log); s0 = len(seen); data = b''
            for h in [rng.choice(sorted(kinds)) for _ in range(rng.choice([3, 10]))]:
                v = wire.value(rng, wire.MSG[kinds[h]][2]); data += wire.frame(MAGIC, kinds[h], v)
                now = [x[1] for x in have if isinstance(x, tuple) and x[0] == h]
                want.append((h, now[0] if now else 'class' if h in have else None))
            total = c.rx_bytes + len(data)
            while data: n = p.send(data); data = data[n:]; lab.poll(1); p.pull()
            lab.deliver((c, total)); lab.poll(2)
            mon.eq([(h, s) for h, s, q in seen[s0:] if q is c], [w for w in want if isinstance(w[1], int)], 'late-handler', 'messages did not reach the handlers the node has now', wanted=want)
            mon.eq([x[1] for x in lab.log[n0:] if x[0] is c and x[1] in wire.MSG], [kinds[h] for h, s in want if s == 'class'], 'late-handler', 'messages did not reach the handlers the node has now', wanted=want)
            mon.ev('late', len(want))
        mon.check(c in lab.node.peers, 'dropped'); mon.seen('late', i)

def urgent(rng, mon, i):
    """urgent data between the messages: no part of them, and taking nothing from them"""
    with Lab(rng, mon) as lab:
        p = lab.dial() if i % 2 else lab.call_out()[0]; c = lab.find(p); mon.check(c, 'not-connected'); sent = []
        for _ in range(rng.choice([1, 2, 4])):
            s = sequence(rng, rng.choice([2, 6])) + [('good', 'inv', v, wire.frame(MAGIC, 'inv', v)) for v in [{'inventory': tuple({'object_type': 1, 'hash': gen.raw(rng, 32)} for _ in range(rng.choice([1, 100, 250, 400, 600])))}]] + sequence(rng, rng.choice([0, 3]))
            b = b''.join(x[3] for x in s); at = rng.choice([0, len(b), rng.randint(0, len(b)), rng.randint(0, len(b))]); sent += s; x, y = b[:at], b[at:]
            while x: n = p.send(x); x = x[n:]; (x or rng.random() < .5) and lab.poll(1)
            try: p.s.send(bytes([rng.getrandbits(8)]), socket.MSG_OOB); mon.ev('urgent')
            except OSError: pass
            if rng.random() < .3: lab.poll(2)
            while y: n = p.send(y); y = y[n:]; y and lab.poll(1)
            lab.deliver((c, sum(len(z[3]) for z in sent))); lab.settle(400); p.pull()
        judge(lab, mon, c, sent, 'around urgent data'); mon.check(c in lab.node.peers, 'dropped', 'a peer was dropped for urgent data'); mon.ev('messages', sum(z[0] == 'good' for z in sent)); mon.seen('urgent', [len(z[3]) for z in sent])

FAMILIES = [Family('urgent', urgent, 40, 1000), Family('late', late, 30, 800), Family('bare', bare, 80, 2000), Family('streams', streams, 160, 6000), Family('every-cut', every_cut, 24, 200), Family('large', large, 8, 100), Family('truncated', truncated, 40, 800)]
REQUIRED = {'urgent': 50, 'late': 300, 'put': 100, 'passed': 200, 'messages': 3000, 'sent-damaged': 150, 'sent-unknown': 50, 'sent-short': 80, 'cuts': 400, 'large': 8, 'megabytes': 2, 'truncated': 40, 'level0': 20, 'level4': 20}
