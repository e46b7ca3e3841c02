import struct
from ..core import Family
from .. import gen
from ..ref import wire
from ..ref.codec import dsha
from nbc import protocol
from nbc.protocol import Message, MsgFormatError, UnknownMsgError
from .p01 import MAGIC, CMDS, same
ANCHORS = ['nbc/protocol/messages.py']
RULE = 'valid frames with every header byte flipped, payload bytes flipped, cut, extended or swapped, foreign magic, unknown and unsupported commands with sensible and senseless payloads; distinct = distinct damaged frame'

def expect(b, magic):
    """'format', 'unknown', 'short', or (command, payload)"""
    if len(b) >= 4 and b[:4] != magic: return 'format'
    if len(b) < 24: return 'short'
    n = struct.unpack('<I', b[16:20])[0]; p = b[24:24 + n]
    if len(p) < n or dsha(p)[:4] != b[20:24]: return 'format'
    c = b[4:16].rstrip(b'\0').decode('latin-1')
    if c not in wire.MSG: return 'unknown'
    return c, p

def judge(mon, b, magic, key='damaged'):
    want = expect(b, magic)
    st, r = mon.call(Message.parse, b, magic)
    mon.seen(b)
    if want == 'format':
        mon.check(st == 'exc', key + '-delivered', 'damaged frame gave a message', frame=b, got=r)
        mon.check(isinstance(r, MsgFormatError), key + '-error', 'reported as %r' % (r,), frame=b); mon.ev('damaged')
    elif want == 'short':
        mon.check(st == 'exc', key + '-delivered', 'cut-off frame gave a message', frame=b, got=r); mon.ev('short')
    elif want == 'unknown':
        mon.check(st == 'exc', 'unknown-delivered', 'unknown command gave a message', frame=b, got=r)
        mon.check(isinstance(r, UnknownMsgError), 'unknown-error', 'reported as %r' % (r,), frame=b); mon.ev('unknown')
    else:
        c, p = want
        try: v, _ = wire.dec(wire.MSG[c][2], p)
        except wire.Bad:
            mon.check(st == 'exc', 'undecodable-delivered', frame=b, got=r); mon.ev('undecodable'); return
        if wire.limits_ok(wire.MSG[c][2], v):
            mon.check(st == 'ok', 'good-refused', 'well-formed frame refused: %r' % (r,), frame=b); mon.ev('good')
            same(mon, r, c, v, 'parsed')

def flips(rng, mon, i):
    """every bit-changed header byte, and payload bytes of one frame"""
    c, v = wire.message(rng, CMDS[i % len(CMDS)])
    magic = MAGIC if rng.random() < .7 else gen.raw(rng, 4)
    b = wire.frame(magic, c, v)
    while len(b) > 3000: c, v = wire.message(rng); b = wire.frame(magic, c, v)
    judge(mon, b, magic)
    for p in list(range(24)) + [rng.randrange(len(b)) for _ in range(30)] + [len(b) - 1]:
        x = bytearray(b); x[p] ^= 1 << rng.randrange(8) if rng.random() < .6 else rng.randint(1, 255); judge(mon, bytes(x), magic)
    for n in set(list(range(25)) + [len(b) - 1, rng.randrange(len(b))]): judge(mon, b[:n], magic)
    pl = b[24:]
    for q in (pl[:-1], pl + b'\0', pl[1:], pl[::-1], b'', pl + pl, b'\0' * len(pl), gen.raw(rng, len(pl))):
        judge(mon, b[:24] + q, magic)                                     # header of another payload
        judge(mon, b[:16] + struct.pack('<I', len(q)) + b[20:24] + q, magic)    # adjusted length, old checksum
        for cs in (dsha(q)[:4][::-1], dsha(q)[4:8], dsha(q)[-4:], bytes(4), wire.dsha(q[:-1])[:4], dsha(b[:4] + q)[:4], __import__('hashlib').sha256(q).digest()[:4]):
            judge(mon, b[:16] + struct.pack('<I', len(q)) + cs + q, magic)
    for n in (len(pl) - 1, len(pl) + 1, 0, 1, len(pl) + 256, len(pl) + 65536, 2**31, 2**32 - 1, len(pl) ^ 255, rng.getrandbits(32)):
        if 0 <= n < 2**32:
            judge(mon, b[:16] + struct.pack('<I', n) + b[20:], magic)
            judge(mon, b[:16] + struct.pack('<I', n) + dsha(pl[:n])[:4] + pl, magic)
    for m in (bytes(4), magic[::-1], b'\xf9\xbe\xb4\xd9', magic[:3] + bytes([magic[3] ^ 1]), magic.upper(), magic.lower(), gen.raw(rng, 4)):
        judge(mon, m + b[4:], magic); judge(mon, b, m)
    mon.sample(frame=b)

def commands(rng, mon, i):
    for _ in range(20):
        c, v = wire.message(rng); p = wire.enc(wire.MSG[c][2], v)
        k = rng.random()
        if k < .25: n = rng.choice(wire.UNSUPPORTED).encode()
        elif k < .5: n = gen.mutate(rng, c.encode(), b'abcdefghijklmnopqrstuvwxyz\0 A')[:12]
        elif k < .6: n = rng.choice([c.upper(), c + ' ', ' ' + c, c + '\0x', c + '\n', c.capitalize(), c + '\xff', '\0' + c, 'None', '', wire.MSG[c][1], wire.MSG[c][0], 'message', 'filteradd\0', 'merkleblock']).encode('latin-1')[:12]
        elif k < .8: n = gen.raw(rng, rng.randint(0, 12))
        else: n = c.encode()
        pl = rng.choice([p, b'', gen.data(rng, 60), p[:-1]])
        judge(mon, wire.raw_frame(MAGIC, n, pl), MAGIC); mon.ev('commands')
    for n in wire.UNSUPPORTED:
        for pl in (b'', gen.raw(rng, 90), b'\0' * 90, b'\1' * 200, b'\0' + gen.raw(rng, 9)): judge(mon, wire.raw_frame(MAGIC, n, pl), MAGIC); mon.ev('unsupported')
        # damage outranks the command
        f = bytearray(wire.raw_frame(MAGIC, n, gen.raw(rng, 20))); f[-1] ^= 1; judge(mon, bytes(f), MAGIC)
    f = bytearray(wire.raw_frame(MAGIC, gen.raw(rng, 12), gen.raw(rng, 20))); f[24] ^= 1; judge(mon, bytes(f), MAGIC)

def registry(rng, mon, i):
    for n in wire.MSG: mon.ok('supported-unknown', n, lambda: Message.parse(wire.frame(MAGIC, n, wire.message(rng, n)[1]), MAGIC))
    # a command declared later without support stays unknown; one declared with support is delivered
    for k in ('x%d' % i, 'zz%d' % i):
        nr = k[0] == 'z'
        cls = type('Later' + k, (Message,), dict(command=k, not_regist=nr, properties=[('n', protocol.Ping.properties[0][1])]))
        f = wire.raw_frame(MAGIC, k, b'12345678')
        if nr: mon.check(isinstance(mon.refused('unsupported-delivered', k, Message.parse, f, MAGIC), UnknownMsgError), 'unsupported-error')
        else: mon.eq(mon.ok('supported-unknown', k, Message.parse, f, MAGIC).n, b'12345678', 'later')
        Message.MessageTypes.pop(k, None)
        mon.ev('registry')

FAMILIES = [Family('flips', flips, 17 * 50, 17 * 1500), Family('commands', commands, 600, 10000), Family('registry', registry, 4, 40)]
REQUIRED = {'damaged': 10000, 'unknown': 1500, 'unsupported': 1000, 'short': 1000, 'good': 300, 'registry': 8}
