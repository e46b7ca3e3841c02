import errno, json, os, resource, shutil, signal, sys, tempfile, threading, time
from ..core import Family, NBC, Inconclusive, everywhere
from .. import gen, wal
from nbc import wallet
from .w01 import phrase
from ..gen import Pauses
ANCHORS = ['nbc/wallet/__init__.py']
RULE = 'one save over an existing wallet per case; death before every executed line and at every byte written, write limits at every byte, every file-system call failing; distinct = (scenario, fault point)'
LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['loss of power is modelled at the moments a file takes the place of another: then only flushed contents survive; directories are never torn', 'calls used to clean up after a failure succeed']
DEAD = 77
UTIL = NBC + 'util'

class Scene(object):
    def __init__(self, rng):
        self.dir = tempfile.mkdtemp(); self.cwd = os.path.join(self.dir, 'cwd'); self.tmp = os.path.join(self.dir, 'tmp'); self.home = os.path.join(self.dir, 'home')
        for d in (self.cwd, self.tmp, self.home): os.mkdir(d)
        k = rng.randrange(3)
        self.old, self.new = wal.any_model(rng, True), wal.any_model(rng, rng.random() < .8 or None)
        if rng.random() < .2: self.old = wal.any_model(rng, False)
        self.po, self.pn = phrase(rng), phrase(rng)
        self.wold, self.wnew = wal.make(rng, self.old), wal.make(rng, self.new)
        self.real = os.path.join(self.home, 'wallet.cfg'); self.link = None
        if k == 0: self.arg = self.real
        elif k == 1: self.arg = os.path.join(self.cwd, 'link'); self.link = self.real
        else: self.arg = os.path.join('..', 'home', 'wallet.cfg')
        self.path = self.arg if os.path.isabs(self.arg) else os.path.join(self.cwd, self.arg)
        self.kind = k; self.judged = {}
        self.reset(); wallet.saveTo(self.real, self.wold, self.po) if self.po else wallet.saveTo(self.real, self.wold)
        self.text = open(self.real, 'rb').read()
    def reset(self):
        for d in (self.cwd, self.tmp, self.home):
            for x in os.listdir(d):
                y = os.path.join(d, x); shutil.rmtree(y) if os.path.isdir(y) and not os.path.islink(y) else os.remove(y)
        if hasattr(self, 'text'):
            with open(self.real, 'wb') as f: f.write(self.text)
        if self.link: os.symlink(self.link, self.path)
    def save(self): wallet.saveTo(self.arg, self.wnew, self.pn) if self.pn else wallet.saveTo(self.arg, self.wnew)
    def state(self, mon):
        """'old', 'new' or what is wrong"""
        try: b = open(self.path, 'rb').read()
        except OSError as e: return 'gone: %s' % e
        if b not in self.judged:
            self.judged[b] = 'neither: %r' % b[:300]
            for name, m, p in (('old', self.old, self.po), ('new', self.new, self.pn)):
                st, w = mon.call(wallet.loadFrom, self.path, p or b'')
                if st == 'ok' and mon.trial(wal.compare, mon, w, m, 'x', deep=False): self.judged[b] = name; break
        return self.judged[b]
    def strays(self):
        out = []
        for d in (self.cwd, self.tmp, self.home):
            for dp, dn, fns in os.walk(d):
                for x in fns:
                    y = os.path.join(dp, x)
                    if os.path.realpath(y) == os.path.realpath(self.path): continue
                    b = open(y, 'rb').read()
                    for m in (self.old, self.new):
                        if m.secret and (m.secret.to_bytes(32, 'big') in b or m.secret.to_bytes(32, 'big').hex().encode() in b or wal.wif(m.secret, 1) in b or wal.wif(m.secret, 0).hex().encode() in b or wal.wif(m.secret, 1).hex().encode() in b): out.append(x)
                    for t in (self.text, self.final):
                        k = json.loads(t.decode())['prvkey'] if t else None
                        if k and k.encode() in b: out.append(x)
        return sorted(set(out))
    final = b''
    def child(self, arm):
        """runs the save in a forked process; returns 'ok', 'error' or 'dead'"""
        r, w = os.pipe(); sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.close(r); signal.alarm(30); os.chdir(self.cwd); os.environ['TMPDIR'] = self.tmp; tempfile.tempdir = self.tmp
                out = arm(self, w)
                if out is None:
                    try: self.save(); code = 0
                    except BaseException: code = 10
                    sys.settrace(None)
            finally: os._exit(code)
        os.close(w); data = b''
        while True:
            x = os.read(r, 65536)
            if not x: break
            data += x
        os.close(r); _, st = os.waitpid(pid, 0)
        if os.WIFSIGNALED(st):
            if os.WTERMSIG(st) == signal.SIGALRM: raise Inconclusive('save did not end in 30 s')
            return 'dead', data
        c = os.WEXITSTATUS(st)
        return {0: 'ok', 10: 'error', DEAD: 'dead'}.get(c, 'fail%d' % c), data

def begin(rng, mon):
    s = Scene(rng)
    out, _ = s.child(lambda s, w: None)
    mon.check(out == 'ok', 'save-raises', 'a save without faults: %s' % out); mon.eq(s.state(mon), 'new', 'save-wrong', 'a save without faults')
    s.final = open(s.path, 'rb').read(); st = s.strays(); mon.check(not st, 'stray', 'a save without faults left %s' % st)
    mon.ev('scenarios'); mon.sample(old=s.old, new=s.new, path=s.arg)
    return s

def judge(mon, s, out, what, strays=True):
    st = s.state(mon)
    if out.startswith('fail'): raise Inconclusive('harness child: %s at %s' % (out, what))
    mon.check(st in ('old', 'new'), 'wallet-destroyed', '%s (%s): the file is %s' % (what, out, st), old=s.old, new=s.new, path=s.arg)
    if out == 'ok': mon.check(st == 'new', 'reported-success', '%s: success was reported but the file is the old wallet' % what)
    if out in ('ok', 'error') and strays:
        x = s.strays(); mon.check(not x, 'stray', '%s (%s): the key was left in %s' % (what, out, x)); mon.ev('stray_checked')
    mon.ev('faults'); mon.ev('after_%s_%s' % (out, st)); mon.seen(repr(s.new), what)

def tracer_factory(act, everything):
    n = [0]
    def tr(frame, event, arg):
        if event == 'call':
            if not everything and frame.f_code.co_filename.startswith(UTIL): return None
            if frame.f_code.co_filename == __file__: return None
            return tr
        if event in ('line', 'return'):
            n[0] += 1; act(n[0], frame)
        return tr
    return tr, n

def lines(rng, mon, i):
    """death before every executed line of the save (a sample of those inside the cipher)"""
    s = begin(rng, mon)
    for everything in (False, True):
        def count(s, w):
            tr, n = tracer_factory(lambda k, f: None, everything)
            sys.settrace(tr)
            try: s.save()
            finally: sys.settrace(None)
            os.write(w, b'%d' % n[0]); os._exit(0)
        s.reset(); out, d = s.child(count); total = int(d or 0)
        if not total: raise Inconclusive('no lines traced')
        ks = range(1, total + 1) if total <= 600 else sorted(rng.sample(range(1, total + 1), 40 if everything else 600))
        if everything: ks = sorted(rng.sample(range(1, total + 1), min(25, total)))
        for k in ks:
            s.reset()
            def arm(s, w):
                def act(n, f):
                    if n == k: os._exit(DEAD)
                tr, n = tracer_factory(act, everything); sys.settrace(tr)
            out, _ = s.child(arm); judge(mon, s, out, 'death at line event %d of %d' % (k, total)); mon.ev('death_lines')

def deathbytes(rng, mon, i):
    """death while writing, after every number of bytes"""
    s = begin(rng, mon); n = max(len(s.final), len(s.text)) + 3
    for k in range(n) if n < 500 else sorted(rng.sample(range(n), 400)):
        s.reset()
        def arm(s, w):
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL); resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        out, _ = s.child(arm); judge(mon, s, out, 'death after %d bytes' % k); mon.ev('death_bytes')

def limits(rng, mon, i):
    """writing fails after every number of bytes"""
    s = begin(rng, mon); n = max(len(s.final), len(s.text)) + 3
    for k in range(n) if n < 500 else sorted(rng.sample(range(n), 400)):
        s.reset()
        def arm(s, w):
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN); resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
        out, _ = s.child(arm); judge(mon, s, out, 'write limit of %d bytes' % k); mon.ev('write_limits')

WATCH = ('open', 'os.', 'shutil.', 'tempfile.', 'fcntl.', 'pathlib.')
CLEAN = ('os.remove', 'os.unlink', 'os.rmdir', 'shutil.rmtree')
def oscalls(rng, mon, i):
    """every file-system call fails, alone or with all that follow"""
    s = begin(rng, mon)
    def count(s, w):
        names = []
        on = [True]
        def hook(e, a):
            if on[0] and e.startswith(WATCH): names.append(e)
        sys.addaudithook(hook); s.save(); on[0] = False
        os.write(w, json.dumps(names).encode()); os._exit(0)
    s.reset(); out, d = s.child(count); names = json.loads(d or b'[]')
    mon.check(names, 'no-calls', 'the save touched no file')
    for k in range(len(names)):
        for persist in (False, True):
            e = rng.choice([errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS, errno.EDQUOT, errno.EMFILE]); exc = rng.choice([OSError, OSError, KeyboardInterrupt, MemoryError])
            s.reset()
            def arm(s, w):
                n = [0]
                def hook(ev, a):
                    if ev.startswith(WATCH):
                        n[0] += 1
                        if n[0] == k + 1 or persist and n[0] > k: raise exc(e, os.strerror(e))
                sys.addaudithook(hook)
            out, _ = s.child(arm); judge(mon, s, out, 'call %d (%s) fails%s' % (k, names[k], ' and all later ones' if persist else ''), strays=not persist and names[k] not in CLEAN); mon.ev('failed_calls')
    for fn in ('fsync', 'fdatasync', 'write', 'close', 'replace', 'rename', 'link', 'chmod', 'fchmod', 'ftruncate', 'truncate', 'open'):
        if not hasattr(os, fn): continue
        s.reset(); exc = rng.choice([OSError, OSError, KeyboardInterrupt])
        def arm(s, w):
            real = getattr(os, fn)
            def f(*a, **k):
                if fn == 'close': real(*a, **k)
                raise exc(errno.EIO, 'injected')
            setattr(os, fn, f); everywhere(real, f)
        out, _ = s.child(arm); judge(mon, s, out, 'os.%s fails' % fn); mon.ev('failed_calls')

def errors(rng, mon, i):
    """an exception arises at every executed line of the save's own code and of what it calls"""
    s = begin(rng, mon)
    def count(s, w):
        tr, n = tracer_factory(lambda k, f: None, False); sys.settrace(tr)
        try: s.save()
        finally: sys.settrace(None)
        os.write(w, b'%d' % n[0]); os._exit(0)
    s.reset(); out, d = s.child(count); total = int(d or 0)
    for k in range(1, total + 1) if total <= 500 else sorted(rng.sample(range(1, total + 1), 500)):
        s.reset(); exc = rng.choice([KeyboardInterrupt, MemoryError, OSError])
        def arm(s, w):
            def act(n, f):
                if n == k: sys.settrace(None); raise exc('injected')
            tr, n = tracer_factory(act, False); sys.settrace(tr)
        out, _ = s.child(arm); judge(mon, s, out, '%s at line event %d' % (exc.__name__, k), strays=False); mon.ev('errors')

def power(rng, mon, i):
    """power is lost at the moment a file takes another's place: only what was flushed to the disk survives"""
    s = begin(rng, mon)
    for late in range(3):
        s.reset()
        def arm(s, w):
            safe = {}; n = [0]; real = {k: getattr(os, k) for k in ('fsync', 'fdatasync', 'replace', 'rename', 'sync')}
            def content(path):
                with open(path, 'rb') as f: return f.read()
            def flush(name):
                def f(fd):
                    k = fd if isinstance(fd, int) else fd.fileno(); real[name](k); st = os.fstat(k)
                    if os.path.isfile('/proc/self/fd/%d' % k): safe[st.st_dev, st.st_ino] = content('/proc/self/fd/%d' % k)
                return f
            def everything():
                for d in (s.cwd, s.tmp, s.home):
                    for x in os.listdir(d): y = os.path.join(d, x); st = os.stat(y); safe[st.st_dev, st.st_ino] = content(y)
            def move(name):
                def f(a, b, **k):
                    n[0] += 1; os.write(w, b'm'); real[name](a, b, **k)
                    if n[0] <= late or not os.path.isfile(b): return
                    st = os.stat(b); keep = safe.get((st.st_dev, st.st_ino), b'')
                    if keep != content(b):
                        with open(b, 'wb') as g: g.write(keep)
                    os._exit(DEAD)
                return f
            everything()                                     # what is there before is on the disk
            os.fsync, os.fdatasync, os.replace, os.rename = flush('fsync'), flush('fdatasync'), move('replace'), move('rename')
            for k in ('fsync', 'fdatasync', 'replace', 'rename'): everywhere(real[k], getattr(os, k))
            os.sync = lambda: (real['sync'](), everything())[0]
        out, d = s.child(arm); judge(mon, s, out, 'power lost after %d renames' % (late + 1)); mon.ev('power-loss' if out == 'dead' else 'no-rename')

def together(rng, mon, i):
    """several savers and readers of one file at once: it is always one of the wallets"""
    d = tempfile.mkdtemp(); path = os.path.join(d, 'w'); arg = path; cases = []
    for _ in range(4):
        m = wal.any_model(rng, rng.random() < .7); cases.append((m, phrase(rng) if rng.random() < .3 else None, wal.make(rng, m)))
    put = lambda c: wallet.saveTo(path, c[2], c[1]) if c[1] else wallet.saveTo(path, c[2])
    put(cases[0]); seen = set(); bad = []; procs = rng.random() < .5; per = rng.choice([3, 6]); seeds = [rng.getrandbits(32) for _ in cases]; pause = rng.choice([.05, .3])
    def saver(k):
        tr = Pauses(seeds[k], pause, ('nbc/wallet/__init__', '/shutil.py', '/json/')); sys.settrace(tr)
        try:
            for _ in range(per): put(cases[k])
        except BaseException as e: bad.append('%r' % e)
        finally: sys.settrace(None)
        return not bad
    def look():
        try: seen.add(open(path, 'rb').read())
        except OSError as e: bad.append('%r' % e)
        mon.ev('looks')
    gap = sys.getswitchinterval()
    if procs:
        kids = []
        for k in (1, 2, 3):
            pid = os.fork()
            if not pid:
                c = 1
                try: signal.alarm(60); c = 0 if saver(k) else 3
                finally: os._exit(c)
            kids.append(pid)
        codes = []
        while kids:
            look()
            for pid in list(kids):
                a, st = os.waitpid(pid, os.WNOHANG)
                if a: kids.remove(pid); codes.append(st)
        if any(os.WIFSIGNALED(c) for c in codes): raise Inconclusive('a saver did not end')
        mon.check(all(c == 0 for c in codes), 'together-raises', 'saving while another process saves failed')
    else:
        ts = [threading.Thread(target=saver, args=(k,), daemon=True) for k in (1, 2, 3)]
        try:
            sys.setswitchinterval(1e-5)
            for t in ts: t.start()
            while any(t.is_alive() for t in ts): look(); time.sleep(0)
            for t in ts: t.join()
        finally: sys.setswitchinterval(gap)
    look()
    mon.check(not bad, 'together-raises', 'saving or reading while others save failed: %s' % bad[:1])
    for b in seen:
        one = os.path.join(d, 'copy')
        with open(one, 'wb') as f: f.write(b)
        for m, p, _ in cases:
            st, w = mon.call(wallet.loadFrom, one, p or b'')
            if st == 'ok' and mon.trial(wal.compare, mon, w, m, 'x', deep=False): break
        else: mon.check(False, 'together', 'while several save, the file is none of the wallets', content=b[:300])
        mon.ev('together-states')
    os.path.exists(one) and os.remove(one)
    left = [x for x in os.listdir(d) if x != 'w']; mon.check(not left, 'together-stray', 'files left behind', names=left)
    mon.ev('together'); mon.seen('together', i, procs, len(seen)); shutil.rmtree(d)

def retry(rng, mon, i):
    """a save fails or is refused, then the same wallet object is saved again without hindrance"""
    s = begin(rng, mon); real = s.pn
    def count(s, w):
        tr, n = tracer_factory(lambda k, f: None, False); names = []; on = [True]
        def hook(e, a):
            if on[0] and e.startswith(WATCH): names.append(e)
        sys.addaudithook(hook); sys.settrace(tr)
        try: s.save()
        finally: sys.settrace(None); on[0] = False
        os.write(w, json.dumps([n[0], len(names)]).encode()); os._exit(0)
    s.reset(); out, d = s.child(count); total, calls = json.loads(d or b'[0, 0]')
    plan = [('line', k) for k in rng.sample(range(1, total + 1), min(total, 25))] + [('call', k) for k in rng.sample(range(1, calls + 1), min(calls, 12))]
    plan += [('phrase', x) for x in (u'secret', 12345, [b'secret'], 1.5)] + [('path', x) for x in ('no/such/folder/w', '', 'x' * 300)]
    for kind, x in plan:
        s.reset()
        def arm(s, w):
            failed = [False]; on = [True]
            def first():
                if kind == 'line':
                    def act(n, f):
                        if n == x: sys.settrace(None); raise MemoryError('injected')
                    sys.settrace(tracer_factory(act, False)[0])
                elif kind == 'call':
                    n = [0]
                    def hook(ev, a):
                        if on[0] and ev.startswith(WATCH):
                            n[0] += 1
                            if n[0] == x: raise OSError(errno.EIO, 'injected')
                    sys.addaudithook(hook)
                elif kind == 'phrase': wallet.saveTo(s.arg, s.wnew, x); return
                elif kind == 'path': wallet.saveTo(x, s.wnew, s.pn or b''); return
                s.save()
            try: first()
            except BaseException: failed[0] = True
            sys.settrace(None); on[0] = False
            os.write(w, b'f' if failed[0] else b'-')
            for n in range(2):
                try: s.save()
                except BaseException as e: os.write(w, b' again: ' + repr(e).encode()); os._exit(10)
            os._exit(0)
        out, d = s.child(arm)
        mon.check(out == 'ok', 'again-refused', 'a save after a failed one (%s %r): %s %r' % (kind, x, out, d), old=s.old, new=s.new)
        judge(mon, s, out, 'saved again after a failure (%s %r)' % (kind, x), strays=False); mon.ev('saved_again_after_failure' if d[:1] == b'f' else 'saved_again')

FAMILIES = [Family('retry', retry, 8, 160), Family('together', together, 24, 500), Family('power', power, 30, 600), Family('death-lines', lines, 8, 160), Family('death-bytes', deathbytes, 6, 120), Family('write-limits', limits, 6, 120), Family('os-calls', oscalls, 24, 600), Family('errors', errors, 6, 120)]
REQUIRED = {'saved_again_after_failure': 100, 'together': 24, 'together-states': 40, 'death_lines': 120, 'death_bytes': 300, 'write_limits': 300, 'failed_calls': 100, 'errors': 50, 'stray_checked': 400, 'after_error_old': 100, 'after_dead_old': 100, 'after_dead_new': 2}
