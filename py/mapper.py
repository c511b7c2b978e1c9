#!/usr/bin/env python3
"""P01, P02, P03: the application mapper (scripts/keyd-application-mapper), executed symbolically (symex.py) against models of what surrounds it; every
counterexample and a sample of all paths is run again with the unchanged script as a process of its own, with a real socket, files and signals."""
import sys, os, json, time, types, builtins, subprocess, tempfile, shutil, socket, struct, threading, signal, hashlib, multiprocessing, argparse, random, errno, ast
import z3, symex, fakewin
from symex import *
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = os.environ.get('KEYD_REPO', '/repo'); SCRIPT = REPO + '/scripts/keyd-application-mapper'
SRC = open(SCRIPT).read(); CODE = compile(SRC, SCRIPT, 'exec')
CONF = '/h/.config/keyd/app.conf'
class End(BaseException): pass
class Exit(BaseException): pass
T = 0
def u32(x): return [int(b) for b in struct.pack('I', x)] if isinstance(x, int) else [z3.Extract(8 * i + 7, 8 * i, x) for i in range(4)]
def wstr(c): b = list(c) + [0]; return u32(len(b)) + b + [0] * (-len(b) % 4)
def msg(obj, ev, payload): return u32(obj) + u32(ev | (8 + len(payload)) << 16) + payload
TARGET = dict(wlroots='zwlr_foreign_toplevel_manager_v1', cosmic='zcosmic_toplevel_info_v1')
# ------------------------------------------------------------------ the world around the script
class World:
    """steps: ('send', bytes) to the wayland client | ('line', chars) into the fifo | ('usr1',) | ('config', text, mtime); one step happens whenever the script waits"""
    def __init__(self, mode, conf, mtime):
        self.mode = mode; self.conf = conf; self.mtime = mtime; self.conf0 = conf; self.mtime0 = mtime; self.steps = []; self.todo = []; self.log = []  # log: (number of steps done, arguments)
        self.globals = [(3, [ord(c) for c in 'wl_seat']), (5, [ord(c) for c in TARGET.get(mode, 'wl_shm')])]; self.bound = []; self.exited = False; self.done = 0; self.on_call = lambda a: None; self.on_step = lambda k: None
        self.sig = {}; self.fifo = []; self.pipes = {}; self.chunk = None; self.core = None; self.files = {}; self.quiet = []
    def env(self):
        e = {'HOME': '/h'}
        if self.mode == 'x': e['DISPLAY'] = ':0'; return e
        if self.mode == 'kde': e['KDE_SESSION_VERSION'] = self.version; return e
        if self.mode in TARGET: e['WAYLAND_DISPLAY'] = '/w'
        else: e['XDG_CURRENT_DESKTOP'] = 'GNOME'; e['XDG_RUNTIME_DIR'] = '/r'
        return e
    def next(self):
        """the next thing happens"""
        while True:
            if E.dead is not None: raise E.dead
            self.on_step(self.done); self.quiet.append(self.done)            # the effects of all previous steps are complete
            if self.done >= len(self.steps): raise End()
            s = self.steps[self.done]; self.done += 1
            if s[0] == 'config': self.conf = s[1]; self.mtime = s[2]; continue
            return s
    def call(self, args):
        args = list(args) if not isinstance(args, str) else [args]
        self.log.append((self.done, [S(chars(x)) for x in args])); self.on_call(args)
class Sock:
    def __init__(self, w): self.w = w; self.inb = []; self.out = []; self.ready = False
    def connect(self, p): pass
    def setsockopt(self, *a): pass
    def close(self): pass
    def fileno(self): return 7
    def send(self, b): self.sendall(b); return len(b)
    def sendall(self, b):
        self.out += bl(b)
        while len(self.out) >= 8:
            if not all(isinstance(x, int) for x in self.out[:8]): raise Unsupported('request')
            obj, ev = struct.unpack('II', bytes(self.out[:8])); n = ev >> 16; op = ev & 0xffff
            if n < 8: raise Violation('the requests are well formed')
            if len(self.out) < n: break
            p = self.out[8:n]; self.out = self.out[n:]
            if (obj, op) == (1, 1): E.check(p == u32(2), 'the registry gets the identifier assumed')
            elif (obj, op) == (1, 0):
                E.check(p == u32(3), 'the callback gets the identifier assumed')
                for name, iface in self.w.globals: self.inb += msg(2, 0, u32(name) + wstr(iface) + u32(1))
                self.inb += msg(3, 0, u32(0)) + msg(1, 1, u32(3))
            elif (obj, op) == (2, 0): self.w.bound.append(p); self.ready = True
            else: raise Violation('no other request is made')
    def recv(self, n):
        n = int(n)
        if n == 0: return b''
        if not self.inb:
            if not self.ready: raise End()
            s = self.w.next(); assert s[0] == 'send'; self.inb = list(s[1])
        r = self.inb[:n]; self.inb = self.inb[len(r):]; return B(r)
    def recv_into(self, *a): raise Unsupported('recv_into')
class TextFile:
    def __init__(self, c): self.t = S(c); self.it = None
    def lines(self):
        r = [S(chars(x) + [10]) for x in self.t.split('\n')]
        return r[:-1] if len(r[-1]) == 1 else r[:-1] + [r[-1][:-1]]
    def __iter__(self): return iter(self.lines())
    def readlines(self): return self.lines()
    def readline(self):
        if self.it is None: self.it = iter(self.lines())
        return next(self.it, '')
    def read(self): return self.t
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def fileno(self): return 9
class Fifo:
    """a named pipe: buffered (text) reading takes what is there; unbuffered readline takes one line"""
    def __init__(self, w, binary, unbuf): self.w = w; self.buf = []; self.binary = binary; self.unbuf = unbuf
    def fileno(self): return 8
    def close(self): pass
    def readline(self):
        while 10 not in self.buf:
            if not self.w.fifo: self.w.wait_fifo()
            if self.unbuf: i = self.w.fifo.index(10) + 1; self.buf += self.w.fifo[:i]; self.w.fifo = self.w.fifo[i:]
            else: self.buf += self.w.fifo; self.w.fifo = []
        i = self.buf.index(10) + 1; r = self.buf[:i]; self.buf = self.buf[i:]
        return B(r) if self.binary else S(r)
    def read(self, n=-1):
        if not self.unbuf: raise Unsupported('read')
        if not self.w.fifo: self.w.wait_fifo()
        n = len(self.w.fifo) if n is None or n < 0 else n; r = self.w.fifo[:n]; self.w.fifo = self.w.fifo[n:]; return B(r)
    def __iter__(self): return iter(self.readline, '')
class OutFile:
    def __init__(self, w, p): self.w = w; self.name = p; self.t = ''; w.files[p] = ''
    def write(self, s): self.t += s
    def flush(self): self.w.files[self.name] = self.t
    def close(self): self.flush()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
def run_script(w):
    r = run_script_(w)
    if E.dead is not None: raise E.dead       # (the script catches everything here and there)
    return r
def run_script_(w):
    """execute the script; returns how it ended"""
    def m(name, **k): x = types.ModuleType(name); x.__dict__.update(k); return x
    env = w.env()
    def getenv(k, d=None): return env.get(k, d)
    def fopen(p, mode='r', buffering=-1, **k):
        if p == CONF:
            if 'b' in mode: raise Unsupported('binary configuration')
            return TextFile(w.conf)
        if p == '/r/keyd.fifo': return Fifo(w, 'b' in mode, buffering == 0)
        if p.startswith('/tmp/'):
            if 'w' in mode: return OutFile(w, p)
            if p in w.files: return TextFile(O(w.files[p]))
        if p.endswith('app.lock') or p.endswith('app.log'): return TextFile([])
        raise FileNotFoundError(errno.ENOENT, p)
    def stop(*a): w.exited = True; raise SystemExit(*a)
    def getmtime(p): return I(w.mtime) if not isinstance(w.mtime, int) else w.mtime
    def exists(p): return p == CONF or p == '/r/keyd.fifo' and w.mode == 'gnome'
    def pipe(): w.pipes = {20: []}; return 20, 21
    def owrite(fd, b): w.pipes.setdefault(20, []).append(b); return len(b)
    def oread(fd, n):
        if fd == 20: return w.pipes[20].pop(0)
        raise Unsupported('read')
    def step():
        s = w.next()
        if s[0] == 'line': w.fifo += list(s[1])
        elif s[0][0] == 'x': w.core.apply(s)
        elif s[0] == 'usr1':
            if signal.SIGUSR1 in w.sig: w.sig[signal.SIGUSR1](signal.SIGUSR1, None)
            else: raise Violation('a signal does not end the mapper')
        else: raise Unsupported(s[0])
    w.wait_fifo = lambda: [step() for _ in iter(lambda: bool(w.fifo), True)]
    def select(r, ww, x, *a):
        r = [f.fileno() if hasattr(f, 'fileno') else f for f in r]
        while True:
            l = [f for f in r if f == 20 and w.pipes[20] or f == 8 and w.fifo or f == 30 and w.core.sock]
            if l: return l, [], []
            step()
    p = m('os.path', exists=exists, getmtime=getmtime, join=lambda *a: '/'.join(a), expanduser=lambda x: x.replace('~', '/h'), isfile=exists)
    osm = m('os', getenv=getenv, environ=env, path=p, getuid=lambda: 1000, pipe=pipe, write=owrite, read=oread, stat=lambda x: types.SimpleNamespace(st_mtime=getmtime(x)))
    class sk: AF_UNIX = 1; SOCK_STREAM = 1; MSG_WAITALL = 256; error = OSError
    sk.socket = lambda *a: Sock(w)
    sp = m('subprocess', run=lambda a, **k: w.call(a), call=lambda a, **k: w.call(a), check_call=lambda a, **k: w.call(a), Popen=lambda a, **k: w.call(a), DEVNULL=-3, PIPE=-1)
    sg = m('signal', SIGUSR1=signal.SIGUSR1, signal=lambda s, h: w.sig.__setitem__(s, h))
    sysm = m('sys', stderr=types.SimpleNamespace(write=lambda s: None), stdout=types.SimpleNamespace(write=lambda s: None, flush=lambda: None), exit=stop, argv=['m'])
    class AP:
        def __init__(s, *a, **k): s.ns = types.SimpleNamespace()
        def add_argument(s, *n, default=None, action=None, **k): setattr(s.ns, n[-1].lstrip('-').replace('-', '_'), False if action == 'store_true' else default)
        def parse_args(s, *a): return s.ns
    mods = {'os': osm, 'os.path': p, 'socket': m('socket', socket=sk.socket, AF_UNIX=1, SOCK_STREAM=1, MSG_WAITALL=256, error=OSError), 'subprocess': sp, 'signal': sg, 'sys': sysm, 'struct': Struct, 're': RE, 'fnmatch': Fnmatch, 'select': m('select', select=select), 'fcntl': m('fcntl', flock=lambda *a: None, LOCK_EX=2, LOCK_NB=4), 'argparse': m('argparse', ArgumentParser=AP)}
    def imp(name, g=None, l=None, fromlist=(), level=0):
        if w.core is not None and not mods.get('core'): mods.update(w.core.modules()); mods['core'] = 1
        if name in mods: return mods[name] if fromlist or '.' not in name else mods[name.split('.')[0]]
        if name.split('.')[0] in ('dbus', 'gi', 'Xlib'): raise ImportError(name)
        return builtins.__import__(name, g, l, fromlist, level)
    def ordn(c):
        if isinstance(c, SymStr): return I(z3.ZeroExt(24, term(c.c[0])))
        return builtins.ord(c)
    class ifrom(int):
        @staticmethod
        def from_bytes(b, byteorder='big', **k):
            if isinstance(b, SymBytes): return Struct.unpack('I', b) [0] if byteorder == 'little' and len(b) == 4 else (_ for _ in ()).throw(Unsupported('from_bytes'))
            return int.from_bytes(b, byteorder, **k)
    bi = dict(vars(builtins)); bi.update(open=fopen, print=lambda *a, **k: None, exit=stop, quit=stop, __import__=imp, ord=ordn)
    g = {'__name__': '__main__', '__builtins__': bi, '__file__': SCRIPT}
    try: exec(CODE, g); return 'returned'
    except End: return 'end'
    except SystemExit: return 'exit'
    except (Violation, Cut, Limit, Unsupported): raise
    except Exception as e: return 'crash %s: %s' % (type(e).__name__, str(e)[:60])
    finally: E.funcs.update(k for k, v in g.items() if isinstance(v, (types.FunctionType, type)) and getattr(v, '__module__', None) == '__main__')
# ------------------------------------------------------------------ oracles
def between(c, a, b): return a <= c <= b if isinstance(c, int) else Dom(c, mask_of(c.vals, ('in', a, b), lambda x: a <= x <= b)) if isinstance(c, Ch) else z3.And(z3.UGE(c, a), z3.ULE(c, b))
def alnum(c): return OR([between(c, 48, 57), between(c, 65, 90), between(c, 97, 122)])
def low(c): return table_map('low', lambda x: chr(ord(x) + 32) if 'A' <= x <= 'Z' else x)(c)[0]
def norm(l):
    """letters and digits in lower case, anything between them a single dash"""
    r = []; gap = False
    for c in l:
        if E.branch(alnum(c)): r += ([45] if gap and r else []) + [low(c)]; gap = False
        else: gap = True
    return r
def wanted(sections, cls, title):
    """the arguments of keyd for a window, sections being (class pattern, title pattern, bindings) in order"""
    c = norm(cls); t = norm(title); r = ['bind', 'reset']
    for cp, tp, b in sections:
        if E.branch(AND([glob(c, cp), glob(t, tp)])): r += b
    return r
def same(args, exp): # of a call
    if len(args) != len(exp) + 1: return False
    l = [chars(args[0]) == chars('keyd')]
    for a, b in zip(args[1:], exp):
        a = chars(a); b = chars(b)
        if len(a) != len(b): return False
        l += [ceq(x, y) for x, y in zip(a, b)]
    return AND(l)
O = lambda s: [ord(c) for c in s]
class Scenario:
    def sym(self, n, name, lo=32, hi=126, no=''):
        l = []
        for _ in range(n):
            v = E.var(name); E.assume(AND([between(v, lo, hi)] + [NOT(ceq(v, ord(c))) for c in no])); l.append(v)
        return l
    def start(self, mode, conf, mtime=1000): self.w = World(mode, conf, mtime); self.expected = []; return self.w
    def go(self, crash=True):
        """runs the script; then every expected step has happened"""
        r = run_script(self.w); self.res = r
        if crash: E.check(r == 'end', 'the mapper keeps running' + (' (%s)' % r if r != 'end' else ''))
        return r
    def concrete(self, m):
        """the scenario as plain values, for the native run"""
        ev = lambda x: x if isinstance(x, int) else x.vals[m.eval(E.tv[x.k].t, True).as_long()] if isinstance(x, Ch) else m.eval(x, True).as_long()
        w = self.w; cv = lambda l: [ev(x) for x in l]
        st = []
        for s in w.steps: st.append(['send', cv(s[1])] if s[0] == 'send' else ['line', cv(s[1])] if s[0] == 'line' else ['usr1'] if s[0] == 'usr1' else ['config', cv(s[1]), ev(s[2])] if s[0] == 'config' else [s[0]] + [cv(x) if isinstance(x, (list, tuple)) else x for x in s[1:]])
        return dict(mode=w.mode, conf=cv(w.conf0), mtime=ev(w.mtime0), globals=[[ev(a), cv(b)] for a, b in w.globals], steps=st, expected=[[k, [bytes(cv(chars(x))).decode('latin1') for x in a]] for k, a in self.expected], name=self.name, loose=getattr(self, 'loose', False), res=getattr(self, 'res', ''),
            win={k: {a: cv(b) if isinstance(b, (list, tuple)) else b for a, b in v.items()} for k, v in w.win0.items()} if w.mode == 'x' else None, focus=getattr(w, 'focus0', 0), race=getattr(w, 'race', (0, 0)), version=getattr(w, 'version', ''), steps_at_rest=[k for k in w.quiet if k not in getattr(self, 'any', ())], must=getattr(self, 'must', []),
            got=[[k, [bytes(cv(chars(x))).decode('latin1') for x in a]] for k, a in w.log], bound=[cv(p) for p in w.bound])
def twindow(obj, cls, title, mode='wlroots'):
    """a window appears and is activated"""
    t, a, s = (0, 1, 4) if mode == 'wlroots' else (2, 3, 8)
    b = msg(4, 0, u32(obj)) + msg(obj, t, wstr(title)) + msg(obj, a, wstr(cls)) + msg(obj, s, u32(4) + u32(2))
    return b + msg(obj, 5 if mode == 'wlroots' else 1, [])
class Select(Scenario):
    name = 'select'
    def path(self):
        K = 1 + E.choose(2); sec = []; conf = []
        for k in range(K):
            cp = self.sym(1 + E.choose(2 if T or not k else 1), 'cp', no='[|'); tp = None
            if E.choose(2): tp = self.sym(1 if k or not T else 1 + E.choose(2), 'tp', no='[|')
            nb = 1 if k or K > 1 and not T else E.choose(3); bs = ['k%d%d = a' % (k, j) for j in range(nb)]
            conf += O('[') + cp + (O('|') + tp if tp else []) + O(']\n') + O(''.join(' %s\n\n' % b for b in bs)); sec.append((cp, tp or O('*'), bs))
        cls = self.sym((1, 3 if T or K == 1 else 2, 0)[E.choose(3 if T or K == 1 else 2)], 'cls', 1); title = self.sym(2 * E.choose(2) if K > 1 and T else 1 if K > 1 else E.choose(4 if T else 3), 'title', 1)
        w = self.start('wlroots', conf); w.steps = [('send', twindow(40, cls, title))]
        self.expected = [(1, wanted(sec, cls, title))]; self.go()
        E.check(len(w.log) == 1 and same(w.log[0][1], self.expected[0][1]), 'the bindings of exactly the matching sections are applied, in order'); E.reached('matched' if len(self.expected[0][1]) > 2 else 'unmatched')
class Parse(Scenario):
    name = 'parse'
    def path(self):
        n = 2; conf = O('[*]\nz = 1\n'); sec = [(O('*'), O('*'), ['z = 1'])]; sp = lambda c: E.branch(OR([between(c, 9, 13), between(c, 28, 32)]) if not isinstance(c, int) else c in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32))
        lines = []
        for k in range(n):
            l = self.sym(E.choose((4 + T, 3 + T, 1)[k]), 'l', 1, no='\n\r')
            if l and E.choose(2): l = O('[') + l + O(']'); l = l
            lines.append(l); conf += l + O('\n')
        if E.choose(2): conf = conf[:-1]
        conf0 = conf
        for l in lines:
            while l and sp(l[0]): l = l[1:]
            while l and sp(l[-1]): l = l[:-1]
            if not l or E.branch(ceq(l[0], 35)): continue
            if len(l) > 1 and E.branch(AND([ceq(l[0], 91), ceq(l[-1], 93)])):
                f = l[1:-1]; E.assume(AND([NOT(ceq(c, 91)) for c in f])); parts = [[]]
                for c in f:
                    if E.branch(ceq(c, 124)): parts.append([])
                    else: parts[-1].append(c)
                E.assume(len(parts) < 3); sec.append((parts[0], parts[1] if len(parts) > 1 else O('*'), [])); E.reached('section')
            else: sec[-1][2].append(S(l)); E.reached('binding')
        w = self.start('wlroots', conf0); w.steps = [('send', twindow(41, O('a'), O('bc')))]
        self.expected = [(1, wanted(sec, O('a'), O('bc')))]; self.go()
        E.check(len(w.log) == 1 and same(w.log[0][1], self.expected[0][1]), 'the file is read as its lines say')
class Reload(Scenario):
    name = 'reload'
    def path(self):
        c = [self.sym(1, 'p', 97, 122) for _ in range(3)]; m = [E.var('m', 32) for _ in range(3)]
        for x in m: E.assume(between(x, 1000, 2000000000))
        conf = [O('[') + c[k] + O(']\nx%d = a\n' % k) for k in range(3)]; cls = self.sym(1, 'cls', 97, 122)
        w = self.start('wlroots', conf[0], m[0]); cur = 0; ms = m[0]; w.steps = [('send', twindow(40, cls, O('t')))]; self.expected = [(1, wanted([(c[0], O('*'), ['x0 = a'])], cls, O('t')))]
        for k in (1, 2):
            w.steps += [('config', conf[k], m[k]), ('send', msg(40, 5, []))]
            if E.branch(m[k] != ms): cur = k; ms = m[k]; E.reached('reloaded')
            else: E.reached('unchanged')
            self.expected.append((len(w.steps), wanted([(c[cur], O('*'), ['x%d = a' % cur])], cls, O('t'))))
        self.go(); E.check(len(w.log) == 3 and AND([same(a[1], b[1]) for a, b in zip(w.log, self.expected)]), 'a changed file takes effect at the next window')
class Gnome(Scenario):
    name = 'gnome'
    def path(self):
        p = O('p'); q = O('q'); sec = [(p, O('*'), ['x = a']), (O('*'), q, ['y = a'])]
        w = self.start('gnome', O('[') + p + O(']\nx = a\n[*|') + q + O(']\ny = a\n')); cur = None; n = 0
        for _ in range(4 if T else 3):
            k = E.choose(5)
            if k == 4:
                if cur is None: break                # before the first window: nothing is said
                w.steps.append(('usr1',)); E.reached('signal'); self.expected.append((len(w.steps), wanted(sec, *cur)))
            else:
                text = []; ex = []
                for _ in range(1 + (k == 3)):         # two windows within one delivery
                    cls = self.sym(1, 'cls', 97, 122) if n else self.sym(1, 'cls', 33); title = self.sym(1 + (k == 1), 'title', 97, 122); n = 1; text += cls + O('\t') + title + O('\n'); cur = (cls, title); ex.append(wanted(sec, cls, title))
                w.steps.append(('line', text)); self.expected += [(len(w.steps), x) for x in ex]
        if not w.steps: raise Cut()
        self.go(); E.check(len(w.log) == len(self.expected) and AND([x[0] == y[0] for x, y in zip(w.log, self.expected)] + [same(a[1], b[1]) for a, b in zip(w.log, self.expected)]), 'each window gets its bindings as soon as it has focus'); E.reached('end')
class Windows(Scenario):
    """a history of window events. Reference account: which window is active, its class and title."""
    def path(self):
        M = self.mode; op = dict(title=0, appid=1, state=4, done=5, closed=6, enter=2) if M == 'wlroots' else dict(closed=0, done=1, title=2, appid=3, enter=4, state=8)
        p = O('p'); q = O('q'); sec = [(p, O('*'), ['x = a']), (O('*'), q, ['y = a'])]
        w = self.start(M, O('[') + p + O(']\nx = a\n[*|') + q + O(']\ny = a\n')); ids = (0xff000001, 9); alive = [1, 1]; act = None; cls = [[], []]; title = [[], []]; pend = []; self.loose = True
        for i in (0, 1):
            title[i] = O('qz')[i:i + 1]; cls[i] = self.sym(1, 'cls', 97, 122)
            w.steps.append(('send', msg(4, 0, u32(ids[i])) + msg(ids[i], op['title'], wstr(title[i])) + msg(ids[i], op['appid'], wstr(cls[i])) + msg(ids[i], op['state'], u32(0)) + msg(ids[i], op['done'], [])))
        if E.choose(2): w.steps.append(('send', msg(ids[0], op['state'], u32(4) + u32(2)) + msg(ids[0], op['done'], []))); act = 0; self.expected.append((len(w.steps), wanted(sec, cls[0], title[0])))
        allowed = {}          # step -> arguments a call at that step may have; the last expected one must have been made
        for _ in range(self.n):
            i = E.choose(2); k = E.choose(7)
            if not alive[i]: raise Cut()
            o = ids[i]; ex = None
            if k == 0: title[i] = self.sym(1, 'title', 97, 122); b = msg(o, op['title'], wstr(title[i]))
            elif k == 1: cls[i] = self.sym(1, 'cls', 97, 122); b = msg(o, op['appid'], wstr(cls[i]))
            elif k in (2, 3, 6):
                el = [E.var('el', 32) for _ in range((0, 1, 2)[(2, 3, 6).index(k)])]; E.assume(AND([z3.ULE(e, 15) for e in el])); b = msg(o, op['state'], u32(4 * len(el)) + [x for e in el for x in u32(e)])
                if el and E.branch(OR([e == 2 for e in el])):
                    act = i; E.reached('activated')
                    if M == 'cosmic': ex = act
                elif act == i: act = None; E.reached('deactivated')
            elif k == 4:
                b = msg(o, op['done'], [])
                if act == i and M == 'wlroots': ex = i
            else:
                b = msg(o, op['closed'], []); alive[i] = 0
                if act == i: act = None
                E.reached('closed')
            w.steps.append(('send', b))
            if ex is not None: self.expected.append((len(w.steps), wanted(sec, cls[ex], title[ex])))
        self.go(); got = {}
        for k, a in w.log: got.setdefault(k, []).append(a)
        exp = dict(self.expected); last = None
        for k in range(1, len(w.steps) + 1):
            if k in exp: E.check(k in got, 'the bindings of the active window are applied'); last = exp[k]
            # (applying once more what is in force does no harm)
            if k in got: E.check(same(got[k][-1], last) if last is not None else False, 'the bindings applied are those of the active window')
        E.reached('end')
class Wlroots(Windows): name = 'wlroots'; mode = 'wlroots'; n = property(lambda s: 4 if T else 3)
class Cosmic(Windows): name = 'cosmic'; mode = 'cosmic'; n = property(lambda s: 3 if T else 2)
ANY = ['?']
class AtRest(Scenario):
    """what counts is which bindings are in force whenever the script has come to rest"""
    loose = True; racing = False
    def verdict(self, exp, must):
        """exp: for each number of steps done the arguments last to be applied (None: nothing yet); must: steps at which they have to be applied again"""
        w = self.w; prev = 0
        try: self.go()
        finally:
            self.must = must = [k for k in must if k in w.quiet and k - 1 in w.quiet]; self.any = [k for k in w.quiet if exp[k] is ANY]
            self.expected = [(k, exp[k]) for k in w.quiet if exp[k] is not None and exp[k] is not ANY]
        for k in w.quiet:
            got = [a for s, a in w.log if prev < s <= k]; last = [a for s, a in w.log if s <= k]
            if exp[k] is ANY: prev = k; continue
            if exp[k] is None: E.check(not last, 'nothing is applied before a window has the focus')
            else:
                E.check(same(last[-1], exp[k]) if last else False, 'the bindings in force are those of the window which has the focus')
                for a in got[:-1]:
                    if not self.racing: E.check(OR([same(a, exp[j]) for j in range(prev, k + 1) if exp[j] is not None]), 'no other bindings are applied')
                if k in must: E.check(len(got) > 0, 'the bindings are applied again on demand')
            prev = k
        E.reached('end')
class X(AtRest):
    name = 'x'; n = property(lambda s: 4 if T else 3); racing = False
    def path(self):
        p = O('p'); q = O('q'); sec = [(p, O('*'), ['x = a']), (O('*'), q, ['y = a'])]
        w = self.start('x', O('[') + p + O(']\nx = a\n[*|') + q + O(']\ny = a\n')); c = lambda n: self.sym(1, n, 97, 122); N = [305]
        win = {100: dict(parent=0), 2: dict(parent=100), 3: dict(parent=2, cls=c('cls'), title=c('title')), 4: dict(parent=3), 12: dict(parent=100), 13: dict(parent=12, cls=c('cls'), title=c('title'), latin=1), 20: dict(parent=100, cls=c('cls'), title=c('title'), above=1)}
        for x in win.values(): x['alive'] = 1
        win[20]['alive'] = 0; st = {k: dict(v) for k, v in win.items()}; focus = 1; rep = None; exp = [None]; must = []; w.focus0 = 1
        w.race = (1, 1 + E.choose(24)) if self.racing else (0, 0)
        for k in range(self.n):
            a = E.choose(11 if k else 3)
            if self.racing and not k: w.steps.append(('xfocus', 13)); focus = 13; E.assume(a == 0)
            elif a < 3: focus = (3, 13, 4)[a]; E.assume(bool(st[focus]['alive'])); w.steps.append(('xfocus', focus))
            elif a == 3: focus = 1; w.steps.append(('xfocus', 1))
            elif a == 4: focus = 100; w.steps.append(('xfocus', 100))
            elif a in (5, 6): i = (3, 13)[a - 5]; E.assume(bool(st[i]['alive'])); st[i]['title'] = c('title'); w.steps.append(('xtitle', i, st[i]['title'])); E.reached('title')
            elif a in (7, 8):
                E.assume(not st[20]['alive'] and not st[20].get('gone')); st[20]['alive'] = 1
                if a == 8: win[20]['types'] = st[20]['types'] = N
                w.steps.append(('xmap', 20)); E.reached('floating')
            elif a == 9:
                g = (20,) if st[20]['alive'] else (12, 13); E.assume(bool(st[g[-1]]['alive']))
                for i in g: st[i]['alive'] = 0; st[i]['gone'] = 1
                to = (3, 1)[E.choose(2)]; focus = to if focus in g else focus; w.steps.append(('xgone', g, to)); E.reached('gone')
            else:
                E.assume(not self.racing); w.steps.append(('usr1',)); must.append(k + 1); E.reached('signal')
            act = 20 if st[20]['alive'] and not st[20].get('types') else {4: 3, 1: None}.get(focus, focus)
            if act is not None: rep = wanted(sec, *((O('root'), []) if act == 100 else (st[act]['cls'], st[act]['title'])))
            elif self.racing: rep = ANY      # nothing has the focus: what the window just gone was last seen as
            exp.append(rep)
        w.win0 = win
        def now():
            s = w.steps[w.done]; w.done += 1; w.core.apply(s); E.reached('race')
        w.core = fakewin.XCore(S, B, win, 1, w.race, now); w.core.fd = 30
        def block(): raise Violation('the mapper does not wait for an event which is not announced')
        w.core.block = block; self.verdict(exp, must)
class XRace(X): name = 'xrace'; n = property(lambda s: 3 if T else 2); racing = True
class Kde(AtRest):
    name = 'kde'
    def path(self):
        p = O('p'); q = O('q'); sec = [(p, O('*'), ['x = a']), (O('*'), q, ['y = a'])]; exp = [None]
        w = self.start('kde', O('[') + p + O(']\nx = a\n[*|') + q + O(']\ny = a\n')); w.version = ('5', '6')[E.choose(2)]
        for k in range(3 if T else 2):
            title = self.sym(E.choose(3), 'title', 32); cls = self.sym(1 + E.choose(2), 'cls', 32); w.steps.append(('kwindow', title, cls, O('name'))); exp.append(wanted(sec, cls, title))
        def nxt():
            return w.next()
        w.core = fakewin.KCore(NODE, w.version, lambda n: w.files[n], nxt, S); self.verdict(exp, [])
class Pieces(Scenario):
    name = 'pieces'
    def path(self):
        mode = ('wlroots', 'cosmic')[E.choose(2)]; cls = self.sym(1, 'cls', 97, 122); title = self.sym(E.choose(6), 'title', 97, 122); p = self.sym(1, 'p', 97, 122)
        w = self.start(mode, O('[') + p + O(']\nx = a\n')); b = twindow(40, cls, title, mode); i = 1 + E.choose(len(b) - 1); w.steps = [('send', b[:i]), ('send', b[i:])]; self.loose = True
        sec = [(p, O('*'), ['x = a'])]; ex = wanted(sec, cls, title); self.expected = [(2 if i < len(b) - (8 if mode == 'cosmic' else 0) else 1, ex)]
        self.go(); E.check(len(w.log) == 1 and same(w.log[0][1], ex), 'messages may arrive in pieces'); E.reached('end')
class Registry(Scenario):
    name = 'registry'
    def path(self):
        mode = ('wlroots', 'cosmic')[E.choose(2)]; w = self.start(mode, O('[*]\nx = a\n')); gl = []; hit = None
        for k in range(1 + E.choose(3)):
            i = O(TARGET[mode]); v = self.sym(1, 'i', 1); j = (0, len(i) - 1, len(i), 5)[E.choose(4)]
            i = i + v if j == len(i) else i[:j] + v + i[j + 1:]; nm = E.var('name', 32); gl.append((nm, i))
            if hit is None and j < len(O(TARGET[mode])) and E.branch(ceq(v[0], O(TARGET[mode])[j])): hit = k
        w.globals = gl; w.steps = [('send', twindow(40, O('a'), O('b'), mode))]
        if hit is not None: self.expected = [(1, ['bind', 'reset', 'x = a'])]
        r = self.go(False)
        if hit is None: E.check(r == 'exit' and not w.log, 'without a known interface the mapper ends'); E.reached('none')
        else:
            E.check(r == 'end' and len(w.bound) == 1, 'the interface is bound'); p = w.bound[0]; nm, i = gl[hit]; want = u32(nm) + wstr(i)
            E.check(len(p) == len(want) + 8 and AND([ceq(a, b) for a, b in zip(p, want + u32(1) + u32(4))]), 'the interface announced is bound, as object 4'); E.reached('bound')
NODE = shutil.which('node') or 'node'
RUNS = {'P03': [X, XRace, Kde], 'P01': [Select, Parse, Reload, Gnome], 'P02': [Wlroots, Cosmic, Pieces, Registry]}
COVERS = {'x': ['title', 'floating', 'gone', 'signal', 'end'], 'xrace': ['race', 'title', 'gone', 'end'], 'kde': ['end'], 'select': ['matched', 'unmatched'], 'parse': ['section', 'binding'], 'reload': ['reloaded', 'unchanged'], 'gnome': ['signal', 'end'], 'wlroots': ['activated', 'deactivated', 'closed', 'end'], 'cosmic': ['activated', 'deactivated', 'closed', 'end'], 'pieces': ['end'], 'registry': ['none', 'bound']}
# ------------------------------------------------------------------ the same scenario with the real script
def native(c, trace=False):
    """returns [[step, arguments]...] of the calls of keyd and how the script ended"""
    d = tempfile.mkdtemp(prefix='keydm_', dir='/tmp')
    try:
        os.makedirs(d + '/.config/keyd'); os.mkdir(d + '/bin'); cf = d + '/.config/keyd/app.conf'; log = d + '/log'; open(log, 'w').close()
        def conf(b, t): open(cf + '~', 'wb').write(bytes(b)); os.utime(cf + '~', (t, t)); os.rename(cf + '~', cf)
        conf(c['conf'], c['mtime'])
        open(d + '/bin/keyd', 'w').write('#!/usr/bin/python3\nimport sys,json\nopen(%r,"a").write(json.dumps(["keyd"]+sys.argv[1:])+"\\n")\n' % log); os.chmod(d + '/bin/keyd', 0o755)
        env = {'HOME': d, 'PATH': d + '/bin:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1'}; bound = []; calls = []; state = {'n': 0}
        def collect():
            l = open(log).read().split('\n')[:-1]
            for x in l[state['n']:]: calls.append([state['step'], json.loads(x)])
            state['n'] = len(l)
        state['step'] = 0; exp = c['expected']; gone = lambda: proc.poll() is not None
        def settle(k):  # wait until the effects expected so far are there, and a little longer for those which are not
            t = time.time(); n = sum(1 for e in exp if e[0] <= k)
            while time.time() - t < 3 and not gone():
                collect()
                if len(calls) >= n: break
                time.sleep(0.01)
            time.sleep(0.05); collect()
        def steps(send, line):
            for k, s in enumerate(c['steps']):
                if s[0] != 'config': state['step'] = k + 1
                if s[0] == 'send': send(bytes(s[1]))
                elif s[0] == 'line': line(bytes(s[1]))
                elif s[0] == 'usr1': proc.send_signal(signal.SIGUSR1)
                else: conf(s[1], s[2]); continue
                settle(k + 1)
        if c['mode'] in ('x', 'kde'): return native_rest(c, d, env, log, trace), 'end', []
        if c['mode'] in TARGET:
            env['WAYLAND_DISPLAY'] = d + '/w'; srv = socket.socket(socket.AF_UNIX); srv.bind(d + '/w'); srv.listen(4); srv.settimeout(10)
        else: env['XDG_CURRENT_DESKTOP'] = 'GNOME'; env['XDG_RUNTIME_DIR'] = d; os.mkfifo(d + '/keyd.fifo')
        err = open(d + '/err', 'w'); proc = subprocess.Popen(['/usr/bin/python3', SCRIPT], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, cwd=d)
        try:
            if c['mode'] in TARGET:
                while not bound:
                    try: s, _ = srv.accept()
                    except OSError: break
                    s.settimeout(0.1); buf = b''; t = time.time()
                    while not bound and time.time() - t < 10:
                        try: x = s.recv(4096)
                        except ConnectionError: break
                        except socket.timeout:
                            if gone(): break
                            continue
                        if not x: break
                        buf += x
                        while len(buf) >= 8 and len(buf) >= struct.unpack('I', buf[4:8])[0] >> 16:
                            o, e = struct.unpack('II', buf[:8]); p = buf[8:e >> 16]; buf = buf[e >> 16:]
                            if (o, e & 0xffff) == (1, 0):
                                for nm, i in c['globals']: s.sendall(bytes(msg(2, 0, u32(nm) + wstr(i) + u32(1))))
                                s.sendall(bytes(msg(3, 0, u32(0)) + msg(1, 1, u32(3))))
                            elif (o, e & 0xffff) == (2, 0): bound.append(list(p))
                    if bound:
                        try: steps(s.sendall, None)
                        except OSError: pass
                    if not bound:
                        s.close(); srv.settimeout(1)
                        if gone(): break
            else:
                f = None; t = time.time()
                while f is None and time.time() - t < 10:
                    try: f = os.open(d + '/keyd.fifo', os.O_WRONLY | os.O_NONBLOCK)
                    except OSError: time.sleep(0.02)
                if f is not None:
                    time.sleep(0.1); steps(None, lambda b: os.write(f, b))
            time.sleep(0.05); collect(); rc = proc.poll()
            end = 'end' if rc is None else 'exit' if 'Traceback' not in open(d + '/err').read() else 'crash'
        finally:
            proc.kill(); proc.wait(); err.close()
            if trace: print(open(d + '/err').read())
        return calls, end, bound
    finally: shutil.rmtree(d, ignore_errors=True)
def native_rest(c, d, env, log, trace):
    env.update({'DISPLAY': ':0'} if c['mode'] == 'x' else {'KDE_SESSION_VERSION': c['version']}); env['PYTHONPATH'] = d + '/lib'; os.mkdir(d + '/lib')
    shutil.copy(os.path.join(V, 'py/fakewin.py'), d + '/lib'); json.dump(dict(c, log=log, node=NODE), open(d + '/case.json', 'w'))
    open(d + '/lib/sitecustomize.py', 'w').write('import fakewin\nfakewin.native(%r)\n' % (d + '/case.json'))
    open(d + '/bin/keyd', 'w').write('#!/usr/bin/python3 -S\nimport sys,json\nopen(%r,"a").write(json.dumps(["keyd"]+sys.argv[1:])+"\\n")\n' % log)
    err = open(d + '/err', 'w'); proc = subprocess.Popen(['/usr/bin/python3', SCRIPT], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, cwd=d); t = time.time(); n = len(c['steps']); quiet = time.time(); size = -1
    try:
        while time.time() - t < 30 and proc.poll() is None:
            s = os.path.getsize(log)
            if s != size: size = s; quiet = time.time()
            l = open(log).read()
            if '#999\n' in l and time.time() - quiet > 0.3 or c['mode'] == 'kde' and '#%d\n' % n in l and time.time() - quiet > 1: break
            time.sleep(0.03)
    finally: proc.kill(); proc.wait(); err.close()
    if trace: print(open(d + '/err').read(), open(log).read())
    r = []; k = 0
    for x in open(log).read().split('\n')[:-1]:
        if x[0] == '#': k = int(x[1:])
        else: r.append([min(k, n), json.loads(x)])
    return r
def judge_rest(c, calls):
    prev = 0; exp = dict((k, ['keyd'] + a) for k, a in c['expected'])
    for k in c['steps_at_rest']:
        last = [a for s, a in calls if s <= k]
        if k not in exp:
            if last and not c['race'][0]: return False
        elif not last or last[-1] != exp[k] or k in c['must'] and not [1 for s, a in calls if prev < s <= k]: return False
        prev = k
    allowed = list(exp.values()) + [a for _, a in c['got']]
    return c['res'] != 'end' or c['race'][0] or all(a in allowed for _, a in calls)
def judge(c, r):
    """does the native run do what is expected?"""
    calls, end, bound = r
    if c['mode'] in ('x', 'kde'): return judge_rest(c, calls)
    calls = [[k, a] for k, a in calls]; exp = [[k, ['keyd'] + a] for k, a in c['expected']]
    if c['loose']: # repetitions are harmless
        l = {}
        for k, a in calls: l[k] = a
        ex = dict(map(tuple, exp)) if exp else {}; last = None; calls = []
        for k in range(len(c['steps']) + 1):
            if k in ex: last = ex[k]
            if k in l and not (k not in ex and l[k] == last): calls.append([k, l[k]])
    if c['name'] == 'registry':
        if not exp: return not calls and end == 'exit'
        tgt = TARGET[c['mode']]; g = next(g for g in c['globals'] if bytes(g[1]).decode() == tgt)
        if bound != [u32(g[0]) + wstr(g[1]) + u32(1) + u32(4)]: return False
    return calls == exp and end == 'end'
# ------------------------------------------------------------------ exploration over all cores
def explore(cls, limit):
    e = Engine(limit); set_engine(e); symex.E = e; f = cls(); globals()['E'] = e; errs = []
    def stats(e): return dict(paths=e.paths, cuts=e.cuts, queries=e.queries, checks=e.checks, proved=e.proved, forks=e.forks, tsolve=e.tsolve, cover=e.cover, viol=e.viol, samples=e.samples[:60], funcs=sorted(e.funcs), msgs=e.msgs)
    try: e.run(f, split=200)
    except (Limit, Unsupported) as x: return [dict(stats(e), err='%s: %s' % (type(x).__name__, x))]
    res = [dict(stats(e), err='')]; parts = e.stack
    if not parts or e.viol: return res
    ctx = multiprocessing.get_context('fork'); random.Random(1).shuffle(parts)
    end = e.t0 + limit
    with ctx.Pool(min(8, os.cpu_count() or 4)) as pool:
        try: res += pool.map_async(worker, [(cls.__name__, p, end, T) for p in parts], chunksize=1).get(max(5, end - time.time()) + 40)
        except multiprocessing.TimeoutError: res.append(dict(stats(Engine(0)), err='time'))
    return res
def worker(a):
    global T, E
    name, prefix, end, T = a; e = Engine(max(0, end - time.time())); symex.E = E = e; e.stack = [prefix]; err = ''
    try: e.run(globals()[name]())
    except (Limit, Unsupported) as x: err = '%s: %s' % (type(x).__name__, x)
    return dict(paths=e.paths, cuts=e.cuts, queries=e.queries, checks=e.checks, proved=e.proved, forks=e.forks, tsolve=e.tsolve, cover=e.cover, viol=e.viol, samples=e.samples[:20], funcs=sorted(e.funcs), msgs=e.msgs, err=err)
E = None
def main():
    global T
    a = sys.argv[1:]
    if a[0] == '--replay':
        c = json.loads(open(a[2]).read().split('\n', 1)[1]); r = native(c, True); print('expected', c['expected']); print('the script does', r); print('as expected' if judge(c, r) else 'NOT as expected'); return 0
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1] if '--only' in a else None
    T = 1 if tier == 'thorough' else 0; seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time(); rnd = random.Random(seed); budget = (300, 780)[T]
    bad = []; errors = []; tot = {}; runs = []; samples = []; validated = 0; funcs = set(); unconfirmed = 0; knownhit = {}
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid]
    for cls in RUNS[pid]:
        if only and cls.name != only: continue
        tr = time.time(); R = explore(cls, budget - (time.time() - t0)); s = {}; cover = {}; viol = []; ss = []; msgs = {}
        for r in R:
            for k in ('paths', 'cuts', 'queries', 'checks', 'proved', 'forks', 'tsolve'): s[k] = s.get(k, 0) + r[k]; tot[k] = tot.get(k, 0) + r[k]
            for k, n in r['cover'].items(): cover[k] = cover.get(k, 0) + n
            for k, n in r['msgs'].items(): msgs[k] = msgs.get(k, 0) + n
            viol += r['viol']; ss += r['samples']; funcs.update(r['funcs'])
        for x in sorted({r['err'] for r in R if r['err']}): errors.append('%s: %s' % (cls.name, x))
        seen = {}
        for m, c in viol:
            if seen.get(m) == 'ok' or seen.get(m, 0) >= 4: continue
            ok = judge(c, native(c))
            if ok: seen[m] = seen.get(m, 0) + 1; continue
            seen[m] = 'ok'; d = V + '/evidence/replay'; os.makedirs(d, exist_ok=True); dst = '%s/%s_%s_%s.json' % (d, pid, cls.name, hashlib.sha1(m.encode()).hexdigest()[:8])
            open(dst, 'w').write('# property %s run %s: %s. Replay: python3-vt py/mapper.py --replay %s FILE\n' % (pid, cls.name, m, pid) + json.dumps(c)); bad.append((cls.name, m, dst, c))
        for m, n in seen.items():
            if n != 'ok': unconfirmed += 1; errors.append('%s: counterexample not reproduced by the script itself: %s' % (cls.name, m))
        if not viol:
            for c in COVERS[cls.name]:
                if not cover.get(c): errors.append('%s: expected situation never reached: %s' % (cls.name, c))
            rnd.shuffle(ss); nv = 0
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(4) as tp: nat = list(tp.map(native, ss[:16]))
            for c, r in zip(ss[:16], nat):
                if judge(c, r): nv += 1
                elif judge(c, native(c)): nv += 1  # timing
                else: errors.append('%s: a sampled path behaves differently: %s %s' % (cls.name, json.dumps(c), r))
            validated += nv
        else: nv = 0
        samples += [json.dumps(c)[:600] for c in ss[:2]]
        runs.append(dict(run=cls.name, paths=s['paths'], paths_cut_by_assumption=s['cuts'], checks=s['checks'], queries=s['queries'], solver_time_s=round(s['tsolve'], 2), wall_s=round(time.time() - tr, 2), situations_reached=cover, assertions=msgs, sampled_paths_replayed=nv))
        if '-v' in a: print(runs[-1])
        if bad and '--all' not in a: break
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(bad), coverage=dict(states=tot['paths'], transitions=tot['forks'], traces_validated_against_impl=validated, samples=samples,
        explanation='states = symbolic paths of the script explored to their end; transitions = decisions with both outcomes feasible; traces_validated = sampled paths replayed with the script as a process.', assertions_checked=tot['checks'], assertions_proved=tot['proved'], queries_discharged=tot['queries'], solver_time_s=round(tot['tsolve'], 2), paths_cut_by_assumption=tot['cuts'], functions_encoded=sorted(funcs), runs=runs, errors=errors, not_reproduced=unconfirmed),
        assumptions=['text is ASCII', 'CPython executes the script as its documentation says; proxies of str, bytes and int (py/symex.py) stand for the built-in types', 'the window systems are modelled: wayland (zwlr_foreign_toplevel, zcosmic_toplevel) and the fifo of the Gnome extension'])
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for n, m, dst, c in bad: print('%s: %s' % (n, m)); print('VIOLATION property=%s replay=%s' % (pid, dst))
    for e in errors: print('NOTE:' if bad else 'ERROR:', e[:1500])
    if bad: return 1
    if errors: return 2
    print('OK property=%s paths=%d assertions=%d queries=%d solver=%.1fs wall=%.1fs validated=%d' % (pid, tot['paths'], tot['checks'], tot['queries'], tot['tsolve'], time.time() - t0, validated)); return 0
if __name__ == '__main__': sys.exit(main())
