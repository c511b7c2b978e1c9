"""Stand-ins for an X server (python-xlib) and for KWin (dbus-python), used both by the symbolic execution of the application mapper (values may be
symbolic) and, with plain values, by the script run as a process of its own."""
import types, json, subprocess
def module(name, **k): x = types.ModuleType(name); x.__dict__.update(k); return x
class BadWindow(Exception): pass
SUB = 1 << 19; PROP = 1 << 22
class XCore:
    """root 100 > frame 2 > client 3 > child 4; root > frame 12 > client 13; root > 20, which may be kept above the others. A window exists or not, has a class or
    not. What happens is reported to the client if it has asked for it; events arrive in the socket, and are moved to the queue of the library by any request."""
    ATOMS = dict(_NET_WM_NAME=301, WM_NAME=39, _NET_WM_STATE=303, _NET_WM_STATE_ABOVE=304, _NET_WM_WINDOW_TYPE_NOTIFICATION=305, _NET_WM_WINDOW_TYPE=306, UTF8_STRING=307, WM_CLASS=67, _NET_ACTIVE_WINDOW=309)
    def __init__(self, mkstr, mkbytes, win, focus, race=(0, 0), step=None):
        self.mkstr = mkstr; self.mkbytes = mkbytes; self.win = {int(k): dict(v) for k, v in win.items()}; self.focus = focus; self.sock = []; self.queue = []; self.mask = {}; self.race = race; self.n = 0; self.step = step; self.steps = 0; self.arrived = lambda: None; self.taken = lambda: None; self.busy = lambda: None
    def apply(self, s):
        self.steps += 1; self.n = 0; k = s[0]; seen = False; root = self.mask.get(100, 0)
        if k == 'xfocus': self.focus = s[1]; seen = root & PROP
        elif k == 'xtitle': self.win[s[1]]['title'] = s[2]; seen = self.mask.get(s[1], 0) & PROP
        elif k == 'xmap': self.win[s[1]]['alive'] = 1; seen = root & SUB
        elif k == 'xgone':                         # the focus is given to another window
            for w in s[1]: self.win[w]['alive'] = 0; self.mask.pop(w, 0)
            if self.focus in s[1]: self.focus = s[2]
            seen = root & SUB
        if seen: self.sock.append(s[0]); self.arrived()
    def request(self, w=None):
        self.busy(); self.n += 1
        if self.race == (self.steps, self.n): self.step()
        self.fetch()
        if w is not None and not self.win[w]['alive']: raise BadWindow(w)
    def fetch(self):
        if self.sock: self.queue += self.sock; self.sock = []; self.taken()
    def modules(self):
        core = self
        class Window:
            def __init__(self, i): self.id = i
            def __eq__(self, o): return isinstance(o, Window) and self.id == o.id
            def __hash__(self): return self.id
            def change_attributes(self, onerror=None, event_mask=None, **k):
                if core.win[self.id]['alive'] and event_mask is not None: core.mask[self.id] = event_mask
            def get_full_property(self, a, t, sizehint=10):
                core.request(self.id); w = core.win[self.id]; v = None
                if a == 301 and w.get('title') is not None and not w.get('latin'): v = core.mkbytes(w['title'])
                if a == 39 and w.get('title') is not None and w.get('latin'): v = core.mkbytes(w['title'])
                if a == 303 and w.get('above'): v = [304]
                if a == 306 and w.get('types'): v = list(w['types'])
                return None if v is None else types.SimpleNamespace(value=v, property_type=4)
            def get_wm_class(self):
                core.request(self.id); c = core.win[self.id].get('cls'); return None if c is None else ('inst', core.mkstr(c))
            def get_wm_name(self): core.request(self.id); c = core.win[self.id].get('title'); return None if c is None else core.mkstr(c)
            def query_tree(self):
                core.request(self.id); p = core.win[self.id]['parent']
                return types.SimpleNamespace(parent=Window(p) if p else 0, children=[Window(i) for i, w in core.win.items() if w['parent'] == self.id and w['alive']], root=Window(100))
        class Display:
            def __init__(self, *a): pass
            def screen(self, *a): return types.SimpleNamespace(root=Window(100))
            def intern_atom(self, n, only_if_exists=False): return core.ATOMS.get(n, 0)
            get_atom = intern_atom
            def fileno(self): return core.fd
            def pending_events(self): core.fetch(); return len(core.queue)
            def next_event(self):
                core.fetch()
                if not core.queue: core.block()
                return types.SimpleNamespace(type=28 if core.queue[0] != 'xmap' else 19, name=core.queue.pop(0))
            def get_input_focus(self): core.request(); f = core.focus; return types.SimpleNamespace(focus=Window(f) if f in core.win else f, revert_to=1)
            def flush(self): pass
            def sync(self): core.request()
            def create_resource_object(self, t, i): return Window(i)
        X = module('Xlib.X', SubstructureNotifyMask=SUB, PropertyChangeMask=PROP, AnyPropertyType=0, NONE=0, PointerRoot=1, PropertyNotify=28, MapNotify=19)
        er = module('Xlib.error', BadWindow=BadWindow, XError=BadWindow); xa = module('Xlib.Xatom', ATOM=4, STRING=31, WM_NAME=39, WM_CLASS=67)
        d = module('Xlib.display', Display=Display, X=X); r = module('Xlib', X=X, Xatom=xa, display=d, error=er)
        return {'Xlib': r, 'Xlib.X': X, 'Xlib.Xatom': xa, 'Xlib.display': d, 'Xlib.error': er}
_js = {}
def kwin_calls(node, text, signal):
    """what the KWin script does when a window gets the focus: the arguments of its D-Bus calls, \\1 \\2 \\3 being caption, class and name"""
    k = (text, signal)
    if k not in _js:
        js = 'const h=[];const out=[];const workspace={%s:{connect:f=>h.push(f)}};const callDBus=(...a)=>out.push(a);const print=()=>{};\n(new Function("workspace","callDBus","print",%s))(workspace,callDBus,print);for(const f of h){f(null);f({caption:"\\u0001",resourceClass:"\\u0002",resourceName:"\\u0003"})}\nconsole.log(JSON.stringify(out))' % (signal, json.dumps(text))
        r = subprocess.run([node, '-e', js], capture_output=True, text=True, timeout=30); _js[k] = json.loads(r.stdout) if r.returncode == 0 else []
    return _js[k]
class KCore:
    def __init__(self, node, version, read, next_, mkstr):
        self.node = node; self.version = version; self.read = read; self.next = next_; self.mkstr = mkstr; self.loaded = None; self.running = None; self.objects = {}; self.idle = lambda: None
    def modules(self):
        core = self
        class Script:
            def run(self): core.running = core.loaded
        class KWin:
            def unloadScript(self, n): pass
            def loadScript(self, n, *a): core.loaded = core.read(n); return 7
            def start(self): core.running = core.loaded
        class Bus:
            def get_object(self, name, path, **k):
                if name == 'org.kde.KWin' and path == '/Scripting': return KWin()
                if name == 'org.kde.KWin' and core.loaded is not None and path == ('/Scripting/Script7' if core.version == '6' else '/7'): return Script()
                raise Exception('no such object')
        class Object:
            def __init__(self, conn=None, object_path=None, bus_name=None): core.objects[(conn or bus_name).name, object_path] = self
        class BusName:
            def __init__(self, name, bus=None, **k): self.name = name
        def method(iface, **k):
            def f(fn): fn._iface = iface; return fn
            return f
        class Loop:
            def run(self):
                while True:
                    core.idle(); s = core.next(); text = dict(zip('\1\2\3', s[1:]))
                    if core.running is None: continue
                    for a in kwin_calls(core.node, core.running, 'windowActivated' if core.version == '6' else 'clientActivated'):
                        o = core.objects.get((a[0], a[1])); f = getattr(o, a[3], None)
                        if f is None or a[2] and getattr(f, '_iface', '') != a[2]: continue
                        f(*[core.mkstr(text[x]) if x in text else x for x in a[4:]])
        sv = module('dbus.service', Object=Object, BusName=BusName, method=method); gl = module('dbus.mainloop.glib', DBusGMainLoop=lambda **k: None); ml = module('dbus.mainloop', glib=gl)
        db = module('dbus', SessionBus=Bus, service=sv, mainloop=ml); G = module('gi.repository.GLib', MainLoop=Loop); rp = module('gi.repository', GLib=G); gi = module('gi', repository=rp)
        return {'dbus': db, 'dbus.service': sv, 'dbus.mainloop': ml, 'dbus.mainloop.glib': gl, 'gi': gi, 'gi.repository': rp, 'gi.repository.GLib': G}
def native(path):
    """in the process of the script: what happens is played by a thread, whenever the script has been idle for a while"""
    import os, sys, time, threading, signal
    c = json.load(open(path)); steps = c['steps']; done = [0]; last = [time.time()]
    def note(): fd = os.open(c['log'], os.O_WRONLY | os.O_APPEND); os.write(fd, b'#%d\n' % done[0]); os.close(fd)
    text = lambda l: bytes(l).decode('latin1')
    if c['mode'] == 'kde':
        def nxt():
            while done[0] >= len(steps): time.sleep(60)
            done[0] += 1; note(); return steps[done[0] - 1]
        core = KCore(c['node'], c['version'], lambda n: open(n).read(), nxt, text); sys.modules.update(core.modules()); return
    r, w = os.pipe()
    def race(): s = steps[done[0]]; done[0] += 1; note(); core.apply(s)
    core = XCore(text, bytes, c['win'], c['focus'], tuple(c['race']), race); core.fd = r; core.arrived = lambda: os.write(w, b'x'); core.taken = lambda: os.read(r, 1000)
    core.block = lambda: [time.sleep(0.01) for _ in iter(lambda: bool(core.sock), True)] and core.fetch()
    def busy(): last[0] = time.time()
    core.busy = busy; sys.modules.update(core.modules()); note()
    def play():
        while done[0] < len(steps):
            while time.time() - last[0] < 0.3: time.sleep(0.05)
            if done[0] >= len(steps): break
            s = steps[done[0]]; done[0] += 1; note(); last[0] = time.time()
            if s[0] == 'usr1': os.kill(os.getpid(), signal.SIGUSR1)
            else: core.apply(s)
        time.sleep(0.4); done[0] = 999; note()
    last[0] = time.time() + 0.3; threading.Thread(target=play, daemon=True).start()
