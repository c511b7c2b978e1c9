COMMON_ASSUMPTIONS = ['allocation succeeds', 'log output is discarded (log.c replaced by an empty stub)', 'clang-18 -O1 IR (no LLVM optimisation passes beyond SSA construction, CSE and instcombine) represents the compiled program; two-complement wrapping arithmetic']
ENG = dict(repo=['keyboard', 'config', 'ini', 'keys', 'macro', 'string', 'unicode'], lib=['env_vfs', 'stub_log'], redir=['fopen', 'fgets', 'fclose', 'access', 'open', 'read', 'close', 'fgetc', 'getc', 'feof', 'ferror', 'fread', 'ftell', 'fseek', 'rewind', 'getline'])
PROPS = {}
def gen_compose(repo, tmp, run):
    """compose.h: the characters of data/keyd.compose by sequence (three base 36 digits, in order)"""
    import re
    dig = '0123456789abcdefghijklmnopqrstuvwxyz'; rows = {}
    for l in open(repo + '/data/keyd.compose', encoding='utf8', newline='\n').read().split('\n'):
        m = re.match(r'<Cancel> <(.)> <(.)> <(.)> : "(.*)"$', l, re.S)
        if m: rows[(dig.index(m[1]) * 36 + dig.index(m[2])) * 36 + dig.index(m[3])] = ord(m[4])
    n = max(rows) + 1
    open(tmp + '/compose.h', 'w').write('#define NCOMPOSE %d\nstatic const unsigned cps[NCOMPOSE + 64] = {%s};\n' % (n, ','.join(str(rows.get(i, 0)) for i in range(n))))
    return rows
def gen_layouts(repo, tmp, run):
    """layouts.h: what every shipped layout says (its text, and the character written at each position), and the rows of keyd.compose"""
    import re, os, glob, unicodedata
    rows = gen_compose(repo, tmp, run); H = re.compile(r'^\[([^\s=\]]+)\]$'); out = []
    NM = {' ': 'SPACE', "'": 'APOSTROPHE', ',': 'COMMA', '-': 'MINUS', '.': 'DOT', '/': 'SLASH', ';': 'SEMICOLON', '=': 'EQUAL', '[': 'LEFTBRACE', '\\': 'BACKSLASH', ']': 'RIGHTBRACE', '`': 'GRAVE', 'leftbrace': 'LEFTBRACE', 'rightbrace': 'RIGHTBRACE'}
    seq = {c: 128 + i for i, c in rows.items()}
    for p in sorted(glob.glob(repo + '/layouts/*')):
        n = os.path.basename(p); t = open(p, 'rb').read().decode('utf8'); pos = None; tab = {}
        if ':layout]' not in t: continue          # not a layout
        for l in t.split('\n'):
            l = l.strip(' \t'); m = H.match(l)
            if m:
                a = sorted(x.split(':')[0] for x in m[1].split('+')); a = [x[len(n):] if x.startswith(n) else x for x in a]
                pos = {'': 0, '_shift': 1, '_altgr': 2, '_altgr+_shift': 3}.get('+'.join(a)); continue
            if not l: continue
            k, s, v = l.partition(' = ')
            if pos is None or not s: tab[(0, 'KEYD_NOOP')] = -2; continue      # a line which says nothing: reported by the harness
            if v.startswith('layer(') or len(v) == 1 and unicodedata.category(v) in ('Cn', 'Co'): continue     # unassigned and private characters have no sequence
            k = 'KEYD_' + (NM.get(k) or k.upper()); tab[(pos, k)] = -1 if len(v) != 1 or ord(v) <= 32 else ord(v) if ord(v) < 127 else seq.get(ord(v), -1)
        for (q, k), v in list(tab.items()):       # a shifted letter is its capital (or the dotted capital i)
            if q == 0 and 97 <= v <= 122 and tab.setdefault((1, k), v - 32) not in (v - 32, seq[0x130]): tab[(1, k)] = -3
        out.append((n, t, tab))
    k = sorted(out); o = ['static const char *const lname[] = {%s};' % ','.join('"%s"' % n for n, _, _ in k), '#define NLAYOUTS %d' % len(k)]
    for i, (n, t, tab) in enumerate(k):
        b = t.encode('utf8'); o.append('static const char ltext%d[] = {%s0};' % (i, ''.join('%d,' % (x - 256 if x > 127 else x) for x in b)))
        o.append('static const struct { unsigned char pos, key; int cp; } ltab%d[] = {%s};' % (i, ','.join('{%d,%s,%d}' % (p, c, v) for (p, c), v in sorted(tab.items()))))
    o.append('static void lload(int i) {'); o.append('switch (i) {')
    for i, (n, t, tab) in enumerate(k): o.append('case %d: l_text = ltext%d; l_len = %d; for (unsigned j = 0; j < sizeof ltab%d / sizeof *ltab%d; j++) l_exp[ltab%d[j].pos][ltab%d[j].key] = ltab%d[j].cp; break;' % (i, i, len(t.encode('utf8')), i, i, i, i, i))
    o.append('}}'); open(tmp + '/layouts.h', 'w').write('\n'.join(o) + '\n')
GEN = dict(compose=gen_compose, layouts=gen_layouts)
PROPS['E01'] = dict(runs=[
	dict(ENG, name='pair', src='stuck', covers=['end'], defs={'PAIR': 1}, qdefs={'NEV': 4}, tdefs={'NEV': 5}),
	dict(ENG, name='chord', src='stuck', covers=['end'], defs={'CHORD': 1}, qdefs={'NEV': 4}, tdefs={'NEV': 5}),
	dict(ENG, name='nested', src='stuck', covers=['end'], defs={'NESTED': 1}, qdefs={'NEV': 4}, tdefs={'NEV': 5}),
	dict(ENG, name='replayed', src='stuck', covers=['end'], defs={'REPLAYED': 1}, qdefs={'NEV': 6}, tdefs={'NEV': 7})])
PROPS['E02'] = dict(runs=[dict(ENG, name='lookup', src='step', defs={'MODE': 'lookup'}, covers=['self', 'main', 'layout', 'layer', 'composite'])])
PROPS['E03'] = dict(runs=[dict(ENG, name=m, src='step', defs={'MODE': m}, covers=['unbound', 'base', 'layer', 'composite']) for m in ('mods_press', 'mods_release')] + [dict(ENG, name='mods_chord', src='step', defs={'MODE': 'mods_chord'}, covers=['base', 'layer']), dict(ENG, name='mods_other', src='step', defs={'MODE': 'mods_other'}, covers=['base', 'layer', 'composite'])])
PROC=['fork', 'wait', 'waitpid', 'exit', '_exit', 'dup2', 'setsid', 'perror', 'execl', 'execv']
def life(name, pal, nq, nt, timed, covers, dup=0, symb=0, mc='each key press produces exactly its bound key, once', mk='the key produced is the one bound in the layer that applies', mh='a key bound to a plain key holds exactly what its press produced, until it is released', mm='the key is produced with the modifiers of the active layers'):
	return dict(ENG, name=name, src='life', defs={'PAL': pal, 'TIMED': timed, 'DUP': dup, 'SYMB': symb, 'MSG_HELD': '"%s"' % mh, 'MSG_COUNT': '"%s"' % mc, 'MSG_CODE': '"%s"' % mk, 'MSG_MODS': '"%s"' % mm}, qdefs={'NEV': nq}, tdefs={'NEV': nt}, covers=covers + ['end'])
PROPS['E02']['runs'] += [life('layers', 1, 4, 6, 0, [], symb=1), life('layouts', 2, 5, 7, 0, [], symb=1)]
PROPS['E05'] = dict(runs=[life('layers', 1, 6, 7, 0, [], symb=1), life('layouts', 2, 6, 7, 0, [], symb=1)])
PROPS['E06'] = dict(runs=[dict(life('oneshot', 3, 5, 6, 1, ['expired']), redir=ENG['redir'] + PROC)])
PROPS['E07'] = dict(runs=[life('overload', 4, 6, 7, 1, ['tap', 'hold'])])
PROPS['E04'] = dict(runs=[life('press_time', 5, 6, 7, 1, []), life('redundant', 5, 4, 5, 1, ['redundant'], dup=1, symb=1)])
PROPS['E18'] = dict(runs=[dict(ENG, name='commands', src='cmd', redir=ENG['redir'] + PROC, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['run', 'child', 'no_process', 'gave_up', 'no_shell', 'layer', 'chord', 'tap', 'timed', 'end'])])
PROPS['E17'] = dict(runs=[dict(ENG, name='ident', src='out', defs={'MODE': 'ident'}, covers=['self', 'pseudo', 'modifier']),
	dict(ENG, name='pair', src='stuck', covers=['end'], defs={'PAIR': 1, 'OUTP': 1}, qdefs={'NEV': 3}, tdefs={'NEV': 5}), dict(ENG, name='chord', src='stuck', covers=['end'], defs={'CHORD': 1, 'OUTP': 1}, qdefs={'NEV': 4}, tdefs={'NEV': 5})])
PROPS['E08'] = dict(runs=[dict(ENG, name='one', src='timed', defs={'TWO': 0}, qdefs={'NEV': 6}, tdefs={'NEV': 7}, covers=['tap', 'held', 'interrupted', 'intervening_tap', 'end']), dict(ENG, name='two', src='timed', defs={'TWO': 1}, qdefs={'NEV': 5}, tdefs={'NEV': 6}, covers=['tap', 'held', 'interrupted', 'intervening_tap', 'end'])])
CH=['chord', 'abort', 'timeout', 'ambiguous', 'hold', 'end']
PROPS['E10'] = dict(runs=[dict(ENG, name='chords', src='chord', qdefs={'NEV': 6}, tdefs={'NEV': 7}, covers=CH), dict(ENG, name='duplicates', src='chord', defs={'DUP': 1}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['redundant', 'chord', 'abort', 'end'])])
PROPS['E11'] = dict(runs=[dict(ENG, name='exec', src='macro', redir=ENG['redir'] + ['usleep'], defs={'MODE': 'exec', 'NEV': 1}, covers=['group', 'timeout', 'unicode', 'end']), dict(ENG, name='repeat', src='macro', fork_select=1, redir=ENG['redir'] + ['usleep'], defs={'MODE': 'repeat'}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['repeat', 'in_layer', 'end'])])
CONF = dict(repo=['config', 'ini', 'keys', 'macro', 'string', 'unicode'], lib=['env_vfs', 'stub_log'], redir=ENG['redir'])
PROPS['C01'] = dict(runs=[
	dict(CONF, name='templates', src='conf', defs={'MODE': 'templates', 'NT': 20}, qdefs={'H': 2}, tdefs={'H': 3}, covers=['accepted', 'rejected']),
	dict(CONF, name='syntax', src='conf', defs={'MODE': 'syntax', 'NT': 20}, qdefs={'NCH': 4}, tdefs={'NCH': 5}, covers=['bound', 'refused']),
	dict(CONF, name='capacity', src='conf', defs={'MODE': 'capacity', 'NT': 20}, covers=['accepted', 'rejected'])])
PROPS['C02'] = dict(runs=[dict(CONF, name='effect', src='act', defs={'MODE': 'effect'}, covers=['bound', 'refused']), dict(CONF, name='chords', src='act', defs={'MODE': 'chords'}, covers=['replaced', 'end'])])
PROPS['C03'] = dict(runs=[dict(CONF, name='meaning', src='act', defs={'MODE': 'meaning'}, covers=['nested', 'command', 'end']), dict(CONF, name='args', src='act', fork_select=1, defs={'MODE': 'args'}, covers=['refused', 'lettermod', 'accepted']), dict(CONF, name='modkeys', src='act', fork_select=1, defs={'MODE': 'modkeys'}, covers=['end']), dict(CONF, name='cmdlen', src='act', fork_select=1, defs={'MODE': 'cmdlen'}, covers=['stored', 'refused'])])
KEYS = dict(repo=['keys', 'string', 'unicode'], lib=['stub_log'], redir=[], src='keysyn', fork_select=1)
PROPS['C04'] = dict(runs=[dict(KEYS, name='seq', defs={'MODE': 'seq'}, qdefs={'NLEN': 18}, tdefs={'NLEN': 24}, covers=['refused', 'shifted', 'plain', 'prefixed']), dict(KEYS, name='names', defs={'MODE': 'names', 'NLEN': 1}, covers=['end']), dict(KEYS, name='modset', defs={'MODE': 'modset'}, qdefs={'NLEN': 8}, tdefs={'NLEN': 12}, covers=['printed', 'accepted', 'refused'])])
PROPS['C08'] = dict(runs=[dict(KEYS, name=m, defs={'MODE': m, 'NLEN': 1}, covers=['end']) for m in ('utf8', 'raw', 'sequence')] + [dict(KEYS, name='table', gen='compose', defs={'MODE': 'table', 'NLEN': 1, 'COMPOSE': 1, 'BLK': 64}, covers=['end'])])
PROPS['C05'] = dict(runs=[dict(name='steps', src='mac', repo=['config', 'ini', 'keys', 'macro', 'string', 'unicode'], lib=['env_vfs', 'stub_log'], redir=ENG['redir'], fork_select=1, defs={'MODE': 'steps'}, covers=['unicode', 'timeout', 'group', 'text', 'escape', 'end']), dict(name='refuse', src='mac', repo=['config', 'ini', 'keys', 'macro', 'string', 'unicode'], lib=['env_vfs', 'stub_log'], redir=ENG['redir'], defs={'MODE': 'refuse'}, covers=['refused'])])
IDS = dict(CONF, src='ids', fork_select=1)
PROPS['C06'] = dict(runs=[dict(IDS, name='match', defs={'MODE': 'match', 'NOPT': 1, 'NH': 1}, qdefs={'NIDS': 2, 'LEN': 3}, tdefs={'NIDS': 3, 'LEN': 3}, covers=['excluded', 'listed', 'wildcard', 'none'])])
PROPS['C07'] = dict(runs=[dict(IDS, name='alias', defs={'MODE': 'alias', 'NOPT': 1, 'NH': 1, 'NIDS': 1, 'LEN': 1}, covers=['bound', 'redefined', 'end'])])
PROPS['C12'] = dict(runs=[dict(IDS, name='options', defs={'MODE': 'options', 'NH': 1, 'NIDS': 1, 'LEN': 1}, qdefs={'NOPT': 2}, tdefs={'NOPT': 2}, covers=['end'])])
PROPS['C10'] = dict(runs=[dict(IDS, name='headings', defs={'MODE': 'headings', 'NOPT': 1, 'NIDS': 1, 'LEN': 1}, qdefs={'NH': 3}, tdefs={'NH': 4}, covers=['refused', 'composite', 'end'])])
FILE = dict(CONF, src='file', fork_select=1)
PROPS['C09'] = dict(runs=[dict(FILE, name='include', defs={'MODE': 'include', 'NCH': 1}, qdefs={'NL': 2}, tdefs={'NL': 2}, covers=['included', 'unresolved', 'end']), dict(FILE, name='limits', defs={'MODE': 'limits', 'NCH': 1, 'NL': 1}, covers=['many', 'line', 'file', 'refused'])])
PROPS['C11'] = dict(runs=[dict(FILE, name='kvp', defs={'MODE': 'kvp', 'NL': 1}, qdefs={'NCH': 6}, tdefs={'NCH': 8}, covers=['key', 'pair']), dict(FILE, name='ini', defs={'MODE': 'ini', 'NL': 1}, qdefs={'NCH': 5}, tdefs={'NCH': 6}, covers=['section', 'default', 'entry', 'end'])])
MISC = dict(ENG, src='misc')
PROPS['E09'] = dict(runs=[dict(MISC, name='idle', defs={'MODE': 'idle'}, qdefs={'NEV': 5}, tdefs={'NEV': 6}, covers=['midword', 'idle', 'end']), dict(MISC, name='lettermod', defs={'MODE': 'lettermod'}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['end'])])
PROPS['E12'] = dict(runs=[dict(ENG, name='swap', src='swap', qdefs={'NEV': 6}, tdefs={'NEV': 7}, covers=['toggled', 'oneshot', 'held', 'end'])])
PROPS['E13'] = dict(runs=[dict(MISC, name='guard', defs={'MODE': 'guard'}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['guarded', 'intended', 'disabled', 'end'])])
PROPS['E14'] = dict(runs=[dict(MISC, name='spurious', defs={'MODE': 'spurious'}, qdefs={'NEV': 3}, tdefs={'NEV': 4}, covers=['end']), dict(MISC, name='batch', defs={'MODE': 'batch'}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['end'])])
PROPS['E16'] = dict(runs=[dict(MISC, name='bind', defs={'MODE': 'binds'}, qdefs={'NEV': 5}, tdefs={'NEV': 6}, covers=['bound', 'reset', 'end']), dict(MISC, name='again', defs={'MODE': 'again', 'NEV': 1}, covers=['end'])])
PROPS['E15'] = dict(runs=[dict(ENG, name=m, src='caps', defs={'MODE': m}, covers=['end']) for m in ('nkro', 'flood', 'chordflood', 'chords', 'timers', 'activations')])
DEV = dict(repo=[], lib=['stub_log'], redir=['read', 'write', 'open', 'close', 'ioctl', 'usleep', 'opendir', 'readdir', 'closedir', 'pthread_create', 'pthread_join'], src='dev', fork_select=1)
PROPS['D01'] = dict(runs=[dict(DEV, name='events', defs={'MODE': 'events'}, covers=['key', 'repeat', 'unsupported', 'motion', 'absolute', 'degenerate', 'ignored', 'empty', 'removed', 'end'])])
PROPS['D02'] = dict(runs=[dict(DEV, name='classify', redir=DEV['redir'] + ['snprintf'], defs={'MODE': 'classify'}, covers=['neither', 'keyboard', 'mouse', 'end']), dict(DEV, name='ident', defs={'MODE': 'ident'}, covers=['end']), dict(DEV, name='fails', defs={'MODE': 'fails'}, covers=['failed', 'end']), dict(DEV, name='scan', defs={'MODE': 'scan'}, covers=['many', 'end']), dict(DEV, name='announce', defs={'MODE': 'announce'}, covers=['announced', 'nothing', 'end'])])
LOOP = dict(repo=['util'], lib=['stub_log'], redir=['read', 'write', 'close', 'accept', 'accept4', 'fcntl', 'setsockopt', 'dprintf', 'usleep', 'nice', 'setvbuf', 'atexit', 'opendir', 'readdir', 'closedir', 'exit', 'poll', 'clock_gettime'], src='loop', fork_select=1, sym_store=1)
PROPS['D03'] = dict(runs=[dict(LOOP, name='devices', defs={'MODE': 'devices', 'NR': 2, 'TWO': 0}, covers=['managed', 'left', 'grab_failed', 'plugged', 'unplugged', 'end']), dict(LOOP, name='many', defs={'MODE': 'toomany', 'NR': 3, 'TWO': 0}, covers=['excess', 'freed', 'end']), dict(DEV, name='grab', defs={'MODE': 'grab'}, covers=['failed', 'end'])])
PROPS['D06'] = dict(runs=[dict(LOOP, name='reload', defs={'MODE': 'reloading', 'TWO': 0}, qdefs={'NR': 4}, tdefs={'NR': 5}, covers=['reloaded', 'end']), dict(LOOP, name='unplug', defs={'MODE': 'unplug', 'TWO': 0}, qdefs={'NR': 5}, tdefs={'NR': 7}, covers=['unplugged', 'end'])])
PROPS['D07'] = dict(runs=[dict(LOOP, name='panic', defs={'MODE': 'panic', 'TWO': 0}, qdefs={'NR': 4}, tdefs={'NR': 5}, covers=['panic', 'led', 'motion', 'end'])])
PROPS['D08'] = dict(runs=[dict(LOOP, name=n, defs={'MODE': 'timers', 'TWO': int(n != 'one'), 'FEW': int(n == 'few')}, qdefs={'NR': q}, tdefs={'NR': q + 1}, covers=c) for n, q, c in (('one', 2, ['timeout', 'mouse', 'spurious', 'client', 'end']), ('two', 2, ['timeout', 'second', 'end']), ('few', 3, ['timeout', 'second', 'end']))] + [dict(LOOP, name='uptime', defs={'MODE': 'timers', 'TWO': 0, 'FEW': 1, 'BASE': '2147483640L'}, qdefs={'NR': 2}, tdefs={'NR': 3}, covers=['timeout', 'second', 'end'])])
IPC = dict(repo=['util'], lib=['stub_log'], redir=LOOP['redir'], src='sock', fork_select=1, sym_store=1)
TEXT = dict(IPC, repo=['util', 'macro', 'keys', 'string', 'unicode'])
PROPS['D04'] = dict(runs=[dict(IPC, name='robust', defs={'MODE': 'robust', 'NEV': 1}, qdefs={'NCL': 2}, tdefs={'NCL': 3}, covers=['cut', 'pieces', 'deaf', 'listening', 'oversized', 'macro', 'input', 'reload', 'bind', 'unknown', 'refused', 'done', 'end'])])
PROPS['D05'] = dict(runs=[dict(TEXT, name=m, gen='compose', defs={'MODE': m, 'TEXT': 1, 'COMPOSE': 1}, qdefs={'NTOK': 2}, tdefs={'NTOK': 3}, covers=c) for m, c in (('text', ['ascii', 'untypable', 'unknown', 'composed', 'end']), ('macros', ['group', 'text', 'wheel', 'invalid', 'typed', 'end']))])
VK = dict(repo=['keys', 'util', 'string', 'unicode'], lib=['stub_log'], redir=['read', 'write', 'open', 'close', 'ioctl', 'usleep', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'exit'], src='vkbd', fork_select=1)
PROPS['D09'] = dict(runs=[dict(VK, name='setup', defs={'MODE': 'setup'}, covers=['failed', 'tolerated', 'end']), dict(VK, name='send', defs={'MODE': 'sending'}, covers=['button', 'special', 'end']), dict(VK, name='pointer', defs={'MODE': 'pointer'}, covers=['move', 'scroll', 'absolute', 'end'])])
CLI = dict(repo=[], lib=['stub_log'], redir=['read', 'write', 'close', 'exit', 'isatty', 'getenv', 'signal', 'printf', 'puts', 'socket', 'connect', 'poll', 'open', 'flock', 'unlink', 'bind', 'listen', 'chmod', 'getgrnam', 'setgid', 'fcntl'], src='client', fork_select=1)
PROPS['D12'] = dict(runs=[dict(CLI, name='server', defs={'MODE': 'server'}, covers=['second', 'failed', 'end'])])
PROPS['D15'] = dict(runs=[dict(CLI, name='typed', defs={'MODE': 'typed'}, covers=['arguments', 'stdin', 'toolong', 'failed', 'end']), dict(CLI, name='bind', defs={'MODE': 'binds'}, covers=['refused', 'bound', 'failed']), dict(CLI, name='listen', defs={'MODE': 'listening_'}, covers=['failed', 'end']), dict(CLI, name='other', defs={'MODE': 'other'}, covers=['end'])])
PROPS['D10'] = dict(runs=[dict(name=m, src='gadget', repo=[], lib=['stub_log'], redir=['open', 'close', 'write'], fork_select=1, defs={'MODE': m}, qdefs={'NEV': 3}, tdefs={'NEV': 4}, covers=c) for m, c in (('hid', ['modifier', 'key', 'none']), ('held', ['full', 'end']))])
PROPS['D13'] = dict(runs=[dict(IPC, name='listeners', defs={'MODE': 'listeners_', 'NCL': 1}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['listener', 'change', 'indicator', 'dropped', 'other', 'end']), dict(IPC, name='many', defs={'MODE': 'many', 'NCL': 1, 'NEV': 1}, covers=['excess', 'end'])])
PROPS['D11'] = dict(runs=[dict(LOOP, name='mouse', defs={'MODE': 'mouse', 'TWO': 0}, qdefs={'NR': 3}, tdefs={'NR': 4}, covers=['moved', 'scrolled', 'absolute', 'wheel', 'external', 'end']), dict(MISC, name='bound', defs={'MODE': 'scrolling'}, qdefs={'NEV': 4}, tdefs={'NEV': 5}, covers=['scrolling', 'end'])])
PROPS['P01'] = dict(mapper=1); PROPS['P02'] = dict(mapper=1); PROPS['P03'] = dict(mapper=1) # py/mapper.py
MON = dict(lib=[], redir=['read', 'exit', 'isatty', 'getenv', 'signal', 'printf', 'vprintf', 'vfprintf', 'puts', 'putchar', 'tcgetattr', 'tcsetattr', 'fcntl', 'fstat', 'setvbuf', 'fflush', 'atexit'], src='mon', fork_select=1)
PROPS['D14'] = dict(runs=[dict(MON, name=n, repo=['keys', 'string', 'log'], defs={'TERM': int(n == 'terminal')}, qdefs={'NEV': 2}, tdefs={'NEV': 3}, covers=c) for n, c in (('terminal', ['key', 'time', 'device', 'other', 'help', 'ended', 'end']), ('keys', ['key', 'time', 'device', 'other', 'end']))] + [dict(MON, name='list', repo=['keys', 'string', 'log'], defs={'LIST': 1, 'NEV': 1}, covers=['end'])])


PROPS['C13'] = dict(runs=[dict(ENG, name='type', src='layouts', gen='layouts', log='own', fork_select=1, covers=['plain', 'shifted', 'composed', 'rolled', 'end'])])
