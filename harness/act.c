/* C03: an action means what it says. C02: a binding changes its own key only. */
#include "conf.h"
static char t[1024]; static int tn; /* text being generated */
static void a(const char *s) { int n = (int)strlen(s); memcpy(t + tn, s, n); tn += n; t[tn] = 0; }
static int lvl; /* nesting; full breadth at the outermost level, and at one of the nested arguments */
#define WIDE(n, m) (lvl <= kse_tier() ? (n) : (m))
static int number(void) { int v = 0, n = WIDE(1 + kse_choose(kse_tier() && !lvl ? 4 : 2, "digits"), 1); for (int i = 0; i < n; i++) { int d = (int)kse_sym(4, "digit"); kse_assume(d <= 9); t[tn++] = '0' + d; v = v * 10 + d; } t[tn] = 0; return v; }
enum { AK, AN, AL, AY, AM, AD }; /* key sequence, number, layer, layout, macro, action */
static const struct { const char *name; int op; int n; int arg[3]; } fn[] = {
	{"layer", OP_LAYER, 1, {AL}}, {"oneshot", OP_ONESHOT, 1, {AL}}, {"toggle", OP_TOGGLE, 1, {AL}}, {"swap", OP_SWAP, 1, {AL}}, {"clear", OP_CLEAR, 0, {0}},
	{"layerm", OP_LAYERM, 2, {AL, AM}}, {"oneshotm", OP_ONESHOTM, 2, {AL, AM}}, {"togglem", OP_TOGGLEM, 2, {AL, AM}}, {"swapm", OP_SWAPM, 2, {AL, AM}}, {"clearm", OP_CLEARM, 1, {AM}},
	{"setlayout", OP_LAYOUT, 1, {AY}}, {"overload", OP_OVERLOAD, 2, {AL, AD}}, {"overloadt", OP_OVERLOAD_TIMEOUT, 3, {AL, AD, AN}}, {"overloadt2", OP_OVERLOAD_TIMEOUT_TAP, 3, {AL, AD, AN}},
	{"overloadi", OP_OVERLOAD_IDLE_TIMEOUT, 3, {AD, AD, AN}}, {"timeout", OP_TIMEOUT, 3, {AD, AN, AD}}, {"macro2", OP_MACRO2, 3, {AN, AN, AM}}, {"scroll", OP_SCROLL, 1, {AN}}, {"scrollt", OP_SCROLL_TOGGLE, 1, {AN}},
};
#define NF ((int)(sizeof fn / sizeof *fn))
struct node { int kind, op, v, mods; struct node *c[3]; }; static struct node pool[64]; static int np;
static const char *lname[] = {"l", "control", "m"}; static const char *yname[] = {"dv", "main"};
static const struct { const char *txt; int code, mods; } ks[] = {{"b", KEYD_B, 0}, {"C-S-x", KEYD_X, MOD_CTRL | MOD_SHIFT}, {"G-M-enter", KEYD_ENTER, MOD_ALT_GR | MOD_SUPER}, {"A-}", KEYD_RIGHTBRACE, MOD_ALT | MOD_SHIFT}};
static struct node *mk(int kind) { struct node *x = &pool[np++]; x->kind = kind; return x; }
static struct node *key(void) { struct node *x = mk(AK); int k = kse_choose(WIDE(4, 2), "key"); a(ks[k].txt); x->v = ks[k].code; x->mods = ks[k].mods; return x; }
static struct node *gen(int depth);
static struct node *arg(int ty, int depth) {
	struct node *x; int k;
	switch (ty) {
	case AN: x = mk(AN); x->v = number(); return x;
	case AL: x = mk(AL); k = kse_choose(WIDE(2, 1), "layer"); a(lname[k]); x->v = config_get_layer_index(&c_cfg, lname[k]); return x;
	case AY: x = mk(AY); k = kse_choose(WIDE(2, 1), "layout"); a(yname[k]); x->v = config_get_layer_index(&c_cfg, yname[k]); return x;
	case AM: x = mk(AM); x->mods = kse_choose(2, "macro"); if (x->mods) { a("macro("); a("x C-y"); a(")"); } else a("C-q"); return x;
	default: lvl++; x = gen(depth - 1); lvl--; return x;
	}
}
static struct node *gen(int depth) {
	int w = kse_choose(depth > 0 ? NF + 3 : 2, "action"); struct node *x;
	if (w == 0) return key();
	if (w == 1) { x = mk(AD); x->op = OP_MACRO; x->c[0] = mk(AM); x->c[0]->mods = 1; a("macro(x C-y)"); return x; }
	if (w == 2) { x = mk(AD); x->op = OP_COMMAND; a("command(echo \\(hi\\))"); return x; }
	w -= 3; x = mk(AD); x->op = fn[w].op; a(fn[w].name); a("(");
	for (int i = 0; i < fn[w].n; i++) { static const char *sep[] = {",", ", ", ",   "}; if (i) a(sep[lvl == 0 ? kse_choose(3, "space") : 0]); x->c[i] = arg(fn[w].arg[i], i && fn[w].arg[0] == AD ? 1 : depth); }
	a(")"); return x;
}
static int macro_ok(const struct macro *m, int kind) {
	if (!kind) return m->sz == 1 && m->entries[0].type == MACRO_KEYSEQUENCE && m->entries[0].data == (MOD_CTRL << 8 | KEYD_Q);
	return m->sz == 2 && m->entries[0].type == MACRO_KEYSEQUENCE && m->entries[0].data == KEYD_X && m->entries[1].type == MACRO_KEYSEQUENCE && m->entries[1].data == (MOD_CTRL << 8 | KEYD_Y);
}
static void same(const struct descriptor *d, const struct node *x) {
	if (x->kind == AK) { kse_check(d->op == OP_KEYSEQUENCE && d->args[0].code == x->v && d->args[1].mods == x->mods, "a key sequence is bound to its key and modifiers"); return; }
	kse_check((int)d->op == x->op, "the action is the one named");
	if (x->op == OP_COMMAND) { kse_check(!strcmp(c_cfg.commands[d->args[0].idx].cmd, "echo (hi)"), "the command is the text given"); kse_cover("command"); return; }
	for (int i = 0; i < 3 && x->c[i]; i++) switch (x->c[i]->kind) {
		case AN: kse_check(d->args[i].timeout == x->c[i]->v, "numbers are taken as written"); break;
		case AL: case AY: kse_check(d->args[i].idx == x->c[i]->v, "layers are the ones named"); break;
		case AM: kse_check(macro_ok(&c_cfg.macros[d->args[i].idx], x->c[i]->mods), "macros are the ones written"); break;
		default: kse_check(d->args[i].idx >= 0 && d->args[i].idx < (int)c_cfg.nr_descriptors, "nested actions exist"); same(&c_cfg.descriptors[d->args[i].idx], x->c[i]); kse_cover("nested"); break;
	}
}
static void setup(void) { lit("[ids]\n*\n[aliases]\nx = foo\ny = foo\nz = bar\n[main]\nq = e\nj+k = esc\n[l]\nw = r\n[m:C]\n[dv:layout]\n[l+m]\n"); kse_check(!parse(), "valid config accepted"); }
static void meaning(void) {
	setup(); a("a = "); struct node *x = gen(kse_tier() ? 3 : 2); kse_obs(tn);
	kse_check(config_add_entry(&c_cfg, t) == 0, "a valid action is accepted");
	same(&c_cfg.layers[0].keymap[KEYD_A], x); kse_cover("end");
}
/* what each action takes: how many arguments, and of which kind */
static const struct { const char *txt; int ok; } ap[] = { /* bit AK..AD: acceptable there; numbers are not claimed to be refused */
	{"b", 1 << AM | 1 << AD}, {"150", 1 << AN}, {"5", 1 << AN | 1 << AM | 1 << AD}, {"nav", 1 << AL}, {"dw", 1 << AY}, {"main", 1 << AY}, {"nav+control", 1 << AL}, {"macro(x y)", 1 << AM | 1 << AD},
	{"zzz", 0}, {"layer(nav)", 1 << AD}, {"\xc3\xa9", 1 << AM | 1 << AD}, {"shift", 1 << AL | 1 << 8}, {"dv", 1 << AY}, {"l", 1 << AL | 1 << AM | 1 << AD}, {"overload(nav, b)", 1 << AD}, {"overload(nav)", 0}, {"M-S-x", 1 << AM | 1 << AD}, {"Q-x", 0}, {"command(ls)", 1 << AD}, {"layer(dw)", 0} };
#define NAP ((int)(sizeof ap / sizeof *ap))
static const struct { const char *name; int as; } old[] = {{"overload2", 12}, {"overload3", 13}, {"toggle2", 7}, {"swap2", 8}};
static int is(const struct descriptor *d, int ty, int i, int p) {
	int idx; const struct descriptor *e; const struct macro *m;
	switch (ty) {
	case AN: return d->args[i].timeout == (p == 1 ? 150 : 5);
	case AL: case AY: idx = d->args[i].idx; return idx >= 0 && idx < (int)c_cfg.nr_layers && !strcmp(c_cfg.layers[idx].name, ap[p].txt);
	case AM: idx = d->args[i].idx; if (idx < 0 || idx >= (int)c_cfg.nr_macros) return 0; m = &c_cfg.macros[idx];
		if (p == 7) return m->sz == 2 && m->entries[1].type == MACRO_KEYSEQUENCE && m->entries[1].data == KEYD_Y;
		if (p == 10) return m->sz == 1 && m->entries[0].type == MACRO_UNICODE;
		return m->sz == 1 && m->entries[0].type == MACRO_KEYSEQUENCE && m->entries[0].data == (unsigned)(p == 0 ? KEYD_B : p == 2 ? KEYD_5 : p == 13 ? KEYD_L : (MOD_SUPER | MOD_SHIFT) << 8 | KEYD_X);
	case AD: idx = d->args[i].idx; if (idx < 0 || idx >= (int)c_cfg.nr_descriptors) return 0; e = &c_cfg.descriptors[idx];
		if (p == 7 || p == 10) return e->op == OP_MACRO && is(e, AM, 0, p);
		if (p == 9) return e->op == OP_LAYER && is(e, AL, 0, 3);
		if (p == 14) return e->op == OP_OVERLOAD && is(e, AL, 0, 3) && is(e, AD, 1, 0);
		if (p == 18) return e->op == OP_COMMAND && !strcmp(c_cfg.commands[e->args[0].idx].cmd, "ls");
		return e->op == OP_KEYSEQUENCE && e->args[0].code == (p == 0 ? KEYD_B : p == 2 ? KEYD_5 : p == 13 ? KEYD_L : KEYD_X) && e->args[1].mods == (p == 16 ? MOD_SUPER | MOD_SHIFT : 0);
	}
	return 0;
}
static void args(void) {
	static const int good[][2] = {{0}, {1, 2}, {3, 6}, {4, 5}, {0, 7}, {0, 9}}; /* per kind */
	lit("[ids]\n*\n[main]\nq = e\n[l]\n[l1]\n[l2]\n[l3]\n[dv:layout]\n[nav]\n[dw:layout]\n[nav+control]\n"); kse_check(!parse(), "the fixed part is valid");
	int f = kse_choose(NF + 4 + 1, "action"), lm = f == NF + 4, g = f < NF ? f : lm ? -1 : old[f - NF].as, n = lm ? 4 : fn[g].n, ty[6] = {0}, p[6];
	static const int lt[] = {AL, AK, AN, AN};
	for (int i = 0; i < n; i++) ty[i] = lm ? lt[i] : fn[g].arg[i];
	if (lm) ty[1] = AD; /* what is sent when tapped */
	int cnt = kse_choose(n + 3, "count"), odd = cnt ? kse_choose(cnt, "which") : 0, w = kse_choose(cnt ? NAP : 1, "what"), ok = cnt == n;
	a("a = "); a(lm ? "lettermod" : f < NF ? fn[f].name : old[f - NF].name); a("(");
	for (int i = 0; i < cnt; i++) {
		p[i] = i == odd ? w : i < n ? good[ty[i]][i & 1] : 0; if (lm && i == 2 && odd != 2) p[i] = 1; if (lm && i == 3 && odd != 3) p[i] = 2;
		if (i < n && !(ap[p[i]].ok >> ty[i] & 1)) { if (ty[i] == AN) kse_end(); ok = 0; }
		if (i) a(", "); a(ap[p[i]].txt);
	}
	a(")"); kse_obs(tn); struct descriptor was = c_cfg.layers[0].keymap[KEYD_A];
	int r = config_add_entry(&c_cfg, t); kse_obs(r);
	kse_check((r == 0) == ok, "an action is accepted exactly with the arguments it takes");
	const struct descriptor *d = &c_cfg.layers[0].keymap[KEYD_A];
	if (!ok) { kse_check(kse_same(d, &was, sizeof was), "a refused binding changes nothing"); kse_cover("refused"); return; }
	if (lm) { const struct descriptor *o;
		kse_check(d->op == OP_OVERLOAD_IDLE_TIMEOUT && is(d, AD, 0, p[1]) && is(d, AN, 2, p[2]), "lettermod sends its key at once within the idle timeout");
		o = &c_cfg.descriptors[d->args[1].idx]; kse_check(o->op == OP_OVERLOAD_TIMEOUT_TAP && is(o, AL, 0, p[0]) && is(o, AD, 1, p[1]) && is(o, AN, 2, p[3]), "and is an overload with its hold timeout otherwise"); kse_cover("lettermod"); return; }
	kse_check((int)d->op == fn[g].op, "the action is the one named (or its new name)");
	for (int i = 0; i < n; i++) kse_check(is(d, ty[i], i, p[i]), "each argument is the one given"); kse_cover("accepted");
}
/* modifier keys as values act as their layers */
static void modkeys(void) {
	static const struct { const char *k; uint8_t code; const char *l; } mk[] = {{"leftshift", KEYD_LEFTSHIFT, "shift"}, {"leftcontrol", KEYD_LEFTCTRL, "control"}, {"leftmeta", KEYD_LEFTMETA, "meta"}, {"leftalt", KEYD_LEFTALT, "alt"}, {"rightalt", KEYD_RIGHTALT, "altgr"}, {"rightshift", KEYD_RIGHTSHIFT, 0}, {"rightcontrol", KEYD_RIGHTCTRL, 0}, {"rightmeta", KEYD_RIGHTMETA, 0}, {"capslock", KEYD_CAPSLOCK, 0}};
	lit("[ids]\n*\n[main]\nq = e\n[l]\n"); kse_check(!parse(), "the fixed part is valid"); int i = kse_choose(9, "key"), in = kse_choose(2, "nested");
	a("a = "); if (in) a("overload(l, "); a(mk[i].k); if (in) a(")"); kse_check(!config_add_entry(&c_cfg, t), "a modifier may be bound to");
	const struct descriptor *d = &c_cfg.layers[0].keymap[KEYD_A]; if (in) d = &c_cfg.descriptors[d->args[1].idx];
	if (mk[i].l) kse_check(d->op == OP_LAYER && !strcmp(c_cfg.layers[d->args[0].idx].name, mk[i].l), "a left modifier (or AltGr) is its layer");
	else kse_check(d->op == OP_KEYSEQUENCE && d->args[0].code == mk[i].code && !d->args[1].mods, "another key is itself"); kse_cover("end");
}
/* commands of any length: the text given, or refused */
static void cmdlen(void) {
	lit("[ids]\n*\n[main]\nq = e\n"); kse_check(!parse(), "the fixed part is valid"); static const int len[] = {1, 100, 200, 230, 238, 239, 240, 241, 245, 247, 248, 249, 253, 254, 255, 256, 257, 258, 262, 265, 266, 270, 300, 900};
	int n = len[kse_choose(24, "length")]; a("a = command("); for (int i = 0; i < n; i++) t[tn++] = 'a' + i % 26; t[tn] = 0; a(")"); int r = config_add_entry(&c_cfg, t); kse_obs(r);
	if (n <= 200) kse_check(!r, "a command of moderate length is accepted"); if (n > (int)sizeof c_cfg.commands[0].cmd) kse_check(r, "a command that does not fit is refused");
	if (!r) { const char *c = c_cfg.commands[0].cmd; kse_check((int)strlen(c) == n && c[n - 1] == 'a' + (n - 1) % 26, "a command is stored whole"); kse_cover("stored"); }
	else { kse_check(c_cfg.layers[0].keymap[KEYD_A].op != OP_COMMAND, "a refused command binds nothing"); kse_cover("refused"); }
	kse_check(c_cfg.layers[0].keymap[KEYD_Q].args[0].code == KEYD_E && c_cfg.nr_commands == (r == 0), "nothing else changes");
}
/* C02 */
static struct config before;
static void rest_same(int lay, const unsigned char *keys, int chord) {
	for (int i = 0; i < MAX_LAYERS; i++) {
		const struct layer *p = &before.layers[i], *q = &c_cfg.layers[i];
		if (i != lay) { kse_check(kse_same(p, q, sizeof *p), "a binding changes no other layer"); continue; }
		for (int k = 0; k < 256; k++) if (!keys[k]) kse_check(kse_same(&p->keymap[k], &q->keymap[k], sizeof p->keymap[k]), "a binding changes no other key");
		if (!chord) kse_check(kse_same(p->chords, q->chords, sizeof p->chords) && p->nr_chords == q->nr_chords, "a binding changes no chord");
		kse_check(kse_same(p->name, q->name, sizeof p->name) && p->type == q->type && p->mods == q->mods && p->nr_constituents == q->nr_constituents && kse_same(p->constituents, q->constituents, sizeof p->constituents), "a binding changes no layer");
	}
	kse_check(kse_same(before.descriptors, c_cfg.descriptors, before.nr_descriptors * sizeof before.descriptors[0]), "existing actions stay");
	kse_check(kse_same(before.macros, c_cfg.macros, before.nr_macros * sizeof before.macros[0]), "existing macros stay");
	kse_check(kse_same(before.commands, c_cfg.commands, before.nr_commands * sizeof before.commands[0]), "existing commands stay");
	kse_check(kse_same(before.aliases, c_cfg.aliases, sizeof before.aliases) && kse_same(before.ids, c_cfg.ids, sizeof before.ids) && before.nr_ids == c_cfg.nr_ids && before.wildcard == c_cfg.wildcard && before.nr_layers == c_cfg.nr_layers, "aliases, ids and layers stay");
	kse_check(before.macro_timeout == c_cfg.macro_timeout && before.macro_repeat_timeout == c_cfg.macro_repeat_timeout && before.oneshot_timeout == c_cfg.oneshot_timeout && before.chord_interkey_timeout == c_cfg.chord_interkey_timeout && before.chord_hold_timeout == c_cfg.chord_hold_timeout && before.overload_tap_timeout == c_cfg.overload_tap_timeout && before.macro_sequence_timeout == c_cfg.macro_sequence_timeout && kse_same(before.default_layout, c_cfg.default_layout, sizeof before.default_layout), "options stay");
}
static void effect(void) {
	static const struct { const char *txt; int lay; } pre[] = {{"", 0}, {"main.", 0}, {"l.", -2}, {"m.", -3}, {"l+m.", -4}, {"dv.", -5}, {"nope.", -1}};
	static const char *ln[] = {"l", "m", "l+m", "dv"};
	static const struct { const char *txt; int k1, k2, n; } key[] = {{"a", KEYD_A, 0, 1}, {"q", KEYD_Q, 0, 1}, {"leftshift", KEYD_LEFTSHIFT, 0, 1}, {"foo", KEYD_X, KEYD_Y, 2}, {"bar", KEYD_Z, 0, 1}, {"shift", KEYD_LEFTSHIFT, KEYD_RIGHTSHIFT, 2}, {"esc", KEYD_ESC, 0, 1}, {"=", KEYD_EQUAL, 0, 1}, {"nokey", 0, 0, 0}, {"", 0, 0, 0}, {"escape", KEYD_ESC, 0, 1}, {"minus", KEYD_MINUS, 0, 1}, {".", KEYD_DOT, 0, 1}};
	static const struct { const char *txt; int ok; int op; } val[] = {{"b", 1, OP_KEYSEQUENCE}, {"layer(l)", 1, OP_LAYER}, {"overload(l, macro(x y))", 1, OP_OVERLOAD}, {"macro(a b)", 1, OP_MACRO}, {"", 1, 0}, {"layer(nope)", 0, 0}, {"layer(main)", 0, 0}, {"layer(dv)", 0, 0}, {"setlayout(l)", 0, 0}, {"overload(l, layer(nope))", 0, 0}, {"overload(macro(x), l)", 0, 0}, {"timeout(macro(x), 5, nokey)", 0, 0}, {"layer(l, l)", 0, 0}, {"layer()", 0, 0}, {"foo(b)", 0, 0}, {"layer(l", 0, 0}, {"C-CC", 0, 0}, {"bb", 0, 0}, {"command(x)", 1, OP_COMMAND}, {".", 1, OP_KEYSEQUENCE}, {"C-.", 1, OP_KEYSEQUENCE}, {"macro(a .)", 1, OP_MACRO}, {"l.b", 0, 0}};
	static const int vk[] = {KEYD_DOT, KEYD_DOT}, vm[] = {0, MOD_CTRL};
	int p = kse_choose(7, "layer"), k = kse_choose(13, "key"), v = kse_choose(23, "value");
	if (k == 9 && v == 4) kse_end(); /* "=": the key, not an empty one */
	setup(); int lay = pre[p].lay < -1 ? config_get_layer_index(&c_cfg, ln[-2 - pre[p].lay]) : pre[p].lay;
	a(pre[p].txt); a(key[k].txt); a(kse_choose(2, "spacing") ? " = " : "="); a(val[v].txt);
	memcpy(&before, &c_cfg, sizeof before);
	int r = config_add_entry(&c_cfg, t), ok = lay >= 0 && key[k].n && val[v].ok; kse_obs(r);
	kse_check((r == 0) == ok, "a binding is accepted exactly if its layer, key and action exist");
	unsigned char keys[256] = {0};
	if (ok) {
		for (int i = 0; i < 256; i++) keys[i] = i && (i == key[k].k1 || i == key[k].k2);
		for (int i = 0; i < 256; i++) if (keys[i]) { const struct descriptor *d = &c_cfg.layers[lay].keymap[i]; kse_check((int)d->op == val[v].op, "the key is bound to the action, replacing any earlier binding"); if (val[v].op == OP_KEYSEQUENCE) kse_check(d->args[0].code == (v < 19 ? KEYD_B : vk[v - 19]) && d->args[1].mods == (v < 19 ? 0 : vm[v - 19]), "the key is bound to the action, replacing any earlier binding"); if (val[v].op == OP_LAYER) kse_check(d->args[0].idx == config_get_layer_index(&c_cfg, "l"), "the key is bound to the action, replacing any earlier binding"); }
		kse_cover("bound");
	} else kse_cover("refused");
	rest_same(lay, keys, 0);
}
/* chords: the binding of a set of keys replaces that of the same set only */
static void chords(void) {
	static const struct { const char *txt; uint8_t c; } kk[] = {{"a", KEYD_A}, {"s", KEYD_S}, {"d", KEYD_D}, {"minus", KEYD_MINUS}};
	setup(); int n = kse_tier() ? 4 : 3; unsigned set[4]; int bound[4];
	for (int i = 0; i < n; i++) {
		int m = 2 + kse_choose(2, "size"), used = 0; tn = 0; a("l.");
		for (int j = 0; j < m; j++) { int k = kse_choose(4, "key"); if (used >> k & 1) kse_end(); used |= 1 << k; if (j) a("+"); a(kk[k].txt); }
		set[i] = used; bound[i] = KEYD_1 + i; static const char *vt[] = {" = 1", " = 2", " = 3", " = 4"}; a(vt[i]);
		kse_check(config_add_entry(&c_cfg, t) == 0, "a chord is accepted");
	}
	const struct layer *l = &c_cfg.layers[config_get_layer_index(&c_cfg, "l")]; int distinct = 0;
	for (int i = 0; i < n; i++) {
		int last = 1; for (int j = i + 1; j < n; j++) if (set[j] == set[i]) last = 0; 
		if (!last) { kse_cover("replaced"); continue; } distinct++;
		int f = 0; for (int c = 0; c < (int)l->nr_chords; c++) { unsigned s = 0; for (int j = 0; j < (int)l->chords[c].sz; j++) for (int k = 0; k < 4; k++) if (l->chords[c].keys[j] == kk[k].c) s |= 1u << k; if (s == set[i]) { f++; kse_check(l->chords[c].d.op == OP_KEYSEQUENCE && l->chords[c].d.args[0].code == bound[i], "a chord is bound to the last action given for its keys"); } }
		kse_check(f == 1, "a chord is stored once");
	}
	kse_check((int)l->nr_chords == distinct, "no other chord is added"); kse_check(c_cfg.layers[0].nr_chords == 1, "chords of other layers stay"); kse_cover("end");
}
void harness_main(void) { MODE(); }
