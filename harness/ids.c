/* C06 device ids; C07 aliases; C09 files; C10 layer headings; C11 structure of the file; C12 options. */
#include "conf.h"
#include "keynames.h"
static char id[80];
/* C06: entries over a small alphabet, matched against an arbitrary id */
static void match(void) {
	int n = (int)kse_choose(NIDS + 1, "ids"), wild = (int)kse_choose(2, "wildcard"), fl[4], len[4]; char e[4][32];
	static const char *base[] = {"", "1234:5678:0000000"}; const char *b = base[kse_choose(2, "base")]; int bl = (int)strlen(b);
	lit("[ids]\n"); int wpos = wild ? (int)kse_choose(n + 1, "position") : -1;
	for (int i = 0; i <= n; i++) {
		if (i == wpos) lit("*\n");
		if (i == n) break;
		static const char *pre[] = {"", "-", "k:", "m:", "*"}; int k = (int)kse_choose(5, "kind"); fl[i] = k; lit(pre[k]);
		len[i] = bl + 1 + (int)kse_choose(LEN, "len"); strcpy(e[i], b); lit(b); for (int j = bl; j < len[i]; j++) { char c = (char)('a' + kse_sym(1, "c")); e[i][j] = c; c_text[c_n++] = c; } lit("\n");
	}
	lit("[main]\n"); kse_check(!parse(), "the config is accepted");
	int l = bl + 1 + (int)kse_choose(LEN, "idlen"); strcpy(id, b); for (int j = bl; j < l; j++) id[j] = (char)('a' + kse_sym(1, "d")); id[l] = 0;
	static const uint8_t flags[] = {ID_KEYBOARD, ID_MOUSE, ID_KEYBOARD | ID_MOUSE, 0}; int f = flags[kse_choose(4, "device")];
	int want = wild ? 1 : 0;
	for (int i = 0; i < n; i++) { int m = len[i] <= l; for (int j = 0; j < len[i] && m; j++) if (e[i][j] != id[j]) m = 0; if (!m || fl[i] == 4) continue; if (fl[i] == 1) { want = 0; kse_cover("excluded"); break; } if (fl[i] == 0 && f || fl[i] == 2 && (f & ID_KEYBOARD) || fl[i] == 3 && (f & ID_MOUSE)) { want = 2; kse_cover("listed"); break; } }
	int r = config_check_match(&c_cfg, id, (uint8_t)f); kse_obs(r);
	kse_check((r == 0) == (want == 0), "a device is matched exactly if listed, or not excluded by a wildcard config"); kse_check(r == want, "an explicit match ranks above a wildcard one"); if (want == 1) kse_cover("wildcard"); if (!want) kse_cover("none");
}
/* C07: aliases */
static void alias(void) {
	static const struct { const char *n; int c; } key[] = {{"x", KEYD_X}, {"y", KEYD_Y}, {"leftshift", KEYD_LEFTSHIFT}, {"q", KEYD_Q}};
	static const struct { const char *n; int c; } nm[] = {{"foo", 0}, {"bar", 0}, {"w", KEYD_W}, {"shift", 0}, {"q", KEYD_Q}, {"minus", KEYD_MINUS}, {"a_name_of_31_characters_for_key", 0}, {"an_alias_that_is_32_characters__", 0}};
	int n = 1 + (int)kse_choose(kse_tier() ? 3 : 2, "aliases"), cur[4] = {-1, -1, 3, -1}, fb[4] = {0}, late = (int)kse_choose(2, "order"); /* the last alias of each key */
	lit("[ids]\n*\n"); if (late) { lit("[main]\na = b\n"); } lit("[aliases]\n");
	for (int i = 0; i < n; i++) { int k = (int)kse_choose(4, "key"), a = (int)kse_choose(8, "name"); lit(key[k].n); lit(" = "); lit(nm[a].n); lit("\n"); if (a == 7) { kse_cover("too_long"); continue; } cur[k] = a; if (nm[a].c) fb[k] = nm[a].c; }
	int b = (int)kse_choose(10, "bind"), lay = (int)kse_choose(2, "layer"); const char *lhs = b < 8 ? nm[b].n : b == 8 ? "x" : "nokey"; lit(lay ? "[l]\n" : "[main]\n"); lit(lhs); lit(" = 1\n"); 
	kse_check(!parse(), "the config is accepted"); int li = lay ? config_get_layer_index(&c_cfg, "l") : 0; kse_check(li >= 0, "the layer exists");
	int any = 0; for (int k = 0; k < 4; k++) if (cur[k] >= 0 && !strcmp(nm[cur[k]].n, lhs)) any = 1;
	if (!strcmp(lhs, "shift")) any = 1; /* rightshift keeps that alias */
	int self = b == 8 ? KEYD_X : b < 8 ? nm[b].c : 0;
	for (int c = 0; c < 256; c++) {
		int k = -1; for (int j = 0; j < 4; j++) if (key[j].c == c) k = j;
		int hit = k >= 0 && cur[k] >= 0 && !strcmp(nm[cur[k]].n, lhs) || c == KEYD_RIGHTSHIFT && !strcmp(lhs, "shift") || !any && self && self == c;
		const struct descriptor *d = &c_cfg.layers[li].keymap[c];
		if (hit) { kse_check(d->op == OP_KEYSEQUENCE && d->args[0].code == KEYD_1 && d->args[1].mods == 0, "an alias stands for each of its keys"); kse_cover("bound"); }
		else kse_check(!(d->op == OP_KEYSEQUENCE && d->args[0].code == KEYD_1), "a binding of an alias affects only its keys");
		if (!hit && k >= 0) { const struct descriptor *m = &c_cfg.layers[0].keymap[c]; if (fb[k] && !(lay == 0 && hit)) { kse_check(m->op == OP_KEYSEQUENCE && m->args[0].code == fb[k] && m->args[1].mods == 0, "a key whose alias is a key stands for that key"); kse_cover("redefined"); } else if (c != KEYD_LEFTSHIFT) kse_check(m->op == 0, "other keys stay unbound"); else kse_check(m->op == OP_LAYER, "modifier keys keep their layer"); }
	}
	kse_cover("end");
}
/* C12: options */
static void options(void) {
	static const char *name[] = {"macro_timeout", "macro_sequence_timeout", "disable_modifier_guard", "oneshot_timeout", "chord_hold_timeout", "chord_timeout", "macro_repeat_timeout", "layer_indicator", "overload_tap_timeout", "default_layout", "nonsense", "macro_timeout2"};
	static const char *lays[] = {"", "dv", "a_layout_with_a_long_name________________________________"};
	long want[9] = {600, 0, 0, 0, 0, 50, 50, 0, 0}; int lay = 0, n = (int)kse_choose(NOPT + 1, "options"); lit("[ids]\n*\n[global]\n");
	for (int i = 0; i < n; i++) {
		int o = (int)kse_choose(12, "option"); lit(name[o]);
		if (kse_choose(4, "form") == 0) { lit("\n"); continue; } /* no value: ignored */
		lit(kse_choose(2, "space") ? " = " : "="); if (o == 9) { lay = 1 + (int)kse_choose(2, "layout"); lit(lays[lay]); lit("\n"); continue; }
		static const int nd[] = {1, 2, 3, 5, 4, 6}; int d = nd[kse_choose(o == 2 || o == 7 ? 1 : kse_tier() ? 6 : 4, "digits")]; long v = 0; for (int j = 0; j < d; j++) { int x = (int)kse_sym(4, "digit"); kse_assume(x <= (o == 2 || o == 7 ? 1 : 9)); c_text[c_n++] = (char)('0' + x); v = v * 10 + x; } lit("\n");
		if (o < 9) want[o] = v;
	}
	lit("[dv:layout]\n[a_layout_with_a_long_name________________________________:layout]\n"); kse_check(!parse(), "the config is accepted");
	long got[9] = {c_cfg.macro_timeout, c_cfg.macro_sequence_timeout, c_cfg.disable_modifier_guard, c_cfg.oneshot_timeout, c_cfg.chord_hold_timeout, c_cfg.chord_interkey_timeout, c_cfg.macro_repeat_timeout, c_cfg.layer_indicator, c_cfg.overload_tap_timeout};
	for (int i = 0; i < 9; i++) kse_check(got[i] == want[i], "an option has the last value given, or its default");
	kse_check(!strcmp(c_cfg.default_layout, lays[lay]), "the default layout is the one named"); kse_cover("end");
}
/* C10: layer headings */
static void headings(void) {
	static const struct { const char *t; const char *n; int type, mods, c1, c2; } h[] = {
		{"nav", "nav", LT_NORMAL, 0, -1, -1}, {"nav:C", "nav", LT_NORMAL, MOD_CTRL, -1, -1}, {"nav:C-A", "nav", LT_NORMAL, MOD_CTRL | MOD_ALT, -1, -1}, {"dv:layout", "dv", LT_LAYOUT, 0, -1, -1}, {"control", "control", LT_NORMAL, MOD_CTRL, -1, -1}, {"control+alt", "control+alt", LT_COMPOSITE, 0, 1, 4},
		{"nav+shift", "nav+shift", LT_COMPOSITE, 0, -2, 2}, {"sym:S-G-M", "sym", LT_NORMAL, MOD_SHIFT | MOD_ALT_GR | MOD_SUPER, -1, -1}, {"main", "main", LT_LAYOUT, 0, -1, -1}, {"shift:A", "shift", LT_NORMAL, MOD_SHIFT, -1, -1}, {"bad:X", "bad", LT_NORMAL, 0, -1, -1}, {"control+nope", 0, 0, 0, 0, 0}, {"control+alt:C", 0, 0, 0, 0, 0}, {"sym+alt+shift", "sym+alt+shift", LT_COMPOSITE, 0, -3, 4}, {"nav+nav", "nav+nav", LT_COMPOSITE, 0, -2, -2},
		{"na", "na", LT_NORMAL, 0, -1, -1}, {"a_layer_whose_name_is_as_long_as_the_name_of_a_layer_can_be____1", "a_layer_whose_name_is_as_long_as_the_name_of_a_layer_can_be____1", LT_NORMAL, 0, -1, -1}, {"a_layer_whose_name_is_as_long_as_the_name_of_a_layer_can_be____2", "a_layer_whose_name_is_as_long_as_the_name_of_a_layer_can_be____2", LT_NORMAL, 0, -1, -1},
	};
	struct { const char *n; int type, mods, h; int bind[4]; } L[16]; char bn[8][80]; int bk[8], nl = 0, n = 1 + (int)kse_choose(NH, "headings"); lit("[ids]\n*\n");
	static const char *def[] = {"main", "control", "shift", "meta", "alt", "altgr"}; static const int dm[] = {0, MOD_CTRL, MOD_SHIFT, MOD_SUPER, MOD_ALT, MOD_ALT_GR};
	for (int i = 0; i < 6; i++) { L[nl].n = def[i]; L[nl].type = i ? LT_NORMAL : LT_LAYOUT; L[nl].mods = dm[i]; L[nl].h = -1; memset(L[nl].bind, 0, sizeof L[nl].bind); nl++; }
	for (int i = 0; i < n; i++) {
		int k = (int)kse_choose(18, "heading"), key = (int)kse_choose(2, "key"), x = -1; lit("["); lit(h[k].t); lit("]\n"); lit(key ? "b" : "a"); lit(" = "); num(i + 1); lit("\n");
		char nb[80]; int m = 0; for (; h[k].t[m] && h[k].t[m] != ':'; m++) nb[m] = h[k].t[m]; nb[m] = 0;
		for (int j = 0; j < nl; j++) if (!strcmp(L[j].n, nb)) x = j;
		if (x < 0 && h[k].n) { int ok = 1; int c[2] = {h[k].c1, h[k].c2}; if (h[k].type == LT_COMPOSITE) for (int j = 0; j < 2; j++) { if (c[j] >= 0) continue; const char *w = c[j] == -2 ? "nav" : "sym"; int f = 0; for (int q = 0; q < nl; q++) if (!strcmp(L[q].n, w)) f = 1; if (!f) ok = 0; }
			if (ok) { x = nl++; L[x].n = h[k].n; L[x].type = h[k].type; L[x].mods = h[k].mods; L[x].h = k; memset(L[x].bind, 0, sizeof L[x].bind); } else kse_cover("refused"); }
		strcpy(bn[i], nb); bk[i] = key;
	}
	for (int i = 0; i < n; i++) for (int j = 0; j < nl; j++) if (!strcmp(L[j].n, bn[i])) L[j].bind[bk[i]] = i + 1;
	kse_check(!parse(), "the config is accepted"); kse_check((int)c_cfg.nr_layers == nl, "there is one layer for each distinct valid heading");
	for (int i = 0; i < nl; i++) {
		const struct layer *l = &c_cfg.layers[i]; kse_check(!strcmp(l->name, L[i].n), "a layer has the name of its heading"); kse_check((int)l->type == L[i].type, "a layer has the type of its first heading"); if (l->type == LT_NORMAL) kse_check(l->mods == L[i].mods, "a layer has the modifiers of its first heading");
		if (l->type == LT_COMPOSITE) { int k = L[i].h, s = 0; const char *p = h[k].n; while (*p) { char w[16]; int m = 0; while (*p && *p != '+') w[m++] = *p++; w[m] = 0; if (*p) p++; kse_check(s < (int)l->nr_constituents && !strcmp(c_cfg.layers[l->constituents[s]].name, w), "a composite layer consists of the layers it names"); s++; } kse_check(s == (int)l->nr_constituents, "a composite layer consists of the layers it names"); kse_cover("composite"); }
		for (int q = 0; q < 2; q++) { const struct descriptor *d = &l->keymap[q ? KEYD_B : KEYD_A]; if (L[i].bind[q]) kse_check(d->op == OP_KEYSEQUENCE && d->args[0].code == KEYD_1 + L[i].bind[q] - 1, "a layer has the sum of the bindings under its headings, the last one winning"); else kse_check(!d->op, "a layer has no other bindings"); }
	}
	kse_cover("end");
}
void harness_main(void) { MODE(); }
