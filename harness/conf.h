/* Configuration text built from fixed parts and arbitrary bytes. */
#ifndef CONF_H
#define CONF_H
#include <string.h>
#include "kse.h"
#include "keyd.h"
#include "ini.h"
#include "env_vfs.h"
#define CMAX 70000
static char c_text[CMAX]; static int c_n; static struct config c_cfg;
static void lit(const char *s) { int n = (int)strlen(s); memcpy(c_text + c_n, s, n); c_n += n; }
static void num(int v) { char b[12]; int i = 11; b[i] = 0; do b[--i] = '0' + v % 10; while (v /= 10); lit(b + i); }
/* any 7-bit characters; also UTF-8 lead and continuation bytes of every class, followed by a few interesting bytes */
static void hole(int n) {
	int hi = 0;
	for (int i = 0; i < n; i++) {
		static const unsigned char h[] = {0xa9, 0xc3, 0xe2, 0xf0, 0xff}, a[] = {0, ')', ' ', 'a', '\n', 0xa9, 0xff};
		if (hi) c_text[c_n++] = (char)a[kse_choose(7, "after")];
		else if (kse_choose(2, "high")) { c_text[c_n++] = (char)h[kse_choose(5, "class")]; hi = 1; }
		else c_text[c_n++] = (char)kse_sym(7, "byte");
	}
}
static void from(int n, const char *al) { int m = (int)strlen(al); for (int i = 0; i < n; i++) c_text[c_n++] = al[kse_choose(m, "char")]; }
static void rep(const char *s, int n) { while (n-- > 0) lit(s); }
static int parse(void) { vfs_clear(); vfs_add("/c/t.conf", c_text, c_n); return config_parse(&c_cfg, "/c/t.conf"); }
static int argt(int op, int i) { /* 1 layer 2 layout 3 macro 4 descriptor 5 command 6 code 0 none/number */
	switch (op) {
	case OP_KEYSEQUENCE: return i == 0 ? 6 : 0;
	case OP_ONESHOT: case OP_SWAP: case OP_LAYER: case OP_TOGGLE: return i == 0 ? 1 : 0;
	case OP_ONESHOTM: case OP_LAYERM: case OP_SWAPM: case OP_TOGGLEM: return i == 0 ? 1 : i == 1 ? 3 : 0;
	case OP_LAYOUT: return i == 0 ? 2 : 0; case OP_CLEARM: return i == 0 ? 3 : 0;
	case OP_OVERLOAD: case OP_OVERLOAD_TIMEOUT: case OP_OVERLOAD_TIMEOUT_TAP: return i == 0 ? 1 : i == 1 ? 4 : 0;
	case OP_OVERLOAD_IDLE_TIMEOUT: return i < 2 ? 4 : 0; case OP_TIMEOUT: return i != 1 ? 4 : 0;
	case OP_MACRO: return i == 0 ? 3 : 0; case OP_MACRO2: return i == 2 ? 3 : 0; case OP_COMMAND: return i == 0 ? 5 : 0;
	} return 0;
}
static int valid_d(const struct config *c, const struct descriptor *d, int limit) {
	if ((int)d->op < 0 || d->op > OP_SCROLL) return 0;
	for (int i = 0; i < 3; i++) { int x = d->args[i].idx;
		switch (argt(d->op, i)) {
		case 1: if (x <= 0 || x >= (int)c->nr_layers || c->layers[x].type == LT_LAYOUT) return 0; break;
		case 2: if (x < 0 || x >= (int)c->nr_layers || (x && c->layers[x].type != LT_LAYOUT)) return 0; break;
		case 3: if (x < 0 || x >= (int)c->nr_macros) return 0; break;
		case 4: if (x < 0 || x >= limit || c->descriptors[x].op == 0 && 0) return 0; break;
		case 5: if (x < 0 || x >= (int)c->nr_commands) return 0; break;
		case 6: if (!d->args[0].code) return 0; break;
		} }
	return 1;
}
/* every stored reference is usable */
static int wellformed(const struct config *c) {
	if (c->nr_layers > MAX_LAYERS || c->nr_macros > ARRAY_SIZE(c->macros) || c->nr_descriptors > ARRAY_SIZE(c->descriptors) || c->nr_commands > ARRAY_SIZE(c->commands) || c->nr_ids > ARRAY_SIZE(c->ids)) return 0;
	for (int i = 0; i < (int)c->nr_layers; i++) {
		const struct layer *l = &c->layers[i];
		for (int k = 0; k < 256; k++) if (l->keymap[k].op && !valid_d(c, &l->keymap[k], (int)c->nr_descriptors)) return 0;
		if (l->nr_chords > ARRAY_SIZE(l->chords)) return 0;
		for (int k = 0; k < (int)l->nr_chords; k++) { if (l->chords[k].sz < 1 || l->chords[k].sz > ARRAY_SIZE(l->chords[k].keys) || !valid_d(c, &l->chords[k].d, (int)c->nr_descriptors)) return 0; for (int j = 0; j < (int)l->chords[k].sz; j++) if (!l->chords[k].keys[j]) return 0; }
		if (l->type == LT_COMPOSITE) { if (l->nr_constituents > ARRAY_SIZE(l->constituents)) return 0; for (int k = 0; k < (int)l->nr_constituents; k++) if (l->constituents[k] < 0 || l->constituents[k] >= i) return 0; }
		if (l->mods & ~31) return 0;
		if (!memchr(l->name, 0, sizeof l->name)) return 0;
	}
	/* an action refers only to earlier ones: expansion terminates */
	for (int i = 0; i < (int)c->nr_descriptors; i++) if (c->descriptors[i].op && !valid_d(c, &c->descriptors[i], i)) return 0;
	for (int i = 0; i < (int)c->nr_macros; i++) { if (c->macros[i].sz > ARRAY_SIZE(c->macros[i].entries)) return 0; for (int k = 0; k < (int)c->macros[i].sz; k++) if ((int)c->macros[i].entries[k].type < 0 || c->macros[i].entries[k].type > MACRO_TIMEOUT) return 0; }
	for (int i = 0; i < (int)c->nr_commands; i++) if (!memchr(c->commands[i].cmd, 0, sizeof c->commands[i].cmd)) return 0;
	for (int i = 0; i < (int)c->nr_ids; i++) if (!memchr(c->ids[i].id, 0, sizeof c->ids[i].id)) return 0;
	for (int i = 0; i < 256; i++) if (!memchr(c->aliases[i], 0, sizeof c->aliases[i])) return 0;
	return 1;
}
#endif
