/* C05: a macro expression denotes the steps it spells out. */
#include <string.h>
#include "kse.h"
#include "keyd.h"
#include "keynames.h"
int parse_macro_expression(const char *s, struct macro *macro);
static char t[512]; static int n; static struct { int type, data; } want[64]; static int nw; static struct macro m;
static void a(const char *s) { while (*s) t[n++] = *s++; t[n] = 0; }
static void w(int type, int data) { want[nw].type = type; want[nw].data = data; nw++; }
static const struct { const char *t; int code, mods; } ks[] = {{"b", KEYD_B, 0}, {"enter", KEYD_ENTER, 0}, {"A", KEYD_A, MOD_SHIFT}, {"C-x", KEYD_X, MOD_CTRL}, {"C-A-S-tab", KEYD_TAB, MOD_CTRL | MOD_ALT | MOD_SHIFT}, {"M-G-minus", KEYD_MINUS, MOD_SUPER | MOD_ALT_GR}, {"+", KEYD_EQUAL, MOD_SHIFT}, {"5", KEYD_5, 0}, {"leftshift", KEYD_LEFTSHIFT, 0}};
static int number(void) { int v = 0, k = 1 + kse_choose(kse_tier() ? 4 : 2, "digits"); for (int i = 0; i < k; i++) { int d = (int)kse_sym(4, "digit"); kse_assume(d <= 9); t[n++] = '0' + d; v = v * 10 + d; } if (kse_choose(2, "long")) for (int i = 0; i < 4; i++) { t[n++] = '0' + i; v = v * 10 + i; } t[n] = 0; return v; }
static void ascii(char c) { for (int i = 0; i < NKEYNAMES; i++) { if (key_names[i].name[0] == c && !key_names[i].name[1]) w(MACRO_KEYSEQUENCE, key_names[i].code); else if (key_names[i].shifted && key_names[i].shifted[0] == c && !key_names[i].shifted[1]) w(MACRO_KEYSEQUENCE, MOD_SHIFT << 8 | key_names[i].code); } }
static void uni(int narrow) { /* the first compose sequences are those of U+0080 onwards */
	int wide = kse_choose(2, "wide"), c = wide ? 0x2030 + (int)kse_sym(narrow ? 1 : 4, "char") : 0x80 + (int)kse_sym(narrow ? 1 : 8, "char"); c = (int)kse_concretize(c);
	if (c < 0x800) { t[n++] = (char)(0xc0 | c >> 6); t[n++] = (char)(0x80 | c & 63); w(MACRO_UNICODE, c - 0x80); } else { t[n++] = (char)(0xe0 | c >> 12); t[n++] = (char)(0x80 | c >> 6 & 63); t[n++] = (char)(0x80 | c & 63); int i = unicode_lookup_index(c); if (i >= 0) w(MACRO_UNICODE, i); }
	t[n] = 0; kse_cover("unicode");
}
static void token(int narrow) {
	int i, k = (int)kse_choose(7, "token"), st = n, w0 = nw;
	switch (k) {
	case 0: i = (int)kse_choose(narrow ? 3 : 9, "key"); a(ks[i].t); w(MACRO_KEYSEQUENCE, ks[i].mods << 8 | ks[i].code); break;
	case 1: w(MACRO_TIMEOUT, number()); a("ms"); kse_cover("timeout"); break;
	case 2: { int g = 2 + (int)kse_choose(narrow ? 1 : 2, "group"); for (int j = 0; j < g; j++) { if (j) a("+"); i = (int)kse_choose(3, "item"); if (i == 2 && j) { w(MACRO_TIMEOUT, number()); a("ms"); } else { a(i ? "leftshift" : "x"); w(MACRO_HOLD, i ? KEYD_LEFTSHIFT : KEYD_X); } } w(MACRO_RELEASE, 0); kse_cover("group"); break; }
	case 3: { int l = narrow ? 2 : 2 + (int)kse_choose(2, "len"); char c[3]; /* text */
		for (int j = 0; j < l; j++) { if (j && (j == 2 || narrow)) c[j] = "aM7~"[kse_choose(4, "ch")]; else if (narrow) c[j] = 'h'; else c[j] = (char)kse_sym(7, "ch"); kse_assume(c[j] > ' ' && c[j] != '+' && c[j] != '(' && c[j] != ')' && c[j] != '\\' && c[j] != 127); if (j == 1) kse_assume(c[1] != '-'); t[n++] = c[j]; } t[n] = 0;
		for (i = 0; i < NKEYNAMES; i++) if (!strcmp(key_names[i].name, t + st) || key_names[i].alt && !strcmp(key_names[i].alt, t + st)) { kse_end(); }
		if (l > 2 && c[l - 2] == 'm' && c[l - 1] == 's') kse_end();
		for (int j = 0; j < l; j++) ascii(c[j]); kse_cover("text"); break; }
	case 4: uni(narrow); break;
	case 5: i = (int)kse_choose(3, "escape"); a(i == 0 ? "\\(" : i == 1 ? "\\)" : "\\\\"); w(MACRO_KEYSEQUENCE, i == 0 ? MOD_SHIFT << 8 | KEYD_9 : i == 1 ? MOD_SHIFT << 8 | KEYD_0 : KEYD_BACKSLASH); kse_cover("escape"); break;
	case 6: a("Q"); uni(1); a("!z"); i = nw; { int h = want[w0].data, any = nw > w0; nw = w0; w(MACRO_KEYSEQUENCE, MOD_SHIFT << 8 | KEYD_Q); if (any) w(MACRO_UNICODE, h); } w(MACRO_KEYSEQUENCE, MOD_SHIFT << 8 | KEYD_1); w(MACRO_KEYSEQUENCE, KEYD_Z); break;
	}
}
static void steps(void) {
	a("macro("); int l = 1 + (int)kse_choose(kse_tier() ? 3 : 2, "tokens"), r;
	for (int i = 0; i < l; i++) { if (i || l == 1 && kse_choose(2, "lead")) a(i && kse_choose(2, "space") ? "  " : " "); token(l > 1); }
	if (l == 1 && kse_choose(2, "trail")) a(" "); a(")"); m.sz = 99;
	r = parse_macro_expression(t, &m); kse_check(r == 0, "a macro is accepted"); kse_check((int)m.sz == nw, "a macro has exactly the steps given");
	for (int i = 0; i < nw; i++) { kse_check((int)m.entries[i].type == want[i].type, "the steps of a macro are those given, in order"); kse_check(m.entries[i].data == want[i].data, "each step has the keys, modifiers or time given"); kse_obs(m.entries[i].type); }
	kse_cover("end");
}
/* what is no macro is refused */
static void refuse(void) {
	static const char *bad[] = {"macro(a+nokey)", "macro(x a+b+nokey y)", "macro(a", "foo", "macros", "nokey", "C-nokey", "macro(a+5)x", "layer(l)", "bb", "a\xc3\xa9", "\xc3\xa9\xc3\xa9"};
	static const struct { const char *t; int code, mods; } ok[] = {{"a", KEYD_A, 0}, {"C-a", KEYD_A, MOD_CTRL}, {"!", KEYD_1, MOD_SHIFT}};
	if (kse_choose(2, "ok")) { int i = (int)kse_choose(3, "key"); kse_check(!parse_macro_expression(ok[i].t, &m) && m.sz == 1 && m.entries[0].type == MACRO_KEYSEQUENCE && m.entries[0].data == (ok[i].mods << 8 | ok[i].code), "a key is a macro of one step"); return; }
	kse_check(parse_macro_expression(bad[kse_choose(12, "bad")], &m) != 0, "what is no macro is refused"); kse_cover("refused");
}
void harness_main(void) { MODE(); }
