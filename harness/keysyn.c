/* C04 key names, sequences and modifier sets; C08 text and unicode. */
#include <string.h>
#include "kse.h"
#include "keyd.h"
#include "unicode.h"
#include "keynames.h"
const char *modstring(uint8_t mods);
static int modof(char c) { return c == 'C' ? MOD_CTRL : c == 'M' ? MOD_SUPER : c == 'A' ? MOD_ALT : c == 'S' ? MOD_SHIFT : c == 'G' ? MOD_ALT_GR : 0; }
static char s[64];
static int named(const char *c, int i) { return !strcmp(key_names[i].name, c) || key_names[i].alt && !strcmp(key_names[i].alt, c); }
/* <mod>-...<name>: every name of up to L bytes after P prefixes of arbitrary letters */
static void seq(void) {
	int p = kse_choose(1 + (kse_tier() ? 3 : 2), "prefixes"), mods = 0, bad = 0, n = 0;
	for (int i = 0; i < p; i++) { char c = (char)kse_sym(8, "mod"); kse_assume(c != 0); s[n++] = c; s[n++] = '-'; int m = modof(c); if (!m) bad = 1; mods |= m; }
	int L = p ? kse_choose(4, "len") : 1 + kse_choose(NLEN, "len"); char *name = s + n;
	for (int i = 0; i < L; i++) { char c = (char)kse_sym(8, "ch"); kse_assume(c != 0); s[n++] = c; }
	if (L > 1) kse_assume(name[1] != '-');  /* a further prefix */
	s[n] = 0; uint8_t code = 0, m = 0; int r = parse_key_sequence(s, &code, &m), hit = -1, shift = 0; kse_obs(r);
	/* the first name in the table's order is what several keys may share; names are unique */
	for (int i = 0; i < NKEYNAMES; i++) { int sh = key_names[i].shifted && !strcmp(key_names[i].shifted, name); if (sh || named(name, i)) { hit = i; shift = sh; } }
	if (bad || hit < 0) { kse_check(r != 0, "what is not a key is refused"); kse_cover("refused"); return; }
	kse_check(r == 0, "a key is recognised by each of its names"); kse_obs(code); kse_obs(m);
	kse_check(code == key_names[hit].code, "a name denotes its key"); kse_check(m == (mods | (shift ? MOD_SHIFT : 0)), "the modifiers are those given, and shift for a shifted name");
	kse_cover(shift ? "shifted" : "plain"); if (p) kse_cover("prefixed");
}
/* the names of different keys differ, and every key code keyd can emit has its Linux name */
static void names(void) {
	int i = (int)kse_choose(NKEYNAMES, "key"); uint8_t code = 0, m = 9;
	const char *v[3] = {key_names[i].name, key_names[i].alt, key_names[i].shifted};
	for (int k = 0; k < 3; k++) if (v[k]) { kse_check(!parse_key_sequence(v[k], &code, &m) && code == key_names[i].code && m == (k == 2 ? MOD_SHIFT : 0), "a name denotes its key"); for (int f = 0; f < 32; f++) { char b[64]; int n = 0; for (int j = 0; j < 5; j++) if (f >> j & 1) { b[n++] = "CMASG"[j]; b[n++] = '-'; } strcpy(b + n, v[k]); kse_check(!parse_key_sequence(b, &code, &m) && code == key_names[i].code, "a name denotes its key with modifiers"); int w = k == 2 ? MOD_SHIFT : 0; for (int j = 0; j < 5; j++) if (f >> j & 1) w |= modof("CMASG"[j]); kse_check(m == w, "the modifiers are those given"); } }
	kse_check(keycode_table[key_names[i].code].name && !strcmp(keycode_table[key_names[i].code].name, key_names[i].name), "a key is reported by its name"); kse_cover("end");
}
static void modset(void) {
	if (kse_choose(2, "dir")) { uint8_t m = (uint8_t)kse_sym(5, "mods"), r = 77; m = (uint8_t)kse_concretize(m); const char *t = modstring(m); kse_check(!parse_modset(t, &r) && r == m, "a printed modifier set denotes the same modifiers"); kse_cover("printed"); return; }
	int n = (int)kse_choose(NLEN, "len"), ok = 1, mods = 0; for (int i = 0; i < n; i++) { s[i] = (char)kse_sym(8, "ch"); kse_assume(s[i] != 0); } s[n] = 0;
	for (int i = 0; i < n && ok; i++) if (i % 2) { if (s[i] != '-') ok = 0; } else { int m = modof(s[i]); if (!m) ok = 0; mods |= m; }
	uint8_t r = 0; int e = parse_modset(s, &r); kse_obs(e); kse_check((e == 0) == ok, "exactly the modifier sets are accepted"); if (ok) { kse_check(r == mods, "a modifier set denotes its modifiers"); kse_cover("accepted"); } else kse_cover("refused");
}
/* C08 */
static int enc(uint32_t c, unsigned char *b) {
	if (c < 0x80) { b[0] = c; return 1; }
	if (c < 0x800) { b[0] = 0xc0 | c >> 6; b[1] = 0x80 | c & 63; return 2; }
	if (c < 0x10000) { b[0] = 0xe0 | c >> 12; b[1] = 0x80 | c >> 6 & 63; b[2] = 0x80 | c & 63; return 3; }
	b[0] = 0xf0 | c >> 18; b[1] = 0x80 | c >> 12 & 63; b[2] = 0x80 | c >> 6 & 63; b[3] = 0x80 | c & 63; return 4;
}
static void utf8(void) {
	unsigned char b[32]; int n = 0, k = 1 + kse_choose(3, "chars"); uint32_t c[3]; int l[3];
	for (int i = 0; i < k; i++) { c[i] = (uint32_t)kse_sym(21, "codepoint"); kse_assume(c[i] > 0 && c[i] < 0x110000); l[i] = enc(c[i], b + n); n += l[i]; }
	b[n] = 0; int o = 0;
	for (int i = 0; i < k; i++) { uint32_t x = 0; int z = utf8_read_char((char *)b + o, &x); kse_check(z == l[i], "a character ends where the next begins"); kse_check(x == c[i], "a character is decoded to its code point"); o += l[i]; }
	uint32_t x; kse_check(utf8_read_char((char *)b + o, &x) == 0, "text ends with its last character"); kse_check(utf8_strlen((char *)b) == k, "the characters of a text are counted"); kse_cover("end");
}
/* arbitrary bytes: never read past the end, always progress */
static void raw(void) {
	int n = (int)kse_choose(6, "len"); char b[8]; for (int i = 0; i < n; i++) { b[i] = (char)kse_sym(8, "byte"); kse_assume(b[i] != 0); } b[n] = 0;
	char *e = malloc(n + 1); memcpy(e, b, n + 1); int o = 0; uint32_t x;
	while (o < n) { int z = utf8_read_char(e + o, &x); kse_check(z > 0 && z <= n - o, "every character takes part of the text"); o += z; }
	kse_check(utf8_read_char(e + o, &x) == 0, "text ends with its last character"); kse_cover("end");
}
#ifdef COMPOSE
#include "compose.h" /* generated from data/keyd.compose: cps[] in order */
static void table(void) {
	int w = (int)kse_choose((NCOMPOSE + BLK - 1) / BLK, "block"), i = (int)kse_sym(6, "row"); 
	kse_assume(i < BLK && w * BLK + i < NCOMPOSE);
	uint32_t c = (cps + w * BLK)[i]; int x = unicode_lookup_index(c); 
	kse_check(x == w * BLK + i, "a character has the compose sequence of the compose file"); kse_cover("end");
}
#endif
static void sequence(void) {
	static const uint8_t dig[36] = {11, 2, 3, 4, 5, 6, 7, 8, 9, 10, 30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44};
	int i = (int)kse_sym(16, "index"); kse_assume(i < 36 * 36 * 36); uint8_t c[4]; unicode_get_sequence(i, c);
	int hi = (int)kse_concretize(i / 1296);
	kse_check(c[0] == KEYD_CANCEL, "a compose sequence starts with the cancel key"); kse_check(c[1] == dig[hi], "the digits are those of the index"); kse_check(c[2] == dig[i / 36 % 36] && c[3] == dig[i % 36], "the digits are those of the index"); kse_cover("end");
}
void harness_main(void) { MODE(); }
