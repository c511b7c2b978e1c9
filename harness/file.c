/* C09 include files and limits; C11 structure of an INI file. */
#include "conf.h"
static struct config flat;
static char f[3][256]; static int fn[3]; static char fl[4096]; static int fln;
static void ap(char *b, int *n, const char *s) { while (*s) b[(*n)++] = *s++; }
static void include(void) {
	/* two or three include files made of lines, the last line possibly unterminated */
	static const char *ln[] = {"a = 1\n", "b = C-2\n", "[l]\n", "l.a = 3\n", "# c\n", "include g0\n", "\n"};
	static const char *dir[] = {"/c/g0", "/c/sub/g1", "/d/g2"}; static const char *inc[] = {"include g0", "include sub/g1", "include g2", "include    g0", "include nope", "include g0.conf", "include g0\n\n"};
	static const int incf[] = {0, 1, 2, 0, -1, -1, 0};
	int nf = 2, n = 1 + (int)kse_choose(NL, "lines"); ap(fl, &fln, "[ids]\n*\n[l]\n[main]\n"); lit("[ids]\n*\n[l]\n[main]\n");
	int used = 0, term = 0, d0 = (int)kse_choose(2, "data"); vfs_read_chunk = d0 ? 3 : 0;
	for (int i = 0; i < 3; i++) { int m = i == d0 ? (int)kse_choose(3, "flines") : 1; for (int j = 0; j < m; j++) ap(f[i], &fn[i], ln[i == d0 ? (j && !kse_tier() ? 1 + 2 * kse_choose(2, "fline") : kse_choose(7, "fline")) : i]); if (fn[i] && i == d0 && kse_choose(2, "unterminated")) fn[i]--; }
	if (vfs_read_chunk == 0) kse_cover("whole");
	for (int i = 0; i < n; i++) {
		int k = (int)kse_choose(7 + 4, "line");
		if (k < 7) { lit(inc[k]); int x = incf[k]; if (x >= 0) { for (int j = 0; j < fn[x]; j++) fl[fln++] = f[x][j]; if (fn[x] && fl[fln - 1] != '\n') fl[fln++] = '\n'; used |= 1 << x; kse_cover("included"); } else kse_cover("unresolved"); }
		else { static const char *own[] = {"a = command(include g0)", "[m:C]", "l.b = 6", "  a+b = 7"}; lit(own[k - 7]); ap(fl, &fln, own[k - 7]); fl[fln++] = '\n'; }
		term = i < n - 1 || kse_choose(2, "final"); if (term) lit("\n");
	}
	vfs_clear(); vfs_add("/c/t.conf", fl, fln); kse_check(!config_parse(&flat, "/c/t.conf"), "the config is accepted"); 
	vfs_clear(); vfs_add("/c/t.conf", c_text, c_n); for (int i = 0; i < 3; i++) vfs_add(dir[i], f[i], fn[i]); vfs_add("/d/g0", "a = 9\n", 6); vfs_add("/c/g0.conf", "a = 9\n", 6);
	kse_check(!config_parse(&c_cfg, "/c/t.conf"), "the config is accepted"); kse_check(vfs_open_count == 0, "no file is left open");
	kse_check(flat.nr_layers == c_cfg.nr_layers && kse_same(flat.layers, c_cfg.layers, sizeof flat.layers), "an include line stands for the text of the file"); kse_check(flat.nr_descriptors == c_cfg.nr_descriptors && flat.nr_macros == c_cfg.nr_macros, "an include line stands for the text of the file"); kse_cover("end");
}
/* lines and files up to the limits are taken whole, those beyond refuse the file */
static void limits(void) {
	int which = (int)kse_choose(4, "which"); lit("[ids]\n*\n[main]\na = 1\n");
	if (which == 3) { /* many entries or many sections: taken whole or refused */
		int sec = (int)kse_choose(2, "sections"), k = (int)kse_choose(9, "count"); static const int ne[] = {100, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1100}, ns[] = {5, 20, 25, 28, 29, 30, 31, 32, 40};
		if (sec) { for (int i = 0; i < ns[k]; i++) lit(i % 2 ? "[main]\nc = 4\n" : "[l]\nw = 5\n"); lit("[main]\nb = 2\n"); } else { for (int i = 0; i < ne[k]; i++) lit("c = 4\n"); lit("b = 2\n"); }
		int r = parse(); kse_obs(r); if (k < 3) kse_check(!r, "files of ordinary size are accepted");
		if (!r) { kse_check(c_cfg.layers[0].keymap[KEYD_A].args[0].code == KEYD_1 && c_cfg.layers[0].keymap[KEYD_C].args[0].code == KEYD_4 && c_cfg.layers[0].keymap[KEYD_B].args[0].code == KEYD_2, "an accepted file is taken whole"); kse_cover("many"); }
		return; }
	if (which == 0) { /* one long line: a comment of any length around the limit */
		int n = 250 + (int)kse_choose(12, "len"), nl = (int)kse_choose(2, "newline"); lit("#"); for (int i = 1; i < n; i++) c_text[c_n++] = 'x'; if (nl) lit("\nb = 2\n");
		int r = parse(); kse_obs(r); kse_check(vfs_open_count == 0, "no file is left open"); if (n <= 255) { kse_check(r == 0, "lines up to 255 bytes are accepted"); kse_check(c_cfg.layers[0].keymap[KEYD_A].args[0].code == KEYD_1, "the other lines keep their meaning"); if (nl) kse_check(c_cfg.layers[0].keymap[KEYD_B].args[0].code == KEYD_2, "the other lines keep their meaning"); kse_cover("line"); } else if (n > 256) { kse_check(r != 0, "longer lines are refused"); kse_cover("refused"); }
		return; }
	/* a file around the size limit, in one piece or with an include */
	int target = 65536 - 8 + (int)kse_choose(16, "size"), inc = which == 2, isz = 0; static char big[70000];
	if (inc) { lit("include g0\n"); isz = target - c_n - 6; for (int i = 0; i < isz; i++) big[i] = i % 100 == 99 || i == isz - 1 ? '\n' : '#'; lit("b = 2\n"); }
	else { while (c_n + 6 + 100 < target) { for (int i = 0; i < 99; i++) c_text[c_n++] = '#'; c_text[c_n++] = '\n'; } while (c_n + 6 + 1 < target) c_text[c_n++] = '#'; c_text[c_n++] = '\n'; lit("b = 2\n"); }
	vfs_clear(); vfs_add("/c/t.conf", c_text, c_n); if (inc) vfs_add("/c/g0", big, isz); int r = config_parse(&c_cfg, "/c/t.conf"); kse_obs(r);
	kse_check(vfs_open_count == 0, "no file is left open"); if (r == 0) { kse_check(c_cfg.layers[0].keymap[KEYD_A].args[0].code == KEYD_1, "the other lines keep their meaning"); if (!inc) kse_check(c_cfg.layers[0].keymap[KEYD_B].args[0].code == KEYD_2, "an accepted file is taken whole"); kse_cover("file"); } else kse_cover("refused");
	if (!inc && c_n < 65536) kse_check(r == 0, "files below the limit are accepted"); if (!inc && c_n > 65536) kse_check(r != 0, "files beyond the limit are refused");
}
/* C11 */
static char s0[64];
static int blank(char c) { return c == ' ' || c == '\t'; }
static void kvp(void) {
	int n = 1 + (int)kse_choose(NCH, "len"); char w[16], key[16]; for (int i = 0; i < n; i++) { s0[i] = (char)kse_sym(8, "ch"); kse_assume(s0[i] != 0); } s0[n] = 0; memcpy(w, s0, n + 1);
	int p = -1, v = -1, e; for (int i = 1; i < n && p < 0; i++) if (w[i] == '=') p = i; if (w[0] == '=' ) ; else if (p < 0) ; 
	if (w[0] == '=' && p < 0) ; 
	char *k, *val; parse_kvp(s0, &k, &val);
	if (p < 0) { kse_check(!val, "without = there is no value"); kse_check(!strcmp(k, w), "without = the line is the key"); kse_cover("key"); return; }
	e = p; while (e > 0 && blank(w[e - 1])) e--; v = p + 1; while (blank(w[v])) v++; memcpy(key, w, e); key[e] = 0;
	kse_check(val && !strcmp(val, w + v), "the value is what follows the first ="); kse_check(!strcmp(k, key), "the key is what precedes the first ="); kse_cover("pair");
}
static int sp(char c) { return c == ' ' || c >= 9 && c <= 13; }
static void ini(void) {
	int n = (int)kse_choose(NCH + 1, "len"), tail = (int)kse_choose(2, "tail"); static char in[64], w[64]; int m = 0, pre = (int)kse_choose(2, "prefix");
	if (pre) { memcpy(in, "[s]\n", 4); m = 4; } for (int i = 0; i < n; i++) { in[m] = (char)kse_sym(7, "ch"); kse_assume(in[m] != 0); m++; } if (tail) { memcpy(in + m, "\nk=v", 4); m += 4; } in[m] = 0; memcpy(w, in, m + 1);
	struct ini *r = ini_parse_string(in, pre ? NULL : "d"); kse_check(r != 0, "the text is accepted"); if (!r) return;
	/* reference */
	int sec = -1, ent = 0, line = 0, pos = 0;
	while (pos <= m) {
		int e = pos; while (w[e] && w[e] != '\n') e++; line++;
		int b = pos, f = e; while (b < f && sp(w[b])) b++; while (f > b && sp(w[f - 1])) f--;
		if (b < f && w[b] != '#') {
			if (w[b] == '[' && w[f - 1] == ']') { if (sec >= 0) kse_check((int)r->sections[sec].nr_entries == ent, "a section has exactly its entries"); sec++; ent = 0; kse_check(sec < (int)r->nr_sections, "every heading starts a section"); int l = f - b - 2; if (l < 0) l = 0; kse_check((int)strlen(r->sections[sec].name) == l && !memcmp(r->sections[sec].name, w + b + 1, l), "a section has the name of its heading"); kse_cover("section"); }
			else { if (sec < 0) { sec = 0; kse_check(r->nr_sections > 0 && !strcmp(r->sections[0].name, "d"), "entries before the first heading belong to the default section"); kse_cover("default"); }
				kse_check(ent < (int)r->sections[sec].nr_entries, "every other line is an entry"); struct ini_entry *x = &r->sections[sec].entries[ent++]; char t[64]; memcpy(t, w + b, f - b); t[f - b] = 0; char *k, *v; parse_kvp(t, &k, &v);
				kse_check(!strcmp(k, x->key), "an entry has its key"); kse_check(!v == !x->val && (!v || !strcmp(v, x->val)), "an entry has its value"); kse_check((int)x->lnum == line, "an entry has the number of its line"); kse_cover("entry"); }
		}
		pos = e + 1;
	}
	kse_check((int)r->nr_sections == sec + 1, "there are no other sections"); if (sec >= 0) kse_check((int)r->sections[sec].nr_entries == ent, "a section has exactly its entries"); kse_cover("end");
}
void harness_main(void) { MODE(); }
