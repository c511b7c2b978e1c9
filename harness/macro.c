/* E11: macros. */
#include "eng.h"
static long slept; int env_usleep(unsigned us) { slept += us; return 0; }
static int xc[64], xp[64], nx;
static void out(int c, int p) { xc[nx] = c; xp[nx] = p; nx++; }
static void verify(const char *m) { kse_check(e_n == nx, "a macro emits exactly its key events"); for (int i = 0; i < nx; i++) kse_check(e_out[i] == xc[i] && e_outp[i] == xp[i], m); e_n = nx = 0; }
/* macro_execute on symbolic entries */
static const int mk[5] = {KEYD_LEFTALT, KEYD_LEFTMETA, KEYD_LEFTSHIFT, KEYD_LEFTCTRL, KEYD_RIGHTALT};
static int mi(int code) { for (int i = 0; i < 5; i++) if (mk[i] == code) return i; return 0; }
static void rec(uint8_t c, uint8_t st) { if (e_n < MAXOUT) { e_out[e_n] = c; e_outp[e_n] = st; e_n++; } }
static void exec(void) {
	static struct macro m; int sz = 1 + kse_choose(kse_tier() ? 4 : 3, "entries"), grp = 0, held[8], nh = 0; long want = 0; int per = (int)kse_sym(10, "sequence_timeout");
	int extra = 0;
	for (int i = 0; i < sz; i++) {
		int ty = kse_choose(5, "type"); m.entries[i].type = ty;
		if (grp && ty != MACRO_HOLD && ty != MACRO_TIMEOUT && ty != MACRO_RELEASE) kse_end();
		if (!grp && ty == MACRO_RELEASE) kse_end();
		if (ty == MACRO_HOLD) { m.entries[i].data = (int)kse_sym(8, "hold"); held[nh++] = m.entries[i].data; out(m.entries[i].data, 1); grp = 1; }
		if (ty == MACRO_RELEASE) { for (int j = 0; j < nh; j++) out(held[j], 0); nh = 0; grp = 0; kse_cover("group"); }
		if (ty == MACRO_TIMEOUT) { static const int mv[4] = {0, 37, 70000, 65535}; int ms = mv[kse_choose(kse_tier() ? 4 : 3, "ms")]; /* the code multiplies by a floating-point constant: concrete values */ m.entries[i].data = ms; want += ms * 1000L; kse_cover("timeout"); }
		if (ty == MACRO_UNICODE) { /* compose sequence: cancel and three base-36 digits */
			int idx = (int)kse_sym(15, "index"); m.entries[i].data = idx; kse_assume(idx < 36 * 36 * 25);
			out(KEYD_CANCEL, 1); out(KEYD_CANCEL, 0); for (int j = 0; j < 3; j++) { out(-1 - j, 1); out(-1 - j, 0); } kse_cover("unicode");
		}
		if (ty == MACRO_KEYSEQUENCE) {
			int code = (int)kse_sym(8, "code"), mods = i ? 0x15 * kse_choose(2, "mods") : kse_choose(32, "mods"); m.entries[i].data = code | mods << 8;
			static const int mask[5] = {MOD_ALT, MOD_SUPER, MOD_SHIFT, MOD_CTRL, MOD_ALT_GR};
			for (int j = 0; j < 5; j++) if (mods & mask[j]) out(mk[j] | 0x1000, 1); out(code, 1); out(code, 0); for (int j = 0; j < 5; j++) if (mods & mask[j]) out(mk[j] | 0x1000, 0);
			if (mods) extra++;
		}
	}
	if (grp) kse_end();
	m.sz = sz; e_noobs = 1;
	macro_execute(rec, &m, per);
	kse_check(e_n == nx, "a macro emits exactly its key events");
	int idx = -1;
	for (int i = 0; i < nx; i++) {
		kse_check(e_outp[i] == xp[i], "downs and ups in the order given");
		if (xc[i] >= 0 && xc[i] < 0x1000) kse_check(e_out[i] == xc[i], "the keys named by the macro");
		else if (xc[i] >= 0x1000) { /* modifiers of one step: any order, each once */
			int s = i; while (s > 0 && xc[s - 1] >= 0x1000 && xp[s - 1] == xp[i]) s--; int e = i; while (e + 1 < nx && xc[e + 1] >= 0x1000 && xp[e + 1] == xp[i]) e++;
			int f = 0; for (int j = s; j <= e; j++) f += e_out[j] == (xc[i] & 0xff); kse_check(f == 1, "each modifier is held around its key");
		} else { idx = e_out[i]; int dig = 0; for (int c = 0; c < 36; c++) { static const uint8_t dg[] = {KEYD_0, KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5, KEYD_6, KEYD_7, KEYD_8, KEYD_9, KEYD_A, KEYD_B, KEYD_C, KEYD_D, KEYD_E, KEYD_F, KEYD_G, KEYD_H, KEYD_I, KEYD_J, KEYD_K, KEYD_L, KEYD_M, KEYD_N, KEYD_O, KEYD_P, KEYD_Q, KEYD_R, KEYD_S, KEYD_T, KEYD_U, KEYD_V, KEYD_W, KEYD_X, KEYD_Y, KEYD_Z}; dig |= dg[c] == idx; } kse_check(dig, "a unicode character is typed as cancel and three base 36 digits"); }
	}
	long total = want + (per ? (long)per * (sz + extra) : 0);
	kse_check(slept >= want && slept <= want + (long)per * (sz + extra), "timeouts of the macro are honoured"); (void)total;
	kse_cover("end");
}
/* repetition while the key is held */
static void repeat(void) {
	int T, R; cat("[ids]\n*\n[global]\noneshot_timeout = 100\n[main]\na = "); int v = kse_choose(2, "kind"); cat(v ? "macro(b c)" : "macro2(300, 100, macro(b c))"); cat("\no = oneshot(m)\n[m]\nq = w\n[lm:S]\na = "); cat(v ? "macro(b c)\n" : "macro2(300, 100, macro(b c))\n"); cat("[main]\nl = layer(lm)\n"); int inl = (int)kse_choose(2, "in_layer"), sh = inl;
	eng_start();
	T = (int)kse_sym(8, "timeout"), R = (int)kse_sym(8, "repeat");
	if (kse_choose(2, "T0")) kse_assume(T > 0); else T = 0; if (kse_choose(2, "R0")) kse_assume(R > 0); else R = 0;
	if (v) { e_k->config.macro_timeout = T; e_k->config.macro_repeat_timeout = R; }
	else { struct descriptor *d = &e_k->config.layers[inl ? lidx("lm") : 0].keymap[KEYD_A]; d->args[0].timeout = T; d->args[1].timeout = R; }
	if (inl) { ev(KEYD_L, 1); out(KEYD_LEFTSHIFT, 1); verify("the layer holds its modifier"); }
	static const uint8_t code[] = {KEYD_A, KEYD_S, KEYD_O}; int down[3] = {0, 0, 0}, rep = 0, at = 0;
	for (int i = 0; i < NEV; i++) {
		int d = (int)kse_sym(9, "delay"), fires = 0;
		for (;;) {
			int x = rep ? at - e_t : -1; /* the next repetition */
			if (rep && x <= d) {
				if (++fires > 4) kse_end(); /* more than 4 repetitions in one pause: outside the bound */
				while (e_to > 0 && e_to < x) { x -= e_to; d -= e_to; fire(); verify("nothing in between"); }
				kse_check(e_to == x, "a wake-up is requested for the next repetition"); d -= x; e_t += x; ev(0, 0);
				out(KEYD_B, 1); out(KEYD_B, 0); out(KEYD_C, 1); out(KEYD_C, 0); verify("the macro repeats at its interval"); at += R; if (!R) rep = 0; kse_cover("repeat");
			} else if (e_to > 0 && e_to <= d) { d -= e_to; fire(); verify("other wake-ups do not repeat the macro"); }
			else break;
		}
		e_t += d; if (e_to > 0) e_to -= d;
		int k = kse_choose(3, "key"); down[k] = !down[k]; rep = 0;
		if (inl && !sh) { out(KEYD_LEFTSHIFT, 1); sh = 1; } /* modifiers of the layer are lifted while the macro lasts */
		if (k == 0 && down[k]) { if (inl) { out(KEYD_LEFTSHIFT, 0); sh = 0; kse_cover("in_layer"); } out(KEYD_B, 1); out(KEYD_B, 0); out(KEYD_C, 1); out(KEYD_C, 0); if (T) { rep = 1; at = e_t + T; } }
		if (k == 1) out(KEYD_S, down[k]);
		ev(code[k], down[k]); verify("the macro runs when its key is struck and stops repeating with the next key event");
	}
	kse_cover("end");
}
void harness_main(void) { MODE(); }
