/* E15: the limits of the engine: more keys, queued events, chords, timers and activations than it has room for. */
#include "eng.h"
static int gc[400], ng; static void rec(uint8_t code, uint8_t st) { e_send(code, st); if (st && !is_mod(code) && ng < 400) gc[ng++] = code; }
static const uint8_t pool[20] = {KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5, KEYD_6, KEYD_7, KEYD_8, KEYD_9, KEYD_0, KEYD_Z, KEYD_X, KEYD_C, KEYD_V, KEYD_B, KEYD_N, KEYD_M, KEYD_COMMA, KEYD_DOT, KEYD_SLASH};
static void done(void) { int q = settle(16); kse_check(q, "timers stop"); kse_check(plain_down() == 0, "no key is held once all keys are up"); kse_cover("end"); }
/* many keys held at once, in any rotation of presses and releases */
static void nkro(void) {
	cat("[ids]\n*\n[main]\n1 = layer(m)\n2 = overload(m, e)\n[m:C]\nz = q\n"); eng_start(); e_k->output.send_key = rec; e_noobs = 1;
	int n = 14 + (int)kse_choose(7, "keys"), a = (int)kse_choose(20, "first"), b = (int)kse_choose(n, "released"), rev = (int)kse_choose(2, "reverse"), again = (int)kse_choose(2, "again");
	for (int i = 0; i < n; i++) ev(pool[(a + i) % 20], 1);
	int want = 0; for (int i = 0; i < n && i < 16; i++) { int c = pool[(a + i) % 20]; if (c != KEYD_1 && c != KEYD_2) want++; }
	kse_check(ng >= want, "sixteen keys can be held at once"); kse_check(ng <= n, "no key is produced twice");
	if (again) { ev(pool[(a + b) % 20], 0); ev(pool[(a + b) % 20], 1); ev(pool[(a + n - 1) % 20], 0); ev(pool[(a + n - 1) % 20], 1); }
	for (int i = 0; i < n; i++) ev(pool[(a + (rev ? 2 * n + b - i : b + i) % n) % 20], 0);
	kse_check(held_mods() == 0, "modifiers end with their layers"); done();
}
/* more events than can be queued while a key is undecided */
static void flood(void) {
	static const char *act[] = {"overloadt(m, b, 5000)", "overloadt2(m, b, 5000)", "timeout(b, 5000, c)", "lettermod(m, b, 150, 5000)"};
	int w = (int)kse_choose(4, "action"), n = 28 + (int)kse_choose(10, "events"), d = (int)kse_sym(6, "delay"), rel = (int)kse_choose(3, "release"), kk[48], kn = 0;
	cat("[ids]\n*\n[main]\na = "); cat(act[w]); cat("\n[m]\n"); eng_start(); e_k->output.send_key = rec; e_noobs = 1; int down[2] = {0}; static const uint8_t c[] = {KEYD_T, KEYD_Y};
	pass(600); ev(KEYD_A, 1);
	/* two keys held from before or struck in turn: presses outnumber releases or match them */
	static const int pat[3][4] = {{0, 0, 1, 1}, {0, 1, 0, 1}, {0, 1, 1, 0}};
	for (int i = 0; i < n; i++) { pass(d); int k = pat[rel][i & 3]; down[k] = !down[k]; ev(c[k], down[k]); if (down[k]) kk[kn++] = c[k]; }
	pass(d); ev(KEYD_A, 0); for (int k = 0; k < 2; k++) if (down[k]) ev(c[k], 0);
	int x = 0; for (int i = 0; i < ng; i++) if (gc[i] == KEYD_T || gc[i] == KEYD_Y) { kse_check(x < kn && gc[i] == kk[x], "keys come out in the order struck"); x++; }
	kse_check(x == kn, "no key is lost or doubled however many are struck"); kse_check(held_mods() == 0, "modifiers end with their layers"); done();
}
/* more events than can be queued while a chord is undecided */
static void chordflood(void) {
	int n = 26 + (int)kse_choose(12, "events"), d = (int)kse_sym(4, "delay"), both = (int)kse_choose(2, "order"), kk[48], kn = 0, down[2] = {0}; static const uint8_t c[] = {KEYD_T, KEYD_Y};
	cat("[ids]\n*\n[global]\nchord_timeout = 20\nchord_hold_timeout = 5000\n[main]\ns+d = esc\n"); eng_start(); e_k->output.send_key = rec; e_noobs = 1;
	ev(KEYD_S, 1); ev(KEYD_D, 1);
	for (int i = 0; i < n; i++) { pass(d); int k = both ? i >> 1 & 1 : i & 1; down[k] = !down[k]; ev(c[k], down[k]); if (down[k]) kk[kn++] = c[k]; }
	ev(KEYD_S, 0); ev(KEYD_D, 0); for (int k = 0; k < 2; k++) if (down[k]) ev(c[k], 0);
	int x = 0, e = 0, s = 0; for (int i = 0; i < ng; i++) if (gc[i] == KEYD_T || gc[i] == KEYD_Y) { kse_check(x < kn && gc[i] == kk[x], "keys come out in the order struck"); x++; } else if (gc[i] == KEYD_ESC) e++; else s++;
	kse_check(x == kn, "no key is lost or doubled however many are struck"); kse_check(e + s / 2 == 1 && (e == 1 || s == 2), "the chord or its keys come out once"); done();
}
/* more chords held than there is room for */
static void chords(void) {
	static const char *ct[] = {"q+w", "e+r", "t+y", "u+i", "o+p"}; static const uint8_t ck[5][2] = {{KEYD_Q, KEYD_W}, {KEYD_E, KEYD_R}, {KEYD_T, KEYD_Y}, {KEYD_U, KEYD_I}, {KEYD_O, KEYD_P}}; static const uint8_t cc[5] = {KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5};
	cat("[ids]\n*\n[main]\n"); for (int i = 0; i < 5; i++) { char v[6] = " = 1\n"; v[3] = (char)('1' + i); cat(ct[i]); cat(v); }
	eng_start(); e_k->output.send_key = rec; e_noobs = 1; int n = 3 + (int)kse_choose(3, "chords"), a = (int)kse_choose(5, "first"), r = (int)kse_choose(n, "released"), h = (int)kse_choose(2, "half");
	for (int i = 0; i < n; i++) { int k = (a + i) % 5; ev(ck[k][0], 1); pass((int)kse_sym(5, "gap")); ev(ck[k][1], 1); pass(60); if (i < 3) kse_check(ng == i + 1 && gc[i] == cc[k], "three chords can be held at once"); }
	kse_check(ng >= 3, "three chords can be held at once"); for (int i = 3; i < n; i++) { int k = (a + i) % 5, f = 0; for (int j = 0; j < ng; j++) if (gc[j] == cc[k] || gc[j] == ck[k][0]) f++; kse_check(f == 1, "the keys of further chords are delivered"); }
	for (int i = 0; i < n; i++) { int k = (a + (r + i) % n) % 5; ev(ck[k][h], 0); ev(ck[k][!h], 0); }
	done();
}
/* more timers than there is room for */
static void timers(void) {
	int w = (int)kse_choose(4, "kind"), n = 60 + (int)kse_choose(80, "times"), d = (int)kse_sym(3, "delay"); d += 1;
	cat("[ids]\n*\n[global]\noneshot_timeout = 9000\nmacro_timeout = 9000\nmacro_repeat_timeout = 50\n[main]\no = oneshot(m)\ni = macro(x y)\nq = macro2(9000, 0, x y)\nj+k = esc\nu = timeout(b, 9000, c)\n[m:S]\n"); eng_start(); e_k->output.send_key = rec; e_noobs = 1;
	for (int i = 0; i < n; i++) { int c = w == 0 ? KEYD_O : w == 1 ? KEYD_I : w == 2 ? KEYD_U : i & 1 ? KEYD_I : KEYD_U; ev(c, 1); pass(d); ev(c, 0); pass(d); kse_check(e_to <= 9000, "wake-ups are not later than needed"); }
	if (w == 0) { int left = 9000 - d; kse_check(e_to > 0 && e_to <= left, "the oneshot layer will time out"); kse_check(e_act[lidx("m")] == n, "oneshots accumulate"); pass(left - 1); kse_check(e_act[lidx("m")] == n, "not before its timeout"); pass(1); kse_check(e_act[lidx("m")] == 0 && held_mods() == 0, "the oneshot layer times out"); }
	else { ng = 0; ev(KEYD_I, 1); kse_check(e_to > 0 && e_to <= 9000, "the macro will repeat"); pass(8999); int m = ng; pass(1); kse_check(ng > m, "the macro repeats at its timeout"); ev(KEYD_I, 0); }
	pass(9000); done();
}
/* hundreds of activations of one layer */
static void activations(void) {
	int n = 250 + (int)kse_choose(12, "times"); cat("[ids]\n*\n[main]\no = oneshot(m)\nl = layer(m)\n[m:S]\n"); eng_start(); e_k->output.send_key = rec; e_noobs = 1;
	for (int i = 0; i < n; i++) { ev(KEYD_O, 1); ev(KEYD_O, 0); kse_check(held_mods() == MOD_SHIFT, "a pending oneshot layer stays active however often it is struck"); }
	int h = (int)kse_choose(3, "then"); if (h == 1) ev(KEYD_O, 1); if (h == 2) ev(KEYD_L, 1); ev(KEYD_A, 1); kse_check(ng == 1 && gc[0] == KEYD_A, "the next key is produced"); ev(KEYD_A, 0); if (h == 1) ev(KEYD_O, 0); if (h == 2) ev(KEYD_L, 0); ev(KEYD_B, 1); ev(KEYD_B, 0);
	kse_check(e_act[lidx("m")] == 0 && held_mods() == 0, "all pending oneshots end with the next key"); done();
}
void harness_main(void) { MODE(); }
