/* Histories of key events against a reference account of which layers are active and what is produced. */
#include "eng.h"
enum { LAYER = 1, ONESHOT, TOGGLE, OVERLOAD, KEY, CLEAR, LAYOUT, OVERLOADK, COMMAND };
#if PAL == 3
#include "proc.h"
#endif
enum { L1, L2, L3, DV, DW, MAIN, NLAY };
static const char *lname[NLAY] = {"l1", "l2", "shift", "dv", "dw", "main"}; static int lix[NLAY];
static const int lmods[NLAY] = {0, MOD_CTRL | MOD_ALT, MOD_SHIFT, 0, 0, 0};
struct key { uint8_t code; const char *text; int kind, lay; };
#if PAL == 1  /* layer / toggle / clear / setlayout */
static const struct key keys[] = {{KEYD_Q, "q = layer(l1)", LAYER, L1}, {KEYD_W, "w = layer(l2)", LAYER, L2}, {KEYD_E, "e = toggle(l1)", TOGGLE, L1}, {KEYD_R, "r = toggle(l2)", TOGGLE, L2}, {KEYD_U, "u = clear()", CLEAR, 0}, {KEYD_T, "", KEY, 0}, {KEYD_I, "i = layer(l1)", LAYER, L1}};
#elif PAL == 2 /* layouts */
static const struct key keys[] = {{KEYD_Q, "q = setlayout(dv)", LAYOUT, DV}, {KEYD_W, "w = setlayout(dw)", LAYOUT, DW}, {KEYD_E, "e = setlayout(main)", LAYOUT, MAIN}, {KEYD_R, "r = layer(l2)", LAYER, L2}, {KEYD_U, "u = toggle(l1)", TOGGLE, L1}, {KEYD_T, "", KEY, 0}};
#elif PAL == 3 /* oneshot */
static const struct key keys[] = {{KEYD_Q, "q = oneshot(l2)", ONESHOT, L2}, {KEYD_W, "w = oneshot(shift)", ONESHOT, L3}, {KEYD_E, "e = layer(l1)", LAYER, L1}, {KEYD_T, "", KEY, 0}, {KEYD_Y, "", KEY, 0}, {KEYD_U, "u = toggle(l1)", TOGGLE, L1}, {KEYD_I, "i = clear()", CLEAR, 0}, {KEYD_O, "o = command(ls)", COMMAND, 0}};
#elif PAL == 4 /* overload */
static const struct key keys[] = {{KEYD_Q, "q = overload(l2, esc)", OVERLOAD, L2}, {KEYD_W, "w = overload(shift, C-b)", OVERLOADK, L3}, {KEYD_E, "e = layer(l1)", LAYER, L1}, {KEYD_T, "", KEY, 0}, {KEYD_Y, "y = oneshot(shift)", ONESHOT, L3}};
#elif PAL == 5 /* both kinds of layers under a binding captured at the press */
static const struct key keys[] = {{KEYD_Q, "q = layer(l1)", LAYER, L1}, {KEYD_W, "w = toggle(l2)", TOGGLE, L2}, {KEYD_T, "", KEY, 0}, {KEYD_Y, "", KEY, 0}, {KEYD_U, "u = setlayout(dv)", LAYOUT, DV}};
#endif
#ifndef DUP
#define DUP 0
#endif
#define NK ((int)(sizeof keys / sizeof *keys))
static int H[NLAY], T[NLAY], O[NLAY]; static int layout = MAIN; static int rec_[NLAY], clk = 2;
static int down[NK], bl[NK], bcode[NK], bkind[NK]; static int latch, expiry, ost, tapto, lastdown = -1, start_[NK];
static int bnd[NLAY]; static unsigned char xd[256]; static int xc[8], xm[8], nx, gc[64], gm[64], ng; /* expected / produced key presses of the current step */
static void rec(uint8_t code, uint8_t st) { e_send(code, st); if (st && !is_mod(code) && ng < 64) { gc[ng] = code; gm[ng] = held_mods(); ng++; } }
static int on(int l) { return l == MAIN ? 1 : l >= DV ? layout == l : H[l] + T[l] + O[l] > 0; }
static int mods_except(int l) { int m = 0; for (int i = 0; i < NLAY; i++) if (i != l && on(i)) m |= lmods[i]; return m; }
static void expire(void) { for (int i = 0; i < NLAY; i++) O[i] = 0; latch = 0; expiry = 0; }
static void emit(int code, int lay, int expl) { xc[nx] = code; xm[nx] = mods_except(lay) | expl; nx++; for (int i = 0; i < NLAY; i++) O[i] = 0; latch = 0; expiry = 0; }
static void kd(int k) {
	const struct key *q = &keys[k]; int kind = q->kind, lay = q->lay; bkind[k] = kind; bl[k] = lay;
	switch (kind) {
	case LAYER: H[lay]++; rec_[lay] = clk++; break;
	case ONESHOT: H[lay]++; rec_[lay] = clk++; latch = 1; break;
	case TOGGLE: T[lay] = !T[lay]; if (T[lay]) rec_[lay] = clk++; expire(); break;
	case OVERLOAD: case OVERLOADK: H[lay]++; rec_[lay] = clk++; start_[k] = e_t; break;
	case COMMAND: expire(); break;
	case CLEAR: memset(xd, 0, 256); expire(); for (int i = 0; i < DV; i++) T[i] = 0; break;
	case LAYOUT: memset(xd, 0, 256); expire(); for (int i = 0; i < DV; i++) T[i] = 0; layout = lay; break;
	case KEY: { /* l1, l2, dv and dw bind t; nothing binds y */
		int w = MAIN, c = q->code;
		if (q->code == KEYD_T) { int r = -1; static const int cand[] = {L1, L2, DV, DW}; static const uint8_t cc[] = {KEYD_1, KEYD_2, KEYD_3, KEYD_4};
			for (int i = 0; i < 4; i++) if (on(cand[i]) && bnd[cand[i]]) { int t = cand[i] >= DV ? 1 : rec_[cand[i]]; if (t > r) { r = t; w = cand[i]; c = cc[i]; } } }
		bcode[k] = c; xd[c] = 1; emit(c, w, 0); break; }
	}
	lastdown = k;
}
static void ku(int k) {
	switch (bkind[k]) {
	case KEY: xd[bcode[k]] = 0; break;
	case LAYER: H[bl[k]]--; break;
	case ONESHOT: H[bl[k]]--; if (latch) { O[bl[k]]++; if (ost) expiry = e_t + ost; } break;
	case OVERLOAD: case OVERLOADK: H[bl[k]]--; if (lastdown == k && (!tapto || e_t - start_[k] < tapto)) { emit(bkind[k] == OVERLOAD ? KEYD_ESC : KEYD_B, MAIN, bkind[k] == OVERLOAD ? 0 : MOD_CTRL); kse_cover("tap"); } else kse_cover("hold"); break;
	}
}
static void verify(void) {
	kse_check(ng == nx, MSG_COUNT);
	for (int i = 0; i < nx; i++) { kse_check(gc[i] == xc[i], MSG_CODE); kse_check(gm[i] == xm[i], MSG_MODS); }
	for (int i = 0; i < NLAY; i++) {
		if (i < DV) kse_check(e_act[lix[i]] == H[i] + T[i] + O[i], "activations and deactivations reported for a layer balance with what keeps it active");
		kse_check(!!e_k->layer_state[lix[i]].active == on(i), "a layer is active exactly while held, toggled or pending as oneshot; one layout at a time");
	}
	for (int i = 0; i < NK; i++) kse_check(e_down[keys[i].code] == xd[keys[i].code], MSG_HELD);
	for (int i = KEYD_1; i <= KEYD_4; i++) kse_check(e_down[i] == xd[i], MSG_HELD);
	nx = ng = 0;
}
static void one(int k, int p) { if (expiry && e_t >= expiry) { expire(); kse_cover("expired"); } if (p) kd(k); else ku(k); ev(keys[k].code, p); verify(); }
void harness_main(void) {
	cat("[ids]\n*\n[global]\ndisable_modifier_guard = 1\n");
#if PAL == 3
	if (kse_choose(2, "oneshot_timeout")) { cat("oneshot_timeout = 200\n"); ost = 200; }
#endif
#if PAL == 4
	if (kse_choose(2, "overload_tap_timeout")) { cat("overload_tap_timeout = 150\n"); tapto = 150; }
#endif
#if PAL == 2
	if (kse_choose(2, "default_layout")) { cat("default_layout = dv\n"); layout = DV; }
#endif
#if PAL == 3
	p_fault = 0;
#endif
	cat("[main]\n"); for (int i = 0; i < NK; i++) if (keys[i].text[0]) { cat(keys[i].text); cat("\n"); }
	cat(PAL == 1 ? "[dv:layout]\nt = 3\n[dw:layout]\nt = 4\n[l1]\nt = 1\n[l2:C-A]\nt = 2\n" : PAL == 2 ? "[dv:layout]\nt = 3\n[l1]\nt = 1\n[l2:C-A]\nt = 2\n[dw:layout]\nt = 4\n" : "[l1]\nt = 1\n[l2:C-A]\nt = 2\n[dv:layout]\nt = 3\n[dw:layout]\nt = 4\n");
	e_noobs = 0; eng_start(); e_k->output.send_key = rec;
	for (int i = 0; i < NLAY; i++) lix[i] = lidx(lname[i]);
	for (int i = 0; i < NLAY; i++) { bnd[i] = 1; if (SYMB && i != L3 && i != MAIN) { bnd[i] = (int)kse_sym(1, "bound"); e_k->config.layers[lix[i]].keymap[KEYD_T].op = bnd[i] ? OP_KEYSEQUENCE : 0; } }
	for (int i = 0; i < NEV; i++) {
		int d = TIMED ? (int)kse_sym(9, "delay") : 1;
		while (e_to > 0 && e_to <= d) { int x = e_to; e_t += x; d -= x; if (expiry && e_t >= expiry) { expire(); kse_cover("expired"); } ev(0, 0); verify(); }
		e_t += d; if (e_to > 0) e_to -= d;
		int k = kse_choose(NK, "key");
#if PAL == 3
		if (keys[k].kind == ONESHOT && !down[k]) for (int j = 0; j < NK; j++) if (j != k && keys[j].kind == ONESHOT && down[j]) kse_end(); /* overlapping oneshot keys: outside the claim */
#endif
		int p = DUP ? (int)kse_choose(2, "pressed") : !down[k];
		if (p == down[k]) { ev(keys[k].code, p); kse_cover("redundant"); } else { down[k] = p; one(k, p); }
		verify();
	}
	for (int k = 0; k < NK; k++) if (down[k]) one(k, 0);
	kse_cover("end");
}
