/* E10: chords against a reference recogniser; chord_timeout, chord_hold_timeout and all delays are symbolic. */
#include "eng.h"
enum { J, K, L, S, NKEY };
static const uint8_t code[NKEY] = {KEYD_J, KEYD_K, KEYD_L, KEYD_S};
static struct { int mask, layer, act; } ch[3]; static int nch, C, H; /* act: code, or -1 for layer(m) */
static int m_on, down[NKEY], bound[NKEY];
static int st /* 0 idle 1 collecting 2 hold */, set, match, last; static struct { int k, p; } q[16]; static int nq;
static struct { int on, rem, act; } ac[3]; static int replaying;
static int xc[64], xp[64], nx;
static void out(int c, int p) { xc[nx] = c; xp[nx] = p; nx++; }
static void plain(int k, int p) { /* without chording */
	if (p) { if (bound[k]) return; bound[k] = k == S && m_on ? KEYD_Y : code[k]; out(bound[k], 1); }
	else { if (bound[k]) out(bound[k], 0); bound[k] = 0; }
}
static void abort_(void);
static void act_up(int a) { if (a < 0) m_on--; else out(a, 0); }
static void chord_release(int i) { /* counts as a release for an undecided chord */
	if (st == 0 || replaying) { act_up(ac[i].act); return; }
	q[nq].k = 100; q[nq].p = ac[i].act; nq++; if (st == 1) abort_();
}
static int chord_up(int k) { /* releases of an active chord's keys belong to the chord */
	for (int i = 0; i < 3; i++) if (ac[i].on && ac[i].rem >> k & 1) {
		ac[i].rem &= ~(1 << k);
		if (!ac[i].rem) { ac[i].on = 0; chord_release(i); }
		return 1;
	}
	return 0;
}
static void replay(int from) { int n = nq; replaying = 1; for (int i = from; i < n; i++) { if (q[i].k == 100) { act_up(q[i].p); continue; } if (!q[i].p && chord_up(q[i].k)) continue; plain(q[i].k, q[i].p); } st = 0; replaying = 0; }
static void resolve(void) {
	kse_cover("chord"); int i = 0; while (ac[i].on) i++;
	ac[i].on = 1; ac[i].rem = ch[match].mask; ac[i].act = ch[match].act;
	if (ch[match].act < 0) m_on++; else out(ch[match].act, 1);
	replay(__builtin_popcount(ch[match].mask));
}
static void abort_(void) { kse_cover("abort"); replay(0); }
static void event(int k, int p, int t) {
	if (!p && chord_up(k)) return;
	if (st == 0) {
		if (!p) { plain(k, 0); return; }
		int part = 0; for (int i = 0; i < nch; i++) if ((ch[i].layer == 0 || m_on) && ch[i].mask >> k & 1) part = 1;
		if (!part) { plain(k, 1); return; }
		st = 1; nq = 0; q[nq].k = k; q[nq].p = 1; nq++; set = 1 << k; match = -1; last = t; return;
	}
	q[nq].k = k; q[nq].p = p; nq++;
	if (st == 2) { if (!p && ch[match].mask >> k & 1) abort_(); return; }
	if (!p) { abort_(); return; }
	set |= 1 << k; int full = -1, part = 0;
	for (int i = 0; i < nch; i++) if (ch[i].layer == 0 || m_on) { if (ch[i].mask == set) full = i; else if ((ch[i].mask & set) == set) part = 1; }
	if (full < 0 && !part) { abort_(); return; }
	last = t; if (full >= 0) match = full;
	if (full >= 0 && !part) { if (H) st = 2; else resolve(); }
}
static int due(void) { return st == 1 ? last + C : last + H; }
static void timer(void) {
	if (st == 1) { if (match < 0) { kse_cover("timeout"); abort_(); } else if (H > C) st = 2; else { kse_cover("ambiguous"); resolve(); } }
	else { kse_cover("hold"); resolve(); }
}
static void verify(void) {
	kse_check(e_n == nx, "chord keys are delivered as the chord or individually, when due, none lost or added");
	for (int i = 0; i < nx; i++) kse_check(e_out[i] == xc[i] && e_outp[i] == xp[i], "the chord's action or the individual keys in order");
	e_n = nx = 0;
}
static void advance(int d) {
	while (st && due() - e_t <= d) {
		int x = due() - e_t; while (e_to > 0 && e_to < x) { x -= e_to; d -= e_to; fire(); verify(); }
		kse_check(e_to == x, "a wake-up is requested for the moment the decision is due"); d -= x; e_t += x; timer(); ev(0, 0); verify();
	}
	while (e_to > 0 && e_to <= d) { d -= e_to; fire(); verify(); }
	e_t += d; if (e_to > 0) e_to -= d;
}
static void go(int k, int p) { event(k, p, e_t); ev(code[k], p); verify(); }
static void add(int mask, int layer, int act) { ch[nch].mask = mask; ch[nch].layer = layer; ch[nch].act = act; nch++; }
void harness_main(void) {
	int v = kse_choose(3, "config"), nk = 3;
	cat("[ids]\n*\n[main]\n");
	if (v == 0) { cat("j+k = esc\n"); add(3, 0, KEYD_ESC); }
	if (v == 1) { cat("j+k = esc\nj+k+l = x\n"); add(3, 0, KEYD_ESC); add(7, 0, KEYD_X); }
	if (v == 2) { cat("j+k = layer(m)\n"); add(3, 0, -1); nk = 4; }
	cat("[m]\ns = y\n"); if (v == 2) { cat("l+s = tab\n"); add(12, 1, KEYD_TAB); }
	eng_start();
	e_k->config.chord_interkey_timeout = C = 1 + (int)kse_sym(8, "chord_timeout");
	e_k->config.chord_hold_timeout = H = kse_choose(2, "hold_timeout") ? 1 + (int)kse_sym(8, "hold") : 0;
	for (int i = 0; i < NEV; i++) { advance((int)kse_sym(9, "delay")); int k = kse_choose(nk, "key");
#ifdef DUP
		int p = kse_choose(2, "pressed"); if (p == down[k]) { if (!p) kse_end(); kse_cover("redundant"); kse_note("duplicate-press"); ev(code[k], p); verify(); continue; }
#else
		int p = !down[k];
#endif
		down[k] = p; go(k, p); }
	for (int i = 0; i < NKEY; i++) if (down[i]) { down[i] = 0; go(i, 0); }
	advance(600);
	kse_check(e_ndown == 0, "nothing stays down"); kse_cover("end");
}
