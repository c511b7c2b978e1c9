/* E08: keys whose meaning is decided by time: overloadt, overloadt2, timeout(), against a reference decision procedure. */
#include "eng.h"
enum { K_A, K_F, K_S, K_D, NKEY };
static const uint8_t code[NKEY] = {KEYD_A, KEYD_F, KEYD_S, KEYD_D};
enum { OVT, OVT2, TMK, TML };
static int kind[2], T[2];
/* reference state */
static int down[NKEY], bound[NKEY] /* code held, -1: layer, 0: nothing */, nl;
static int pend = -1, pend_t; static struct { int k, p, t; } q[16]; static int nq;
static int xc[64], xp[64], nx;
static void out(int c, int p) { xc[nx] = c; xp[nx] = p; nx++; }
static void event(int k, int p, int t);
static void press(int k, int t) {
	if (k <= K_F) { pend = k; pend_t = t; nq = 0; bound[k] = 0; return; }
	bound[k] = k == K_S ? (nl ? KEYD_X : KEYD_S) : (nl ? KEYD_Y : KEYD_D); out(bound[k], 1);
}
static void resolve(int hold, int t) {
	int k = pend, n = nq; int rk[16], rp[16], rt[16];
	for (int i = 0; i < n; i++) { rk[i] = q[i].k; rp[i] = q[i].p; rt[i] = q[i].t; }
	pend = -1; nq = 0;
	if (!hold) { bound[k] = k == K_A ? KEYD_B : KEYD_N; out(bound[k], 1); }
	else if (kind[k] == TMK) { bound[k] = KEYD_C; out(KEYD_C, 1); }
	else { bound[k] = -1; nl++; }
	for (int i = 0; i < n; i++) { if (pend >= 0 && rt[i] - pend_t >= T[pend]) resolve(1, pend_t + T[pend]); event(rk[i], rp[i], rt[i]); }
	if (pend >= 0 && t - pend_t >= T[pend]) { kse_note("second-deadline-missed"); resolve(1, t); }
}
static void event(int k, int p, int t) {
	if (pend >= 0) {
		int inq = 0; for (int i = 0; i < nq; i++) if (q[i].k == k) inq = 1;
		if (p || inq || k == pend) {
			q[nq].k = k; q[nq].p = p; q[nq].t = t; nq++;
			if (k == pend) { kse_cover("tap"); resolve(0, t); }
			else if (p && kind[pend] >= TMK) { kse_cover("interrupted"); resolve(0, t); }
			else if (!p && kind[pend] == OVT2) { kse_cover("intervening_tap"); resolve(1, t); }
			return;
		}
	}
	if (p) press(k, t);
	else { if (bound[k] > 0) out(bound[k], 0); else if (bound[k] < 0) nl--; bound[k] = 0; }
}
static void verify(void) {
	kse_check(e_n == nx, "events come out when the decision is due, none lost or added");
	for (int i = 0; i < nx; i++) kse_check(e_out[i] == xc[i] && e_outp[i] == xp[i], "tap/hold decision and the order of queued keys");
	e_n = nx = 0;
}
static void advance(int d) {
	while (pend >= 0 && pend_t + T[pend] - e_t <= d && !(pend_t + T[pend] <= e_t)) {
		int x = pend_t + T[pend] - e_t; while (e_to > 0 && e_to < x) { x -= e_to; d -= e_to; fire(); verify(); }
		kse_check(e_to == x, "a wake-up is requested for the moment the decision is due"); d -= x; e_t += x; kse_cover("held"); resolve(1, e_t); ev(0, 0); verify();
	}
	while (e_to > 0 && e_to <= d) { d -= e_to; fire(); verify(); }
	e_t += d; if (e_to > 0) e_to -= d;
}
static void go(int k) { down[k] = !down[k]; event(k, down[k], e_t); ev(code[k], down[k]); verify(); }
void harness_main(void) {
	static const char *tx[] = {"overloadt(l, b, 200)", "overloadt2(l, b, 200)", "timeout(b, 200, c)", "timeout(b, 200, layer(l))"};
	static const char *ty[] = {"overloadt(l, n, 60)", "overloadt2(l, n, 60)"};
	cat("[ids]\n*\n[main]\na = "); kind[0] = kse_choose(4, "kind"); cat(tx[kind[0]]); cat("\nf = "); kind[1] = TWO ? (int)kse_choose(2, "kind2") : 0; cat(ty[kind[1]]); cat("\n[l]\ns = x\nd = y\n");
	e_noobs = 0; eng_start();
	for (int i = 0; i < 1 + TWO; i++) { struct descriptor *d = &e_k->config.layers[0].keymap[code[i]]; T[i] = 1 + (int)kse_sym(8, "timeout"); d->args[kind[i] >= TMK ? 1 : 2].timeout = T[i]; }
	int ks[3] = {K_A, K_S, TWO ? K_F : K_D};
	for (int i = 0; i < NEV; i++) { advance((int)kse_sym(9, "delay")); go(ks[kse_choose(3, "key")]); }
	for (int i = 0; i < NKEY; i++) if (down[i]) go(i);
	kse_check(e_ndown == 0, "nothing stays down"); kse_cover("end");
}
