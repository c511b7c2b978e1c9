/* E09 idle overloads; E13 modifier guard; E14 wake-ups; E16 live bindings. */
#include "eng.h"
static int gc[64], gm[64], ng; /* produced key presses of the current step */
static void rec(uint8_t code, uint8_t st) { e_send(code, st); if (st && !is_mod(code) && ng < 64) { gc[ng] = code; gm[ng] = held_mods(); ng++; } }
/* E09: overloadi() chooses by the time since the last key without modifiers (other than shift) was pressed or released */
static void idle(void) {
	static const char *act[] = {"c", "C-c", "layer(m)"}; int k2 = (int)kse_choose(3, "idle_action"), down[5] = {0}, fast = 0; long last = 0;
	cat("[ids]\n*\n[main]\na = overloadi(b, "); cat(act[k2]); cat(", 150)\nu = S-u\ny = C-y\nw = layer(m)\n[m]\nt = n\n");
	eng_start(); e_k->output.send_key = rec; int T = (int)kse_sym(9, "idle"); e_k->config.layers[0].keymap[KEYD_A].args[2].timeout = T;
	static const uint8_t key[] = {KEYD_A, KEYD_T, KEYD_U, KEYD_Y, KEYD_W}; int lay = 0, tcode = 0;
	for (int i = 0; i < NEV; i++) {
		pass((int)kse_sym(9, "delay")); int k = (int)kse_choose(5, "key"); down[k] = !down[k]; ng = 0; ev(key[k], down[k]); int want = 0, mods = 0, simple = 0;
		switch (k) {
		case 0: if (down[0]) { fast = e_t - last < T; if (fast) kse_cover("midword"); else kse_cover("idle"); want = fast ? KEYD_B : k2 == 2 ? 0 : KEYD_C; mods = !fast && k2 == 1 ? MOD_CTRL : 0; } 
			if (!fast && k2 == 2) lay += down[0] ? 1 : -1; else simple = !(mods || !fast && k2 == 1);
			if (!down[0]) kse_check(!e_down[KEYD_B] && !e_down[KEYD_C], "the chosen action ends with the key"); break;
		case 1: if (down[1]) tcode = want = lay ? KEYD_N : KEYD_T; simple = 1; if (!down[1]) kse_check(!e_down[tcode], "the key ends with its release"); break;
		case 2: want = down[2] ? KEYD_U : 0; mods = MOD_SHIFT; simple = 1; break;
		case 3: want = down[3] ? KEYD_Y : 0; mods = MOD_CTRL; break;
		case 4: lay += down[4] ? 1 : -1; break;
		}
		if (simple) last = e_t;
		kse_check(ng == (want != 0) && (!want || gc[0] == want), "the first action exactly within the idle timeout of the last key, else the second");
		if (want) kse_check(gm[0] == mods, "with exactly its modifiers");
		kse_check(!!e_k->layer_state[lidx("m")].active == (lay > 0), "a layer chosen stays while the key is held");
	}
	kse_cover("end");
}
/* two configurations, one history: the same output */
static int oc[2][200], on_[2], ot[200];
static int hk[8], hd[8], ht, nh;
static void side(int s, const char *conf, int extra) {
	static struct config c2; static char cf[2][512]; memcpy(cf[s], conf, strlen(conf)); vfs_clear(); vfs_add("t.conf", cf[s], (int)strlen(conf));
	struct config *c = s ? &c2 : &e_cfg; kse_check(!config_parse(c, "t.conf"), "valid config accepted"); e_output.send_key = e_send; e_output.on_layer_change = e_layer;
	e_k = new_keyboard(c, &e_output); e_n = 0; memset(e_down, 0, 256); e_ndown = 0; e_t = 1000; e_to = 0; (void)extra;
}
static const uint8_t pk[] = {KEYD_A, KEYD_S, KEYD_D};
static void play(int s, int spur, int sat, int soff, int batch) {
	int down[3] = {0}; static struct key_event be[8];
	for (int i = 0; i < nh; i++) {
		if (batch) { int t = e_t; for (int j = 0; j <= i; j++) t += hd[j]; be[i].code = pk[hk[i]]; be[i].pressed = down[hk[i]] = !down[hk[i]]; be[i].timestamp = t; continue; }
		if (spur && i == sat) { int o = soff; pass(o); ev(0, 0); pass(hd[i] - o); } else pass(hd[i]);
		down[hk[i]] = !down[hk[i]]; ev(pk[hk[i]], down[hk[i]]);
	}
	if (batch) { for (int i = 0; i < nh; i++) e_t += hd[i]; e_to = (int)kbd_process_events(e_k, be, nh); }
	pass(ht); for (int k = 0; k < 3; k++) if (down[k]) ev(pk[k], 0); settle(8);
	on_[s] = e_n; for (int i = 0; i < e_n && i < 200; i++) oc[s][i] = e_out[i] << 1 | e_outp[i]; kse_check(e_n < 200, "a bounded number of key events");
}
static void history(int n) { nh = n; for (int i = 0; i < n; i++) { hk[i] = (int)kse_choose(3, "key"); hd[i] = (int)kse_sym(9, "delay"); } ht = (int)kse_sym(9, "delay"); }
static void same(const char *m) { kse_check(on_[0] == on_[1], m); for (int i = 0; i < on_[0]; i++) kse_check(oc[0][i] == oc[1][i], m); kse_cover("end"); }
static void lettermod(void) {
	e_noobs = 1; history(NEV);
	side(0, "[ids]\n*\n[main]\na = lettermod(m, b, 150, 200)\ns = lettermod(control, s, 60, 90)\n[m:A]\nd = n\n", 0); play(0, 0, 0, 0, 0);
	side(1, "[ids]\n*\n[main]\na = overloadi(b, overloadt2(m, b, 200), 150)\ns = overloadi(s, overloadt2(control, s, 90), 60)\n[m:A]\nd = n\n", 0); play(1, 0, 0, 0, 0);
	same("lettermod() does what its expansion does");
}
/* E14: extra wake-ups and events delivered in batches change nothing */
static const char *act[] = {"b", "oneshot(m)", "overload(m, b)", "overloadt(m, b, 200)", "overloadt2(m, b, 200)", "lettermod(m, b, 150, 200)", "timeout(b, 200, c)", "timeout(b, 200, layer(m))", "macro(b C-c)", "macro2(300, 100, b)", "layer(m)"};
static char cf[512]; static void mk(void) {
	static const char *g[] = {"", "[global]\noneshot_timeout = 120\nchord_timeout = 40\n", "[global]\nchord_hold_timeout = 150\noverload_tap_timeout = 100\n"};
	strcpy(cf, "[ids]\n*\n"); strcat(cf, g[kse_choose(3, "globals")]); strcat(cf, "[main]\na = "); strcat(cf, act[kse_choose(11, "action")]); strcat(cf, kse_choose(2, "chord") ? "\ns+d = esc\n" : "\n"); strcat(cf, "[m:A]\ns = e\nd = f\n");
}
static void spurious(void) {
	e_noobs = 1; mk(); history(NEV); int at = (int)kse_choose(NEV, "where"), off = (int)kse_sym(9, "when"); kse_assume(off <= hd[at]);
	side(0, cf, 0); play(0, 0, 0, 0, 0); side(1, cf, 0); play(1, 1, at, off, 0); same("a superfluous wake-up changes nothing");
}
static void batch(void) {
	e_noobs = 1; mk(); history(NEV); side(0, cf, 0); play(0, 0, 0, 0, 0); side(1, cf, 0); play(1, 0, 0, 0, 1); same("events processed together act as events processed one by one");
}
/* E13: alt and meta are never tapped on their own behalf, unless their key is a plain layer key or the guard is disabled */
static void guard(void) {
	static const struct { uint8_t code; int plain; } key[] = {{KEYD_A, 1}, {KEYD_B, 0}, {KEYD_C, 0}, {KEYD_D, 0}, {KEYD_E, 0}, {KEYD_LEFTALT, 1}, {KEYD_LEFTCTRL, 1}, {KEYD_F, 1}};
	int dis = (int)kse_choose(2, "disabled"), down[8] = {0}, lastphys = -1, nk = 8;
	cat("[ids]\n*\n[global]\noverload_tap_timeout = 100\ndisable_modifier_guard = "); cat(dis ? "1" : "0"); cat("\n[main]\na = layer(m)\nb = overload(n, x)\nc = oneshot(g)\nd = toggle(m)\nf = layerm(n, A-i)\n[m:M]\n[n:A]\n[g:G-S]\ne = M-A-y\n");
	eng_start();
	for (int i = 0; i < NEV; i++) {
		pass(kse_choose(2, "slow") ? 150 : 20); int k = (int)kse_choose(nk, "key"); down[k] = !down[k]; int n0 = e_n; unsigned char st[256]; memcpy(st, e_down, 256);
		ev(key[k].code, down[k]); if (down[k]) lastphys = k; 
		/* an action which ends in the very event it began in is covered by its key, not the guard */
		int inhibit = key[k].plain && !down[k] && lastphys == k;
		for (int j = n0; j < e_n; j++) {
			int c = e_out[j];
			if (!e_outp[j] && (c == KEYD_LEFTALT || c == KEYD_RIGHTALT || c == KEYD_LEFTMETA)) {
				int covered = j > 0 && e_out[j - 1] == KEYD_LEFTCTRL && e_outp[j - 1] && j + 1 < e_n && e_out[j + 1] == KEYD_LEFTCTRL && !e_outp[j + 1];
				int q = j - 1 - covered; while (q >= 0 && !e_outp[q]) q--; int alone = q >= 0 && e_out[q] == c; /* was the modifier the last key pressed? */
				if (alone && !dis && !inhibit) { if (!st[KEYD_LEFTCTRL] || covered) kse_check(covered, "a modifier is not tapped alone as a side effect"); kse_cover("guarded"); }
				else { kse_check(!covered, "control is injected only where needed"); if (alone && inhibit) kse_cover("intended"); if (dis) kse_cover("disabled"); }
			}
			st[c] = e_outp[j];
		}
	}
	kse_cover("end");
}
/* E16: live bindings replace exactly the bindings named, until reset; a key held keeps what its press produced */
static void binds(void) {
	static const struct { const char *t; int ok, lay, key, code; } b[] = {{"t = x", 1, 0, 0, KEYD_X}, {"m.t = z", 1, 1, 0, KEYD_Z}, {"y=w", 1, 0, 1, KEYD_W}, {"main.y = y", 1, 0, 1, KEYD_Y}, {"nope.t = x", 0, 0, 0, 0}, {"t = nokey", 0, 0, 0, 0}, {"t", 1, 0, 0, KEYD_T}, {"reset", 2, 0, 0, 0}};
	static const uint8_t key[] = {KEYD_T, KEYD_Y, KEYD_Q}; const int orig[2][2] = {{KEYD_1, KEYD_Y}, {KEYD_2, 0}}; int cur[2][2], down[3] = {0}, held[2] = {0};
	memcpy(cur, orig, sizeof cur); cat("[ids]\n*\n[main]\nt = 1\nq = layer(m)\n[m]\nt = 2\n"); eng_start(); char e[32];
	for (int i = 0; i < NEV; i++) {
		int w = (int)kse_choose(8 + 3, "step");
		if (w < 8) { memcpy(e, b[w].t, strlen(b[w].t) + 1); int r = kbd_eval(e_k, e); kse_obs(r); kse_check((r == 0) == (b[w].ok != 0), "a valid binding is accepted, an invalid one refused");
			if (b[w].ok == 1) { cur[b[w].lay][b[w].key] = b[w].code; kse_cover("bound"); } if (b[w].ok == 2) { memcpy(cur, orig, sizeof cur); kse_cover("reset"); } continue; }
		w -= 8; down[w] = !down[w]; e_t += 5; ev(key[w], down[w]); if (w == 2) continue;
		if (down[w]) { int l = down[2] && cur[1][w]; held[w] = cur[l][w]; }
		kse_check(e_n > 0 && e_out[e_n - 1] == held[w] && e_outp[e_n - 1] == down[w], "a key produces its current binding, and releases what it pressed");
	}
	if (!down[0]) { e_noobs = 1; kbd_eval(e_k, "reset"); e_t += 5; ev(KEYD_T, 1); kse_check(e_out[e_n - 1] == orig[down[2]][0] && e_outp[e_n - 1], "reset restores the bindings of the file"); }
	kse_check(e_k->original_config == &e_cfg && e_cfg.layers[0].keymap[KEYD_T].args[0].code == KEYD_1, "the configuration read from the file stays"); kse_cover("end");
}
/* however often bindings were made and reset, there is room for what a fresh configuration has room for */
static void again(void) {
	static const char *b[] = {"t = macro(a b)", "t = overload(m, macro(x))", "t = command(x)", "t = timeout(a, 1, timeout(b, 1, c))"}; char e[48];
	cat("[ids]\n*\n[main]\nt = 1\nq = macro(1 2)\n[m]\nt = 2\n"); e_noobs = 1; eng_start(); int k = (int)kse_choose(4, "kind"), n = 0, r = 0;
	for (int round = 0; round < 2; round++) { int m = 0; for (;;) { memcpy(e, b[k], strlen(b[k]) + 1); if (kbd_eval(e_k, e)) break; m++; kse_check(m < 2000, "there is a limit"); } if (round) kse_check(m == n, "reset frees what bindings took up"); else n = m; kse_check(m >= 60, "many bindings are possible"); memcpy(e, "reset", 6); r = kbd_eval(e_k, e); kse_check(!r, "reset"); }
	kse_check(!memcmp(&e_k->config.layers, &e_cfg.layers, sizeof e_cfg.layers), "reset restores the bindings of the file"); kse_cover("end");
}
/* D11: which keys make the pointer scroll */
static void scrolling(void) {
	static const char *t[] = {"scroll(3)", "scrollt(7)", "overloadt(n, scroll(3), 200)", "timeout(b, 200, scroll(7))"}; int kind = (int)kse_choose(4, "kind"), want = 0, down[3] = {0}; static const uint8_t key[] = {KEYD_A, KEYD_Q, KEYD_S};
	cat("[ids]\n*\n[main]\na = "); cat(t[kind]); cat("\nq = layer(m)\n[m:C]\na = x\n[n]\n"); e_noobs = 1; eng_start(); int mine = 0;
	for (int i = 0; i < NEV; i++) {
		int k = (int)kse_choose(3, "key"), d = (int)kse_sym(9, "delay"); pass(d); 
		if (kind >= 2 && down[0] && mine && k) return; /* other keys while it is undecided: E08 */
		int p = down[k] = !down[k]; ev(key[k], p);
		if (!k) { if (p) mine = !down[1]; if (mine) { if (kind == 0) want = p; if (kind == 1 && p) want = !want; } }
		if (kind == 2 && !k && mine && !p) want = 0;
		if (kind == 3 && !k && mine) { if (p) { int x = e_to; kse_check(x == 200, "a wake-up is requested"); fire(); want = 1; } else want = 0; }
		kse_check(!!e_k->scroll.active == want, "the pointer scrolls while a scroll key is held, or from one scroll toggle to the next");
		if (want) { kse_check(e_k->scroll.sensitivity == (kind & 1 ? 7 : 3), "the sensitivity is the one of the binding"); kse_cover("scrolling"); }
	}
	kse_cover("end");
}
void harness_main(void) { MODE(); }
