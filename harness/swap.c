/* E12: swap() hands the activation of its layer over to another layer. */
#include "eng.h"
enum { Q, W, E, R, S, T, U, NK };
static const uint8_t code[NK] = {KEYD_Q, KEYD_W, KEYD_E, KEYD_R, KEYD_S, KEYD_T, KEYD_U};
static int down[NK], hold[NK] /* layer held by the key, -1 none */, Tg[3], O[3], latch, rec_[3], clk = 2, heldc[NK], li[3];
static int on(int l) { return l == 0 || (hold[Q] == l) + (hold[R] == l) + (hold[E] == l) + (hold[U] == l) + Tg[l] + O[l] > 0; }
static int cnt(int l) { return (hold[Q] == l) + (hold[R] == l) + (hold[E] == l) + (hold[U] == l) + Tg[l] + O[l]; }
static void clear1(void) { O[1] = O[2] = 0; latch = 0; }
void harness_main(void) {
	int m = (int)kse_choose(2, "with_macro"), uo = (int)kse_choose(2, "second_oneshot");
	cat("[ids]\n*\n[global]\ndisable_modifier_guard = 1\n[main]\nq = layer(l1)\nw = toggle(l1)\ne = oneshot(l1)\nr = overload(l2, b)\nu = "); cat(uo ? "oneshot(l2)" : "toggle(l2)"); cat("\n[l1:C]\nt = 1\ns = "); cat(m ? "swapm(l2, x)" : "swap(l2)"); cat("\n[l2:A]\nt = 2\ns = swap(l1)\n");
	eng_start(); li[1] = lidx("l1"); li[2] = lidx("l2"); for (int i = 0; i < NK; i++) hold[i] = -1;
	int tapped = -1, sm = 0;
	for (int i = 0; i < NEV; i++) {
		int k = (int)kse_choose(NK, "key"); int n0 = e_n; down[k] = !down[k]; e_t += 10;
		if (k == E && down[k] && O[1]) { } 
		int want = 0;
		if (down[k]) switch (k) {
		case Q: hold[Q] = 1; rec_[1] = clk++; break;
		case E: hold[E] = 1; rec_[1] = clk++; latch = 1; break;
		case R: hold[R] = 2; rec_[2] = clk++; break;
		case W: Tg[1] = !Tg[1]; if (Tg[1]) rec_[1] = clk++; clear1(); break;
		case U: if (uo) { hold[U] = 2; rec_[2] = clk++; latch = 1; break; } Tg[2] = !Tg[2]; if (Tg[2]) rec_[2] = clk++; clear1(); break;
		case T: { int w = 0; for (int l = 1; l < 3; l++) if (on(l) && (!w || rec_[l] > rec_[w])) w = l; heldc[T] = want = w == 1 ? KEYD_1 : w == 2 ? KEYD_2 : KEYD_T; clear1(); break; }
		case S: { int w = 0; for (int l = 1; l < 3; l++) if (on(l) && (!w || rec_[l] > rec_[w])) w = l; sm = w == 1 && m;
			heldc[S] = 0; if (!w) { heldc[S] = want = KEYD_S; clear1(); break; } int o = 3 - w;
			if (Tg[w]) { Tg[w] = 0; Tg[o] = 1; rec_[o] = clk++; kse_cover("toggled"); }
			else if (O[w]) { O[w]--; O[o]++; rec_[o] = clk++; kse_cover("oneshot"); }
			else { int h = -1, n = 0; static const int hk[] = {Q, E, R, U}; for (int j = 0; j < 4; j++) if (hold[hk[j]] == w) { h = hk[j]; n++; } kse_check(n > 0, "reference: an active layer has a reason"); if (n > 1) kse_end(); /* which key gives way is not specified */
				hold[h] = o; rec_[o] = clk++; if (h == E) hold[Q] = hold[Q]; heldc[h] = 1; kse_cover("held"); }
			if (sm) want = KEYD_X; break; }
		} else switch (k) {
		case Q: hold[Q] = -1; break;
		case E: if (latch && !heldc[E]) O[hold[E]]++; hold[E] = -1; heldc[E] = 0; break;
		case U: if (!uo) break; if (latch && !heldc[U]) O[hold[U]]++; hold[U] = -1; heldc[U] = 0; break;
		case R: hold[R] = -1; if (tapped == R && !heldc[R]) { want = KEYD_B; clear1(); } heldc[R] = 0; break;
		}
		if (down[k]) { tapped = k; if (k == R || k == E || k == Q || k == U) heldc[k] = 0; }
		ev(code[k], down[k]);
		int n = 0, got = 0; for (int j = n0; j < e_n; j++) if (e_outp[j] && !is_mod(e_out[j])) { n++; got = e_out[j]; }
		kse_check(n == (want != 0) && got == want, "keys are interpreted by the layer swapped in");
		for (int l = 1; l < 3; l++) { kse_check(e_act[li[l]] == cnt(l), "activations and deactivations reported for a layer balance with what keeps it active"); kse_check(!!e_k->layer_state[li[l]].active == on(l), "the layer swapped in is active for as long as the other would have been"); }
		if (k == S && down[S] && !want) kse_check(held_mods() == ((cnt(1) ? MOD_CTRL : 0) | (cnt(2) ? MOD_ALT : 0)), "the modifiers held are those of the active layers");
		if (k == T && !down[T]) kse_check(!e_down[heldc[T]], "a key is released with its key");
	}
	for (int k = 0; k < NK; k++) if (down[k]) { e_t += 10; ev(code[k], 0); }
	kse_check(plain_down() == 0, "no key is held once all keys are up"); kse_cover("end");
}
