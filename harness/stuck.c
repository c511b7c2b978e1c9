/* E01: once every physical key is up and all timers have run, no virtual key stays down */
#include "eng.h"
static const char *act[] = {
	"b", "C-b", "layer(l)", "layer(m)", "oneshot(m)", "oneshot(shift)", "toggle(m)", "overload(m, b)", "overloadt(m, b, 200)", "overloadt2(m, b, 200)",
	"overloadi(b, layer(m), 150)", "lettermod(m, b, 150, 200)", "timeout(b, 200, c)", "timeout(b, 200, layer(m))", "macro(b C-c)", "macro2(300, 100, b)",
	"layerm(m, C-x)", "oneshotm(m, x)", "togglem(m, x)", "clear()", "clearm(x)", "setlayout(dv)", "S-A-b", "noop", "scroll(5)", "swap(m)", "swapm(m, C-x)", "layer(shift)",
};
#define NA (sizeof act / sizeof *act)
static int held[4]; static const uint8_t keys[] = {KEYD_A, KEYD_S, KEYD_D, KEYD_F};
static void body(int nkeys) {
	eng_start();
	int hist = 0;
	for (int i = 0; i < NEV; i++) {
		pass((int)kse_sym(9, "delay"));
		int w = kse_choose(nkeys, "key"); held[w] = !held[w]; ev(keys[w], held[w]);
#ifdef REPLAYED
		/* known finding: while a is undecided a chord key is struck and released and then the chord is struck */
		if (held[0] && w && !held[w]) hist |= 1; if (!held[0]) hist = 0;
		if (hist && held[1] && held[2]) kse_note("queued-release");
#endif
	}
	pass((int)kse_sym(9, "delay"));
	for (int i = 0; i < nkeys; i++) if (held[i]) ev(keys[i], 0);
	int quiet = settle(16);
	kse_check(quiet, "timers stop once all keys are up");
	kse_check(plain_down() == 0, "no non-modifier key is held once all keys are up");
	int m = 0; for (int i = 0; i < (int)e_cfg.nr_layers; i++) if (e_act[i] > 0) m |= e_cfg.layers[i].mods;
	kse_check((held_mods() & ~m) == 0, "a modifier is held only for a layer that is still active");
#ifdef OUTP /* E17 */
	kse_check(e_dup == 0, "key downs and ups alternate");
	for (int i = 0; i < e_n; i++) kse_check(e_out[i] && e_out[i] != KEYD_NOOP && e_out[i] != KEYD_EXTERNAL_MOUSE_BUTTON && (e_out[i] < KEYD_CHORD_1 || e_out[i] > KEYD_CHORD_MAX), "internal pseudo keys never reach the output");
#endif
	kse_cover("end");
}
void harness_main(void) {
#ifdef NESTED /* actions nested in taps, holds and one another */
	static const char *na[] = {"overload(m, timeout(b, 200, c))", "overload(m, overloadi(b, layer(m), 150))", "overload(m, overloadi(b, overloadt2(l, b, 200), 150))", "overload(m, macro2(300, 100, b))", "overload(m, overloadt(l, b, 200))", "overload(m, swap(l))", "overload(m, toggle(l))", "overload(m, oneshot(l))",
		"overload(m, overload(l, b))", "overload(m, clear())", "overload(m, setlayout(dv))", "overload(m, scroll(3))", "overload(m, togglem(l, macro(x y)))", "overloadt(m, timeout(b, 100, c), 200)", "overloadt(m, overloadi(b, c, 100), 200)", "overloadt2(m, oneshot(l), 200)", "overloadt2(m, macro2(300, 100, b), 200)", "overloadt(m, toggle(l), 200)", "overloadt(m, swap(l), 200)",
		"timeout(overloadt(m, b, 100), 200, overload(m, b))", "timeout(oneshot(m), 200, toggle(m))", "timeout(macro2(300, 100, b), 200, macro2(50, 50, c))", "timeout(timeout(b, 100, c), 200, timeout(d, 100, e))", "overloadi(overload(m, b), overloadt(m, timeout(b, 100, c), 200), 150)", "overloadi(macro2(300, 100, b), oneshot(m), 150)"};
	cat("[ids]\n*\n[global]\noneshot_timeout = "); cat(kse_choose(2, "oneshot_timeout") ? "120" : "0"); cat("\n[main]\na = "); cat(na[kse_choose(sizeof na / sizeof *na, "action_a")]); cat("\ns = ");
	static const char *sa[] = {"s", "layer(l)", "overload(l, oneshot(m))", "overloadt2(l, timeout(b, 50, c), 90)"}; cat(sa[kse_choose(4, "action_s")]); cat("\n[l]\nd = e\n[m:C-A]\nd = g\n[dv:layout]\nd = j\n");
	body(3);
#endif
#ifdef PAIR   /* every pair of actions, a layer key and a plain key */
	cat("[ids]\n*\n[global]\noneshot_timeout = "); cat(kse_choose(2, "oneshot_timeout") ? "120" : "0"); cat("\n[main]\n");
	int a1 = kse_choose(NA, "action_a"), a2 = kse_choose(NA, "action_s");
	if (a2 < a1) kse_end();
#ifdef OUTP
	if (a1 == 14 || a2 == 14) kse_end(); /* macros of several steps press keys whether held or not */
#endif
	cat("a = "); cat(act[a1]); cat("\ns = "); cat(act[a2]); cat("\n[l]\nd = e\ns = f\na = swap(m)\n[m:C-A]\nd = g\na = h\n[l+m]\nd = i\n[dv:layout]\nd = j\n");
	body(3);
#endif
#ifdef REPLAYED /* a chord next to a key whose action is decided late */
	cat("[ids]\n*\n[global]\nchord_timeout = 20\nchord_hold_timeout = 150\n[main]\na = overloadt(m, b, 200)\ns+d = esc\n[m]\nd = e\n");
	body(3);
#endif
#ifdef CHORD  /* every action next to a chord */
	static const char *g[] = {"", "chord_hold_timeout = 80\n", "chord_timeout = 20\nchord_hold_timeout = 150\n"};
	cat("[ids]\n*\n[global]\n"); cat(g[kse_choose(3, "globals")]); cat("[main]\n");
	int a1 = kse_choose(NA, "action_a"), a2 = kse_choose(5, "chord_action"); static const char *ca[] = {"esc", "layer(m)", "overload(m, x)", "oneshot(m)", "overload(m, timeout(b, 60, c))"};
#ifdef OUTP
	if (a1 == 14) kse_end();
#endif
	cat("a = "); cat(act[a1]); cat("\ns+d = "); cat(ca[a2]); cat("\n[l]\nd = e\n[m:C-A]\ns+a = g\n[dv:layout]\nd = j\n");
	body(3);
#endif
}
