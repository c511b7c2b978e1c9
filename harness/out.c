/* E17: what may reach the virtual keyboard. */
#include "eng.h"
/* every physical key code, unbound: the key itself, down with the press and up with the release */
static void ident(void) {
	cat("[ids]\n*\n[main]\n"); e_noobs = 1; eng_start();
	int c = (int)kse_sym(8, "code"); kse_assume(c != 0); kse_assume(c < KEYD_CHORD_1 || c > KEYD_CHORD_MAX);
	ev(c, 1);
	if (c == KEYD_NOOP || c == KEYD_EXTERNAL_MOUSE_BUTTON) { kse_check(e_n == 0, "pseudo keys produce nothing"); kse_cover("pseudo"); }
	else if (is_mod(c) || c == KEYD_RIGHTSHIFT || c == KEYD_RIGHTCTRL || c == KEYD_RIGHTMETA) { /* bound by default to the layer of that modifier */
		int want = c == KEYD_RIGHTSHIFT ? KEYD_LEFTSHIFT : c == KEYD_RIGHTCTRL ? KEYD_LEFTCTRL : c == KEYD_RIGHTMETA ? KEYD_LEFTMETA : c;
		kse_check(e_n == 1 && e_out[0] == want && e_outp[0] == 1, "a modifier key stands for its modifier"); kse_cover("modifier");
	}
	else { kse_check(e_n >= 1 && e_out[e_n-1] == c && e_outp[e_n-1] == 1, "an unbound key stands for itself"); kse_cover("self"); }
	ev(c, 0);
	kse_check(e_ndown == 0, "everything is released with the key");
	kse_check(e_dup == 0, "downs and ups alternate");
}
void harness_main(void) { MODE(); }
