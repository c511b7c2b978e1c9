/* C13: every shipped layout types the character written at each of its positions. */
#include "eng.h"
#include "keynames.h"
static const char *l_text; static int l_len, l_exp[4][256];
#include "layouts.h" /* generated from layouts/ and data/keyd.compose */
static const char low[] = "`1234567890-=qwertyuiop[]\\asdfghjkl;'zxcvbnm,./", up[] = "~!@#$%^&*()_+QWERTYUIOP{}|ASDFGHJKL:\"ZXCVBNM<>?";
static const unsigned char kc[] = {KEYD_GRAVE, KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5, KEYD_6, KEYD_7, KEYD_8, KEYD_9, KEYD_0, KEYD_MINUS, KEYD_EQUAL, KEYD_Q, KEYD_W, KEYD_E, KEYD_R, KEYD_T, KEYD_Y, KEYD_U, KEYD_I, KEYD_O, KEYD_P, KEYD_LEFTBRACE, KEYD_RIGHTBRACE, KEYD_BACKSLASH, KEYD_A, KEYD_S, KEYD_D, KEYD_F, KEYD_G, KEYD_H, KEYD_J, KEYD_K, KEYD_L, KEYD_SEMICOLON, KEYD_APOSTROPHE, KEYD_Z, KEYD_X, KEYD_C, KEYD_V, KEYD_B, KEYD_N, KEYD_M, KEYD_COMMA, KEYD_DOT, KEYD_SLASH};
static const unsigned char dig[] = {KEYD_0, KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5, KEYD_6, KEYD_7, KEYD_8, KEYD_9, KEYD_A, KEYD_B, KEYD_C, KEYD_D, KEYD_E, KEYD_F, KEYD_G, KEYD_H, KEYD_I, KEYD_J, KEYD_K, KEYD_L, KEYD_M, KEYD_N, KEYD_O, KEYD_P, KEYD_Q, KEYD_R, KEYD_S, KEYD_T, KEYD_U, KEYD_V, KEYD_W, KEYD_X, KEYD_Y, KEYD_Z};
static unsigned char kcode[128], kshift[128]; static char path[64] = "/d/layouts/";
static int delay = 100;
static void type(int key, int want) {
	int n0 = e_n, mods = held_mods(); ev(key, 1); pass(delay); int n1 = e_n;
	/* the keys pressed in between, each with the modifiers under which it is seen */
	unsigned char k[8], m[8]; int n = 0; 
	for (int i = n0; i < n1; i++) { int c = e_out[i]; if (is_mod(c)) { if (e_outp[i]) mods |= mod_mask(c); else mods &= ~mod_mask(c); } else if (e_outp[i]) { kse_check(n < 8, "one character is typed"); k[n] = (unsigned char)c; m[n++] = (unsigned char)mods; } }
	if (want < 128) {
		kse_check(n == 1 && k[0] == kcode[want], "a plain character is typed by its key"); kse_check(m[0] == (kshift[want] ? MOD_SHIFT : 0), "a plain character is typed with the shift state it needs, and nothing else"); kse_cover(kshift[want] ? "shifted" : "plain");
	} else {
		int s = want - 128; kse_check(n == 4 && k[0] == KEYD_CANCEL && k[1] == dig[s / 1296] && k[2] == dig[s / 36 % 36] && k[3] == dig[s % 36], "other characters are typed by their compose sequence"); kse_check(!(m[0] | m[1] | m[2] | m[3]), "the compose sequence is typed without modifiers"); kse_cover("composed");
	}
}
void harness_main(void) {
	e_noobs = 1; for (unsigned i = 0; i < sizeof kc; i++) { kcode[(int)low[i]] = kcode[(int)up[i]] = kc[i]; kshift[(int)up[i]] = 1; }
	int l = (int)kse_choose(NLAYOUTS, "layout"); lload(l); strcpy(path + 11, lname[l]); vfs_add(path, l_text, l_len);
	kse_check(l_exp[0][KEYD_NOOP] == 0, "every line of a layout is a heading or a binding");
	cat("[ids]\n*\n[global]\ndefault_layout = "); cat(lname[l]); cat("\ninclude layouts/"); cat(lname[l]); cat("\n"); eng_start();
	int pos = (int)kse_choose(4, "position"), ord = pos == 3 ? (int)kse_choose(2, "order") : 0;
	int key = (int)kse_sym(8, "key"); kse_assume(l_exp[pos][key] != 0);
	int want = l_exp[pos][key]; kse_check(want != -3, "the shifted position of a letter is its capital"); kse_check(want > 0, "every position of a layout has a character which can be typed");
	if (pos & 2 && ord) ev(KEYD_RIGHTALT, 1); if (pos & 1) ev(KEYD_LEFTSHIFT, 1); if (pos & 2 && !ord) ev(KEYD_RIGHTALT, 1);
	delay = (int)kse_choose(2, "quick") ? 0 : 100; type(key, want);
	/* the next key, pressed before the first is released */
	int key2 = 0; if (kse_choose(2, "roll")) { kse_assume(key == KEYD_A || (kse_tier() && (key == KEYD_E || key == KEYD_SEMICOLON || key == KEYD_APOSTROPHE || key == KEYD_1))); key2 = (int)kse_sym(8, "key2"); kse_assume(key2 != key && l_exp[pos][key2] > 0); type(key2, l_exp[pos][key2]); if (kse_choose(2, "last_first")) { ev(key2, 0); ev(key, 0); } else { ev(key, 0); ev(key2, 0); } kse_cover("rolled"); } else
	ev(key, 0); if (pos & 1) ev(KEYD_LEFTSHIFT, 0); if (pos & 2) ev(KEYD_RIGHTALT, 0); pass(100); kse_check(e_ndown == 0, "nothing is left held"); kse_cover("end");
}
