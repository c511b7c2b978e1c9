/* One key press from an arbitrary keyboard state (every subset of layers active in every order, any bindings). */
#include "eng.h"
static const char *names[] = {"main", "dv", "shift", "l1", "l2", "l3", "l1+l2", "l2+l3", "l1+l2+l3"};
#define NL 9
static int ix[NL]; static int act[NL], bnd[NL]; static long tm[NL]; static int hm;
static int tgt; static int got_code, got_mods, ngot;
static void rec(uint8_t code, uint8_t st) { e_send(code, st); if (st && !is_mod(code)) { got_code = code; got_mods = held_mods(); ngot++; } }
static const uint8_t *cons(int i, int *n) { static const uint8_t c1[] = {3, 4}, c2[] = {4, 5}, c3[] = {3, 4, 5}; *n = i == 8 ? 3 : 2; return i == 6 ? c1 : i == 7 ? c2 : c3; }
static int comp_active(int i) { int n, r = 1; const uint8_t *c = cons(i, &n); for (int j = 0; j < n; j++) r &= act[c[j]]; return r; }
static void setup(void) {
	cat("[ids]\n*\n[main]\na = z\n[dv:layout]\n[l1]\n[l2:C]\n[l3:A-G]\n[l1+l2]\n[l2+l3]\n[l1+l2+l3]\n");
	if (tgt) cat("[tgt]\n");
	e_noobs = 1; eng_start(); e_k->output.send_key = rec;
	for (int i = 0; i < NL; i++) { ix[i] = lidx(names[i]); kse_check(ix[i] >= 0, "layer exists"); }
}
/* E02: which binding is used */
static void lookup(void) {
	setup();
	static const uint8_t out[NL] = {KEYD_1, KEYD_2, KEYD_3, KEYD_4, KEYD_5, KEYD_6, KEYD_7, KEYD_8, KEYD_9};
	for (int i = 0; i < NL; i++) {
		act[i] = i == 0 ? 1 : i < 6 ? (int)kse_sym(1, "active") : 0;
		tm[i] = i == 0 ? 0 : i == 1 ? 1 : i < 6 ? 2 + (long)kse_sym(20, "activated_at") : 0;
		bnd[i] = (int)kse_sym(1, "bound");
		for (int j = 2; j < i && i < 6; j++) kse_assume(tm[i] != tm[j]); /* activations happen one after the other */
		e_k->layer_state[ix[i]].active = act[i]; e_k->layer_state[ix[i]].activation_time = tm[i];
		struct descriptor *d = &e_k->config.layers[ix[i]].keymap[KEYD_A];
		d->op = bnd[i] ? OP_KEYSEQUENCE : 0; d->args[0].code = out[i]; d->args[1].mods = 0;
	}
	ev(KEYD_A, 1);
	kse_check(ngot == 1, "exactly one key is produced");
	int w = -1; for (int i = 0; i < NL; i++) if (out[i] == got_code) w = i;
	if (w < 0) {
		kse_check(got_code == KEYD_A, "an unbound key stands for itself");
		for (int i = 0; i < 6; i++) kse_check(!(act[i] & bnd[i]), "a key stands for itself only if no active layer binds it");
		for (int i = 6; i < NL; i++) kse_check(!(comp_active(i) & bnd[i]), "a key stands for itself only if no active composite layer binds it");
		kse_cover("self");
	} else if (w < 6) {
		kse_check(act[w] & bnd[w], "the binding comes from an active layer which has one");
		for (int i = 0; i < 6; i++) kse_check(!(act[i] & bnd[i] & (tm[i] > tm[w])), "the most recently activated layer with a binding wins");
		for (int i = 6; i < NL; i++) kse_check(!(comp_active(i) & bnd[i]), "an active composite layer takes precedence over its constituents");
		if (w == 0) kse_cover("main"); else if (w == 1) kse_cover("layout"); else kse_cover("layer");
	} else {
		kse_check(comp_active(w) & bnd[w], "a composite layer applies when all its constituents are active");
		int n, m; cons(w, &n);
		for (int i = 6; i < NL; i++) { cons(i, &m); kse_check(!(comp_active(i) & bnd[i] & (m > n)), "the composite layer with most constituents wins"); }
		kse_cover("composite");
	}
	ev(KEYD_A, 0);
	kse_check(plain_down() == 0, "the key produced is released with its key");
}
/* bindings which produce the same key sequence by way of a decision or a macro */
enum { PLAIN, CHORD, TAP, TAP2, SOON, LATE, OVERLOAD, IDLE, BUSY, MACRO, NKIND };
static const char *const bind_[NKIND] = {0, "j+k = b", "a = overloadt(tgt, b, 200)", "a = overloadt2(tgt, b, 200)", "a = timeout(b, 200, c)", "a = timeout(c, 200, b)", "a = overload(tgt, b)", "a = overloadi(c, b, 200)", "a = overloadi(b, c, 200)", "a = macro(b b)"};
static void snprintf_(char *t, const char *l, const char *b) { strcpy(t, l); strcpy(t + strlen(t), "."); strcpy(t + strlen(t), b); }
/* E03: which modifiers accompany it; the binding is in one chosen layer */
static void modifiers_(int rel, int kind) {
	int chord = kind == CHORD; tgt = kind > CHORD; setup();
	int w = kse_choose(chord ? 6 : kind ? NL : NL + 1, "binding_layer"); /* NL: unbound */
	int expl = 0, lm[NL];
	for (int i = 0; i < NL; i++) {
		int n = 0, need = i == w; if (w >= 6 && w < NL) { const uint8_t *c = cons(w, &n); for (int j = 0; j < n; j++) need |= c[j] == i; }
		act[i] = i == 0 ? 1 : i < 6 ? need ? 1 : (int)kse_sym(1, "active") : 0;
		tm[i] = i < 2 ? i : i + 1; e_k->layer_state[ix[i]].active = act[i]; e_k->layer_state[ix[i]].activation_time = tm[i];
		e_k->config.layers[ix[i]].keymap[KEYD_A].op = 0;
		lm[i] = i >= 2 && i < 6 ? (int)kse_sym(5, "layer_mods") : 0;
		e_k->config.layers[ix[i]].mods = lm[i];
	}
	if (w < NL) {
		expl = (int)kse_sym(5, "explicit_mods");
		if (kind) { char t[64]; snprintf_(t, names[w], bind_[kind]); kse_check(!config_add_entry(&e_k->config, t), "the binding is accepted"); }
		struct descriptor *d = chord ? &e_k->config.layers[ix[w]].chords[0].d : &e_k->config.layers[ix[w]].keymap[KEYD_A];
		if (kind > CHORD && kind < MACRO) { int i = kind == SOON || kind == BUSY ? 0 : kind == LATE ? 2 : 1; d = &e_k->config.descriptors[d->args[i].idx]; kse_check(d->op == OP_KEYSEQUENCE && d->args[0].code == KEYD_B, "the action is the key"); }
		if (kind == MACRO) expl = 0; else { d->op = OP_KEYSEQUENCE; d->args[0].code = KEYD_B; d->args[1].mods = expl; }
	}
	/* modifiers already held and the last output are arbitrary */
	static const uint8_t mk[] = {KEYD_LEFTCTRL, KEYD_LEFTSHIFT, KEYD_LEFTALT, KEYD_RIGHTALT, KEYD_LEFTMETA};
	if (!rel) for (int i = 0; i < 5; i++) { int h = kse_choose(2, "held"); e_k->keystate[mk[i]] = h; e_down[mk[i]] = h; }
	e_k->last_pressed_output_code = rel ? KEYD_C : mk[1 + kse_choose(kse_tier() ? 4 : 2, "last_output") * 2 % 5];
	e_k->config.disable_modifier_guard = rel ? 0 : (int)kse_sym(1, "guard_off");
	if (chord) { ev(KEYD_J, 1); kse_check(!ngot, "undecided"); e_t += 3; ev(KEYD_K, 1); } else { if (kind == BUSY) e_k->last_simple_key_time = e_t; ev(KEYD_A, 1); }
	if (kind == TAP || kind == TAP2 || kind == SOON || kind == OVERLOAD) { kse_check(!ngot, "undecided"); e_t += 3; ev(KEYD_A, 0); }
	if (kind == LATE) { kse_check(!ngot, "undecided"); settle(3); }
	int exp = expl;
	for (int i = 2; i < 6; i++) {
		int excl = i == w; if (w >= 6 && w < NL) { int n; const uint8_t *c = cons(w, &n); for (int j = 0; j < n; j++) excl |= c[j] == i; }
		if (!excl) exp |= act[i] ? lm[i] : 0;
	}
	kse_check(ngot == 1 + (kind == MACRO) && got_code == (w < NL ? KEYD_B : KEYD_A), "the bound key is produced");
	kse_check(got_mods == exp, "modifiers at the key press are the explicit ones and those of the active layers other than the binding's own");
	kse_cover(w == NL ? "unbound" : w < 2 ? "base" : w < 6 ? "layer" : "composite");
	if (!rel) return;
	int all = 0; for (int i = 2; i < 6; i++) all |= act[i] ? lm[i] : 0;
	if (chord) { ev(KEYD_J, 0); ev(KEYD_K, 0); } else ev(KEYD_A, 0);
	kse_check(held_mods() == all, "after the release exactly the active layers' modifiers are held");
	kse_check(plain_down() == 0, "the key produced is released with its key");
}
static void mods_press(void) { modifiers_(0, 0); }
static void mods_release(void) { modifiers_(1, 0); }
static void mods_chord(void) { modifiers_(1, CHORD); }
static void mods_other(void) { modifiers_(1, (int)kse_choose(NKIND - TAP, "kind") + TAP); }
void harness_main(void) { MODE(); }
