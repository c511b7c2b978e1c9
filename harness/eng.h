/* Driving the key engine through its public interface (config text -> config_parse -> new_keyboard -> kbd_process_events). */
#ifndef ENG_H
#define ENG_H
#include <string.h>
#include "kse.h"
#include "keyd.h"
#include "env_vfs.h"
#ifdef KSE_NATIVE
#include <stdio.h>
#include <stdlib.h>
#define TR(...) do { if (getenv("KSE_TRACE")) fprintf(stderr, __VA_ARGS__); } while (0)
#else
#define TR(...) do {} while (0)
#endif
#define MAXOUT 600
static struct config e_cfg; static struct keyboard *e_k;
static unsigned char e_out[MAXOUT], e_outp[MAXOUT]; static int e_n;      /* emitted key events, in order */
static unsigned char e_down[256]; static int e_ndown;                    /* virtual key state */
static int e_t = 1000, e_to;                                             /* clock, pending wake-up (0: none) */
static int e_act[32];                                                    /* notified activations - deactivations per layer */
static int e_dup;                                                        /* redundant emissions (press while down, release while up) */
static int e_noobs;
static void e_send(uint8_t code, uint8_t st) {
	TR("    out %s %s\n", KEY_NAME(code), st ? "down" : "up");
	if (e_n < MAXOUT) { e_out[e_n] = code; e_outp[e_n] = st; e_n++; }
	if (e_down[code] == st) e_dup++;
	if (st && !e_down[code]) e_ndown++;
	if (!st && e_down[code]) e_ndown--;
	e_down[code] = st;
	if (!e_noobs) kse_obs(code << 1 | st);
}
static void e_layer(const struct keyboard *k, const struct layer *l, uint8_t on) {
	int i = (int)(l - k->config.layers); if (i >= 0 && i < 32) e_act[i] += on ? 1 : -1;
}
static struct output e_output;
static char e_conf[4096]; static int e_conflen;
static void cat(const char *s) { int n = (int)strlen(s); memcpy(e_conf + e_conflen, s, n); e_conflen += n; }
static void eng_start(void) {
	e_output.send_key = e_send; e_output.on_layer_change = e_layer;
	vfs_add("t.conf", e_conf, e_conflen);
	kse_check(config_parse(&e_cfg, "t.conf") == 0, "valid config accepted");
	e_k = new_keyboard(&e_cfg, &e_output);
}
static int lidx(const char *n) { return config_get_layer_index(&e_cfg, n); }
static void ev(int code, int pressed) { TR("  t=%d %s %s\n", e_t, code ? KEY_NAME(code) : "timer", pressed ? "down" : "up"); struct key_event e = {code, pressed, e_t}; e_to = kbd_process_events(e_k, &e, 1); }
static void fire(void) { e_t += e_to; ev(0, 0); }
/* let d milliseconds pass; wake-ups requested by the engine are delivered when due */
static void pass(int d) { while (e_to > 0 && e_to <= d) { d -= e_to; fire(); } e_t += d; if (e_to > 0) e_to -= d; }
/* as many wake-ups as the engine asks for, at most n; returns 1 when none is left */
static int settle(int n) { while (n-- > 0 && e_to > 0) fire(); return e_to <= 0; }
static int is_mod(int c) { return c == KEYD_LEFTCTRL || c == KEYD_LEFTSHIFT || c == KEYD_LEFTALT || c == KEYD_RIGHTALT || c == KEYD_LEFTMETA; }
static int mod_mask(int c) { return c == KEYD_LEFTCTRL ? MOD_CTRL : c == KEYD_LEFTSHIFT ? MOD_SHIFT : c == KEYD_LEFTALT ? MOD_ALT : c == KEYD_RIGHTALT ? MOD_ALT_GR : c == KEYD_LEFTMETA ? MOD_SUPER : 0; }
static int held_mods(void) { int m = 0; static const unsigned char c[] = {KEYD_LEFTCTRL, KEYD_LEFTSHIFT, KEYD_LEFTALT, KEYD_RIGHTALT, KEYD_LEFTMETA}; for (int i = 0; i < 5; i++) if (e_down[c[i]]) m |= mod_mask(c[i]); return m; }
static int plain_down(void) { int n = 0; for (int i = 1; i < 256; i++) if (e_down[i] && !is_mod(i)) n++; return n; }
#endif
