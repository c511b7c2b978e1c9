/* C01/C03: arbitrary configuration text. */
#include "conf.h"
#ifndef NCH
#define NCH 5
#endif
#ifndef NT
#define NT 20
#endif
#ifndef H
#define H 3
#endif
static void templates(void) {
	int t = kse_choose(NT, "template");
	if (t >= 4 && t <= 13) lit("[ids]\n*\n[l]\n[m]\n[main]\n");
	switch (t) {
	case 0: hole(H); break;                                              /* the whole file */
	case 1: lit("[ids]\n*\n["); hole(H); lit("]\na = b\n"); break;       /* a section header */
	case 2: lit("[main]\n"); hole(H); lit("\n[l]\na = b"); break;        /* a line */
	case 3: lit("[ids]\nk:1:1\n"); hole(H); lit("\n-1:2\n"); break;
	case 4: hole(H); lit(" = b\n"); break;                               /* a key name */
	case 5: lit("a = "); hole(H); lit("\n"); break;                      /* an action */
	case 6: lit("a = layer("); hole(H); lit(")\n"); break;
	case 7: lit("a = macro("); hole(H); lit(")\n"); break;
	case 8: lit("a = command("); hole(H); lit(")\n"); break;
	case 9: lit("a = overloadt(l, "); hole(H); lit(", 100)\n"); break;
	case 10: lit("a = macro2("); hole(H); lit(", 10, C-x)\n"); break;
	case 11: lit("a = scroll("); hole(H); lit(")\n"); break;
	case 12: lit("j+"); hole(H); lit(" = esc\n"); break;                 /* a chord */
	case 13: lit("a = setlayout("); hole(H); lit(")\n"); break;
	case 14: lit("[global]\nmacro_timeout"); hole(H); lit("\n[main]\na = b\n"); break;
	case 15: lit("[aliases]\na"); hole(H); lit("\n[main]\na = b\n"); break;
	case 16: lit("[l1]\n[l2]\n[l1+"); hole(H); lit("]\na = b\n"); break; /* a composite layer */
	case 17: lit("[l1:"); hole(H); lit("]\na = b\n"); break;             /* a layer type */
	case 18: lit("[global]\ndefault_layout ="); hole(H); lit("\n"); break;
	case 19: lit("[main]\na = lettermod("); hole(H); lit(", 1, 2)\n"); break;
	}
	int r = parse(); kse_cover(r ? "rejected" : "accepted"); kse_obs(r);
	if (!r) kse_check(wellformed(&c_cfg), "everything an accepted configuration refers to exists"); else kse_check(r == -1, "a rejected file is reported");
	kse_check(vfs_open_count == 0, "files are closed again");
}
/* the punctuation of actions */
static void syntax(void) {
	lit("[l]\n[main]\na = "); static const char *fn[] = {"layer(", "overload(", "macro(", "timeout(", "f", "lettermod(", "C-"}; int f = kse_choose(7, "function"); lit(fn[f]);
	from(NCH, "(),\\l1 "); lit("\n"); int r = parse(); kse_check(r == 0, "a malformed action only disables its own line"); kse_check(wellformed(&c_cfg), "everything an accepted configuration refers to exists"); kse_cover(c_cfg.layers[0].keymap[KEYD_A].op ? "bound" : "refused");
}
/* limits: n of everything, n around its capacity */
static void capacity(void) {
	int w = kse_choose(14, "what"), n = kse_choose(5, "count"), i, must = 0, ok = 0;
	switch (w) {
	case 0: n += 28; for (i = 0; i < n; i++) { lit("[s"); num(i); lit("]\n"); } break;                     /* sections, layers */
	case 1: n += 1022; lit("[main]\n"); for (i = 0; i < n; i++) lit("a=b\n"); break;                       /* entries of a section */
	case 2: n += 62; lit("[ids]\n"); for (i = 0; i < n; i++) { lit(i & 1 ? "k:" : i & 2 ? "m:" : i & 4 ? "-" : ""); num(i); lit(":1\n"); } break;
	case 3: n += 62; lit("[main]\n"); for (i = 0; i < n; i++) { lit("f"); num(1 + i % 10); lit("+"); char k[2] = {(char)('a' + i / 10), 0}; lit(k); lit(" = b\n"); } break; /* chords */
	case 4: n += 254; lit("[main]\n"); for (i = 0; i < n; i++) lit("a = macro(b c)\n"); break;
	case 5: n += 62; lit("[main]\n"); for (i = 0; i < n; i++) lit("a = command(b)\n"); break;
	case 6: n += 6; for (i = 0; i < n; i++) { lit("[s"); num(i); lit("]\n"); } lit("[s0"); for (i = 1; i < n; i++) { lit("+s"); num(i); } lit("]\na = b\n"); break; /* constituents */
	case 7: n += 3; lit("[main]\na = overload("); for (i = 0; i < n; i++) lit(i ? ",l" : "l"); lit(")\nb = lettermod("); for (i = 0; i < n; i++) lit(i ? ",l" : "l"); lit(")\n"); break; /* arguments */
	case 8: n += 250; lit("[main]\na = macro("); rep("b", n - 13); lit(")\n"); break;                        /* line length */
	case 9: n += 6; lit("[main]\na"); rep("+b", n); lit(" = esc\n"); break;                                /* chord keys */
	case 10: n += 62; lit("["); rep("x", n); lit("]\na = b\n[aliases]\na = "); rep("y", n - 32); lit("\n[ids]\n"); rep("z", n); lit("\n[global]\ndefault_layout = "); rep("w", n); lit("\n"); break;
	case 11: n += 252; lit("["); rep("x", n - 2); lit("]"); break;
	case 12: { int left = 65536 - 3 + n - 8; lit("[main]\n#"); while (left > 200) { rep("c", 199); lit("\n"); if (left > 201) lit("#"); left -= 201; } rep("c", left); lit("\n"); break; } /* file size */
	case 13: lit("[main]\na = "); rep("overload(control, ", 20 + n); lit("b"); rep(")", 20 + n); lit("\nb = macro("); rep("C-a ", 50); lit(")\n"); break; /* nesting */
	}
	int r = parse(); (void)must; (void)ok; kse_obs(r); kse_cover(r ? "rejected" : "accepted");
	if (!r) kse_check(wellformed(&c_cfg), "everything an accepted configuration refers to exists"); kse_check(vfs_open_count == 0, "files are closed again");
}
void harness_main(void) { MODE(); }
