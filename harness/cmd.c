/* E18: command(): histories of keys, against a count of the commands due; fork, the shell and /dev/null may fail. */
#include "eng.h"
#include "proc.h"
static const struct { uint8_t code; const char *text, *cmd; int tap; } keys[] = {
	{KEYD_Q, "q = command(echo \\(hi\\) \"$A\")", "echo (hi) \"$A\"", 0}, {KEYD_W, "w = command(ls)", "ls", 0}, {KEYD_E, "e = overload(shift, command(id))", "id", 1}, {KEYD_T, "", 0, 0}, {KEYD_R, "r = timeout(command(ls), 100, command(id))", 0, 2}, {KEYD_J, "", 0, 0}, {KEYD_K, "", 0, 0}, {KEYD_Y, "y = layer(n)", 0, 0},
};
#define NK ((int)(sizeof keys / sizeof *keys))
static int down[NK], lastp;
static void step(int code, int p, const char *cmd) {
	int f = p_forks; p_want = cmd; if (code && p) lastp = code; ev(code, p); kse_check(p_role == 0, "a process which cannot run its command ends");
	kse_check(p_forks == f + (cmd != 0), "a command is run once for each press of its key"); kse_check(p_waits == p_born, "the processes started are not left behind");
}
void harness_main(void) {
	cat("[ids]\n*\n[main]\n"); for (int i = 0; i < NK; i++) if (keys[i].text[0]) { cat(keys[i].text); cat("\n"); } cat("j+k = command(ls)\n[n]\nw = command(id)\nq = x\n");
	eng_start();
	for (int i = 0; i < NEV; i++) {
		int k = (int)kse_choose(5, "key"); if (k == 4) { /* the chord */
			int y = (int)kse_choose(2, "layer"); if (y) { if (down[0] || down[1] || down[2] || down[3]) kse_end(); step(KEYD_Y, 1, 0); step(KEYD_W, 1, "id"); step(KEYD_W, 0, 0); step(KEYD_Q, 1, 0); step(KEYD_Q, 0, 0); step(KEYD_Y, 0, 0); kse_cover("layer"); continue; }
			step(KEYD_J, 1, 0); e_t += 5; step(KEYD_K, 1, "ls"); step(KEYD_J, 0, 0); step(KEYD_K, 0, 0); kse_cover("chord"); continue; }
		int d = 1 + (int)kse_choose(2, "delay") * 20; e_t += d; down[k] = !down[k];
		if (!keys[k].tap) step(keys[k].code, down[k], down[k] ? keys[k].cmd : 0);
		else { if (down[k]) step(keys[k].code, 1, 0); else { int tapped = lastp == keys[k].code; step(keys[k].code, 0, tapped ? keys[k].cmd : 0); if (tapped) kse_cover("tap"); } }
		if (k == 3) kse_check(e_down[KEYD_T] == down[3], "keys go on working");
	}
	for (int k = 0; k < 4; k++) if (down[k]) { int last = lastp == keys[k].code; down[k] = 0; step(keys[k].code, 0, keys[k].tap && last ? keys[k].cmd : 0); }
	if (kse_choose(2, "timed")) { int l = (int)kse_sym(8, "held"); step(KEYD_R, 1, 0); if (l < 100) { e_t += l; step(KEYD_R, 0, "ls"); } else { e_t += 100; step(0, 0, "id"); step(KEYD_R, 0, 0); } kse_cover("timed"); }
	kse_cover("end");
}
