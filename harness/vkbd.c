/* The virtual keyboard and pointer (src/vkbd/uinput.c) against a model of uinput. D09. */
#include <string.h>
#include "kse.h"
#include "vkbd/uinput.c"
#include "keynames.h"
/* ---- uinput: two devices, in order of creation */
static struct ui { int open, created; unsigned char ev[4], key[128], led[4], rel[4], abs[8], name[UINPUT_MAX_NAME_SIZE]; struct uinput_user_dev u; int written; } ui[2]; static int nui;
static struct { int dev; struct input_event e; } o_[64]; static int on;
static int calls, failat = -1, exited, mayexit, partial; static int locks;
static int fails(void) { return calls++ == failat; }
int env_open(const char *p, int fl, ...) { kse_check(!strcmp(p, "/dev/uinput") && (fl & O_ACCMODE) != O_RDONLY, "uinput is opened for writing"); if (fails()) return -1; kse_check(nui < 2, "two devices"); ui[nui].open = 1; return 50 + nui++; }
static struct ui *dv(int fd) { kse_check(fd >= 50 && fd < 50 + nui && ui[fd - 50].open, "an open device"); return &ui[fd - 50]; }
int env_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); unsigned long a = va_arg(ap, unsigned long); va_end(ap); struct ui *d = dv(fd); a &= 0xffffffff; if (fails()) return -1;
	#define BIT(f) do { kse_check(!d->created && a / 8 < sizeof d->f, "capabilities are set before the device is created"); d->f[a / 8] |= 1 << a % 8; } while (0)
	switch (req) { case UI_SET_EVBIT: BIT(ev); break; case UI_SET_KEYBIT: BIT(key); break; case UI_SET_LEDBIT: BIT(led); break; case UI_SET_RELBIT: BIT(rel); break; case UI_SET_ABSBIT: BIT(abs); break;
	case UI_DEV_CREATE: kse_check(d->written && !d->created, "a device is created once it is described"); d->created = 1; break; default: kse_check(0, "a known request"); }
	return 0;
}
long env_write(int fd, const void *b, size_t n) {
	struct ui *d = dv(fd); if (!d->created) { if (fails()) return -1; kse_check(n == sizeof d->u && !d->written, "a device is described once"); memcpy(&d->u, b, n); d->written = 1; return n; }
	kse_check(n == sizeof(struct input_event), "whole events are written"); kse_check(on < 64, "events"); o_[on].dev = fd - 50; memcpy(&o_[on].e, b, n); on++; return n;
}
long env_read(int fd, void *b, size_t n) { return -1; }
int env_close(int fd) { struct ui *d = dv(fd); d->open = 0; return 0; }
int env_usleep(unsigned u) { return 0; }
int env_pthread_mutex_lock(pthread_mutex_t *m) { kse_check(!locks, "no deadlock"); locks++; return 0; }
int env_pthread_mutex_unlock(pthread_mutex_t *m) { locks--; return 0; }
void env_exit(int c) { kse_check(mayexit && calls > failat && failat >= 0, "only failure ends keyd"); kse_check(c != 0, "with a status which says so"); kse_cover("failed"); kse_end(); for (;;); }
#define HAS(d, f, b) (ui[d].f[(b) / 8] >> (b) % 8 & 1)
static struct vkbd *init(void) { struct vkbd *v = vkbd_init("keyd virtual keyboard"); return v; }
static const struct { unsigned char k; unsigned short ev; int ptr; } spec[] = { {KEYD_LEFT_MOUSE, BTN_LEFT, 1}, {KEYD_MIDDLE_MOUSE, BTN_MIDDLE, 1}, {KEYD_RIGHT_MOUSE, BTN_RIGHT, 1}, {KEYD_MOUSE_1, BTN_SIDE, 1}, {KEYD_MOUSE_2, BTN_EXTRA, 1}, {KEYD_MOUSE_BACK, BTN_BACK, 1}, {KEYD_MOUSE_FORWARD, BTN_FORWARD, 1}, {KEYD_ZOOM, KEY_ZOOM, 0}, {KEYD_VOICECOMMAND, KEY_VOICECOMMAND, 0} };
static void setup(void) {
	mayexit = 1; failat = (int)kse_sym(10, "fails") - 1; kse_assume(failat < 400); struct vkbd *v = init();
	int f = failat >= 0 && failat < calls; /* a failure the code went on after: one optional capability of the pointer at most */
	kse_check(nui == 2 && ui[0].written && ui[1].written, "both devices are described");
	if (f) { kse_cover("tolerated"); return; }
	kse_check(ui[0].created && ui[1].created, "both devices exist"); kse_check(ui[0].u.id.vendor == 0x0fac && ui[1].u.id.vendor == 0x0fac, "keyd's devices are recognisable"); kse_check(!strcmp(ui[0].u.name, "keyd virtual keyboard") && ui[1].u.name[0], "by name");
	for (int i = 0; i < NKEYNAMES; i++) { int c = key_names[i].code, ev = c, d = 0; for (size_t k = 0; k < sizeof spec / sizeof *spec; k++) if (spec[k].k == c) { ev = spec[k].ev; d = spec[k].ptr; } kse_check(HAS(d, key, ev), "every key with a name can be sent"); }
	kse_check(HAS(0, ev, EV_KEY) && HAS(0, ev, EV_LED) && HAS(0, ev, EV_REP), "the keyboard has keys, leds and repetition"); for (int i = LED_NUML; i <= LED_MISC; i++) kse_check(HAS(0, led, i), "every led");
	kse_check(!HAS(0, ev, EV_REL) && !HAS(0, ev, EV_ABS), "the keyboard is no pointer"); for (int b = BTN_LEFT; b <= BTN_TASK; b++) kse_check(!HAS(0, key, b), "and has no buttons");
	kse_check(HAS(1, ev, EV_KEY) && HAS(1, ev, EV_REL) && HAS(1, ev, EV_ABS), "the pointer moves"); kse_check(HAS(1, rel, REL_X) && HAS(1, rel, REL_Y) && HAS(1, rel, REL_WHEEL) && HAS(1, rel, REL_HWHEEL) && HAS(1, abs, ABS_X) && HAS(1, abs, ABS_Y), "in every way");
	kse_check(ui[1].u.absmax[ABS_X] == 1024 && ui[1].u.absmax[ABS_Y] == 1024 && !ui[1].u.absmin[ABS_X] && !ui[1].u.absmin[ABS_Y], "over the range of absolute positions");
	for (int b = BTN_LEFT; b <= BTN_TASK; b++) kse_check(HAS(1, key, b), "with every button"); kse_cover("end"); (void)v;
}
/* net effect of the events on device d, which must end with a report, and consist of nothing else */
static int rel_[16], abs_[4], absset[4], keyc, keyv, nkey;
static void effect(int d) {
	kse_check(on > 0 && o_[on - 1].e.type == EV_SYN && o_[on - 1].e.code == SYN_REPORT && !o_[on - 1].e.value, "a report follows");
	memset(rel_, 0, sizeof rel_); memset(absset, 0, sizeof absset); nkey = 0;
	for (int i = 0; i < on; i++) { struct input_event *e = &o_[i].e; kse_check(o_[i].dev == d, "everything goes to the device it is for"); if (e->type == EV_SYN) continue; 
		if (e->type == EV_REL) { kse_check(e->code < 16 && HAS(d, rel, e->code), "an announced axis"); rel_[e->code] += e->value; } else if (e->type == EV_ABS) { kse_check(e->code < 2, "an announced axis"); abs_[e->code] = e->value; absset[e->code] = 1; } else if (e->type == EV_KEY) { keyc = e->code; keyv = e->value; nkey++; } else kse_check(0, "a known event"); }
	int last = -1; for (int i = 0; i < on; i++) if (o_[i].e.type != EV_SYN) last = i; kse_check(last < on - 1, "nothing is left unreported");
}
static void sending(void) {
	struct vkbd *v = init(); int same = 0;
	for (int n = 0; n < 2; n++) {
		int c = (int)kse_sym(8, "code"), st = (int)kse_sym(1, "state"), d = 0, ev = c; for (size_t k = 0; k < sizeof spec / sizeof *spec; k++) if (spec[k].k == c) { ev = spec[k].ev; d = spec[k].ptr; kse_cover(d ? "button" : "special"); }
		on = 0; vkbd_send_key(v, c, st); effect(d); kse_check(nkey == 1 && on == 2, "one event is sent for a key"); kse_check(keyc == ev && keyv == st, "with its code and state"); kse_check(!locks, "the lock is released"); kse_obs(on);
		for (int i = 0; i < 4; i++) kse_check(!rel_[i], "and nothing else"); same += c;
	}
	kse_cover("end");
}
static void pointer(void) {
	struct vkbd *v = init();
	for (int n = 0; n < 2; n++) {
		on = 0; int k = (int)kse_choose(3, "event"), x = (int)kse_sym(32, "x"), y = (int)kse_sym(32, "y");
		switch (k) {
		case 0: vkbd_mouse_move(v, x, y); effect(1); kse_check(rel_[REL_X] == x && rel_[REL_Y] == y, "exactly the movement"); kse_check(!rel_[REL_WHEEL] && !rel_[REL_HWHEEL] && !absset[0] && !absset[1] && !nkey, "and nothing else"); kse_cover("move"); break;
		case 1: vkbd_mouse_scroll(v, x, y); effect(1); kse_check(rel_[REL_HWHEEL] == x && rel_[REL_WHEEL] == y, "exactly the steps"); kse_check(!rel_[REL_X] && !rel_[REL_Y] && !absset[0] && !absset[1] && !nkey, "and nothing else"); kse_cover("scroll"); break;
		case 2: vkbd_mouse_move_abs(v, x, y); effect(1); kse_check(absset[0] == (x >= 0) && absset[1] == (y >= 0), "the axes which moved"); kse_check((!absset[0] || abs_[0] == x) && (!absset[1] || abs_[1] == y), "to their positions"); for (int i = 0; i < 16; i++) kse_check(!rel_[i], "and nothing else"); kse_check(!nkey, "and nothing else"); kse_cover("absolute"); break;
		}
	}
	kse_cover("end");
}
void harness_main(void) { MODE(); }
