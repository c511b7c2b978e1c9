/* Input devices (src/device.c) against a model of the kernel's evdev interface. D01 events, D02 classification and identity, D03 grabbing. */
#include <string.h>
#include "kse.h"
#include "device.c"
#ifdef KSE_NATIVE
#define TR(...) do { if (getenv("KSE_TRACE")) fprintf(stderr, __VA_ARGS__); } while (0)
#else
#define TR(...) do {} while (0)
#endif
const struct keycode_table_ent keycode_table[256];
/* ---- the kernel side */
static struct input_event k_ev[8]; static int k_n, k_pos, k_errno, k_short, k_nr; /* events waiting, then -1 with k_errno */
static unsigned k_keys[24], k_vendor, k_product, k_rel, k_abs; static char k_name[256]; static struct input_absinfo k_ai[2];
static int k_fail = -1, k_calls, k_open = 0, k_openfail; /* which ioctl fails; file descriptors open */
static unsigned char k_down[8]; static int k_ndown, k_polls, k_grab; static int k_grabdown, k_laststate, k_grabs, k_ungrabs, k_slept;
static int k_gone; static struct input_event k_out; static int k_nout, k_gone;
static unsigned char i_buf[512]; static int i_n, i_pos, i_chunk[8], i_nchunk, i_c;
int env_open(const char *p, int fl, ...) { if (!strcmp(p, "/dev/input/eventX")) return -1; if (k_openfail) return -1; k_open++; kse_check((fl & O_NONBLOCK) != 0, "devices are opened non-blocking"); return 7; }
int env_close(int fd) { k_open--; kse_check(fd == 7 && k_open >= 0, "only an open device is closed"); return 0; }
long env_read(int fd, void *b, size_t n) {
	if (fd == 9) { if (i_c >= i_nchunk) { errno = EAGAIN; return -1; } int l = i_chunk[i_c++] - i_pos; kse_check(n >= (size_t)l, "room for what is read"); memcpy(b, i_buf + i_pos, l); i_pos += l; return l; }
	k_nr++; kse_check(n >= sizeof(struct input_event) && fd == 7, "a whole event is read from the device");
	if (k_pos < k_n) { memcpy(b, &k_ev[k_pos++], sizeof(struct input_event)); return sizeof(struct input_event); }
	errno = k_errno; return -1;
}
long env_write(int fd, const void *b, size_t n) { kse_check(fd == 7 && n == sizeof k_out, "one event is written"); memcpy(&k_out, b, n); k_nout++; if (k_gone) { errno = ENODEV; return -1; } return n; }
void xwrite(int fd, const void *b, size_t n) { if (env_write(fd, b, n) < 0) exit(-1); }
int env_usleep(unsigned u) { k_slept++; return 0; }
int env_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap);
	unsigned nr = req & 0xff, sz = (req >> 16) & 0x3fff; int me = k_calls++;
	kse_check(fd == 7 && k_open > 0, "the device is open");
	if (me == k_fail) { errno = EINVAL; return -1; }
	if (nr == 0x90) { int on = p != 0; if (on) { k_grabs++; k_grabdown = k_laststate; } else k_ungrabs++; k_grab = on; return 0; }
	if (nr == 0x18) { unsigned char *s = p; memset(s, 0, sz); int n = 0; if (k_polls < k_ndown) { unsigned i = k_down[k_polls]; static const unsigned short idx[] = {1, 30, 255, 272, 511, 766}; i = idx[i]; if (i / 8 < sz) s[i / 8] |= 1 << (i % 8); n = 1; } k_polls++; k_laststate = n; return sz; }
	if (nr == 0x20 + EV_KEY) { memcpy(p, k_keys, sz < sizeof k_keys ? sz : sizeof k_keys); return sz; }
	if (nr == 0x20 + EV_REL) { memset(p, 0, sz); *(unsigned char *)p = k_rel; return sz; }
	if (nr == 0x20 + EV_ABS) { memset(p, 0, sz); *(unsigned char *)p = k_abs; return sz; }
	if (nr == 0x06) { size_t l = strlen(k_name) + 1; if (l > sz) l = sz; memcpy(p, k_name, l); return l; } /* the kernel truncates, without a terminator */
	if (nr == 0x40 + ABS_X || nr == 0x40 + ABS_Y) { memcpy(p, &k_ai[nr - 0x40], sizeof k_ai[0]); return 0; }
	if (nr == 0x02) { struct input_id id = {0}; id.bustype = 3; id.vendor = k_vendor; id.product = k_product; memcpy(p, &id, sizeof id); return 0; }
	kse_check(0, "unexpected ioctl"); return -1;
}
static struct device d;
/* ---- D01 */
static int map(unsigned c) { /* evdev code >= 256 -> keyd code, -1: not supported */
	static const struct { unsigned short ev, kd; } t[] = {
		{KEY_FN_F1, KEYD_F13}, {KEY_FN_F2, KEYD_F14}, {KEY_FN_F3, KEYD_F15}, {KEY_FN_F4, KEYD_F16}, {KEY_FN_F5, KEYD_F17}, {KEY_FN_F6, KEYD_F18}, {KEY_FN_F7, KEYD_F19}, {KEY_FN_F8, KEYD_F20}, {KEY_FN_F9, KEYD_F21}, {KEY_FN_F10, KEYD_F22}, {KEY_FN_F11, KEYD_F23}, {KEY_FN_F12, KEYD_F24},
		{KEY_PROG1, KEYD_F21}, {KEY_PROG2, KEYD_F22}, {KEY_PROG3, KEYD_F23}, {KEY_PROG4, KEYD_F24},
		{KEY_NOTIFICATION_CENTER, KEYD_F21}, {KEY_PICKUP_PHONE, KEYD_F22}, {KEY_HANGUP_PHONE, KEYD_F23},
		{KEY_FN_RIGHT_SHIFT, KEYD_F13}, {KEY_KEYBOARD, KEYD_F14}, {KEY_REFRESH_RATE_TOGGLE, KEYD_F15}, {KEY_SELECTIVE_SCREENSHOT, KEYD_F16}, {KEY_TOUCHPAD_OFF, KEYD_F17}, {KEY_TOUCHPAD_ON, KEYD_F18}, {KEY_VENDOR, KEYD_F19},
		{KEY_EDITOR, KEYD_F13}, {KEY_SPREADSHEET, KEYD_F14}, {KEY_GRAPHICSEDITOR, KEYD_F15}, {KEY_PRESENTATION, KEYD_F16}, {KEY_DATABASE, KEYD_F17}, {KEY_NEWS, KEYD_F18}, {KEY_VOICEMAIL, KEYD_F19}, {KEY_ADDRESSBOOK, KEYD_F20}, {KEY_MESSENGER, KEYD_F21},
		{KEY_FN, KEYD_FN}, {KEY_ZOOM, KEYD_ZOOM}, {KEY_VOICECOMMAND, KEYD_VOICECOMMAND},
		{BTN_LEFT, KEYD_LEFT_MOUSE}, {BTN_MIDDLE, KEYD_MIDDLE_MOUSE}, {BTN_RIGHT, KEYD_RIGHT_MOUSE}, {BTN_SIDE, KEYD_MOUSE_1}, {BTN_EXTRA, KEYD_MOUSE_2}, {BTN_BACK, KEYD_MOUSE_BACK}, {BTN_FORWARD, KEYD_MOUSE_FORWARD}, {BTN_TASK, KEYD_F18},
		{BTN_0, KEYD_F13}, {BTN_1, KEYD_F14}, {BTN_2, KEYD_F15}, {BTN_3, KEYD_F16}, {BTN_4, KEYD_F17}, {BTN_5, KEYD_F18}, {BTN_6, KEYD_F19}, {BTN_7, KEYD_F20}, {BTN_8, KEYD_F21}, {BTN_9, KEYD_F22},
	};
	int r = -1; for (unsigned i = 0; i < sizeof t / sizeof *t; i++) if (t[i].ev == c) r = t[i].kd; return r;
}
static const struct { int min, max; } range[] = {{0, 1024}, {0, 32767}, {-500, 500}, {100, 1123}, {7, 7}, {0, 0x7fffffff}, {-0x7fffffff - 1, 0x7fffffff}, {10, -10}};
static void onekey(unsigned lo, unsigned hi) {
	struct input_event e; memset(&e, 0, sizeof e); e.type = EV_KEY; e.code = (unsigned short)kse_sym(16, "code"); e.value = (int)kse_sym(2, "value"); kse_assume(e.value <= 2 && e.code >= lo && e.code <= hi);
	k_n = k_pos = 0; k_ev[k_n++] = e; struct device_event *r = device_read_event(&d); int want = e.code < 256 ? e.code : map(e.code);
	TR("key %x value %d -> %s %x\n", e.code, e.value, r ? "event" : "none", r ? r->code : 0);
	if (e.value == 2) { kse_check(!r, "autorepeat is ignored"); kse_cover("repeat"); return; }
	if (want < 0) { kse_check(!r, "an unsupported key is not reported as another"); kse_cover("unsupported"); return; }
	kse_check(r && r->type == DEV_KEY && r->code == want && r->pressed == e.value, "the key and its state are reported"); kse_cover("key");
}
static int second; static void other(int k) {
	struct input_event e; memset(&e, 0, sizeof e); k_n = k_pos = 0; e.value = (int)kse_sym(32, "amount"); int s = (int)kse_choose(second ? 5 : 1, "code"); struct device_event *r;
	switch (k) {
	case 0: { static const int c[] = {REL_X, REL_Y, REL_WHEEL, REL_HWHEEL}; e.type = EV_REL; e.code = s < 4 ? c[s] : (unsigned short)kse_sym(16, "axis"); if (s == 4) kse_assume(e.code != REL_X && e.code != REL_Y && e.code != REL_WHEEL && e.code != REL_HWHEEL);
		k_ev[k_n++] = e; r = device_read_event(&d); if (s == 4) { kse_check(!r, "other relative axes are ignored"); return; }
		kse_check(r && r->type == (s < 2 ? DEV_MOUSE_MOVE : DEV_MOUSE_SCROLL), "movement or scrolling is reported"); kse_check(r->x == (s == 0 || s == 3 ? e.value : 0) && r->y == (s == 1 || s == 2 ? e.value : 0), "by its amount along its axis only"); kse_cover("motion"); break; }
	case 1: { e.type = EV_ABS; int g = second ? (int)kse_choose(8, "range") : 0, ax = s & 1; if (s > 1) { e.code = (unsigned short)kse_sym(16, "axis"); kse_assume(e.code != ABS_X && e.code != ABS_Y); } else e.code = ax ? ABS_Y : ABS_X;
		d._minx = d._miny = 3; d._maxx = d._maxy = 999; if (ax) { d._miny = range[g].min; d._maxy = range[g].max; } else { d._minx = range[g].min; d._maxx = range[g].max; }
		k_ev[k_n++] = e; r = device_read_event(&d); if (s > 1) { kse_check(!r, "other absolute axes are ignored"); return; }
		if (range[g].max <= range[g].min) { kse_cover("degenerate"); return; }
		kse_assume(e.value >= range[g].min && e.value <= range[g].max);
		long w = ((long)e.value - range[g].min) * 1024 / ((long)range[g].max - range[g].min);
		kse_check(r && r->type == DEV_MOUSE_MOVE_ABS, "absolute movement is reported"); kse_check((ax ? r->y : r->x) == w, "in 1024ths of the axis"); kse_cover("absolute"); break; }
	case 2: e.type = EV_LED; e.code = s; e.value &= 1; k_ev[k_n++] = e; r = device_read_event(&d); kse_check(r && r->type == DEV_LED && r->code == s && r->pressed == e.value, "lights are reported"); break;
	case 3: e.type = (unsigned short)kse_sym(16, "type"); e.code = (unsigned short)kse_sym(16, "axis"); kse_assume(e.type != EV_KEY && e.type != EV_REL && e.type != EV_ABS && e.type != EV_LED); k_ev[k_n++] = e; r = device_read_event(&d); kse_check(!r, "other events are ignored"); kse_cover("ignored"); break;
	default: k_errno = s == 0 ? EAGAIN : s == 1 ? ENODEV : s == 2 ? EIO : (int)kse_sym(8, "errno"); kse_assume(k_errno != 0 && k_errno != EINTR); r = device_read_event(&d);
		if (k_errno == EAGAIN) { kse_check(!r && d.fd == 7, "nothing to read"); kse_cover("empty"); } else { kse_check(r && r->type == DEV_REMOVED, "a device which cannot be read is removed"); kse_check(k_open == 0, "and closed"); kse_cover("removed"); kse_end(); } break;
	}
}
static void events(void) {
	memset(&d, 0, sizeof d); d.fd = 7; d.is_virtual = 0; k_open = 1; k_errno = EAGAIN;
	int k = (int)kse_choose(6, "first"); if (k == 5) onekey(30, 30); else other(k);
	second = 1; k = (int)kse_choose(6, "second"); if (k == 5) onekey(0, KEY_MAX); else other(k); /* whatever came before */
	int c = (int)kse_sym(8, "led"), v = (int)kse_sym(1, "state"); k_gone = (int)kse_sym(1, "unplugged"); device_set_led(&d, c, v); kse_check(k_nout == 1 && k_out.type == EV_LED && k_out.code == c && k_out.value == v, "a light is set as asked");
	kse_cover("end");
}
/* ---- D02 */
int env_snprintf(char *b, size_t n, const char *f, ...) { if (n) { b[0] = 'i'; if (n > 1) b[1] = 0; } return 1; } /* the text of the identifier is the subject of another run */
static void classify(void) {
	for (int i = 0; i < 3; i++) k_keys[i] = (unsigned)kse_sym(32, "keys"); k_keys[7] = (unsigned)kse_sym(32, "keys"); k_keys[8] = (unsigned)kse_sym(32, "keys"); k_keys[9] = ~0u;
	k_rel = (unsigned)kse_sym(8, "rel"); k_abs = (unsigned)kse_sym(8, "abs"); k_vendor = (unsigned)kse_sym(16, "vendor"); k_product = 0x1234; strcpy(k_name, "dev");
	k_ai[0].minimum = (int)kse_sym(32, "min"); k_ai[0].maximum = (int)kse_sym(32, "max"); k_ai[1].minimum = 3; k_ai[1].maximum = 77; k_keys[7] &= 1u; /* KEY_VOLUMEUP 115, KEY_BRIGHTNESSUP 225 */
	k_keys[7] |= ((unsigned)kse_sym(1, "bright")) << 1; k_keys[3] = ((unsigned)kse_sym(1, "volume")) << (115 - 96) | ((unsigned)kse_sym(1, "voldown")) << (114 - 96);
	memset(&d, 0xa5, sizeof d); int r = device_init("/dev/input/event3", &d);
	unsigned need = 0x3f0ffc; int kb = (k_keys[0] & need) == need || (k_keys[7] >> 1 & 1) || (k_keys[3] >> 19 & 1), abs = k_abs != 0, mouse = k_rel || k_abs, want = (kb ? CAP_KEYBOARD : 0) | (mouse ? CAP_MOUSE : 0) | (abs ? CAP_MOUSE_ABS : 0);
	if (!want) { kse_check(r < 0 && !k_open, "a device which is neither is left alone"); kse_cover("neither"); return; }
	kse_check(r == 0 && k_open == 1 && d.fd == 7, "a keyboard or mouse is used"); kse_check(d.capabilities == want, "keyboards and mice are told apart");
	kse_check(!!d.is_virtual == (k_vendor == 0x0fac), "keyd's own devices are recognised"); kse_check(!d.grabbed && !d.data, "a new device is not grabbed"); kse_check(!strcmp(d.path, "/dev/input/event3") && !strcmp(d.name, "dev"), "its path and name are kept");
	if (abs) kse_check((int)d._minx == k_ai[0].minimum && (int)d._maxx == k_ai[0].maximum && (int)d._miny == 3 && (int)d._maxy == 77, "its axes are as reported");
	if (kb) kse_cover("keyboard"); if (mouse) kse_cover("mouse"); kse_cover("end");
}
static int nkeys(void) { int n = 0; for (int i = 0; i < 9; i++) for (int b = 0; b < 32; b++) n += k_keys[i] >> b & 1; return n; }
static void ident(void) {
	static const unsigned char len[] = {0, 1, 5, 62, 63, 64, 100}, rv[] = {0, 1, 3, 0x80, 0xff}; int l = len[kse_choose(7, "name_length")], sid = (int)kse_choose(3, "symbolic_id"), last = (int)kse_choose(2, "last_character");
	for (int i = 0; i < l; i++) k_name[i] = 'a' + i % 23; if (l && last) k_name[l - 1] = 0x7e;
	k_keys[0] = 0x3f0ffc; if (kse_choose(2, "keys")) { k_keys[1] = k_keys[2] = k_keys[8] = ~0u; } k_rel = rv[sid ? 2 : kse_choose(5, "rel")]; k_abs = rv[sid ? 0 : kse_choose(5, "abs")];
	k_vendor = sid == 1 ? (unsigned)kse_sym(16, "vendor") : 0x46d; k_product = sid == 2 ? (unsigned)kse_sym(16, "product") : 0xc52b;
	memset(&d, (int)kse_choose(2, "memory") ? 0xa5 : 0, sizeof d); kse_check(device_init("/dev/input/event3", &d) == 0, "used");
	int n = nkeys(); unsigned h = 5183; h = h * 33; h = h * 33; h = h * 33 + (unsigned char)(n >> 8); h = h * 33 + (unsigned char)n; h = h * 33 + k_abs; h = h * 33 + k_rel;
	int m = l > 63 ? 63 : l; for (int i = 0; i < m; i++) { kse_check(d.name[i] == k_name[i], "the name of the device"); h = h * 33 + k_name[i]; } kse_check(d.name[m] == 0, "the name of the device is terminated");
	char w[64]; memset(w, 0, sizeof w); snprintf(w, sizeof w, "%04x:%04x:%08x", k_vendor, k_product, h);
	TR("id %s want %s\n", d.id, w); for (int i = 0; i < 19; i++) kse_check(d.id[i] == w[i], "the identifier depends on vendor, product, name and capabilities alone, and never changes");
	kse_cover("end");
}
static void fails(void) { /* whichever system call fails, nothing leaks */
	k_keys[0] = 0x3f0ffc; k_rel = 3; k_abs = (unsigned)kse_choose(2, "abs") * 3; k_vendor = 1; strcpy(k_name, "dev"); k_fail = (int)kse_choose(9, "fails") - 1; k_openfail = (int)kse_choose(2, "open_fails");
	memset(&d, 0xa5, sizeof d); int r = device_init("/dev/input/event3", &d); if (k_openfail) { kse_check(r < 0, "a device which cannot be opened is not used"); return; }
	kse_check(k_open == (r == 0), "a device which is not used is closed"); if (r < 0) kse_cover("failed"); if (k_fail < 0) kse_check(r == 0, "used"); kse_cover("end");
}
/* ---- D03 */
static void grab(void) {
	memset(&d, 0, sizeof d); d.fd = 7; k_open = 1; k_errno = EAGAIN; k_ndown = (int)kse_choose(4, "held"); for (int i = 0; i < k_ndown; i++) k_down[i] = (unsigned char)kse_choose(6, "key");
	k_n = (int)kse_choose(4, "queued"); k_fail = (int)kse_choose(6, "fails") - 1; int r = device_grab(&d), nf = k_fail >= 0 && k_fail < k_calls;
	if (nf) { kse_check(r != 0 && !d.grabbed && !k_grab, "a failed grab leaves the device alone"); kse_cover("failed"); return; }
	kse_check(r == 0 && d.grabbed && k_grab && k_grabs == 1, "the device is grabbed"); kse_check(!k_grabdown, "not before its keys are released"); kse_check(k_pos == k_n, "events from before the grab are dropped"); if (k_ndown) kse_check(k_slept > 0, "the last release has time to be delivered");
	k_fail = -1; kse_check(device_grab(&d) == 0 && k_grabs == 1, "grabbing twice changes nothing");
	int uf = (int)kse_choose(2, "ungrab_fails"); if (uf) k_fail = k_calls; r = device_ungrab(&d); kse_check(uf ? r != 0 && d.grabbed : r == 0 && !d.grabbed && !k_grab && k_ungrabs == 1, "the device is released"); if (!uf) kse_check(device_ungrab(&d) == 0 && k_ungrabs == 1, "once");
	kse_cover("end");
}
/* ---- devices present at the start and announced by inotify */
static int s_n, s_pos, s_kind[80], s_open[80], s_closed, s_total; static const char *s_name(int k) { return k == 1 ? "mouse0" : k == 2 ? "by-id" : k == 4 ? "eventX" : "event7"; }
DIR *env_opendir(const char *p) { kse_check(!strcmp(p, "/dev/input/"), "devices are sought in /dev/input"); return (DIR *)&s_n; }
int env_closedir(DIR *x) { s_closed++; return 0; }
struct dirent *env_readdir(DIR *x) { static struct dirent e; if (s_pos >= s_n) return 0; strcpy(e.d_name, s_name(s_kind[s_pos])); e.d_type = s_kind[s_pos] == 2 || s_kind[s_pos] == 3 ? DT_DIR : DT_CHR; s_pos++; return &e; }
int env_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) { static void *r[80]; static int n; r[n] = f(arg); *t = (pthread_t)&r[n]; n++; return 0; }
int env_pthread_join(pthread_t t, void **r) { *r = *(void **)t; return 0; }
static void scan(void) { /* kinds: 0 device, 1 other node, 2 directory, 3 directory named like a device, 4 a device which cannot be opened */
	static struct device t[MAX_DEVICES]; int big = (int)kse_choose(2, "many"); s_n = big ? 62 + (int)kse_choose(5, "devices") : (int)kse_choose(4, "devices"); int want = 0; 
	for (int i = 0; i < s_n; i++) { s_kind[i] = big ? (i == 5 ? (int)kse_choose(5, "kind") : 0) : (int)kse_choose(5, "kind"); want += s_kind[i] == 0; }
	k_keys[0] = 0x3f0ffc; k_vendor = 1; strcpy(k_name, "dev"); int n = device_scan(t); if (want > MAX_DEVICES || s_n > MAX_DEVICES) { kse_check(n >= MAX_DEVICES - 1 && n <= MAX_DEVICES, "devices up to the limit are used"); kse_cover("many"); } else kse_check(n == want, "every device present is found");
	for (int i = 0; i < n; i++) kse_check(t[i].fd == 7 && t[i].capabilities == CAP_KEYBOARD && !strcmp(t[i].path, "/dev/input/event7"), "and usable"); kse_check(s_closed == 1 && k_open == n, "nothing leaks"); kse_cover("end");
}
static unsigned char i_buf[512]; static int i_n, i_pos, i_chunk[8], i_nchunk, i_c;
static void announce(void) {
	int n = (int)kse_choose(4, "events"), want = 0; k_keys[0] = 0x3f0ffc; k_vendor = 1; strcpy(k_name, "dev"); k_errno = EAGAIN;
	for (int i = 0; i < n; i++) { /* the kernel pads names to whole structures; any number of events per read */
		int kind = (int)kse_choose(3, "kind"); kind = kind == 2 ? 4 : kind; struct inotify_event e; memset(&e, 0, sizeof e); e.mask = IN_CREATE; e.len = 16; memcpy(i_buf + i_n, &e, sizeof e); strcpy((char *)i_buf + i_n + sizeof e, s_name(kind)); i_n += sizeof e + 16; want += kind == 0;
		if (i == n - 1 || kse_choose(2, "separately")) { i_chunk[i_nchunk++] = i_n; }
	}
	static struct device t; int got = 0; for (int i = 0; i < 5; i++) { memset(&t, 0xa5, sizeof t); if (devmon_read_device(9, &t)) break; got++; kse_check(t.fd == 7 && !strcmp(t.path, "/dev/input/event7"), "a device which was plugged in is usable"); }
	kse_check(got == want && k_open == want, "every device plugged in is found"); kse_cover(n ? "announced" : "nothing"); kse_cover("end");
}
void harness_main(void) { MODE(); kse_end(); }
