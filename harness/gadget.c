/* The USB gadget keyboard (src/vkbd/usb-gadget.c). D10. */
#include "kse.h"
#include "vkbd/usb-gadget.c"
const struct keycode_table_ent keycode_table[256];
/* Linux key of each HID usage (drivers/hid/hid-input.c) */
static const unsigned char usage[256] = {
	0, 0, 0, 0, 30, 48, 46, 32, 18, 33, 34, 35, 23, 36, 37, 38, 50, 49, 24, 25, 16, 19, 31, 20, 22, 47, 17, 45, 21, 44, 2, 3,
	4, 5, 6, 7, 8, 9, 10, 11, 28, 1, 14, 15, 57, 12, 13, 26, 27, 43, 43, 39, 40, 41, 51, 52, 53, 58, 59, 60, 61, 62, 63, 64,
	65, 66, 67, 68, 87, 88, 99, 70, 119, 110, 102, 104, 111, 107, 109, 106, 105, 108, 103, 69, 98, 55, 74, 78, 96, 79, 80, 81, 75, 76, 77, 71,
	72, 73, 82, 83, 86, 127, 116, 117, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 134, 138, 130, 132, 128, 129, 131, 137, 133, 135, 136, 113,
	115, 114, 0, 0, 0, 121, 0, 89, 93, 124, 92, 94, 95, 0, 0, 0, 122, 123, 90, 91, 85, 0, 0, 0, 0, 0, 0, 0, 111, 0, 0, 0,
	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 179, 180, 0, 0, 0, 0, 0, 0, 0, 0,
	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 118, 0, 0, 0, 0, 0, 0, 0, 0,
	29, 42, 56, 125, 97, 54, 100, 126 };
static const unsigned char modkey[8] = {29, 42, 56, 125, 97, 54, 100, 126};
static unsigned char rep[8]; static int nrep;
int env_open(const char *p, int f, ...) { return 33; } int env_close(int fd) { return 0; }
long env_write(int fd, const void *b, size_t n) { kse_check(fd == 33 && n == 8, "a report has eight bytes"); memcpy(rep, b, 8); nrep++; return 8; }
static int isin(int u) { int r = 0; for (int i = 2; i < 8; i++) r += rep[i] == u; return r; }
static void hid(void) {
	struct vkbd *v = vkbd_init("x"); int c = (int)kse_sym(8, "code"); vkbd_send_key(v, c, 1); kse_check(nrep == 1, "every change is reported");
	int m = -1; for (int i = 0; i < 8; i++) if (modkey[i] == c) m = i;
	if (m >= 0) { kse_check(rep[0] == 1 << m, "a modifier sets its bit"); for (int i = 2; i < 8; i++) kse_check(!rep[i], "and is no key"); kse_cover("modifier"); }
	else { int u = 0, n = 0; kse_check(!rep[0], "a key sets no modifier"); for (int i = 2; i < 8; i++) if (rep[i]) { u = rep[i]; n++; } kse_check(n <= 1, "one key"); if (n) { kse_check(usage[u] == c, "with the usage of the key"); kse_cover("key"); } else { for (int i = 4; i < 0x74; i++) if (i != 0x32 && usage[i] != 111 && usage[i] != 137 && usage[i] != 134 && usage[i] != 138 && usage[i] != 130 && usage[i] != 132 && usage[i] != 128 && usage[i] != 129 ) kse_check(usage[i] != c, "every usual key can be sent"); kse_cover("none"); } }
	vkbd_send_key(v, c, 0); for (int i = 0; i < 8; i++) if (i != 1) kse_check(!rep[i], "a key released is gone"); kse_check(nrep == 2, "every change is reported");
}
static const unsigned char pool[] = {30, 48, 46, 32, 18, 33, 34, 35}; static const unsigned char pu[] = {4, 5, 6, 7, 8, 9, 10, 11};
static void held(void) {
	struct vkbd *v = vkbd_init("x"); int on[8] = {0}, mods = 0, cnt = 0, n0 = (int)kse_choose(9, "held"); for (int i = 0; i < n0; i++) { vkbd_send_key(v, pool[i], 1); if (cnt < 6) on[i] = 1, cnt++; }
	for (int n = 0; n < NEV; n++) {
		int k = (int)kse_choose(10, "key"), s = (int)kse_choose(2, "state"), r0 = nrep;
		if (k < 8) { vkbd_send_key(v, pool[k], s); if (s && !on[k] && cnt < 6) on[k] = 1, cnt++; else if (!s && on[k]) on[k] = 0, cnt--; if (cnt == 6) kse_cover("full"); }
		else { int b = (int)kse_choose(2, "modifier") ? 6 : 1; vkbd_send_key(v, modkey[b], s); mods = s ? mods | 1 << b : mods & ~(1 << b); }
		kse_check(nrep == r0 + 1, "every change is reported"); kse_check(rep[0] == mods, "with the modifiers held"); int t = 0; for (int i = 0; i < 8; i++) { kse_check(isin(pu[i]) == on[i], "and the keys held, each once, up to six"); } for (int i = 2; i < 8; i++) t += !rep[i]; kse_check(t == 6 - cnt, "and no others");
	}
	kse_cover("end");
}
void harness_main(void) { MODE(); }
