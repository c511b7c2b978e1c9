/* Daemon and event loop (src/daemon.c, src/evloop.c) around model devices, a model keyboard engine and a model clock.
   D03 which devices are used; D06 reloading; D07 panic; D08 timers and wake-ups; D11 pointer and scroll events. */
#define HAVE_DEVCLOSE
#include "dmn.h"
#ifndef FEW
#define FEW 0
#endif
#ifndef BASE
#define BASE 100000
#endif
#undef EV_TIMEOUT
#include "evloop.c"
const struct keycode_table_ent keycode_table[256];
/* ---- configurations and keyboards (stand-ins for the engine) */
#define NK 12
static struct mk { struct keyboard *k; struct config *c; int conf, dead, armed, nev; long deadline; } mk_[NK]; static int nmk, gen;
static int rank_[2][70]; /* configuration, device */
static struct { int kb, code, pressed, ts; } k_log[256]; static int k_n;
static long now_; static int slow, spent; /* clock; time each event takes to handle; total */
static int kb_to_fixed = -1; static int nto;
static int conf_parses[2], conf_bad[2]; static void (*hook)(int kb, int code, int pressed);
int config_parse(struct config *c, const char *path) { int i = strstr(path, "/a.conf") ? 0 : strstr(path, "/b.conf") ? 1 : -1; kse_check(i >= 0, "only .conf files are configurations"); conf_parses[i]++; if (conf_bad[i]) return -1; c->path[0] = 'a' + i; c->path[1] = 0; return 0; }
static int devno(const char *id) { return id[0] - '0'; }
int config_check_match(struct config *c, const char *id, uint8_t flags) { return rank_[c->path[0] - 'a'][devno(id)]; }
struct keyboard *new_keyboard(struct config *c, const struct output *o) {
	struct keyboard *k = calloc(1, sizeof *k); kse_check(nmk < NK && o->send_key != 0, "one keyboard per configuration"); mk_[nmk].k = k; mk_[nmk].c = c; mk_[nmk].conf = c->path[0] - 'a'; mk_[nmk].armed = 0; k->output = *o; k->original_config = c; nmk++; return k;
}
static int find(const struct keyboard *k) { int r = -1; for (int i = 0; i < nmk; i++) if (mk_[i].k == k) r = i; return r; }
static int m_maxto = 1023;
long kbd_process_events(struct keyboard *k, const struct key_event *e, size_t n) {
	int i = find(k); kse_check(i >= 0, "events go to a keyboard"); mk_[i].nev++; volatile int touch = k->scroll.active; (void)touch; long last = 0;
	for (size_t j = 0; j < n; j++) { TR("  keyboard %d: %d %d @%ld\n", i, e[j].code, e[j].pressed, (long)e[j].timestamp);  k_log[k_n].kb = i; k_log[k_n].code = e[j].code; k_log[k_n].pressed = e[j].pressed; k_log[k_n].ts = (int)e[j].timestamp; k_n++; last = (long)e[j].timestamp; if (hook) hook(i, e[j].code, e[j].pressed); }
	now_ += slow; spent += slow; mk_[i].armed = 0;
	if (!m_maxto) return 0;
	long t = m_maxto == 1 ? (long)kse_choose(2, "timeout") * 50 : (long)kse_sym(6, "timeout"); if (t > 0) { mk_[i].armed = 1; mk_[i].deadline = last + t; }
	return t;
}
int kbd_eval(struct keyboard *k, const char *s) { return 0; }
int macro_parse(char *s, struct macro *m) { return -1; }
void macro_execute(void (*o)(uint8_t, uint8_t), const struct macro *m, size_t t) {}
int parse_key_sequence(const char *s, uint8_t *c, uint8_t *m) { return -1; }
int unicode_lookup_index(uint32_t c) { return -1; }
void unicode_get_sequence(int i, uint8_t c[4]) {}
int utf8_read_char(const char *s, uint32_t *c) { return 0; }
/* ---- devices */
#define SYM(v, b, n) int v = (int)kse_sym(b, n)
#define CH(v, b, n) int v = (int)kse_choose(b, n)
#define ND 70
#define DEVFD 200
static struct md { int present, gone, kept; struct device_event q[4]; int n, pos; int grabbed, nled, led, ledstate, closed; uint8_t cap, virt; } md_[ND]; static int nd; /* index = descriptor - 10 */
static int grabfail[ND]; static int newdev = -1, nnew, scanned;
static void fill(struct device *d, int i) { memset(d, 0, sizeof *d); d->fd = DEVFD + i; d->id[0] = '0' + i; d->capabilities = md_[i].cap; d->is_virtual = md_[i].virt; d->name[0] = 'n'; }
static int dn(const struct device *d) { int i = d->id[0] - '0'; kse_check(i >= 0 && i < ND, "a known device"); return i; }
int device_scan(struct device *t) { int n = 0; for (int i = 0; i < scanned; i++) fill(&t[n++], i); nd = scanned; return n; }
int devmon_create(void) { return 90; }
int devmon_read_device(int fd, struct device *d) { if (newdev < 0) return -1; fill(d, newdev); nd = newdev + 1; if (nnew > 1) nnew--, newdev++; else newdev = -1; return 0; }
int device_grab(struct device *d) { int i = dn(d); if (d->grabbed) return 0; if (grabfail[i]) return -1; d->grabbed = 1; md_[i].grabbed = 1; return 0; }
int device_ungrab(struct device *d) { int i = dn(d); d->grabbed = 0; md_[i].grabbed = 0; return 0; }
static int ledbad; void device_set_led(const struct device *d, int l, int s) { int i = dn(d); if (md_[i].gone) ledbad++; md_[i].nled++; md_[i].led = l; md_[i].ledstate = s; }
struct device_event *device_read_event(struct device *d) {
	static struct device_event e; int i = dn(d); kse_check(d->fd == DEVFD + i, "only present devices are read");
	if (md_[i].pos < md_[i].n) { e = md_[i].q[md_[i].pos++]; if (e.type == DEV_REMOVED) { d->fd = -1; md_[i].gone = 1; } return &e; } return 0;
}
static int dev_closed[ND]; static int devclose(int fd) { int i = fd - DEVFD; kse_check(i >= 0 && i < ND && !dev_closed[i]++, "a device is closed once"); return 0; }
static struct device *tab(int i) { struct device *r = 0; for (size_t k = 0; k < device_table_sz; k++) if (dn(&device_table[k]) == i) r = &device_table[k]; return r; }
/* ---- clock and poll */
int env_clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = now_ / 1000; ts->tv_nsec = now_ % 1000 * 1000000; return 0; }
static int dead_below, rounds, maxrounds; static void (*script)(struct pollfd *p, int n, int timeout); static void (*finish)(void); static long lastts;
static struct pollfd *pf_; static int pn_; static int ready; /* bit i: device i; 30: ipc; 31: devmon */
static int due_[NK]; /* number of events a keyboard has to have seen by the next poll */
static int slot(int fd) { int r = -1; for (int i = 0; i < pn_; i++) if (pf_[i].fd == fd) r = i; return r; }
static void wake(int dev) { int s = slot(DEVFD + dev); kse_check(s >= 0 && (pf_[s].events & POLLIN), "every device is watched"); pf_[s].revents = POLLIN; }
int env_poll(struct pollfd *p, nfds_t n, int timeout) {
	pf_ = p; pn_ = (int)n; TR("poll t=%ld timeout %d\n", now_, timeout);
	for (int i = 0; i < dead_below; i++) mk_[i].dead = 1;
	for (int i = 0; i < nmk; i++) if (mk_[i].armed && !mk_[i].dead) {
		long left = mk_[i].deadline - lastts; if (left < 1) left = 1;
		kse_check(timeout > 0 && timeout <= left + spent, "the daemon wakes up when a keyboard needs it");
	}
	for (int i = 0; i < nmk; i++) if (due_[i]) { kse_check(mk_[i].nev >= due_[i], "a keyboard which is due is woken"); due_[i] = 0; }
	kse_check(slot(90) >= 0 && slot(IPCFD) >= 0, "new devices and clients are watched");
	for (int i = 0; i < pn_; i++) p[i].revents = 0;
	if (rounds++ >= maxrounds) { if (finish) finish(); kse_cover("end"); kse_end(); }
	script(p, (int)n, timeout); lastts = now_; return 1;
}
static void push(int dev, int type, int code, int pressed, int x, int y) { struct md *m = &md_[dev]; if (m->pos == m->n) m->pos = m->n = 0; kse_check(m->n < 4, "queue"); struct device_event *e = &m->q[m->n++]; memset(e, 0, sizeof *e); e->type = type; e->code = code; e->pressed = pressed; e->x = x; e->y = y; wake(dev); }
static void dev(int i, int cap, int virt) { md_[i].present = 1; md_[i].cap = cap; md_[i].virt = virt; if (i >= scanned) scanned = i + 1; }
static void confs(int n) { cd_n = n; cd_name[0] = "a.conf"; cd_name[1] = "b.conf"; cd_type[0] = cd_type[1] = DT_REG; }
static void go(int r) { maxrounds = r; now_ = lastts = BASE; for (int i = 0; i < NCON; i++) con[i].out_fail = -1; char *a[] = {"keyd", 0}; run_daemon(1, a); }
static int slowness, late;
/* ---- D08: whatever happens between, a keyboard which asked to be woken is woken in time */
static void tscript(struct pollfd *p, int n, int to) {
	static const short dl[] = {0, 7}; int k; if (FEW) { static const char f[] = {0, 2, 4, 6, 1}; k = f[kse_choose(to > 0 ? 5 : 3, "happens")]; } else k = (int)kse_choose(to > 0 ? 7 : 6, "happens"); slow = slowness;
	if (k == 6) { now_ += to + late; kse_cover("timeout"); for (int i = 0; i < nmk; i++) if (mk_[i].armed && !mk_[i].dead && mk_[i].deadline <= now_) due_[i] = 1 + mk_[i].nev; return; }
	int d = FEW ? 7 : dl[kse_choose(2, "delay")]; if (to > 0) kse_assume(d <= to); now_ += d; int s;
	switch (k) {
	case 0: push(0, DEV_KEY, KEYD_A, 1, 0, 0); break; /* first keyboard */
	case 1: push(1, DEV_KEY, KEYD_B, 1, 0, 0); kse_cover("second"); break;                            /* another keyboard, with its own configuration */
	case 2: push(1, DEV_MOUSE_MOVE, 0, 0, 3, 4); break;
	case 3: push(2, DEV_KEY, KEYD_LEFT_MOUSE, 1, 0, 0); kse_cover("mouse"); break;                    /* a mouse keyd does not manage */
	case 4: s = slot(DEVFD); p[s].revents = POLLIN; kse_cover("spurious"); break;
	case 5: p[slot(IPCFD)].revents = POLLIN; c_waiting = 1; con[c_next].eof = 1; con[c_next].in_n = 0; kse_cover("client"); break; /* a client which says nothing */
	}
}
static void timers(void) {
	confs(2); dev(0, CAP_KEYBOARD, 0); dev(1, CAP_KEYBOARD | CAP_MOUSE, 0); dev(2, CAP_MOUSE, 0); rank_[0][0] = 2; rank_[1][1] = 2; rank_[TWO][1] = 2; rank_[!TWO][1] = 0;
	slowness = FEW ? 3 : (int)kse_choose(2, "slow") * 3; late = FEW ? 0 : (int)kse_choose(2, "late"); script = tscript; go(NR);
}
/* ---- D07 */
static unsigned char held[3]; static const unsigned char pk[] = {KEYD_ENTER, KEYD_BACKSPACE, KEYD_ESC};
static int want_die(void) { return held[0] & held[1] & held[2]; }
static void died(void) { kse_check(want_die(), "only enter, backspace and escape held together end the daemon"); kse_cover("panic"); }
static void pscript(struct pollfd *p, int n, int to) {
	kse_check(!want_die(), "enter, backspace and escape held together end the daemon");
	CH(k, 3, "happens"); CH(d, 2, "device"); SYM(c, 8, "code"); SYM(st, 1, "pressed"); now_ += 5;
	if (k == 0) { for (int i = 0; i < 3; i++) held[i] = c == pk[i] ? st : held[i]; push(d, DEV_KEY, c, st, 0, 0); }
	else if (k == 1) { push(2, DEV_LED, c, st, 0, 0); kse_cover("led"); } else { push(d, d ? DEV_MOUSE_MOVE : DEV_MOUSE_MOVE_ABS, c, st, 1, 0); kse_cover("motion"); }
}
static void panic(void) { confs(1); dev(0, CAP_KEYBOARD, 0); dev(1, CAP_KEYBOARD | CAP_MOUSE, 0); dev(2, CAP_KEYBOARD, 1); rank_[0][0] = 2; rank_[0][1] = (int)kse_choose(2, "managed") * 2; m_dead = 1; m_ondie = died; m_maxto = 0; script = pscript; go(NR); }
/* ---- D11 */
static int senset, sx, sy, sens, sact;
static void mscript(struct pollfd *p, int n, int to) {
	static int k, vx, vy, d, vn, kn, pend; int v0 = v_n;
	if (pend) { /* what the last event did */
		int nv = v_n - vn, nk = k_n - kn;
		switch (k) {
		case 0: if (d == 0 && sact) {
				if (sens) { sx += vx; sy += vy; int wx = sx / sens, wy = sy / sens; sx %= sens; sy %= sens; int t = 0; for (int i = vn; i < v_n; i++) { kse_check(v_log[i].kind == V_SCROLL, "moving the pointer scrolls"); t += v_log[i].b + v_log[i].a; } kse_check(t == wx - wy, "by one step per so many units of movement"); kse_cover("scrolled"); }
				else for (int i = vn; i < v_n; i++) kse_check(v_log[i].kind == V_SCROLL && !v_log[i].a && !v_log[i].b, "no movement while scrolling");
			} else if (d == 0) { kse_check(nv == 1 && v_log[vn].kind == V_MOVE && v_log[vn].a == vx && v_log[vn].b == vy, "movement is passed on as it is"); kse_cover("moved"); }
			else kse_check(nv == 0, "nothing is passed on for devices which are not managed"); kse_check(nk == 0, "movement is not a key"); break;
		case 1: kse_check(d == 0 ? nv == 1 && v_log[vn].kind == V_ABS && v_log[vn].a == vx && v_log[vn].b == vy : nv == 0, "absolute movement is passed on as it is"); kse_cover("absolute"); break;
		case 2: if (d == 0) { int c = vx > 0 ? KEYD_SCROLL_RIGHT : vx < 0 ? KEYD_SCROLL_LEFT : vy > 0 ? KEYD_SCROLL_UP : KEYD_SCROLL_DOWN, a = vx < 0 ? -vx : vx ? vx : vy < 0 ? -vy : vy; kse_check(nk == 2 * a, "one key press per step of the wheel"); for (int i = 0; i < nk; i++) kse_check(k_log[kn + i].code == c && k_log[kn + i].pressed == !(i & 1) && k_log[kn + i].kb == 0, "of the key for its direction"); kse_cover("wheel"); }
			else { kse_check(nk == (k_n ? 2 : 0) || kn == 0, "the wheel of another mouse interrupts"); if (nk) kse_check(nk == 2 && k_log[kn].code == KEYD_EXTERNAL_MOUSE_BUTTON && k_log[kn].pressed && !k_log[kn + 1].pressed, "as a mouse button"); kse_cover("external"); } break;
		case 3: if (d == 0) kse_check(nk == 1 && k_log[kn].code == vx && k_log[kn].pressed == vy, "a key is passed to its keyboard"); else if (nk) { kse_check(nk == 2 && k_log[kn].code == KEYD_EXTERNAL_MOUSE_BUTTON && k_log[kn].pressed && k_log[kn + 1].code == KEYD_EXTERNAL_MOUSE_BUTTON && !k_log[kn + 1].pressed, "a button of another mouse interrupts"); } else kse_check(kn == 0, "a button of another mouse interrupts"); break;
		}
	}
	(void)v0; pend = 1; vn = v_n; kn = k_n; now_ += 7; k = (int)kse_choose(4, "event"); d = (int)kse_choose(2, "device"); 
	switch (k) {
	case 0: vx = (int)kse_sym(8, "x") - 128; vy = (int)kse_sym(8, "y") - 128; if (d == 0) { sact = (int)kse_choose(2, "scrolling"); if (sact && !senset) { static const short sv[] = {1, 3, 7, 20, 0}; sens = sv[kse_choose(5, "sensitivity")]; senset = 1; } mk_[0].k->scroll.active = sact; mk_[0].k->scroll.sensitivity = sens; } push(d, DEV_MOUSE_MOVE, 0, 0, vx, vy); break;
	case 1: vx = (int)kse_sym(10, "x"); vy = (int)kse_sym(10, "y"); push(d, DEV_MOUSE_MOVE_ABS, 0, 0, vx, vy); break;
	case 2: { static const signed char a[] = {1, -1, 3, -2, 6, -5}; int w = a[kse_choose(6, "steps")], h = (int)kse_choose(2, "horizontal"); vx = h ? w : 0; vy = h ? 0 : w; push(d, DEV_MOUSE_SCROLL, 0, 0, vx, vy); break; }
	case 3: vx = d ? KEYD_LEFT_MOUSE : (int)kse_sym(8, "key"); vy = (int)kse_sym(1, "pressed"); kse_assume(vx != KEYD_ESC && vx != KEYD_ENTER); push(d, DEV_KEY, vx, vy, 0, 0); break;
	}
}
static void mouse(void) { confs(1); dev(0, CAP_KEYBOARD | CAP_MOUSE, 0); dev(1, CAP_MOUSE, 0); rank_[0][0] = 2; m_maxto = 0; script = mscript; maxrounds = NR; now_ = lastts = 100000;
	for (int i = 0; i < NCON; i++) con[i].out_fail = -1; go(NR + 1); }
/* ---- D03 */
static void mfinish(void) {
	for (int i = 0; i < nd; i++) {
		struct device *t = tab(i); int r0 = conf_bad[0] ? 0 : rank_[0][i], r1 = conf_bad[1] ? 0 : rank_[1][i], r = r0 > r1 ? r0 : r1, c = md_[i].cap, onlymouse = !(c & CAP_KEYBOARD), use = r == 2 || r == 1 && !onlymouse;
		if (md_[i].gone) { kse_check(!t, "a removed device is forgotten"); continue; }
		kse_check(t != 0, "every device is known");
		if (md_[i].virt) { kse_check(!t->data && !md_[i].grabbed, "keyd's own devices are left alone"); continue; }
		if (grabfail[i] && use) { kse_check(!t->data, "a device which cannot be grabbed is left alone"); kse_cover("grab_failed"); continue; }
		kse_check(!!md_[i].grabbed == use && !!t->data == use, "exactly the devices a configuration is for are taken over");
		if (use) { int m = find(t->data); kse_check(m >= 0 && !mk_[m].dead, "with a keyboard"); kse_check((mk_[m].conf ? r1 : r0) == r, "of the configuration which matches best"); kse_cover("managed"); } else kse_cover("left");
	}
	kse_check(cd_open == 0, "the directory is closed");
}
static void matchscript(struct pollfd *p, int n, int to) {
	now_ += 3; if (rounds == 1) { int k = (int)kse_choose(3, "then"); if (k == 1) { newdev = scanned; p[slot(90)].revents = POLLIN; kse_cover("plugged"); } else if (k == 2) { push(0, DEV_REMOVED, 0, 0, 0, 0); kse_cover("unplugged"); if (kse_choose(2, "both")) { newdev = scanned; p[slot(90)].revents = POLLIN; } } }
	else { /* every device still in place is read from: an event of each reaches the keyboard of its own */
		for (int i = 0; i < nd; i++) if (!md_[i].gone) { push(i, DEV_KEY, 20 + i, 1, 0, 0); } }
}
static void devices(void) {
	confs(2); conf_bad[1] = (int)kse_choose(2, "bad_conf"); static const unsigned char caps[] = {CAP_KEYBOARD, CAP_MOUSE, CAP_KEYBOARD | CAP_MOUSE, CAP_MOUSE | CAP_MOUSE_ABS, CAP_MOUSE_ABS};
	for (int i = 0; i < 3; i++) { dev(i, i == 1 ? CAP_KEYBOARD : caps[kse_choose(5, "capabilities")], i == 1 ? (int)kse_choose(2, "virtual") : 0); for (int c = 0; c < 2; c++) { rank_[c][i] = (int)kse_sym(2, "match"); kse_assume(rank_[c][i] <= 2); } grabfail[i] = i != 1 ? (int)kse_sym(1, "grab_fails") : 0; }
	scanned = 2; m_maxto = 0; script = matchscript; finish = mfinish; go(2);
}
/* more devices than keyd has room for */
static int first_, extra_;
static void msscript(struct pollfd *p, int n, int to) {
	now_ += 3; static int full; int back = 0;
	if (rounds == 1) { if (extra_) { newdev = scanned; nnew = extra_; p[slot(90)].revents = POLLIN; } full = first_ + extra_ > 64; }
	else if (rounds == 2) { for (int i = 0; i < nd; i++) { kse_check(dev_closed[i] == (i >= 64), "devices in excess are closed, the others are not"); if (i < 64) kse_check(tab(i) != 0 && md_[i].grabbed, "as many devices as there is room for are used"); else { kse_check(!tab(i) && !md_[i].grabbed, "devices in excess are left alone"); kse_cover("excess"); } }
		push(0, DEV_KEY, 20, 1, 0, 0); push(first_ - 1, DEV_KEY, 21, 1, 0, 0); k_n = 0; if (kse_choose(2, "removed")) { push(1, DEV_REMOVED, 0, 0, 0, 0); } }
	else { kse_check(k_n == 2 && k_log[0].code == 20 && k_log[1].code == 21, "every device is read"); if (md_[1].gone && nd < ND) { int i = nd; newdev = i; nnew = 1; p[slot(90)].revents = POLLIN; back = 1; } }
	(void)full; (void)back;
}
static void msfinish(void) { if (md_[1].gone) { int i = nd - 1; kse_check(!dev_closed[i] && tab(i) && md_[i].grabbed && !tab(1), "a place freed can be used"); kse_cover("freed"); } kse_check(device_table_sz <= MAX_DEVICES, "table"); }
static void toomany(void) { confs(1); first_ = 61 + (int)kse_choose(4, "present"); extra_ = (int)kse_choose(5, "plugged_in"); for (int i = 0; i < ND; i++) { md_[i].cap = CAP_KEYBOARD; rank_[0][i] = 2; } dev(first_ - 1, CAP_KEYBOARD, 0); m_maxto = 0; script = msscript; finish = msfinish; go(3); }
/* ---- D06 */
static int somekey(void) { int x = (int)kse_sym(8, "key"); kse_assume(x == 1 || x == 30 || x == 128 || x == 255); return x; } /* the loops over all keys would enumerate the others alike */
static int rk[256]; static struct ipc_message rmsg;
static void emit(int kb, int code, int pressed) { if (code != 0) mk_[kb].k->output.send_key(code, pressed); }
static int reloads, since, xkey; static void rscript(struct pollfd *p, int n, int to) {
	static int after; now_ += to > 0 ? to : 3;
	if (after) {
		after = 0; int want = cd_n == 2 ? 2 : cd_n; 
		kse_check(nmk == since + want, "the configurations are read afresh"); kse_check(con[c_next - 1].type == IPC_SUCCESS && con[c_next - 1].replies == 1 && !con[c_next - 1].open, "the client is told");
		if (since) kse_check(!v_anydown(), "no key stays down over a reload"); mfinish(); kse_cover("reloaded");
	}
	int k = (int)kse_choose(5, "happens");
	switch (k) {
	case 0: { CH(d, 2, "device"); SYM(st, 1, "pressed"); if (!xkey) xkey = somekey(); push(d, DEV_KEY, xkey, st, 0, 0); break; }
	case 1: if (nmk + 2 > NK) break; after = 1; dead_below = nmk; /* the old keyboards and what they wait for will be gone */ since = nmk; reloads++; cd_n = 1 + (int)kse_choose(2, "configurations"); if (cd_n == 1) rank_[1][0] = rank_[1][1] = 0; else { rank_[1][0] = 0; rank_[1][1] = 2; } rmsg.type = IPC_RELOAD; con[c_next].in = (void *)&rmsg; con[c_next].in_n = sizeof rmsg; p[slot(IPCFD)].revents = POLLIN; c_waiting = 1; break;
	case 2: push(2, DEV_KEY, KEYD_LEFT_MOUSE, 1, 0, 0); break;
	case 3: push(1, DEV_MOUSE_SCROLL, 0, 0, 0, 1); break;
	case 4: break; /* the time asked for passes */
	}
}
static void reloading(void) { confs(2); dev(0, CAP_KEYBOARD, 0); dev(1, CAP_KEYBOARD | CAP_MOUSE, 0); dev(2, CAP_MOUSE, 0); rank_[0][0] = 2; rank_[1][1] = 2; m_maxto = 1; hook = emit; script = rscript; go(NR); }
/* unplugging a keyboard ends what its keys did */
static int pd[2][4];
static void uscript(struct pollfd *p, int n, int to) {
	static int x[2]; now_ += 3; CH(k, 3, "happens"); CH(d, 2, "device"); if (md_[d].gone) return;
	if (k < 2) { if (!k && !x[d]) x[d] = somekey(); pd[d][k] = !pd[d][k]; push(d, DEV_KEY, k ? 54 : x[d], pd[d][k], 0, 0); } else { push(d, DEV_REMOVED, 0, 0, 0, 0); memset(pd[d], 0, sizeof pd[d]); kse_cover("unplugged"); }
}
static void ufinish(void) { int any = 0; for (int d = 0; d < 2; d++) for (int k = 0; k < 4; k++) any |= pd[d][k]; if (!any) kse_check(!v_anydown(), "no key of an unplugged keyboard stays down"); for (int d = 0; d < 2; d++) kse_check(!md_[d].gone == (tab(d) != 0), "a removed device is forgotten"); }
static void unplug(void) { confs(2); dev(0, CAP_KEYBOARD, 0); dev(1, CAP_KEYBOARD | CAP_MOUSE, 0); rank_[0][0] = 2; CH(same, 2, "same_config"); rank_[same ? 0 : 1][1] = 2; m_maxto = 0; hook = emit; script = uscript; finish = ufinish; go(NR); }
void harness_main(void) { MODE(); }
