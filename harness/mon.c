/* keyd monitor (src/monitor.c, src/log.c) and keyd list-keys (src/keyd.c): D14. */
#include <string.h>
#include <stdarg.h>
#include "kse.h"
#include "keynames.h"
#ifdef LIST
#define main keyd_main
#include "keyd.c"
#undef main
#else
#include "monitor.c"
#endif
static char out[16384]; static int on; static int ended;
static int put(const char *f, va_list ap) { int n = vsnprintf(out + on, sizeof out - on, f, ap); kse_check(n >= 0 && on + n < (int)sizeof out, "room"); on += n; return n; }
int env_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = put(f, ap); va_end(ap); return n; }
int env_vprintf(const char *f, va_list ap) { return put(f, ap); }
int env_vfprintf(FILE *o, const char *f, va_list ap) { return put(f, ap); }
int env_puts(const char *s) { return env_printf("%s\n", s); }
int env_putchar(int c) { return env_printf("%c", c); }
static int mayexit; static void (*m_atexit)(void); static void finish(void);
void env_exit(int c) { kse_check(mayexit, "the monitor keeps running"); ended = 1; finish(); kse_cover("ended"); kse_end(); for (;;); }
#ifdef LIST
/* ---- list-keys: each line is a name of the key it is the name of, and each name is there */
int run_daemon(int c, char **v) { return 0; } int monitor(int c, char **v) { return 0; } int ipc_connect(void) { return -1; } void xwrite(int f, const void *b, size_t n) {} void xread(int f, void *b, size_t n) {}
int env_isatty(int fd) { return 0; } char *env_getenv(const char *n) { return 0; } void (*env_signal(int s, void (*f)(int)))(int) { return 0; }
static void finish(void) {}
long env_read(int fd, void *b, size_t n) { return -1; }
static void run(void) {
	char *av[] = {"keyd", "list-keys", 0}; int rc = keyd_main(2, av); kse_check(rc == 0, "keys are listed"); 
	int i = (int)kse_choose(NKEYNAMES, "key"), w = (int)kse_choose(3, "which"), lines = 0, hits = 0, names = 0; const char *n = w == 0 ? key_names[i].name : w == 1 ? key_names[i].alt : key_names[i].shifted;
	for (int k = 0; k < NKEYNAMES; k++) names += (key_names[k].name != 0) + (key_names[k].alt != 0) + (key_names[k].shifted != 0);
	for (int p = 0; p < on; lines++) { int l = 0; while (out[p + l] && out[p + l] != '\n') l++; if (n && (int)strlen(n) == l && !memcmp(out + p, n, l)) hits++; p += l + 1; }
	kse_check(lines == names, "nothing but names of keys is listed"); if (n) kse_check(hits >= 1, "every name of every key is listed"); kse_cover("end");
}
#else
static int tty[2], pipe_, lflag, polled[4], npolled, drained;
int env_isatty(int fd) { return tty[fd != 0]; }
int env_tcgetattr(int fd, struct termios *t) { memset(t, 0, sizeof *t); t->c_lflag = lflag; return 0; }
int env_tcsetattr(int fd, int o, const struct termios *t) { kse_check(fd == 0, "the terminal"); lflag = t->c_lflag; return 0; }
int env_fcntl(int fd, int c, ...) { return 0; }
long env_read(int fd, void *b, size_t n) { kse_check(fd == 0, "what was typed meanwhile is thrown away"); if (drained++) return 0; return 5; }
int env_fstat(int fd, struct stat *s) { memset(s, 0, sizeof *s); static const int m[] = {S_IFIFO, S_IFCHR, S_IFREG, S_IFSOCK}; s->st_mode = m[pipe_] | 0600; return 0; }
int env_setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
int env_fflush(FILE *f) { return 0; }
int env_atexit(void (*f)(void)) { m_atexit = f; return 0; }
static void finish(void) { if (m_atexit) m_atexit(); kse_check(!tty[0] || (lflag & (ICANON | ECHO)) == (ICANON | ECHO), "the terminal is left as it was"); }
void evloop_add_fd(int fd) { polled[npolled++] = fd; }
int device_grab(struct device *d) { kse_check(0, "a monitor takes nothing over"); return 0; }
int device_ungrab(struct device *d) { return 0; }
void device_set_led(const struct device *d, int l, int s) { kse_check(0, "a monitor changes nothing"); }
struct device device_table[MAX_DEVICES]; size_t device_table_sz;
static char want[4096]; static int wn, flag;
static void say(const char *f, ...) { va_list ap; va_start(ap, f); wn += vsnprintf(want + wn, sizeof want - wn, f, ap); va_end(ap); }
static const char *nameof(int code) { for (int i = 0; i < NKEYNAMES; i++) if (key_names[i].code == code) return key_names[i].name; return 0; }
int evloop(int (*h)(struct event *)) {
	long now = 100000, last = 0; int any = TERM ? -1 : (int)kse_choose(2 * NEV, "any"); static struct device d[2]; static struct device_event de; struct event e; char dig[24]; int esc = !suppress_colours;
	kse_check(npolled == (pipe_ == 0) && (!npolled || polled[0] == 1), "the end of the reader is noticed"); if (tty[1] && tty[0]) kse_check(!(lflag & ECHO), "what is typed is not echoed meanwhile");
	strcpy(d[0].id, "1234:5678:0badcafe"); strcpy(d[0].name, "A keyboard {100%s}"); strcpy(d[0].path, "/dev/input/event1"); strcpy(d[1].id, "0001:0002:00000003"); strcpy(d[1].name, "r{m}"); strcpy(d[1].path, "/dev/input/event20");
	for (int i = 0; i < NEV; i++) {
		int k = (int)kse_choose(6, "happens"), n = (int)kse_choose(2, "device"); memset(&e, 0, sizeof e); e.dev = &d[n]; int dt = 0; if (i == any) { int nz = 0; for (int j = 0; j < 3; j++) { int g = (int)kse_sym(4, "digit"); kse_assume(g < 10); dt = dt * 10 + g; if (nz || j == 2 || g) dig[nz++] = '0' + g; } dig[nz] = 0; } long step = i == any ? dt : 2147483648L * i + 5; if (i != any) snprintf(dig, sizeof dig, "%ld", step); now += step; e.timestamp = now;
		if (k == 0) { int c = NEV + i == any ? (int)kse_concretize(kse_sym(8, "code")) : 30 + i; const char *nm = nameof(c); kse_assume(nm != 0); int dn = (int)kse_choose(2, "pressed"); e.type = EV_DEV_EVENT; e.devev = &de; memset(&de, 0, sizeof de); de.type = DEV_KEY; de.code = c; de.pressed = dn;
			if (flag && last) { say(esc ? "\033[31m+%s\033[0m ms\t" : "+%s ms\t", dig); kse_cover("time"); } say("%s\t%s\t%s %s\n", d[n].name, d[n].id, nm, dn ? "down" : "up"); kse_cover("key"); }
		else if (k == 1) { e.type = EV_DEV_ADD; say("device added: %s %s (%s)\n", d[n].id, d[n].name, d[n].path); }
		else if (k == 2) { e.type = EV_DEV_REMOVE; say("device removed: %s %s (%s)\n", d[n].id, d[n].name, d[n].path); kse_cover("device"); }
		else if (k == 3) { static const int t[] = {DEV_LED, DEV_MOUSE_MOVE, DEV_MOUSE_MOVE_ABS, DEV_MOUSE_SCROLL}; e.type = EV_DEV_EVENT; e.devev = &de; memset(&de, 0, sizeof de); de.type = t[kse_choose(4, "other")]; de.x = 3; kse_cover("other"); }
		else if (k == 4) { e.type = EV_FD_ERR; e.fd = 1; e.dev = 0; mayexit = 1; h(&e); kse_check(0, "without a reader the monitor ends"); }
		else { e.type = EV_TIMEOUT; e.dev = 0; }
		int r = h(&e); kse_check(r == 0, "no wake-up is asked for"); last = now;
		kse_check(on == wn && kse_same(out, want, wn), "every key is reported by its name, with its device, and nothing else");
	}
	finish(); kse_cover("end"); kse_end(); return 0;
}
static void run(void) {
	tty[0] = TERM ? (int)kse_choose(2, "input") : 0; tty[1] = (int)kse_choose(2, "output"); pipe_ = tty[1] || !TERM ? 1 : (int)kse_choose(4, "pipe"); lflag = ICANON | ECHO | ISIG; suppress_colours = !tty[1]; int k = (int)kse_choose(3, "flags"); flag = k == 1; char *av[] = {"monitor", k == 1 ? "-t" : "-h", 0};
	int rc = monitor(k ? 2 : 1, av); kse_check(k == 2 && !rc && on > 0, "help is given on request only"); kse_check(lflag == (ICANON | ECHO | ISIG), "and changes nothing"); kse_cover("help");
}
#endif
void harness_main(void) { run(); }
