/* The command line client (src/keyd.c, src/ipc.c, src/util.c) against a model of the system and the daemon. D12 one daemon, D15 commands. */
#include <string.h>
#include "kse.h"
#define main keyd_main
#include "keyd.c"
#undef main
#include "ipc.c"
#include "util.c"
const struct keycode_table_ent keycode_table[256] = { [30] = { "a", 0, "A" }, [1] = { "esc", "escape", 0 } };
/* ---- the system */
static int failat = -1, calls, mayexit, daemons, log_; static const char *failname; static int fails(const char *n) { if (calls++ != failat) return 0; failname = n; errno = EIO; return 1; }
static void (*onexit_)(int); 
void env_exit(int c) { kse_check(mayexit, "no failure without a cause"); kse_check(c != 0, "failure shows in the exit status"); if (onexit_) onexit_(c); kse_cover("failed"); kse_end(); for (;;); }
void die(const char *f, ...) { env_exit(-1); for (;;); }
int run_daemon(int c, char **v) { daemons++; return 0; }
int monitor(int c, char **v) { daemons += 100; return 0; }
int env_isatty(int fd) { return 0; } char *env_getenv(const char *n) { return 0; }
void (*env_signal(int s, void (*f)(int)))(int) { return 0; }
static int printed, success; int env_printf(const char *f, ...) { printed++; if (!strncmp(f, "Success", 7)) success++; return 0; } int env_puts(const char *s) { return env_printf("%s", s); }
/* connection (fd 60+n) and standard streams */
#define NM 3
static struct conn { struct ipc_message m, r; size_t got, rpos, rlim; int closed; } cx[NM]; static int nconn; static int wchunk, rchunk;
static char out_[2 * MAX_IPC_MESSAGE_SIZE]; static int on, outfail; static const char *in_; static size_t in_n, in_pos; static int in_err;
static int (*reply)(struct conn *c);
static int cloex; /* descriptors which do not survive exec: 1 the socket, 2 the lock */
int env_fcntl(int fd, int o, ...) { va_list v; va_start(v, o); int a = va_arg(v, int), b = fd == 70 ? 2 : 1; va_end(v); if (o == F_GETFD) return cloex & b ? FD_CLOEXEC : 0; if (o == F_SETFD) cloex = a & FD_CLOEXEC ? cloex | b : cloex & ~b; return 0; }
int env_socket(int d, int t, int p) { kse_check(d == AF_UNIX && (t & ~SOCK_CLOEXEC) == SOCK_STREAM, "a local stream"); if (t & SOCK_CLOEXEC) cloex |= 1; return fails("socket") ? -1 : 60; }
int env_connect(int fd, const struct sockaddr *a, socklen_t n) { kse_check(!strcmp(((struct sockaddr_un *)a)->sun_path, "/s") && a->sa_family == AF_UNIX, "to the daemon"); if (fails("connect")) return -1; kse_check(nconn < NM, "connections"); cx[nconn].rlim = sizeof cx[0].r; nconn++; return 0; }
static struct conn *cc(int fd) { kse_check(fd == 60 && nconn > 0, "the connection"); return &cx[nconn - 1]; }
long env_write(int fd, const void *b, size_t n) {
	if (fd == 1) { if (outfail) { errno = EPIPE; return -1; } if (wchunk && n > (size_t)wchunk) n = wchunk; kse_check(on + n <= sizeof out_, "output"); memcpy(out_ + on, b, n); on += (int)n; return n; }
	struct conn *c = cc(fd); if (fails("write")) return -1; if (wchunk && n > (size_t)wchunk) n = wchunk; kse_check(c->got + n <= sizeof c->m, "one message is sent"); memcpy((char *)&c->m + c->got, b, n); c->got += n; if (c->got == sizeof c->m) reply(c); return n;
}
long env_read(int fd, void *b, size_t n) {
	if (fd == 0) { if (in_err && in_pos >= in_n) { errno = EIO; return -1; } size_t l = in_n - in_pos; if (l > n) l = n; if (rchunk && l > (size_t)rchunk) l = rchunk; memcpy(b, in_ + in_pos, l); in_pos += l; return l; }
	struct conn *c = cc(fd); if (fails("read")) return -1; kse_check(c->got == sizeof c->m, "the answer is read once everything is said"); size_t l = c->rlim - c->rpos; if (l > n) l = n; if (rchunk && l > (size_t)rchunk) l = rchunk; memcpy(b, (char *)&c->r + c->rpos, l); c->rpos += l; return l;
}
int env_close(int fd) { return 0; }
static int spolls, pollout; static const char *lmsg[4]; static int nl, lp;
int env_poll(struct pollfd *p, nfds_t n, int t) { for (int i = 0; i < (int)n; i++) p[i].revents = 0; struct conn *c = cc(60); kse_check(t == -1, "events are awaited"); int k = -1, o = -1; for (int i = 0; i < (int)n; i++) { if (p[i].fd == 60) k = i; if (p[i].fd == 1) o = i; } kse_check(k >= 0 && (p[k].events & POLLIN) && o >= 0, "the daemon and the output are watched");
	if (spolls++ == pollout) { p[o].revents = POLLERR; return 1; }
	if (lp < nl) { size_t l = strlen(lmsg[lp]); c->rpos = 0; c->rlim = l; memcpy(&c->r, lmsg[lp++], l); } else c->rpos = c->rlim = 0; p[k].revents = POLLIN; return 1; }
/* server side */
static int locked_by_other, bound, unlinked, listening, modes = -1, have_lock, fd_lock; static struct group grp_; static int nogroup, gid = -1;
int env_open(const char *p, int fl, ...) { kse_check(!strcmp(p, "/s.lock") && (fl & O_CREAT), "the lock is beside the socket"); if (fails("open")) return -1; if (fl & O_CLOEXEC) cloex |= 2; return fd_lock = 70; }
int env_flock(int fd, int op) { kse_check(fd == 70 && (op & LOCK_EX) && (op & LOCK_NB), "an exclusive lock without waiting"); if (locked_by_other) { errno = EWOULDBLOCK; return -1; } have_lock = 1; return 0; }
int env_unlink(const char *p) { kse_check(have_lock, "the socket of a running daemon is left alone"); kse_check(!strcmp(p, "/s") && !bound, "a stale socket is removed first"); unlinked = 1; return 0; }
int env_bind(int fd, const struct sockaddr *a, socklen_t n) { kse_check(have_lock && unlinked, "the socket is taken over by its owner"); kse_check(fd == 60 && !strcmp(((struct sockaddr_un *)a)->sun_path, "/s"), "at its place"); if (fails("bind")) return -1; bound = 1; return 0; }
int env_listen(int fd, int n) { kse_check(fd == 60 && bound && n > 0, "clients are awaited at the socket"); if (fails("listen")) return -1; listening = 1; return 0; }
int env_chmod(const char *p, mode_t m) { kse_check(bound && !strcmp(p, "/s"), "access is restricted"); modes = m; return 0; }
struct group *env_getgrnam(const char *n) { kse_check(!strcmp(n, "keyd"), "the group of keyd"); grp_.gr_gid = 77; return nogroup ? 0 : &grp_; }
int env_setgid(gid_t g) { kse_check(!bound, "the socket belongs to the group"); if (fails("setgid")) return -1; gid = g; return 0; }
static void srvdied(int c) { kse_check(failname != 0 || locked_by_other, "there is a reason"); kse_check(!listening || failname, "a socket in place is used"); }
static void server(void) {
	mayexit = 1; onexit_ = srvdied; locked_by_other = (int)kse_choose(2, "running"); nogroup = (int)kse_choose(2, "no_group"); failat = (int)kse_choose(8, "fails") - 1; int fd = ipc_create_server();
	if (locked_by_other) { kse_check(fd < 0 && !unlinked && !bound, "a second daemon gives up and leaves the first alone"); kse_cover("second"); return; }
	kse_check(fd == 60 && listening && bound && have_lock, "clients can connect"); kse_check(!failname || nogroup, "failures are noticed"); kse_check(cloex == 3, "commands started by the daemon keep neither the lock nor the socket"); kse_check(modes == 0660, "only the owner and the group may"); kse_check(nogroup ? gid == -1 : gid == 77, "which is keyd's"); kse_cover("end");
}
/* ---- commands */
static int rtype_; static size_t rsz; static int badn = -1, cutreply;
static int answer(struct conn *c) { int i = (int)(c - cx); c->r.type = badn == i || rtype_ ? IPC_FAIL : IPC_SUCCESS; c->r.sz = c->r.type == IPC_FAIL ? rsz : 0; memset(c->r.data, 'e', sizeof c->r.data); if (cutreply) c->rlim = cutreply == 1 ? 0 : sizeof c->r - 1; return 0; }
static char big[MAX_IPC_MESSAGE_SIZE + 8], want[MAX_IPC_MESSAGE_SIZE + 16];
static void faults(void) { int f = (int)kse_choose(6, "fault"); if (f == 1) { failat = (int)kse_choose(4, "fails"); mayexit = 1; } if (f == 2) wchunk = rchunk = 1500; if (f == 3) { cutreply = 1 + (int)kse_choose(2, "cut"); mayexit = 1; } if (f == 4) { outfail = 1; mayexit = 1; } if (f == 5) { rtype_ = 1; static const size_t rl[] = {3, sizeof big - 9, 0}; rsz = rl[kse_choose(3, "long")]; } }
static void typed(void) {
	reply = answer; faults(); int what = (int)kse_choose(2, "command"), tm = (int)kse_choose(2, "pause"), from = (int)kse_choose(2, "stdin"), tmo = 0; static char a1[4], a2[4], ts[4]; char *av[8]; int ac = 0; size_t wn = 0;
	av[ac++] = "keyd"; av[ac++] = what ? "do" : "input"; if (tm) { for (int i = 0; i < 2; i++) { int d = (int)kse_sym(4, "digit"); kse_assume(d < 10); ts[i] = '0' + d; tmo = tmo * 10 + d; } av[ac++] = "-t"; av[ac++] = ts; }
	if (!from) { int k = (int)kse_choose(5, "arguments"); for (int i = 0; i < 3; i++) { a1[i] = (char)kse_sym(8, "ch"); kse_assume(a1[i] != 0); } a2[0] = (char)kse_sym(8, "ch"); a2[1] = 0; a1[1 + kse_choose(3, "len")] = 0; if (tm == 0) kse_assume(a1[0] != '-');
		if (k == 0) { strcpy(want, a1); av[ac++] = a1; } else if (k == 1) { strcpy(want, a1); strcat(want, " "); strcat(want, a2); av[ac++] = a1; av[ac++] = a2; }
		else { static const short ln[] = {4093, 4094, 4095}; int l = ln[k - 2]; memset(big, 'z', l); big[l] = 0; memcpy(want, big, l); want[l] = ' '; strcpy(want + l + 1, a2); av[ac++] = big; av[ac++] = a2; } wn = strlen(want); kse_cover("arguments"); }
	else { static const short ln[] = {0, 1, 5, 3000, 4095, 4096, 4099}; int l = ln[kse_choose(7, "length")]; memset(big, 'z', l); switch (l ? kse_choose(3, "special") : 0) { case 1: big[0] = 0; break; case 2: big[l - 1] = big[l / 2] = '\n'; if (l > 1000) big[999] = '\n'; break; } in_ = big; in_n = l; if (!rchunk && kse_choose(2, "chunks")) rchunk = 1000; in_err = (int)kse_choose(2, "broken"); memcpy(want, big, l); wn = l; kse_cover("stdin"); }
	if (wn >= 4096) { mayexit = 1; kse_cover("toolong"); } av[ac] = 0;
	int rc = keyd_main(ac, av); struct ipc_message *m = &cx[0].m;
	kse_check(wn < 4096, "what is too long is refused"); kse_check(nconn == 1 && cx[0].got == sizeof *m, "one message is sent"); kse_check(!failname, "failures are noticed"); kse_check(!cutreply, "a missing answer is noticed"); kse_check(!(outfail && rtype_), "");
	kse_check(m->type == (what ? IPC_MACRO : IPC_INPUT) && (int)m->timeout == tmo && m->sz == wn, "with the request"); kse_check(kse_same(m->data, want, wn), "and the text given, arguments joined by spaces");
	kse_check((rc != 0) == rtype_, "the exit status tells whether it was done"); kse_check(on == (rtype_ && rsz ? (int)rsz + 1 : 0) && (!on || out_[on - 1] == '\n' && out_[0] == 'e'), "and what was wrong is shown"); kse_cover("end");
}
static void binds(void) {
	reply = answer; rsz = 3; badn = (int)kse_choose(4, "refused") - 1; int n = 1 + (int)kse_choose(3, "bindings"); if (kse_choose(2, "pieces")) wchunk = rchunk = 999; static char a[3][4]; int bl = (int)kse_choose(4, "size"); static const short ln[] = {0, 4095, 4096, 4097}; char *av[8] = {"keyd", kse_choose(2, "old") ? "-e" : "bind"};
	for (int i = 0; i < n; i++) { for (int k = 0; k < 2; k++) { a[i][k] = (char)kse_sym(8, "ch"); kse_assume(a[i][k] != 0); } av[2 + i] = a[i]; } if (bl) { memset(big, 'z', ln[bl]); av[2] = big; if (bl >= 2) mayexit = 1; } av[2 + n] = 0;
	int rc = keyd_main(2 + n, av), bad = badn >= 0 && badn < n; if (bl == 3) kse_check(0, "what is too long is refused");
	kse_check(nconn == n, "every binding is sent"); for (int i = 0; i < n; i++) { struct ipc_message *m = &cx[i].m; size_t l = strlen(av[2 + i]); kse_check(m->type == IPC_BIND && m->sz == l && kse_same(m->data, av[2 + i], l), "as given"); } 
	kse_check((rc != 0) == bad && success == !bad, "success is reported if every one was taken"); kse_check(on == 4 * bad, "reasons are shown"); if (bad) kse_cover("refused"); else kse_cover("bound");
}
static int none(struct conn *c) { return 0; }
static void listening_(void) {
	reply = none; nl = (int)kse_choose(3, "messages"); static const char *t[] = {"+nav\n", "/main\n+nav\n-nav\n", "-a\n"}; size_t tot = 0; static char ex[64]; for (int i = 0; i < nl; i++) { lmsg[i] = t[kse_choose(3, "message")]; } pollout = (int)kse_choose(4, "output_gone"); if (kse_choose(2, "pieces")) wchunk = 2; if (kse_choose(2, "broken_output")) outfail = mayexit = 1;
	for (int i = 0; i < nl && i < pollout; i++) { strcpy(ex + tot, lmsg[i]); tot += strlen(lmsg[i]); } char *av[] = {"keyd", "listen", 0}; int rc = keyd_main(2, av);
	kse_check(cx[0].m.type == IPC_LAYER_LISTEN && cx[0].m.sz == 0 && cx[0].m.timeout == 0, "the daemon is asked"); kse_check(rc != 0, "the end is reported"); if (!outfail) kse_check(on == (int)tot && !memcmp(out_, ex, tot), "everything heard is shown"); kse_cover("end");
}
static void other(void) {
	reply = answer; static char *const w[] = {"reload", "monitor", "-m", "help", "-v", "list-keys", "x", "", 0}; int k = (int)kse_choose(9, "command"); char *av[] = {"keyd", w[k], 0}; int rc = keyd_main(k == 8 ? 1 : 2, av);
	if (k == 0) kse_check(nconn == 1 && cx[0].m.type == IPC_RELOAD && cx[0].m.sz == 0 && cx[0].m.timeout == 0 && !rc && !daemons, "reload asks the daemon to"); else kse_check(!nconn, "nothing is asked of the daemon");
	kse_check(daemons == (k == 8 ? 1 : k == 1 || k == 2 ? 100 : 0), "only without a command is the daemon started"); if (k >= 3 && k < 6 || k == 6) kse_check(printed > 0, "something is shown"); if (k == 5) kse_check(printed == 4, "every name of every key"); kse_cover("end");
}
void harness_main(void) { MODE(); }
