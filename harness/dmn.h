/* The daemon (src/daemon.c) around a model of the system calls it makes. */
#ifndef DMN_H
#define DMN_H
#include <string.h>
#include "kse.h"
#include "daemon.c"
#ifdef KSE_NATIVE
#define TR(...) do { if (getenv("KSE_TRACE")) fprintf(stderr, __VA_ARGS__); } while (0)
#else
#define TR(...) do {} while (0)
#endif
#define IPCFD 100
#define CON0 40 /* connections to clients: descriptors CON0.. */
#define NCON 48
static int m_dead; /* set while the daemon may terminate */
static void (*m_ondie)(void);
void env_exit(int c) { TR("exit\n"); kse_check(m_dead, "the daemon keeps running"); if (m_ondie) m_ondie(); kse_end(); for (;;); }
void die(const char *f, ...) { TR("die\n"); kse_check(m_dead, "the daemon keeps running"); if (m_ondie) m_ondie(); kse_end(); for (;;); }
/* ---- virtual keyboard: what reaches the system */
#define MAXV 8192
enum { V_KEY, V_MOVE, V_ABS, V_SCROLL };
static struct { int kind, a, b; } v_log[MAXV]; static int v_n; static unsigned char v_down[256]; static int v_live;
static struct vkbd *const v_dev = (struct vkbd *)v_down;
static void v_add(int k, int a, int b) { TR("    out %s %d %d\n", k == V_KEY ? "key" : k == V_MOVE ? "move" : k == V_ABS ? "abs" : "scroll", a, b); kse_check(v_live, "the virtual keyboard exists"); kse_check(v_n < MAXV, "bounded output"); v_log[v_n].kind = k; v_log[v_n].a = a; v_log[v_n].b = b; v_n++; }
struct vkbd *vkbd_init(const char *n) { v_live = 1; return v_dev; }
void free_vkbd(struct vkbd *v) { v_live = 0; }
void vkbd_send_key(const struct vkbd *v, uint8_t c, int s) { v_add(V_KEY, c, s); v_down[c] = s; }
void vkbd_mouse_move(const struct vkbd *v, int x, int y) { v_add(V_MOVE, x, y); }
void vkbd_mouse_move_abs(const struct vkbd *v, int x, int y) { v_add(V_ABS, x, y); }
void vkbd_mouse_scroll(const struct vkbd *v, int x, int y) { v_add(V_SCROLL, x, y); }
static int v_anydown(void) { int n = 0; for (int i = 0; i < 256; i++) n |= v_down[i]; return n; }
/* ---- clients */
#define CAP ((int)sizeof(struct ipc_message) + 64)
static struct con { int open, accepted, eof, limit, stall; size_t in_n, in_pos; const unsigned char *in; int out_n, out_fail, closes, rcvto, sndto, cloexec; unsigned char out[CAP]; int replies, type; } con[NCON]; /* out_fail: bytes accepted before writes fail, -1: no limit */
static int c_next, c_waiting, c_slept, c_chunk, c_wchunk;
static struct con *cn(int fd) { kse_check(fd >= CON0 && fd < CON0 + NCON && con[fd - CON0].open, "only open connections are used"); return &con[fd - CON0]; }
int env_accept(int fd, struct sockaddr *a, socklen_t *l) { kse_check(fd == IPCFD && c_waiting, "a connection is accepted when there is one"); c_waiting = 0; struct con *c = &con[c_next]; c->open = c->accepted = 1; return CON0 + c_next++; }
int env_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) { int r = env_accept(fd, a, l); con[r - CON0].cloexec = (fl & SOCK_CLOEXEC) != 0; return r; }
int env_fcntl(int fd, int o, ...) { struct con *c = cn(fd); va_list v; va_start(v, o); int a = va_arg(v, int); va_end(v); if (o == F_GETFD) return c->cloexec ? FD_CLOEXEC : 0; if (o == F_SETFD) c->cloexec = (a & FD_CLOEXEC) != 0; return 0; }
int env_setsockopt(int fd, int lv, int o, const void *v, socklen_t n) { struct con *c = cn(fd); const struct timeval *tv = v; if (o == SO_RCVTIMEO) c->rcvto = tv->tv_sec < 2; if (o == SO_SNDTIMEO) c->sndto = tv->tv_sec < 2; return 0; }
long env_read(int fd, void *b, size_t n) {
	struct con *c = cn(fd); size_t l = c->in_n - c->in_pos; if (l > n) l = n; if (c_chunk && l > (size_t)c_chunk) l = c_chunk;
	if (!l && n) { if (c->eof == 1) { kse_check(c->eof != 3, ""); c->eof = 1; static int spins; if (++spins > 20) kse_check(0, "the daemon does not spin on a closed connection"); return 0; } if (c->eof == 2) { errno = ECONNRESET; return -1; } kse_check(c->rcvto, "a stalled client does not block the daemon"); errno = EAGAIN; return -1; }
	memcpy(b, c->in + c->in_pos, l); c->in_pos += l; return (long)l;
}
static struct ipc_message c_reply;
long env_write(int fd, const void *b, size_t n) {
	struct con *c = cn(fd);
	if (c->out_fail >= 0) { size_t room = c->out_fail - c->out_n; if (n > room) n = room; if (!n) { errno = EPIPE; return -1; } }
	if (c_wchunk && n > (size_t)c_wchunk) n = c_wchunk;
	kse_check(c->out_n + n <= CAP, "no more than one reply"); memcpy(c->out + c->out_n, b, n);
	c->out_n += (int)n; if (c->out_n == sizeof c_reply) { memcpy(&c_reply, c->out, sizeof c_reply); c->replies++; c->type = c_reply.type; } return (long)n;
}
int env_dprintf(int fd, const char *f, ...) { char b[256]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); int k = 0; while (k < n) { long r = env_write(fd, b + k, n - k); if (r < 0) return -1; k += (int)r; } return n; }
#ifdef HAVE_DEVCLOSE
static int devclose(int fd);
#else
static int devclose(int fd) { kse_check(0, "only connections are closed"); return 0; }
#endif
int env_close(int fd) { if (fd >= 200) return devclose(fd); struct con *c = cn(fd); c->open = 0; c->closes++; return 0; }
int env_usleep(unsigned u) { c_slept += (int)(u / 1000); return 0; }
int env_nice(int n) { return 0; }
int env_setvbuf(FILE *f, char *b, int m, size_t n) { return 0; }
static void (*m_atexit)(void); int env_atexit(void (*f)(void)) { m_atexit = f; return 0; }
int ipc_create_server(void) { return IPCFD; }
/* ---- configuration directory */
static const char *cd_name[4]; static int cd_type[4], cd_n, cd_pos, cd_open;
DIR *env_opendir(const char *p) { kse_check(!strcmp(p, "/etc/keyd"), "the configuration directory is read"); cd_pos = 0; cd_open++; return (DIR *)cd_name; }
struct dirent *env_readdir(DIR *d) { static struct dirent e; static const char *decoy[] = {"common", "x.conf.bak", "d.conf", ".x.conf.swp"}; /* what else may lie there: not configurations */
	int i = cd_pos++; if (i < 3) { strcpy(e.d_name, decoy[i]); e.d_type = i == 2 ? DT_DIR : DT_REG; return &e; } i -= 3; if (i == cd_n) { strcpy(e.d_name, decoy[3]); e.d_type = DT_REG; return &e; } if (i > cd_n) return 0;
	strcpy(e.d_name, cd_name[i]); e.d_type = cd_type[i]; return &e; }
int env_closedir(DIR *d) { cd_open--; return 0; }
#endif
