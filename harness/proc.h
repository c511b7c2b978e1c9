/* Processes as the engine starts them for command(): one path per process. */
#ifndef PROC_H
#define PROC_H
#include <errno.h>
#include <sys/types.h>
#include <fcntl.h>
#include <stdarg.h>
static int p_role;            /* 0 keyd, 1 its child, 2 the child's child */
static int p_forks, p_waits, p_born; static int p_fd[16], p_dir[16], p_init; /* what descriptors 0..15 refer to: 1 as inherited, 2 /dev/null, 0 closed */
static const char *p_cmd; static int p_fault = 1;
static void p_set(void) { if (!p_init) { p_init = 1; for (int i = 0; i < 9; i++) p_fd[i] = 1, p_dir[i] = O_RDWR; } }
int env_fork(void) {
	p_set(); kse_check(p_role < 2, "the process of the command starts no others before it");
	int r = p_fault ? (int)kse_choose(3, "fork") : 0; /* the process which goes on */
	if (p_role == 0) p_forks++;
	if (r == 2) { errno = EAGAIN; kse_cover("no_process"); return -1; }
	if (p_role == 0) p_born++;
	if (r == 0) { if (p_role == 1) p_born++; return 4000 + p_role; }
	p_role++; return 0;
}
int env_wait(int *st) { kse_check(p_role == 0, "only keyd waits"); if (p_waits >= p_born) { errno = ECHILD; return -1; } p_waits++; if (st) *st = 0; return 4000; }
int env_waitpid(int p, int *st, int o) { return env_wait(st); }
void env_exit(int c) {
	kse_check(p_role != 0, "keyd goes on"); if (p_role == 1) kse_cover("child"); else kse_cover("gave_up"); kse_end();
}
void env__exit(int c) { env_exit(c); }
int env_open(const char *p, int fl, ...) { p_set(); kse_check(p_role == 2 && !strcmp(p, "/dev/null"), "the standard descriptors become the null device"); if (p_fault && kse_choose(2, "no_null")) { errno = EMFILE; return -1; } for (int i = 0; i < 16; i++) if (!p_fd[i]) { p_fd[i] = 2; p_dir[i] = fl & O_ACCMODE; return i; } return -1; }
int env_close(int fd) { p_set(); kse_check(p_role == 2, "keyd's own descriptors stay open"); if (fd < 0 || fd > 15 || !p_fd[fd]) { errno = EBADF; return -1; } p_fd[fd] = 0; return 0; }
int env_dup2(int a, int b) { p_set(); kse_check(p_role == 2, "keyd's own descriptors stay"); if (a < 0 || a > 15 || !p_fd[a]) { errno = EBADF; return -1; } p_fd[b] = p_fd[a]; p_dir[b] = p_dir[a]; return b; }
int env_setsid(void) { return 1; }
void env_perror(const char *s) {}
static const char *p_want;
static int p_exec(const char *p, const char *a1, const char *a2, const char *end) {
	kse_check(p_role == 2, "the command runs in a process keyd does not wait for"); kse_check(!strcmp(p, "/bin/sh") && !strcmp(a1, "-c") && !end, "the shell runs the command"); kse_check(p_want && !strcmp(a2, p_want), "it is the command of the key");
	kse_check(p_fd[0] == 2 && p_fd[1] == 2 && p_fd[2] == 2, "its standard descriptors are the null device"); kse_check(p_dir[0] != O_WRONLY && p_dir[1] != O_RDONLY && p_dir[2] != O_RDONLY, "for reading and writing");
	if (kse_choose(2, "no_shell")) { errno = ENOENT; kse_cover("no_shell"); return -1; }
	kse_cover("run"); kse_end(); return 0;
}
int env_execl(const char *p, const char *a0, ...) { va_list v; va_start(v, a0); const char *a1 = va_arg(v, const char *), *a2 = va_arg(v, const char *), *e = va_arg(v, const char *); va_end(v); return p_exec(p, a1, a2, e); }
int env_execv(const char *p, char *const v[]) { return p_exec(p, v[1], v[2], v[3]); }
#endif
