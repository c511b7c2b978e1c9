/* In-memory files for the code under test (fopen/fgets/fclose/access/open/read/close are redirected here by -D). */
#undef fopen
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include "env_vfs.h"
#define VF_MAX 8
struct vfile { const char *name; const char *data; size_t len; };
struct vopen { int used; const struct vfile *f; size_t pos; };
static struct vfile files[VF_MAX]; static int nfiles;
static struct vopen opens[VF_MAX];
int vfs_open_count;
size_t vfs_read_chunk = 0; /* 0: no limit */
void vfs_add(const char *name, const char *data, size_t len) { files[nfiles].name = name; files[nfiles].data = data; files[nfiles].len = len; nfiles++; }
void vfs_clear(void) { nfiles = 0; }
static const struct vfile *find(const char *n) { for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, n)) return &files[i]; return 0; }
static struct vopen *mk(const struct vfile *f) { for (int i = 0; i < VF_MAX; i++) if (!opens[i].used) { opens[i].used = 1; opens[i].f = f; opens[i].pos = 0; vfs_open_count++; return &opens[i]; } return 0; }
void *env_fopen(const char *path, const char *mode) { const struct vfile *f = find(path); if (!f) { errno = ENOENT; return 0; } return mk(f); }
char *env_fgets(char *b, int n, void *fh) {
	struct vopen *o = fh; int i = 0;
	if (o->pos >= o->f->len) { o->pos = o->f->len + 1; return 0; } if (n <= 1) return 0;
	while (i < n - 1 && o->pos < o->f->len) { char c = o->f->data[o->pos++]; b[i++] = c; if (c == '\n') break; }
	if (i < n - 1 && o->pos >= o->f->len && b[i - 1] != '\n') o->pos = o->f->len + 1; b[i] = 0; return b;
}
int env_fclose(void *fh) { struct vopen *o = fh; o->used = 0; vfs_open_count--; return 0; }
int env_access(const char *path, int m) { if (find(path)) return 0; errno = ENOENT; return -1; }
__attribute__((weak)) int env_open(const char *path, int fl, ...) { const struct vfile *f = find(path); if (!f) { errno = ENOENT; return -1; } return (int)(mk(f) - opens) + 100; }
long env_read(int fd, void *b, size_t n) { struct vopen *o = &opens[fd - 100]; size_t l = o->pos < o->f->len ? o->f->len - o->pos : 0; if (n < l) l = n; if (vfs_read_chunk && l > vfs_read_chunk) l = vfs_read_chunk; memcpy(b, o->f->data + o->pos, l); o->pos += l; return (long)l; }
__attribute__((weak)) int env_close(int fd) { opens[fd - 100].used = 0; vfs_open_count--; return 0; }
int env_fgetc(void *fh) { struct vopen *o = fh; if (o->pos >= o->f->len) { o->pos = o->f->len + 1; return -1; } return (unsigned char)o->f->data[o->pos++]; }
int env_getc(void *fh) { return env_fgetc(fh); }
int env_feof(void *fh) { struct vopen *o = fh; return o->pos > o->f->len; }
int env_ferror(void *fh) { return 0; }
size_t env_fread(void *b, size_t z, size_t n, void *fh) { struct vopen *o = fh; size_t i = 0; for (; i < z * n; i++) { if (o->pos >= o->f->len) { o->pos = o->f->len + 1; break; } ((char *)b)[i] = o->f->data[o->pos++]; } return z ? i / z : 0; }
long env_ftell(void *fh) { struct vopen *o = fh; return o->pos > o->f->len ? o->f->len : o->pos; }
int env_fseek(void *fh, long p, int w) { struct vopen *o = fh; o->pos = p + (w == 2 ? (long)o->f->len : w == 1 ? env_ftell(fh) : 0); return 0; }
void env_rewind(void *fh) { env_fseek(fh, 0, 0); }
void *malloc(size_t n); void *realloc(void *p, size_t n);
long env_getline(char **l, size_t *n, void *fh) { struct vopen *o = fh; size_t k = 0; if (o->pos >= o->f->len) { o->pos = o->f->len + 1; return -1; } while (o->pos + k < o->f->len && o->f->data[o->pos + k++] != '\n'); if (!*l || *n < k + 1) { *l = realloc(*l, k + 120); *n = k + 120; } memcpy(*l, o->f->data + o->pos, k); (*l)[k] = 0; o->pos += k; return k; }
