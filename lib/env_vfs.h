#ifndef ENV_VFS_H
#define ENV_VFS_H
#include <stddef.h>
extern int vfs_open_count; extern size_t vfs_read_chunk;
void vfs_add(const char *name, const char *data, size_t len);
void vfs_clear(void);
#endif
