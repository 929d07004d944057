/* Redirects /etc/hongdown to the directory named by HD_ETC, so that the system
   configuration can be varied without touching the real /etc. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

static const char *moved(const char *path, char *buf, size_t len) {
    const char *to = getenv("HD_ETC");
    if (to && path && !strncmp(path, "/etc/hongdown", 13) && (path[13] == '/' || !path[13])) {
        snprintf(buf, len, "%s%s", to, path + 13);
        return buf;
    }
    return path;
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define MODE va_list a; va_start(a, flags); mode_t mode = va_arg(a, mode_t); va_end(a)

int open(const char *path, int flags, ...) { MODE; char b[4096]; return REAL(open)(moved(path, b, sizeof b), flags, mode); }
int open64(const char *path, int flags, ...) { MODE; char b[4096]; return REAL(open64)(moved(path, b, sizeof b), flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE; char b[4096]; return REAL(openat)(dir, moved(path, b, sizeof b), flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE; char b[4096]; return REAL(openat64)(dir, moved(path, b, sizeof b), flags, mode); }
int stat(const char *path, struct stat *st) { char b[4096]; return REAL(stat)(moved(path, b, sizeof b), st); }
int stat64(const char *path, struct stat64 *st) { char b[4096]; return REAL(stat64)(moved(path, b, sizeof b), st); }
int lstat64(const char *path, struct stat64 *st) { char b[4096]; return REAL(lstat64)(moved(path, b, sizeof b), st); }
int access(const char *path, int how) { char b[4096]; return REAL(access)(moved(path, b, sizeof b), how); }
int statx(int dir, const char *restrict path, int flags, unsigned mask, struct statx *restrict st) {
    char b[4096];
    return REAL(statx)(dir, moved(path, b, sizeof b), flags, mask, st);
}
