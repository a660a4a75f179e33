/* Preloaded into the experimenter: it drops the kernel's page cache before measuring, which needs privileges the checks
 * do not have and would disturb the machine. The write goes to /dev/null, sync() does nothing. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>

static const char *redirect(const char *p) {
    return p && !strncmp(p, "/proc/sys/", 10) ? "/dev/null" : p;
}
#define OPEN(name)                                                     \
    int name(const char *p, int flags, ...) {                          \
        static int (*real)(const char *, int, ...);                    \
        va_list a;                                                     \
        va_start(a, flags);                                            \
        int mode = va_arg(a, int);                                     \
        va_end(a);                                                     \
        if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, #name); \
        return real(redirect(p), flags, mode);                         \
    }
OPEN(open)
OPEN(open64)
void sync(void) {}
