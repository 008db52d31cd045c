/* What the analyzer of C45 is told of the library: which arguments a call that fails has not written. */
#ifndef SA_UNSET_H
#define SA_UNSET_H
#ifdef HAVE_CONFIG_H
#include "config.h"
#endif
#include <stdio.h>
#include <sys/types.h>
#include <sys/stat.h>

int sa_unset_any(void);
void sa_unset_fill(void *);

static inline int sa_unset_stat(const char *path, struct stat *out)
{
    (void) path;
    if (sa_unset_any()) {
        return -1;
    }
    sa_unset_fill(out);
    return 0;
}

static inline int sa_unset_fstat(int fd, struct stat *out)
{
    (void) fd;
    if (sa_unset_any()) {
        return -1;
    }
    sa_unset_fill(out);
    return 0;
}

static inline int sa_unset_scan(const char *in, const char *format, void *a, void *b, void *c)
{
    int r = sa_unset_any();
    (void) in;
    (void) format;
    if (r == 0) {
        return 0;
    }
    /* of a blank text nothing is converted; what comes after the first conversion is not held against the program
       then, as it may go by what the first one left */
    if (r > 0) {
        sa_unset_fill(a);
    }
    if (b) {
        sa_unset_fill(b);
    }
    if (c) {
        sa_unset_fill(c);
    }
    return r < 0 ? EOF : r;
}

#define SA_UNSET_PICK(a, b, c, d, e, f, ...) f
#define SA_UNSET_1(in, format, a) sa_unset_scan((in), (format), (a), 0, 0)
#define SA_UNSET_2(in, format, a, b) sa_unset_scan((in), (format), (a), (b), 0)
#define SA_UNSET_3(in, format, a, b, c) sa_unset_scan((in), (format), (a), (b), (c))

#undef stat
#undef lstat
#undef fstat
#undef sscanf
#define stat(path, out) sa_unset_stat((path), (out))
#define lstat(path, out) sa_unset_stat((path), (out))
#define fstat(fd, out) sa_unset_fstat((fd), (out))
#define sscanf(...) SA_UNSET_PICK(__VA_ARGS__, SA_UNSET_3, SA_UNSET_2, SA_UNSET_1, sscanf, sscanf, sscanf)(__VA_ARGS__)
#endif
