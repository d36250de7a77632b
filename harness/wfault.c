/* LD_PRELOAD shim: logs the writes to the output files of the program and makes one of them fail or kills the process there.
   VVFAULT_LOG=FILE   one line per write: number, path, offset, length
   VVFAULT_AT=N       the write (from 1) at which the fault happens
   VVFAULT_MODE=before|torn|after   the process is killed before it, after half of it, after it
               |enospc|eio          it fails, and (enospc) so do all later ones that extend a file
               |short               it writes only half
   VVFAULT_PATH=TEXT  only writes to files whose path contains TEXT count (default: .h5) */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

static int count, logfd = -2;

static long raw_pwrite(int fd, const void* b, size_t n, off_t o, int pos)
{
    return pos ? syscall(SYS_pwrite64, fd, b, n, o) : syscall(SYS_write, fd, b, n);
}

static ssize_t faulty(int fd, const void* b, size_t n, off_t o, int pos)
{
    char lnk[64], path[512];
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(lnk, path, sizeof path - 1);
    if (l < 0) l = 0;
    path[l] = 0;
    const char* want = getenv("VVFAULT_PATH");
    if (!strstr(path, want ? want : ".h5"))
        return raw_pwrite(fd, b, n, o, pos);
    int k = ++count;
    if (logfd == -2) {
        const char* f = getenv("VVFAULT_LOG");
        logfd = f ? open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666) : -1;
    }
    if (logfd >= 0) {
        char line[700];
        int m = snprintf(line, sizeof line, "%d %s %lld %zu\n", k, path, (long long)(pos ? o : -1), n);
        syscall(SYS_write, logfd, line, m);
    }
    const char* at = getenv("VVFAULT_AT");
    const char* mode = getenv("VVFAULT_MODE");
    int a = at ? atoi(at) : 0;
    if (!a || !mode || k < a)
        return raw_pwrite(fd, b, n, o, pos);
    if (!strcmp(mode, "enospc")) {
        struct stat st;
        if (k == a || (fstat(fd, &st) == 0 && (!pos || o + (off_t)n > st.st_size))) { errno = ENOSPC; return -1; }
    } else if (k == a) {
        if (!strcmp(mode, "before")) kill(getpid(), SIGKILL);
        if (!strcmp(mode, "torn")) { raw_pwrite(fd, b, n / 2, o, pos); kill(getpid(), SIGKILL); }
        if (!strcmp(mode, "after")) { raw_pwrite(fd, b, n, o, pos); kill(getpid(), SIGKILL); }
        if (!strcmp(mode, "eio")) { errno = EIO; return -1; }
        if (!strcmp(mode, "short") && n > 1) return raw_pwrite(fd, b, n / 2, o, pos);
    }
    return raw_pwrite(fd, b, n, o, pos);
}

ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return faulty(fd, b, n, o, 1); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return faulty(fd, b, n, o, 1); }
ssize_t write(int fd, const void* b, size_t n) { return faulty(fd, b, n, 0, 0); }
