/*
 * Interposed system calls
 */
// Define both the normal and the 64 bit version of the calls
#undef _FILE_OFFSET_BITS
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "faults.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <sched.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace vf::faults {

const int CRASH_STATUS = 77;

namespace {
Mode mode = OFF;
long at = 0, counted = 0;
bool was_hit = false;
int tracing = -1;
uint64_t rnd = 1;
char desc[256];

uint64_t next()
{
    rnd ^= rnd << 13;
    rnd ^= rnd >> 7;
    rnd ^= rnd << 17;
    return rnd;
}

enum What
{
    PASS,
    FAIL,
    PART,
};

enum Kind
{
    K_WRITE, // can write part of the data
    K_CREATE,
    K_META,    // can fail
    K_CLEANUP, // can only be a crash point
};

void describe(const char* name, const char* arg)
{
    snprintf(desc, sizeof desc, "%s %s (call %ld)", name, arg, counted - 1);
}

int sched_in = -1, sched_out = -1;
const char* sched_root = "";
size_t sched_rootlen   = 0;
bool sched_verbose     = false;

void sched_full(int fd, const char* buf, size_t len)
{
    while (len)
    {
        ssize_t r = syscall(SYS_write, fd, buf, len);
        if (r < 0 && errno == EINTR)
            continue;
        if (r <= 0)
            _exit(79);
        buf += r;
        len -= r;
    }
}

void sched_msg(char type, const char* data, size_t len)
{
    char hdr[5];
    uint32_t l = len;
    hdr[0]     = type;
    memcpy(hdr + 1, &l, 4);
    int e = errno;
    sched_full(sched_out, hdr, 5);
    sched_full(sched_out, data, len);
    char tok;
    while (true)
    {
        ssize_t r = syscall(SYS_read, sched_in, &tok, 1);
        if (r < 0 && errno == EINTR)
            continue;
        if (r != 1)
            _exit(79);
        break;
    }
    errno = e;
}

void sched_point(char type, const char* name, const char* arg)
{
    if (sched_verbose)
    {
        char buf[512], fn[300];
        if (strncmp(arg, "fd ", 3) == 0)
        {
            char lnk[64];
            snprintf(lnk, sizeof lnk, "/proc/self/fd/%s", arg + 3);
            ssize_t r = syscall(SYS_readlinkat, AT_FDCWD, lnk, fn, sizeof fn - 1);
            if (r > 0)
            {
                fn[r] = 0;
                arg   = fn;
            }
        }
        if (strncmp(arg, sched_root, sched_rootlen) == 0)
            arg += sched_rootlen;
        int l = snprintf(buf, sizeof buf, "%s %s", name, arg);
        sched_msg(type, buf, l < (int)sizeof buf ? l : sizeof buf - 1);
    }
    else
        sched_msg(type, "", 0);
}

/// Decide what to do with a call
What point(Kind kind, const char* name, const char* arg, bool grows)
{
    long n = counted++;
    if (tracing != -1)
    {
        char buf[512];
        int l = snprintf(buf, sizeof buf, "[call %ld: %s %s]\n", n, name, arg);
        syscall(SYS_write, tracing, buf, l);
    }
    switch (mode)
    {
        case OFF:
        case COUNT: return PASS;
        case SCHED: sched_point('Y', name, arg); return PASS;
        case CRASH:
            if (n != at)
                return PASS;
            was_hit = true;
            if (kind == K_WRITE && next() % 2)
                return PART;
            _exit(CRASH_STATUS);
        case FAIL_ONCE:
            if (n < at || was_hit || kind == K_CLEANUP)
                return PASS;
            was_hit = true;
            describe(name, arg);
            errno = EIO;
            return FAIL;
        case DISK_FULL:
            if (n < at || !grows)
                return PASS;
            if (!was_hit)
                describe(name, arg);
            was_hit = true;
            errno   = ENOSPC;
            return kind == K_WRITE && next() % 3 == 0 ? PART : FAIL;
        case SHORT:
            if (n < at || kind != K_WRITE || next() % 2)
                return PASS;
            if (!was_hit)
                describe(name, arg);
            was_hit = true;
            return PART;
        case DELAY:
        {
            auto r = next() % 8;
            if (r == 0)
            {
                struct timespec ts = {0, (long)(next() % 400) * 1000};
                nanosleep(&ts, nullptr);
            }
            else if (r < 3)
                sched_yield();
            return PASS;
        }
    }
    return PASS;
}

bool active(int fd = -1) { return mode != OFF && fd != 1 && fd != 2; }

off_t fsize(int fd)
{
    struct stat st;
    if (::fstat(fd, &st) < 0 || !S_ISREG(st.st_mode))
        return -1;
    return st.st_size;
}

bool grows(int fd, off_t pos, size_t len)
{
    if (mode != DISK_FULL)
        return true;
    off_t size = fsize(fd);
    if (size < 0)
        return false;
    return pos + (off_t)len > size;
}

off_t curpos(int fd)
{
    int fl = ::fcntl(fd, F_GETFL);
    if (fl & O_APPEND)
        return fsize(fd);
    return ::lseek(fd, 0, SEEK_CUR);
}

/// How much to write in a partial write
size_t part(size_t len) { return len <= 1 ? len : 1 + next() % (len - 1); }

bool regular(int fd) { return fsize(fd) >= 0; }

const char* fdname(int fd)
{
    static char buf[32];
    snprintf(buf, sizeof buf, "fd %d", fd);
    return buf;
}

} // namespace

void arm(Mode m, long a, uint64_t seed)
{
    rnd     = seed * 0x9E3779B97F4A7C15ull + 1;
    if (const char* t = getenv("VF_TRACE"))
        tracing = syscall(SYS_openat, AT_FDCWD, t, O_WRONLY | O_CREAT | O_APPEND, 0666);
    next();
    at      = a;
    counted = 0;
    was_hit = false;
    desc[0] = 0;
    mode    = m;
}
void disarm() { mode = OFF; }
void sched_start(int in, int out, const char* root, bool verbose)
{
    sched_in      = in;
    sched_out     = out;
    sched_root    = root;
    sched_rootlen = strlen(root);
    sched_verbose = verbose;
    mode          = SCHED;
}
void sched_event(char type, const std::string& payload) { sched_msg(type, payload.data(), payload.size()); }
long count() { return counted; }
bool hit() { return was_hit; }
const char* what() { return desc; }

} // namespace vf::faults

#ifndef __SANITIZE_ADDRESS__
using namespace vf::faults;

#define PATHPOINT(kind, name, path, grow, real)                                                                                  \
    if (active() && point(kind, name, path, grow) == FAIL)                                                                       \
        return -1;                                                                                                               \
    return real;

static ssize_t do_write(int fd, const void* buf, size_t len, bool pos, off_t ofs)
{
    auto real = [&](size_t l) -> ssize_t {
        return pos ? syscall(SYS_pwrite64, fd, buf, l, ofs) : syscall(SYS_write, fd, buf, l);
    };
    if (!active(fd) || !regular(fd))
        return real(len);
    switch (point(K_WRITE, "write", fdname(fd), grows(fd, pos ? ofs : curpos(fd), len)))
    {
        case FAIL: return -1;
        case PART:
        {
            auto res = real(part(len));
            if (mode == CRASH)
                _exit(CRASH_STATUS);
            return res;
        }
        default: return real(len);
    }
}

extern "C" {

ssize_t write(int fd, const void* buf, size_t len) { return do_write(fd, buf, len, false, 0); }
ssize_t pwrite(int fd, const void* buf, size_t len, off_t ofs) { return do_write(fd, buf, len, true, ofs); }
ssize_t pwrite64(int fd, const void* buf, size_t len, off_t ofs) { return do_write(fd, buf, len, true, ofs); }

ssize_t writev(int fd, const struct iovec* iov, int n)
{
    if (!active(fd) || !regular(fd))
        return syscall(SYS_writev, fd, iov, n);
    size_t total = 0;
    for (int i = 0; i < n; ++i)
        total += iov[i].iov_len;
    switch (point(K_WRITE, "writev", fdname(fd), grows(fd, curpos(fd), total)))
    {
        case FAIL: return -1;
        case PART:
        {
            size_t todo = part(total), done = 0;
            for (int i = 0; i < n && done < todo; ++i)
            {
                size_t l = iov[i].iov_len < todo - done ? iov[i].iov_len : todo - done;
                if (l)
                    done += syscall(SYS_write, fd, iov[i].iov_base, l);
            }
            if (mode == CRASH)
                _exit(CRASH_STATUS);
            return done;
        }
        default: return syscall(SYS_writev, fd, iov, n);
    }
}

ssize_t sendfile(int out, int in, off_t* ofs, size_t count)
{
    if (!active(out) || !regular(out))
        return syscall(SYS_sendfile, out, in, ofs, count);
    switch (point(K_WRITE, "sendfile", fdname(out), true))
    {
        case FAIL: return -1;
        case PART:
        {
            auto res = syscall(SYS_sendfile, out, in, ofs, part(count));
            if (mode == CRASH)
                _exit(CRASH_STATUS);
            return res;
        }
        default: return syscall(SYS_sendfile, out, in, ofs, count);
    }
}
ssize_t sendfile64(int out, int in, off_t* ofs, size_t count) { return sendfile(out, in, ofs, count); }

/// Calls that only read are only points for the scheduler
static void read_point(const char* name, const char* path)
{
    if (mode == SCHED && path && strncmp(path, sched_root, sched_rootlen) == 0)
        sched_point('Y', name, path);
}
static void read_point_fd(const char* name, int fd)
{
    if (mode == SCHED && regular(fd))
        sched_point('Y', name, fdname(fd));
}

static int do_open(int dirfd, const char* path, int flags, mode_t m)
{
    if (active() && (flags & (O_CREAT | O_TRUNC)))
    {
        bool grow = true;
        if (mode == DISK_FULL)
        {
            struct stat st;
            grow = ::fstatat(dirfd, path, &st, 0) < 0;
        }
        if (point(K_CREATE, "open", path, grow) == FAIL)
            return -1;
    }
    else
        read_point("open", path);
    return syscall(SYS_openat, dirfd, path, flags, m);
}

#define MODE_ARG(flags)                                                                                                          \
    mode_t m = 0;                                                                                                                \
    if (flags & (O_CREAT | O_TMPFILE))                                                                                           \
    {                                                                                                                            \
        va_list ap;                                                                                                              \
        va_start(ap, flags);                                                                                                     \
        m = va_arg(ap, mode_t);                                                                                                  \
        va_end(ap);                                                                                                              \
    }

int open(const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return do_open(AT_FDCWD, path, flags, m);
}
int open64(const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return do_open(AT_FDCWD, path, flags, m);
}
int openat(int dirfd, const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return do_open(dirfd, path, flags, m);
}
int openat64(int dirfd, const char* path, int flags, ...)
{
    MODE_ARG(flags)
    return do_open(dirfd, path, flags, m);
}

static int do_ftruncate(int fd, off_t len)
{
    if (active(fd) && point(K_META, "ftruncate", fdname(fd), mode == DISK_FULL && len > fsize(fd)) == FAIL)
        return -1;
    return syscall(SYS_ftruncate, fd, len);
}
int ftruncate(int fd, off_t len) noexcept { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off_t len) noexcept { return do_ftruncate(fd, len); }
int truncate(const char* path, off_t len) noexcept { PATHPOINT(K_META, "truncate", path, false, syscall(SYS_truncate, path, len)) }
int truncate64(const char* path, off_t len) noexcept { PATHPOINT(K_META, "truncate", path, false, syscall(SYS_truncate, path, len)) }
int rename(const char* a, const char* b) noexcept { PATHPOINT(K_META, "rename", a, false, syscall(SYS_rename, a, b)) }
int renameat2(int ad, const char* a, int bd, const char* b, unsigned fl) noexcept
{
    PATHPOINT(K_META, "renameat2", a, false, syscall(SYS_renameat2, ad, a, bd, b, fl))
}
int renameat(int ad, const char* a, int bd, const char* b) noexcept
{
    PATHPOINT(K_META, "renameat", a, false, syscall(SYS_renameat, ad, a, bd, b))
}
int link(const char* a, const char* b) noexcept { PATHPOINT(K_META, "link", a, true, syscall(SYS_link, a, b)) }
int symlink(const char* a, const char* b) noexcept { PATHPOINT(K_META, "symlink", b, true, syscall(SYS_symlink, a, b)) }
int mkdir(const char* path, mode_t m) noexcept { PATHPOINT(K_CREATE, "mkdir", path, true, syscall(SYS_mkdir, path, m)) }
int mkdirat(int d, const char* path, mode_t m) noexcept { PATHPOINT(K_CREATE, "mkdirat", path, true, syscall(SYS_mkdirat, d, path, m)) }
int unlink(const char* path) noexcept { PATHPOINT(K_CLEANUP, "unlink", path, false, syscall(SYS_unlink, path)) }
int unlinkat(int d, const char* path, int fl) noexcept
{
    PATHPOINT(K_CLEANUP, "unlinkat", path, false, syscall(SYS_unlinkat, d, path, fl))
}
int rmdir(const char* path) noexcept { PATHPOINT(K_CLEANUP, "rmdir", path, false, syscall(SYS_rmdir, path)) }
int remove(const char* path) noexcept
{
    if (active())
        point(K_CLEANUP, "remove", path, false);
    if (syscall(SYS_unlink, path) == 0)
        return 0;
    if (errno == EISDIR || errno == EPERM)
        return syscall(SYS_rmdir, path);
    return -1;
}
int fsync(int fd) { PATHPOINT(K_META, "fsync", fdname(fd), false, syscall(SYS_fsync, fd)) }
int fdatasync(int fd) { PATHPOINT(K_META, "fdatasync", fdname(fd), false, syscall(SYS_fdatasync, fd)) }
int utimensat(int d, const char* path, const struct timespec ts[2], int fl) noexcept
{
    PATHPOINT(K_CLEANUP, "utimensat", path ? path : "", false, syscall(SYS_utimensat, d, path, ts, fl))
}
int futimens(int fd, const struct timespec ts[2]) noexcept
{
    PATHPOINT(K_CLEANUP, "futimens", fdname(fd), false, syscall(SYS_utimensat, fd, nullptr, ts, 0))
}
int fchmod(int fd, mode_t m) noexcept { PATHPOINT(K_CLEANUP, "fchmod", fdname(fd), false, syscall(SYS_fchmod, fd, m)) }

ssize_t pread(int fd, void* buf, size_t len, off_t ofs)
{
    read_point_fd("pread", fd);
    return syscall(SYS_pread64, fd, buf, len, ofs);
}
ssize_t pread64(int fd, void* buf, size_t len, off_t ofs)
{
    read_point_fd("pread", fd);
    return syscall(SYS_pread64, fd, buf, len, ofs);
}
ssize_t read(int fd, void* buf, size_t len)
{
    read_point_fd("read", fd);
    return syscall(SYS_read, fd, buf, len);
}
#define STATPOINT(name, args, path, flags, dirfd, buf)                                                                  \
    int name args noexcept                                                                                                       \
    {                                                                                                                            \
        read_point(#name, path);                                                                                                 \
        return syscall(SYS_newfstatat, dirfd, path, buf, flags);                                                                 \
    }
STATPOINT(stat, (const char* path, struct stat* buf), path, 0, AT_FDCWD, buf)
STATPOINT(stat64, (const char* path, struct stat64* buf), path, 0, AT_FDCWD, buf)
STATPOINT(lstat, (const char* path, struct stat* buf), path, AT_SYMLINK_NOFOLLOW, AT_FDCWD, buf)
STATPOINT(lstat64, (const char* path, struct stat64* buf), path, AT_SYMLINK_NOFOLLOW, AT_FDCWD, buf)
int access(const char* path, int m) noexcept
{
    read_point("access", path);
    return syscall(SYS_faccessat, AT_FDCWD, path, m);
}

static int do_fcntl(int fd, int cmd, void* arg)
{
    if (mode != SCHED)
        return syscall(SYS_fcntl, fd, cmd, arg);
    switch (cmd)
    {
        case F_OFD_SETLK:
        case F_SETLK:
        {
            auto lk = (struct flock64*)arg;
            sched_point('Y', lk->l_type == F_UNLCK ? "unlock" : lk->l_type == F_RDLCK ? "trylock-read" : "trylock-write", fdname(fd));
            return syscall(SYS_fcntl, fd, cmd, arg);
        }
        case F_OFD_SETLKW:
        case F_SETLKW:
        {
            auto lk   = (struct flock64*)arg;
            auto name = lk->l_type == F_UNLCK ? "unlock" : lk->l_type == F_RDLCK ? "lock-read" : "lock-write";
            sched_point('Y', name, fdname(fd));
            while (true)
            {
                int r = syscall(SYS_fcntl, fd, cmd == F_SETLKW ? F_SETLK : F_OFD_SETLK, arg);
                if (r >= 0 || (errno != EAGAIN && errno != EACCES))
                    return r;
                sched_point('B', name, fdname(fd));
            }
        }
        default: return syscall(SYS_fcntl, fd, cmd, arg);
    }
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    return do_fcntl(fd, cmd, arg);
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (mode == SCHED)
    {
        sched_point('Z', "nanosleep", "");
        return 0;
    }
    return syscall(SYS_nanosleep, a, b);
}
int usleep(useconds_t us)
{
    struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    return nanosleep(&ts, nullptr);
}
}
#endif
