// libc entry points answered by the simulated kernel. The executable is linked
// with -rdynamic, so Qt and OpenSSL resolve these too.
#include "kernel.h"
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <dirent.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

#define REAL(ret, name, ...) \
    typedef ret (*name##_t)(__VA_ARGS__); \
    static name##_t real_##name() { static name##_t p = (name##_t)dlsym(RTLD_NEXT, #name); return p; }

REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(int, close, int)
REAL(int, socket, int, int, int)
REAL(int, bind, int, const struct sockaddr *, socklen_t)
REAL(int, listen, int, int)
REAL(int, accept4, int, struct sockaddr *, socklen_t *, int)
REAL(int, connect, int, const struct sockaddr *, socklen_t)
REAL(ssize_t, recv, int, void *, size_t, int)
REAL(ssize_t, send, int, const void *, size_t, int)
REAL(ssize_t, recvmsg, int, struct msghdr *, int)
REAL(ssize_t, sendmsg, int, const struct msghdr *, int)
REAL(int, getsockopt, int, int, int, void *, socklen_t *)
REAL(int, setsockopt, int, int, int, const void *, socklen_t)
REAL(int, getsockname, int, struct sockaddr *, socklen_t *)
REAL(int, getpeername, int, struct sockaddr *, socklen_t *)
REAL(int, shutdown, int, int)
REAL(int, poll, struct pollfd *, nfds_t, int)
REAL(DIR *, opendir, const char *)
REAL(char *, realpath, const char *, char *)
REAL(FILE *, fopen, const char *, const char *)
REAL(int, statvfs64, const char *, struct statvfs64 *)
REAL(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *)

static inline File *simFile(int fd)
{
    if (!S || !S->active || fd < 0 || (size_t)fd >= S->files.size()) return nullptr;
    return S->files[fd];
}

static inline Sim::VFile *diskFile(int fd)
{
    if (!S || !S->active || S->vroot.empty()) return nullptr;
    auto it = S->vfds.find(fd);
    return it == S->vfds.end() ? nullptr : &it->second;
}

// where a path really is
struct VPath {
    std::string keep;
    const char *p;
    explicit VPath(const char *path) : p(path)
    {
        if (!S || !S->active || S->vroot.empty() || !path) return;
        InSim in;
        keep = S->vpath(path);
        p = keep.c_str();
    }
};

struct Hook {
    Hook(const char *name);
    ~Hook() { inSim--; }
};

inline Hook::Hook(const char *name)
{
    inSim++;
    if (!S->active) return;
    S->syscalls++;
    if (S->syscallHook && S->cur == S->proxy) S->syscallHook(name);
}

extern "C" {

int sim_reserve_fd() { return (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0); }
void sim_release_fd(int fd) { syscall(SYS_close, fd); }
int sim_make_socket_file(const char *path)
{
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0777);
    if (fd < 0) { errno = EACCES; return -1; }
    syscall(SYS_close, fd);
    return 0;
}

ssize_t read(int fd, void *buf, size_t n)
{
    if (simFile(fd)) { Hook h("read"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_read(f, (char *)buf, n); }
    if (Sim::VFile *v = diskFile(fd)) {
        long k;
        { InSim in; k = S->onIo(*v, false, n); }
        if (k < 0) { errno = (int)-k; return -1; }
        ssize_t r = real_read()(fd, buf, (size_t)k);
        if (r > 0) v->off += (uint64_t)r;
        return r;
    }
    return real_read()(fd, buf, n);
}
ssize_t write(int fd, const void *buf, size_t n)
{
    if (simFile(fd)) { Hook h("write"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_write(f, (const char *)buf, n); }
    if (Sim::VFile *v = diskFile(fd)) {
        long k;
        { InSim in; k = S->onIo(*v, true, n); }
        if (k < 0) { errno = (int)-k; return -1; }
        ssize_t r = real_write()(fd, buf, (size_t)k);
        if (r > 0) v->off += (uint64_t)r;
        return r;
    }
    return real_write()(fd, buf, n);
}
ssize_t recv(int fd, void *buf, size_t n, int flags)
{
    if (simFile(fd)) { Hook h("recv"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_read(f, (char *)buf, n, flags & MSG_PEEK); }
    return real_recv()(fd, buf, n, flags);
}
ssize_t send(int fd, const void *buf, size_t n, int flags)
{
    if (simFile(fd)) { Hook h("send"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_write(f, (const char *)buf, n); }
    return real_send()(fd, buf, n, flags);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
    if (simFile(fd)) {
        Hook h("recvmsg");
        File *f = simFile(fd);
        if (!f) { errno = EBADF; return -1; }
        if (m->msg_iovlen < 1) { errno = EINVAL; return -1; }
        m->msg_controllen = 0;
        m->msg_flags = 0;
        return S->k_read(f, (char *)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags & MSG_PEEK);
    }
    return real_recvmsg()(fd, m, flags);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
    if (simFile(fd)) {
        Hook h("sendmsg");
        File *f = simFile(fd);
        if (!f) { errno = EBADF; return -1; }
        if (m->msg_iovlen < 1) { errno = EINVAL; return -1; }
        return S->k_write(f, (const char *)m->msg_iov[0].iov_base, m->msg_iov[0].iov_len);
    }
    return real_sendmsg()(fd, m, flags);
}
int close(int fd)
{
    if (simFile(fd)) { Hook h("close"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } S->k_close(f); return 0; }
    if (diskFile(fd)) { InSim in; S->vfds.erase(fd); }
    return real_close()(fd);
}
int socket(int domain, int type, int proto)
{
    if (S && S->active && (domain == AF_INET || domain == AF_INET6 || domain == AF_UNIX)) {
        Hook h("socket");
        if ((type & 0xff) != SOCK_STREAM) { errno = EPROTONOSUPPORT; return -1; }
        return S->k_socket(domain, type);
    }
    return real_socket()(domain, type, proto);
}
// ---- paths

static int openAny(const char *path, int flags, int mode)
{
    VPath v(path);
    bool proxys = S && S->active && !S->vroot.empty() && S->cur == S->proxy && !inSim;
    if (proxys && S->onOpen) {
        InSim in;
        int e = S->onOpen(path, flags);
        if (e) { errno = e; return -1; }
    }
    int fd = (int)syscall(SYS_openat, AT_FDCWD, v.p, flags | O_LARGEFILE, mode);
    if (fd >= 0 && proxys) { InSim in; S->vfds[fd].path = path; }
    return fd;
}
int open(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
    va_end(ap);
    return openAny(path, flags, mode);
}
int open64(const char *path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0;
    va_end(ap);
    return openAny(path, flags, mode);
}
int stat(const char *p, struct stat *s) { return (int)syscall(SYS_newfstatat, AT_FDCWD, VPath(p).p, s, 0); }
int stat64(const char *p, struct stat64 *s) { return (int)syscall(SYS_newfstatat, AT_FDCWD, VPath(p).p, s, 0); }
int lstat(const char *p, struct stat *s) { return (int)syscall(SYS_newfstatat, AT_FDCWD, VPath(p).p, s, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *s) { return (int)syscall(SYS_newfstatat, AT_FDCWD, VPath(p).p, s, AT_SYMLINK_NOFOLLOW); }
int statx(int d, const char *p, int flags, unsigned mask, struct statx *s) { return (int)syscall(SYS_statx, d, VPath(p).p, flags, mask, s); }
int access(const char *p, int m) { return (int)syscall(SYS_access, VPath(p).p, m); }
int mkdir(const char *p, mode_t m) { return (int)syscall(SYS_mkdir, VPath(p).p, m); }
int rmdir(const char *p) { return (int)syscall(SYS_rmdir, VPath(p).p); }
int unlink(const char *p) { return (int)syscall(SYS_unlink, VPath(p).p); }
int remove(const char *p) { VPath v(p); int r = (int)syscall(SYS_unlink, v.p); return r && (errno == EISDIR || errno == EPERM) ? (int)syscall(SYS_rmdir, v.p) : r; }
int chmod(const char *p, mode_t m) { return (int)syscall(SYS_chmod, VPath(p).p, m); }
int rename(const char *a, const char *b) { return (int)syscall(SYS_rename, VPath(a).p, VPath(b).p); }
int renameat2(int da, const char *a, int db, const char *b, unsigned f) { return (int)syscall(SYS_renameat2, da, VPath(a).p, db, VPath(b).p, f); }
int symlink(const char *a, const char *b) { return (int)syscall(SYS_symlink, a, VPath(b).p); }
int link(const char *a, const char *b) { return (int)syscall(SYS_link, VPath(a).p, VPath(b).p); }
int truncate64(const char *p, off64_t n) { return (int)syscall(SYS_truncate, VPath(p).p, n); }
ssize_t readlink(const char *p, char *b, size_t n) { return (ssize_t)syscall(SYS_readlink, VPath(p).p, b, n); }
DIR *opendir(const char *p) { return real_opendir()(VPath(p).p); }
char *realpath(const char *p, char *r) { return real_realpath()(VPath(p).p, r); }
FILE *fopen(const char *p, const char *m) { return real_fopen()(VPath(p).p, m); }
FILE *fopen64(const char *p, const char *m) { return real_fopen()(VPath(p).p, m); }
int statvfs64(const char *p, struct statvfs64 *s) { return real_statvfs64()(VPath(p).p, s); }

static bool pipesToo(int) { return S && S->active && S->simPipes && S->cur == S->proxy; }
int pipe2(int fds[2], int flags)
{
    if (pipesToo(0)) { Hook h("pipe"); return S->k_pipe(fds, false); }
    return (int)syscall(SYS_pipe2, fds, flags);
}
int pipe(int fds[2]) { return pipe2(fds, 0); }
int socketpair(int domain, int type, int proto, int fds[2])
{
    if (pipesToo(0)) { Hook h("socketpair"); return S->k_pipe(fds, true); }
    return (int)syscall(SYS_socketpair, domain, type, proto, fds);
}
int eventfd(unsigned int init, int flags)
{
    if (pipesToo(0)) { Hook h("eventfd"); return S->k_eventfd(init); }
    return (int)syscall(SYS_eventfd2, init, flags);
}
int bind(int fd, const struct sockaddr *a, socklen_t l)
{
    if (simFile(fd)) { Hook h("bind"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_bind(f, a, l); }
    return real_bind()(fd, a, l);
}
int listen(int fd, int backlog)
{
    if (simFile(fd)) { Hook h("listen"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_listen(f, backlog); }
    return real_listen()(fd, backlog);
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
    if (simFile(fd)) {
        Hook h("accept4");
        File *f = simFile(fd);
        if (!f) { errno = EBADF; return -1; }
        int r = S->k_accept(f);
        if (r >= 0 && a && l) getpeername(r, a, l);
        return r;
    }
    return real_accept4()(fd, a, l, flags);
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
    if (simFile(fd)) { Hook h("connect"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_connect(f, a, l); }
    return real_connect()(fd, a, l);
}
int shutdown(int fd, int how)
{
    if (simFile(fd)) { Hook h("shutdown"); File *f = simFile(fd); if (!f) { errno = EBADF; return -1; } return S->k_shutdown(f, how); }
    return real_shutdown()(fd, how);
}

static int putAddr(const File *f, uint32_t ip, uint16_t port, const std::string &path, struct sockaddr *a, socklen_t *l)
{
    if (f->unixdom) {
        sockaddr_un un;
        memset(&un, 0, sizeof un);
        un.sun_family = AF_UNIX;
        strncpy(un.sun_path, path.c_str(), sizeof un.sun_path - 1);
        socklen_t need = (socklen_t)(offsetof(sockaddr_un, sun_path) + (path.empty() ? 0 : path.size() + 1));
        memcpy(a, &un, std::min<size_t>(*l, need));
        *l = need;
        return 0;
    }
    if (f->v6) {
        sockaddr_in6 in;
        memset(&in, 0, sizeof in);
        in.sin6_family = AF_INET6;
        in.sin6_port = htons(port);
        if (ip) {
            in.sin6_addr.s6_addr[10] = in.sin6_addr.s6_addr[11] = 0xff;
            uint32_t n = htonl(ip);
            memcpy(in.sin6_addr.s6_addr + 12, &n, 4);
        }
        memcpy(a, &in, std::min<size_t>(*l, sizeof in));
        *l = sizeof in;
        return 0;
    }
    sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    in.sin_port = htons(port);
    in.sin_addr.s_addr = htonl(ip);
    memcpy(a, &in, std::min<size_t>(*l, sizeof in));
    *l = sizeof in;
    return 0;
}

int getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
    if (File *f = simFile(fd)) {
        if (f->ep) return putAddr(f, f->ep->ip, f->ep->port, "", a, l);
        return putAddr(f, f->bindIp, f->bindPort, f->path, a, l);
    }
    return real_getsockname()(fd, a, l);
}
int getpeername(int fd, struct sockaddr *a, socklen_t *l)
{
    if (File *f = simFile(fd)) {
        if (!f->ep || f->connState != 2) { errno = ENOTCONN; return -1; }
        const Endpoint &o = f->ep->conn->ep[1 - f->ep->side];
        return putAddr(f, o.ip, o.port, "", a, l);
    }
    return real_getpeername()(fd, a, l);
}
int getsockopt(int fd, int level, int opt, void *v, socklen_t *l)
{
    if (File *f = simFile(fd)) {
        int val = 0;
        if (level == SOL_SOCKET) {
            if (opt == SO_TYPE) val = SOCK_STREAM;
            else if (opt == SO_ERROR) {
                val = f->soError;
                if (!val && f->ep && f->ep->err) { val = f->ep->err; f->ep->err = 0; }
                f->soError = 0;
            }
            else if (opt == SO_RCVBUF || opt == SO_SNDBUF) val = f->ep ? (int)f->ep->conn->cap[0] : 65536;
            else if (opt == SO_DOMAIN) val = f->unixdom ? AF_UNIX : AF_INET;
            else if (opt == SO_ACCEPTCONN) val = f->listener != nullptr;
        }
        if (v && l && *l >= sizeof(int)) { memcpy(v, &val, sizeof val); *l = sizeof val; }
        return 0;
    }
    return real_getsockopt()(fd, level, opt, v, l);
}
int setsockopt(int fd, int level, int opt, const void *v, socklen_t l)
{
    if (simFile(fd)) return 0;
    return real_setsockopt()(fd, level, opt, v, l);
}
int ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (File *f = simFile(fd)) {
        if (req == FIONREAD) { *(int *)arg = f->ep && !f->dead ? (int)f->ep->avail() : 0; return 0; }
        if (req == FIONBIO) return 0;
        errno = ENOTTY;
        return -1;
    }
    return (int)syscall(SYS_ioctl, fd, req, arg);
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    if (simFile(fd)) {
        if (cmd == F_GETFL) return O_RDWR | O_NONBLOCK;
        if (cmd == F_GETFD) return FD_CLOEXEC;
        return 0;
    }
    return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    void *arg = va_arg(ap, void *);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}

static int simPoll(struct pollfd *p, nfds_t n, Time timeout) // timeout < 0: for ever
{
    Time deadline = timeout < 0 ? INT64_MAX : S->now + timeout;
    for (;;) {
        S->runDue();
        int ready = 0;
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            File *f = simFile(p[i].fd);
            if (!f) continue;
            if ((p[i].events & POLLIN) && S->readable(f)) p[i].revents |= POLLIN;
            if ((p[i].events & POLLOUT) && S->writable(f)) p[i].revents |= POLLOUT;
            if (p[i].revents) ready++;
        }
        if (ready || S->now >= deadline) return ready;
        Time t = S->nextEvent();
        if (t > deadline) t = deadline;
        if (t == INT64_MAX) return 0;
        if (t > S->now) S->now = t;
    }
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    if (S && S->active && n > 0 && simFile(p[0].fd)) return simPoll(p, n, timeout < 0 ? -1 : timeout * MS);
    return real_poll()(p, n, timeout);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *m)
{
    if (S && S->active && n > 0 && simFile(p[0].fd)) return simPoll(p, n, ts ? ts->tv_sec * SEC + ts->tv_nsec : -1);
    return real_ppoll()(p, n, ts, m);
}

// ---- clocks

static const Time WALL_BASE = 1700000000ll * SEC, MONO_BASE = 5000 * SEC;

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (S && S->active) {
        Time t = -1;
        switch (id) {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI:
            t = WALL_BASE + S->now + (S->cur ? S->cur->wallOffset : 0);
            break;
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME:
            t = MONO_BASE + S->now;
            break;
        default: break;
        }
        if (t >= 0) { ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0; }
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz)
{
    (void)tz;
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}

// ---- entropy: always the run's PRNG (a constant before the run)

static Rng bootEntropy;
static void fillEntropy(void *buf, size_t n)
{
    Rng &r = S && S->active ? S->rEntropy : bootEntropy;
    unsigned char *p = (unsigned char *)buf;
    while (n) {
        uint64_t v = r.next();
        size_t k = n < 8 ? n : 8;
        memcpy(p, &v, k);
        p += k;
        n -= k;
    }
}
int getentropy(void *buf, size_t n) { fillEntropy(buf, n); return 0; }
ssize_t getrandom(void *buf, size_t n, unsigned flags) { (void)flags; fillEntropy(buf, n); return (ssize_t)n; }
void sim_entropy(void *buf, size_t n) { fillEntropy(buf, n); }

} // extern "C"
