// Preloaded into the real program: watches, contains and disturbs what it asks of the system.
//  - every call that opens for writing, creates, writes, renames or removes a file is logged with its data, and is
//    refused (and logged as an escape) when it lands outside VSHIM_ROOT;
//  - TCP stays on the loopback; the tracker addresses of VSHIM_TRACKERS are redirected to local ports, all other
//    remote addresses are refused; port 8080 is replaced by a free one, which is logged;
//  - VSHIM_HTTP does for TCP what VSHIM_TRACKERS does for UDP;
//  - VSHIM_FAULTS makes chosen file operations fail or come up short, VSHIM_KILL ends the process at one of them;
//  - VSHIM_DELAY adds a pseudo-random sleep around chosen calls, to spread schedules.
// A log record is one line, for writes followed by the data and a newline; each is appended by a single write.
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <netinet/in.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXFD 4096
static int logfd = -1;
static char root[PATH_MAX];
static size_t rootlen;
// What a descriptor is: 0 not ours, 1 a file opened for writing, 2 an untracked log file, 3 a TCP connection.
static _Atomic int kind[MAXFD];
static char *paths[MAXFD];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

static struct { uint32_t ip; uint16_t port, local; } trackers[64];
static int ntrackers;
// The same for TCP, for trackers that speak HTTP.
static struct { uint32_t ip; uint16_t port, local; } webs[64];
static int nhttp;

struct fault { char op; char match[128]; int from, count, err, seen; };
static struct fault faults[64];
static int nfaults;
static long kill_at = -1, ops;
static char kill_mode;
static unsigned delay_max_us;
static _Atomic uint64_t delay_state;

static int (*r_open)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static int (*r_mkdir)(const char *, mode_t);
static int (*r_close)(int);
static ssize_t (*r_write)(int, const void *, size_t);
static ssize_t (*r_pwrite)(int, const void *, size_t, off_t);
static int (*r_connect)(int, const struct sockaddr *, socklen_t);
static int (*r_bind)(int, const struct sockaddr *, socklen_t);
static int (*r_rename)(const char *, const char *);
static int (*r_unlink)(const char *);
static int (*r_rmdir)(const char *);
static int (*r_ftruncate)(int, off_t);

static uint64_t now(void) {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec;
}

static void put(const char *head, const void *data, size_t n) {
    if (logfd < 0) return;
    int saved = errno;
    size_t h = strlen(head);
    char *b = malloc(h + n + 2);
    memcpy(b, head, h);
    size_t len = h;
    if (data) { memcpy(b + h, data, n); len += n; b[len++] = '\n'; }
    ssize_t r = syscall(SYS_write, logfd, b, len);
    (void)r;
    free(b);
    errno = saved;
}

// Paths in the log: anything unusual as %XX.
static void enc(const char *p, char *out, size_t max) {
    size_t o = 0;
    for (; *p && o + 4 < max; p++) {
        unsigned char c = *p;
        if (c > 0x20 && c < 0x7f && c != '%') out[o++] = c;
        else o += sprintf(out + o, "%%%02X", c);
    }
    out[o] = 0;
}

static void rec(const char *op, const char *path, long long a, long long b, long long rc, const void *data, size_t n) {
    char e[PATH_MAX * 3], line[PATH_MAX * 3 + 256];
    enc(path ? path : "-", e, sizeof e);
    snprintf(line, sizeof line, "%s %llu %ld %s %lld %lld %lld %zu\n", op, (unsigned long long)now(), (long)syscall(SYS_gettid), e, a, b, rc, data ? n : 0);
    put(line, data, n);
}

static void jitter(void) {
    if (!delay_max_us) return;
    uint64_t x = atomic_fetch_add(&delay_state, 0x9e3779b97f4a7c15ull);
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33;
    if (x & 3) return;
    usleep((x >> 2) % delay_max_us);
}

// Where a path really leads: its deepest existing ancestor resolved by the system, the rest joined.
static int resolve(int dir, const char *path, char *out) {
    char whole[PATH_MAX * 2], head[PATH_MAX * 2], real[PATH_MAX];
    if (path[0] == '/') snprintf(whole, sizeof whole, "%s", path);
    else {
        char base[PATH_MAX];
        if (dir == AT_FDCWD) { if (!getcwd(base, sizeof base)) return -1; }
        else {
            char link[64];
            snprintf(link, sizeof link, "/proc/self/fd/%d", dir);
            ssize_t n = readlink(link, base, sizeof base - 1);
            if (n < 0) return -1;
            base[n] = 0;
        }
        snprintf(whole, sizeof whole, "%s/%s", base, path);
    }
    strcpy(head, whole);
    size_t cut = strlen(head);
    for (;;) {
        if (realpath(cut ? head : "/", real)) break;
        while (cut > 0 && head[cut - 1] != '/') cut--;
        while (cut > 0 && head[cut - 1] == '/') cut--;
        head[cut] = 0;
        if (!cut && !realpath("/", real)) return -1;
    }
    if (!strcmp(real, "/")) real[0] = 0;
    strcpy(out, real);
    char *rest = whole + cut, *save = NULL;
    for (char *c = strtok_r(rest, "/", &save); c; c = strtok_r(NULL, "/", &save)) {
        if (!strcmp(c, ".")) continue;
        if (!strcmp(c, "..")) { char *s = strrchr(out, '/'); if (s) *s = 0; continue; }
        if (strlen(out) + strlen(c) + 2 > PATH_MAX) return -1;
        strcat(out, "/");
        strcat(out, c);
    }
    if (!out[0]) strcpy(out, "/");
    return 0;
}

static int inside(const char *p) { return !rootlen || (!strncmp(p, root, rootlen) && (p[rootlen] == '/' || !p[rootlen])); }
static const char *shown(const char *p) { return rootlen && inside(p) ? (p[rootlen] ? p + rootlen + 1 : ".") : p; }
static int is_log(const char *p) { return inside(p) && rootlen && !strcmp(p + rootlen, "/test.log"); }

static void die(void) { for (;;) syscall(SYS_kill, getpid(), SIGKILL); }

// Called with the lock held, for each operation that changes the filesystem. 1: end the process before it,
// 2: midway, 3: after it.
static int crash_point(char op, const char *path) {
    if (kill_at < 0) { ops++; return 0; }
    if (ops++ != kill_at) return 0;
    rec("X", path, op, kill_mode, 0, NULL, 0);
    return kill_mode == 'b' ? 1 : kill_mode == 'p' ? 2 : 3;
}

// The error to give an operation: 0 none, -1 a short count.
static int fault(char op, const char *path) {
    int got = 0;
    for (int i = 0; i < nfaults; i++) {
        struct fault *f = &faults[i];
        if (f->op != op || (f->match[0] != '*' && !strstr(path, f->match))) continue;
        int k = f->seen++;
        if (!got && k >= f->from && (f->count < 0 || k < f->from + f->count)) got = f->err;
    }
    return got;
}

static void parse_env(void) {
    char *s = getenv("VSHIM_TRACKERS");
    if (s) {
        char *d = strdup(s), *save = NULL;
        for (char *t = strtok_r(d, ",", &save); t && ntrackers < 64; t = strtok_r(NULL, ",", &save)) {
            char ip[64]; unsigned port, local;
            if (sscanf(t, "%63[^:]:%u=%u", ip, &port, &local) == 3) {
                trackers[ntrackers].ip = inet_addr(ip);
                trackers[ntrackers].port = port;
                trackers[ntrackers++].local = local;
            }
        }
        free(d);
    }
    s = getenv("VSHIM_HTTP");
    if (s) {
        char *d = strdup(s), *save = NULL;
        for (char *t = strtok_r(d, ",", &save); t && nhttp < 64; t = strtok_r(NULL, ",", &save)) {
            char ip[64]; unsigned port, local;
            if (sscanf(t, "%63[^:]:%u=%u", ip, &port, &local) == 3) {
                webs[nhttp].ip = inet_addr(ip);
                webs[nhttp].port = port;
                webs[nhttp++].local = local;
            }
        }
        free(d);
    }
    s = getenv("VSHIM_FAULTS"); // op/match/from/count/err separated by commas
    if (s) {
        char *d = strdup(s), *save = NULL;
        for (char *t = strtok_r(d, ",", &save); t && nfaults < 64; t = strtok_r(NULL, ",", &save)) {
            struct fault *f = &faults[nfaults];
            if (sscanf(t, "%c|%127[^|]|%d|%d|%d", &f->op, f->match, &f->from, &f->count, &f->err) == 5) nfaults++;
        }
        free(d);
    }
    s = getenv("VSHIM_KILL"); // n:mode
    if (s) sscanf(s, "%ld:%c", &kill_at, &kill_mode);
    s = getenv("VSHIM_DELAY"); // seed:max_us
    if (s) { unsigned long long seed; if (sscanf(s, "%llu:%u", &seed, &delay_max_us) == 2) delay_state = seed; }
    s = getenv("VSHIM_ROOT");
    if (s && realpath(s, root)) rootlen = strlen(root);
    s = getenv("VSHIM_LOG");
    if (s) {
        int fd = syscall(SYS_openat, AT_FDCWD, s, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (fd >= 0) { logfd = fcntl(fd, F_DUPFD_CLOEXEC, 1000); if (logfd < 0) logfd = fd; else syscall(SYS_close, fd); }
    }
}

__attribute__((constructor)) static void init(void) {
    r_open = dlsym(RTLD_NEXT, "open64"); r_openat = dlsym(RTLD_NEXT, "openat64");
    r_mkdir = dlsym(RTLD_NEXT, "mkdir"); r_close = dlsym(RTLD_NEXT, "close");
    r_write = dlsym(RTLD_NEXT, "write"); r_pwrite = dlsym(RTLD_NEXT, "pwrite64");
    r_connect = dlsym(RTLD_NEXT, "connect"); r_bind = dlsym(RTLD_NEXT, "bind");
    r_rename = dlsym(RTLD_NEXT, "rename"); r_unlink = dlsym(RTLD_NEXT, "unlink");
    r_rmdir = dlsym(RTLD_NEXT, "rmdir"); r_ftruncate = dlsym(RTLD_NEXT, "ftruncate64");
    parse_env();
    unsetenv("LD_PRELOAD");
}

static void track(int fd, int k, const char *path) {
    if (fd < 0 || fd >= MAXFD) return;
    pthread_mutex_lock(&lock);
    free(paths[fd]);
    paths[fd] = path ? strdup(path) : NULL;
    kind[fd] = k;
    pthread_mutex_unlock(&lock);
}

static int do_open(int dir, const char *path, int flags, mode_t mode) {
    if ((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) return r_openat(dir, path, flags, mode);
    char p[PATH_MAX * 2];
    if (resolve(dir, path, p)) return r_openat(dir, path, flags, mode);
    if (!strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6)) return r_openat(dir, path, flags, mode);
    if (!inside(p)) { rec("ESC", p, 'o', flags, 0, NULL, 0); errno = EACCES; return -1; }
    if (is_log(p)) { int fd = r_openat(dir, path, flags, mode); track(fd, 2, NULL); return fd; }
    jitter();
    pthread_mutex_lock(&lock);
    int e = fault('o', shown(p));
    if (e > 0) {
        rec("O", shown(p), flags, 0, -e, NULL, 0);
        pthread_mutex_unlock(&lock);
        errno = e;
        return -1;
    }
    struct stat st;
    int there = !stat(path, &st);
    int changes = (!there && (flags & O_CREAT)) || (there && (flags & O_TRUNC));
    int c = changes ? crash_point('o', shown(p)) : 0;
    if (c == 1 || c == 2) die();
    int fd = r_openat(dir, path, flags, mode);
    int saved = errno;
    if (c) die();
    rec("O", shown(p), flags, changes, fd < 0 ? -saved : fd, NULL, 0);
    pthread_mutex_unlock(&lock);
    if (fd >= 0) track(fd, 1, shown(p));
    errno = saved;
    return fd;
}

#define MODE mode_t m = 0; if (f & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, f); m = va_arg(a, int); va_end(a); }
int open(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int open64(const char *p, int f, ...) { MODE return do_open(AT_FDCWD, p, f, m); }
int openat(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int openat64(int d, const char *p, int f, ...) { MODE return do_open(d, p, f, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

int mkdir(const char *path, mode_t mode) {
    char p[PATH_MAX * 2];
    if (resolve(AT_FDCWD, path, p)) return r_mkdir(path, mode);
    if (!inside(p)) { rec("ESC", p, 'm', 0, 0, NULL, 0); errno = EACCES; return -1; }
    struct stat st;
    if (!stat(path, &st)) return r_mkdir(path, mode);
    jitter();
    pthread_mutex_lock(&lock);
    int e = fault('m', shown(p));
    if (e > 0) {
        rec("M", shown(p), 0, 0, -e, NULL, 0);
        pthread_mutex_unlock(&lock);
        errno = e;
        return -1;
    }
    int c = crash_point('m', shown(p));
    if (c == 1 || c == 2) die();
    int r = r_mkdir(path, mode), saved = errno;
    if (c) die();
    rec("M", shown(p), 0, 0, r ? -saved : 0, NULL, 0);
    pthread_mutex_unlock(&lock);
    errno = saved;
    return r;
}

static ssize_t do_write(int fd, const void *b, size_t n, off_t off, int positioned) {
    jitter();
    pthread_mutex_lock(&lock);
    const char *p = paths[fd] ? paths[fd] : "?";
    off_t at = positioned ? off : lseek(fd, 0, SEEK_CUR);
    int e = fault('w', p);
    if (e > 0) {
        rec("W", p, at, n, -e, NULL, 0);
        pthread_mutex_unlock(&lock);
        errno = e;
        return -1;
    }
    size_t len = e == -1 && n > 1 ? (n + 1) / 2 : n;
    int c = crash_point('w', p);
    if (c == 1) die();
    if (c == 2) {
        len = n / 2;
        ssize_t r = positioned ? r_pwrite(fd, b, len, off) : r_write(fd, b, len);
        (void)r;
        die();
    }
    ssize_t r = positioned ? r_pwrite(fd, b, len, off) : r_write(fd, b, len);
    int saved = errno;
    if (c) die();
    rec("W", p, at, n, r < 0 ? -saved : r, r > 0 ? b : NULL, r > 0 ? r : 0);
    pthread_mutex_unlock(&lock);
    errno = saved;
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 1) return do_write(fd, b, n, 0, 0);
    return r_write ? r_write(fd, b, n) : syscall(SYS_write, fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t off) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 1) return do_write(fd, b, n, off, 1);
    return r_pwrite(fd, b, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t off) { return pwrite64(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec *v, int k) {
    if (fd >= 0 && fd < MAXFD && kind[fd] == 1) return k > 0 ? do_write(fd, v[0].iov_base, v[0].iov_len, 0, 0) : 0;
    return syscall(SYS_writev, fd, v, k);
}

static int do_ftruncate(int fd, off_t n) {
    if (fd < 0 || fd >= MAXFD || kind[fd] != 1) return r_ftruncate(fd, n);
    pthread_mutex_lock(&lock);
    int c = crash_point('t', paths[fd] ? paths[fd] : "?");
    if (c == 1 || c == 2) die();
    int r = r_ftruncate(fd, n), saved = errno;
    if (c) die();
    rec("T", paths[fd], n, 0, r ? -saved : 0, NULL, 0);
    pthread_mutex_unlock(&lock);
    errno = saved;
    return r;
}
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }

static int two(const char *op, const char *a, const char *b) {
    char p[PATH_MAX * 2], q[PATH_MAX * 2];
    if (resolve(AT_FDCWD, a, p) || (b && resolve(AT_FDCWD, b, q))) { errno = ENOENT; return -1; }
    if (!inside(p) || (b && !inside(q))) { rec("ESC", inside(p) ? q : p, op[0], 0, 0, NULL, 0); errno = EACCES; return -1; }
    pthread_mutex_lock(&lock);
    int c = crash_point(op[0], shown(b ? q : p));
    if (c == 1 || c == 2) die();
    int r = b ? r_rename(a, b) : op[0] == 'u' ? r_unlink(a) : r_rmdir(a), saved = errno;
    if (c) die();
    if (b) rec("S", shown(p), 0, 0, r ? -saved : 0, NULL, 0);
    rec(b ? "R" : "U", shown(b ? q : p), 0, 0, r ? -saved : 0, NULL, 0);
    pthread_mutex_unlock(&lock);
    errno = saved;
    return r;
}
int rename(const char *a, const char *b) { return two("rename", a, b); }
int unlink(const char *a) { return two("unlink", a, NULL); }
int rmdir(const char *a) { return two("dir", a, NULL); }
int renameat(int d, const char *a, int e, const char *b) { if (d != AT_FDCWD || e != AT_FDCWD) { rec("ESC", a, 'r', 0, 0, NULL, 0); errno = EACCES; return -1; } return two("rename", a, b); }
int unlinkat(int d, const char *a, int f) { if (d != AT_FDCWD) { rec("ESC", a, 'u', 0, 0, NULL, 0); errno = EACCES; return -1; } return two(f & AT_REMOVEDIR ? "dir" : "unlink", a, NULL); }
static int refused(const char *what, const char *path) { rec("ESC", path, what[0], 0, 0, NULL, 0); errno = EACCES; return -1; }
int truncate(const char *p, off_t n) { (void)n; char q[PATH_MAX * 2]; if (resolve(AT_FDCWD, p, q) || !inside(q)) return refused("truncate", p); return syscall(SYS_truncate, p, n); }
int link(const char *a, const char *b) { (void)a; return refused("link", b); }
int symlink(const char *a, const char *b) { (void)a; return refused("symlink", b); }
int linkat(int d, const char *a, int e, const char *b, int f) { (void)d; (void)a; (void)e; (void)f; return refused("link", b); }
int symlinkat(const char *a, int d, const char *b) { (void)a; (void)d; return refused("symlink", b); }

int close(int fd) {
    if (fd >= 0 && fd == logfd) return 0;
    if (fd >= 0 && fd < MAXFD && kind[fd]) {
        int k = kind[fd];
        pthread_mutex_lock(&lock);
        kind[fd] = 0;
        if (k == 3) rec("CLOSE", paths[fd], fd, 0, 0, NULL, 0);
        free(paths[fd]);
        paths[fd] = NULL;
        pthread_mutex_unlock(&lock);
    }
    return r_close ? r_close(fd) : syscall(SYS_close, fd);
}

int connect(int fd, const struct sockaddr *sa, socklen_t n) {
    int type = 0;
    socklen_t tn = sizeof type;
    getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &tn);
    if (sa->sa_family == AF_UNIX) return r_connect(fd, sa, n);
    char text[128];
    if (sa->sa_family != AF_INET) { rec("REFUSE", "inet6", 0, 0, 0, NULL, 0); errno = ECONNREFUSED; return -1; }
    struct sockaddr_in in;
    memcpy(&in, sa, sizeof in);
    snprintf(text, sizeof text, "%s:%u", inet_ntoa(in.sin_addr), ntohs(in.sin_port));
    int local = (ntohl(in.sin_addr.s_addr) >> 24) == 127;
    if (type == SOCK_DGRAM) {
        rec("UDP", text, fd, 0, 0, NULL, 0);
        for (int i = 0; i < ntrackers; i++)
            if (trackers[i].ip == in.sin_addr.s_addr && trackers[i].port == ntohs(in.sin_port)) {
                in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                in.sin_port = htons(trackers[i].local);
                return r_connect(fd, (struct sockaddr *)&in, sizeof in);
            }
        if (local) return r_connect(fd, sa, n);
        rec("UREF", text, fd, 0, 0, NULL, 0);
        errno = ECONNREFUSED;
        return -1;
    }
    for (int i = 0; i < nhttp; i++)
        if (webs[i].ip == in.sin_addr.s_addr && webs[i].port == ntohs(in.sin_port)) {
            rec("WEB", text, fd, 0, 0, NULL, 0);
            in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            in.sin_port = htons(webs[i].local);
            return r_connect(fd, (struct sockaddr *)&in, sizeof in);
        }
    jitter();
    if (!local) { rec("REFUSE", text, fd, 0, 0, NULL, 0); errno = ECONNREFUSED; return -1; }
    rec("CONN", text, fd, 0, 0, NULL, 0);
    track(fd, 3, text);
    return r_connect(fd, sa, n);
}

int bind(int fd, const struct sockaddr *sa, socklen_t n) {
    if (sa->sa_family == AF_INET) {
        struct sockaddr_in in;
        memcpy(&in, sa, sizeof in);
        if (ntohs(in.sin_port) == 8080) {
            char text[128];
            snprintf(text, sizeof text, "%s:8080", inet_ntoa(in.sin_addr));
            in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            in.sin_port = 0;
            int r = r_bind(fd, (struct sockaddr *)&in, sizeof in);
            socklen_t l = sizeof in;
            getsockname(fd, (struct sockaddr *)&in, &l);
            rec("HTTP", text, ntohs(in.sin_port), 0, r, NULL, 0);
            return r;
        }
    }
    return r_bind(fd, sa, n);
}
