// The simulated operating system of the converter: preloaded into the real binary, it decides which
// thread runs, what every system call on the simulated files returns and in which order directories
// are listed. All decisions come from the plan (file descriptor SIM_PLAN); everything that happened
// is recorded in shared memory (file descriptor SIM_LOG), which survives the process.
//
// Threads are real, but only the holder of the token runs. The token changes hands at system calls,
// futex operations, yields and chosen allocations.

#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXT 64
#define MAXFD 1024
#define MAXDIR 128
#define MAXOPS 32
#define MAXRULE 128
#define LOGSIZE (8u << 20)

enum { EXIT_DEADLOCK = 97, EXIT_LIVELOCK = 98, EXIT_PLAN = 99 };

// -------------------------------------------------------------------------------------------
// Raw system calls

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(r)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}
#define raw3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)

static long ret(long r)
{
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// -------------------------------------------------------------------------------------------
// Plan

struct ops {
    int n, at;
    long op[MAXOPS]; // > 0: at most so many bytes; -1: interrupted; 0: nothing accepted
};

struct rule {
    char path[512];
    int open_err, open_eintr, stat_err, opendir_err, unknown_type;
    long readdir_fail; // entries delivered before the failure; -1: none
    int readdir_err;
    uint64_t shuffle;
    long fail_at; // -1: none
    int fail_err; // 0: end of file
    int fail_times; // 0: for ever
    struct ops ops;
    long done; // bytes accepted (streams)
};

static struct rule rules[MAXRULE];
static int nrules;
static int mode, patience, cpus, spurious;
static long limit, alloc_every, alloc_next, pct_at[8];
static int npct;
static uint64_t rng;

static uint64_t rnd(void)
{
    rng += 0x9e3779b97f4a7c15ull;
    uint64_t z = rng;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static uint64_t shuffled(uint64_t *s)
{
    *s = *s * 6364136223846793005ull + 1442695040888963407ull;
    return *s >> 33;
}

// -------------------------------------------------------------------------------------------
// Log

static char *log_mem; // 8 bytes length, then text
static int active;

static void note(const char *fmt, ...)
{
    if (!log_mem)
        return;
    uint64_t len = *(uint64_t *)log_mem;
    if (len + 1024 > LOGSIZE - 8)
        return;
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(log_mem + 8 + len, 1000, fmt, ap);
    va_end(ap);
    if (n > 999)
        n = 999;
    log_mem[8 + len + n] = '\n';
    *(uint64_t *)log_mem = len + (uint64_t)n + 1;
}

// -------------------------------------------------------------------------------------------
// Threads

enum state { UNUSED, READY, FUTEX, JOIN, DONE };

struct thread {
    enum state state;
    uint32_t gate;
    uint32_t *addr;
    uint32_t bits;
    int timed, woken;
    int join;
    uint64_t prio;
    pthread_t handle;
    void *(*start)(void *);
    void *arg;
};

static struct thread threads[MAXT];
static int nthreads;
static long points, decisions, switches, preempted;
static uint64_t low_prio = 1u << 20;
static pthread_key_t key;

static __thread int self __attribute__((tls_model("initial-exec"))) = -1;
static __thread int inside __attribute__((tls_model("initial-exec")));

static void die(int code, const char *why)
{
    note("end %s points %ld decisions %ld switches %ld preempted %ld", why, points, decisions, switches, preempted);
    raw3(SYS_exit_group, code, 0, 0);
    for (;;) {
    }
}

static void gate_wait(int id)
{
    uint32_t *g = &threads[id].gate;
    while (__atomic_exchange_n(g, 0, __ATOMIC_ACQUIRE) == 0)
        raw6(SYS_futex, (long)g, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}

static void gate_open(int id)
{
    uint32_t *g = &threads[id].gate;
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)g, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

// Chooses who runs next. `stay`: the current thread may go on. `yield`: it prefers not to.
static int choose(int stay, int yield)
{
    int ready[MAXT], n = 0;
    for (int i = 0; i < nthreads; i++)
        if (threads[i].state == READY && (i != self || stay))
            ready[n++] = i;
    if (n == 0) {
        // Time passes only when nothing else can happen.
        int timed[MAXT], m = 0;
        for (int i = 0; i < nthreads; i++)
            if (threads[i].state == FUTEX && threads[i].timed)
                timed[m++] = i;
        if (m == 0)
            die(EXIT_DEADLOCK, "deadlock");
        int t = timed[rnd() % (uint64_t)m];
        threads[t].state = READY;
        threads[t].woken = 0;
        note("t%d times out", t);
        return t;
    }
    if (n == 1)
        return ready[0];
    if (mode == 1) {
        // Priorities which change at chosen points.
        for (int i = 0; i < npct; i++)
            if (points == pct_at[i] && self >= 0)
                threads[self].prio = low_prio--;
        if (yield)
            threads[self].prio = low_prio--;
        int best = ready[0];
        for (int i = 1; i < n; i++)
            if (threads[ready[i]].prio > threads[best].prio)
                best = ready[i];
        return best;
    }
    if (decisions >= limit) {
        if (stay && !yield)
            return self;
        // Round robin.
        for (int i = 0; i < n; i++)
            if (ready[i] > self)
                return ready[i];
        return ready[0];
    }
    if (stay && !yield && patience > 1 && rnd() % (uint64_t)patience != 0)
        return self;
    decisions++;
    if (mode == 2) {
        // One thread is slow: it only runs if nobody else can.
        int k = 0;
        int slow = 1 + (int)(pct_at[0] % (nthreads > 1 ? nthreads - 1 : 1));
        for (int i = 0; i < n; i++)
            if (ready[i] != slow)
                ready[k++] = ready[i];
        n = k;
    }
    if (yield && n > 1) {
        int k = 0;
        for (int i = 0; i < n; i++)
            if (ready[i] != self)
                ready[k++] = ready[i];
        n = k;
    }
    return ready[rnd() % (uint64_t)n];
}

static void hand_over(int next)
{
    if (next == self)
        return;
    int me = self;
    switches++;
    gate_open(next);
    if (threads[me].state != DONE)
        gate_wait(me);
}

static void step(int yield, const char *why)
{
    if (!active || self < 0 || inside)
        return;
    if (++points > 400000)
        die(EXIT_LIVELOCK, "livelock");
    if (nthreads == 1)
        return;
    inside++;
    int next = choose(1, yield);
    if (next != self) {
        if (!yield)
            preempted++;
        note("t%d %s -> t%d", self, why, next);
    }
    hand_over(next);
    inside--;
}

static void block(void)
{
    inside++;
    if (++points > 400000)
        die(EXIT_LIVELOCK, "livelock");
    int next = choose(0, 0);
    if (next != self) {
        note("t%d waits -> t%d", self, next);
        hand_over(next);
    }
    inside--;
}

static void thread_over(void *p)
{
    (void)p;
    inside++;
    threads[self].state = DONE;
    for (int i = 0; i < nthreads; i++)
        if (threads[i].state == JOIN && threads[i].join == self)
            threads[i].state = READY;
    int next = choose(0, 0);
    note("t%d ends -> t%d", self, next);
    hand_over(next);
    self = -1;
}

static void *trampoline(void *p)
{
    struct thread *t = p;
    int id = (int)(t - threads);
    gate_wait(id);
    self = id;
    pthread_setspecific(key, t);
    return t->start(t->arg);
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static DIR *(*real_opendir)(const char *);
static struct dirent64 *(*real_readdir)(DIR *);
static int (*real_closedir)(DIR *);

int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*start)(void *), void *arg)
{
    if (!real_create)
        real_create = dlsym(RTLD_NEXT, "pthread_create");
    if (!active || self < 0 || nthreads >= MAXT)
        return real_create(out, attr, start, arg);
    inside++;
    int id = nthreads;
    struct thread *t = &threads[id];
    memset(t, 0, sizeof *t);
    t->start = start;
    t->arg = arg;
    t->prio = (1u << 21) + rnd() % (1u << 20);
    int r = real_create(out, attr, trampoline, t);
    if (r == 0) {
        t->handle = *out;
        t->state = READY;
        nthreads++;
        note("t%d starts t%d", self, id);
    }
    inside--;
    step(0, "spawn");
    return r;
}

int pthread_join(pthread_t h, void **res)
{
    if (!real_join)
        real_join = dlsym(RTLD_NEXT, "pthread_join");
    if (active && self >= 0) {
        for (int i = 0; i < nthreads; i++)
            if (threads[i].state != UNUSED && pthread_equal(threads[i].handle, h) && threads[i].state != DONE) {
                threads[self].state = JOIN;
                threads[self].join = i;
                block();
                break;
            }
    }
    return real_join(h, res);
}

int sched_yield(void)
{
    step(1, "yields");
    return 0;
}

int sched_getaffinity(pid_t pid, size_t size, cpu_set_t *set)
{
    if (!active)
        return (int)ret(raw3(SYS_sched_getaffinity, pid, size, set)) < 0 ? -1 : 0;
    memset(set, 0, size);
    for (int i = 0; i < cpus; i++)
        CPU_SET_S(i, size, set);
    return 0;
}

static long futex(uint32_t *addr, int op, uint32_t val, void *timeout, uint32_t bits)
{
    int cmd = op & 127;
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        step(0, "futex");
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
            errno = EAGAIN;
            return -1;
        }
        if (spurious > 0 && rnd() % 16 == 0) {
            spurious--;
            note("fault spurious_wakeup t%d", self);
            if (rnd() % 2) {
                errno = EINTR;
                return -1;
            }
            return 0;
        }
        struct thread *t = &threads[self];
        t->state = FUTEX;
        t->addr = addr;
        t->bits = cmd == FUTEX_WAIT ? ~0u : bits;
        t->timed = timeout != NULL;
        t->woken = 0;
        block();
        if (!threads[self].woken) {
            errno = ETIMEDOUT;
            return -1;
        }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        uint32_t mask = cmd == FUTEX_WAKE ? ~0u : bits;
        uint32_t n = 0;
        while (n < val) {
            int w[MAXT], m = 0;
            for (int i = 0; i < nthreads; i++)
                if (threads[i].state == FUTEX && threads[i].addr == addr && (threads[i].bits & mask))
                    w[m++] = i;
            if (m == 0)
                break;
            int t = w[m == 1 || decisions >= limit ? 0 : rnd() % (uint64_t)m];
            threads[t].state = READY;
            threads[t].woken = 1;
            n++;
        }
        if (n > 0)
            step(0, "wakes");
        return n;
    }
    return ret(raw6(SYS_futex, (long)addr, op, val, (long)timeout, 0, bits));
}

long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++)
        a[i] = va_arg(ap, long);
    va_end(ap);
    if (active && self >= 0 && n == SYS_futex)
        return futex((uint32_t *)a[0], (int)a[1], (uint32_t)a[2], (void *)a[3], (uint32_t)a[5]);
    if (active && n == SYS_getrandom) {
        memset((void *)a[0], 0x5a, (size_t)a[1]);
        return a[1];
    }
    return ret(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

ssize_t getrandom(void *buf, size_t len, unsigned flags)
{
    if (active) {
        memset(buf, 0x5a, len);
        return (ssize_t)len;
    }
    return ret(raw3(SYS_getrandom, buf, len, flags));
}

// -------------------------------------------------------------------------------------------
// Allocations: only places to switch at.

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);

static void alloc_point(void)
{
    if (active && alloc_every > 0 && self >= 0 && !inside && nthreads > 1 && --alloc_next <= 0) {
        alloc_next = 1 + (long)(rnd() % (uint64_t)(2 * alloc_every));
        step(0, "alloc");
    }
}

void *malloc(size_t n)
{
    alloc_point();
    return __libc_malloc(n);
}

void *calloc(size_t n, size_t m)
{
    alloc_point();
    return __libc_calloc(n, m);
}

void *realloc(void *p, size_t n)
{
    alloc_point();
    return __libc_realloc(p, n);
}

// -------------------------------------------------------------------------------------------
// Files

static char fd_path[MAXFD][512];
static long fd_pos[MAXFD];

// Removes `.`, `..` and empty components. Absolute paths are not simulated.
static int normal(const char *dir, const char *path, char *out)
{
    if (path[0] == '/')
        return 0;
    char buf[1024];
    if (dir && dir[0])
        snprintf(buf, sizeof buf, "%s/%s", dir, path);
    else
        snprintf(buf, sizeof buf, "%s", path);
    char *parts[64];
    int n = 0;
    char *save = NULL;
    for (char *p = strtok_r(buf, "/", &save); p && n < 64; p = strtok_r(NULL, "/", &save)) {
        if (strcmp(p, ".") == 0)
            continue;
        if (strcmp(p, "..") == 0) {
            if (n > 0)
                n--;
            continue;
        }
        parts[n++] = p;
    }
    out[0] = 0;
    size_t len = 0;
    for (int i = 0; i < n; i++)
        len += (size_t)snprintf(out + len, 512 - len, "%s%s", i ? "/" : "", parts[i]);
    if (n == 0)
        strcpy(out, ".");
    return 1;
}

static struct rule *find(const char *path)
{
    for (int i = 0; i < nrules; i++)
        if (strcmp(rules[i].path, path) == 0)
            return &rules[i];
    return NULL;
}

static int at_dir(int dirfd, const char *path, char *out)
{
    if (dirfd == AT_FDCWD)
        return normal(NULL, path, out);
    if (dirfd >= 0 && dirfd < MAXFD && fd_path[dirfd][0])
        return normal(fd_path[dirfd], path, out);
    return 0;
}

static int do_open(int dirfd, const char *path, int flags, mode_t m)
{
    char p[512];
    if (!active || self < 0 || inside || !at_dir(dirfd, path, p))
        return (int)ret(raw6(SYS_openat, dirfd, (long)path, flags, m, 0, 0));
    step(0, "open");
    struct rule *r = find(p);
    if (r && r->open_eintr > 0) {
        r->open_eintr--;
        note("fault open_interrupted %s", p);
        errno = EINTR;
        return -1;
    }
    if (r && r->open_err) {
        note("fault open_error %s %d", p, r->open_err);
        errno = r->open_err;
        return -1;
    }
    int fd = (int)ret(raw6(SYS_openat, dirfd, (long)path, flags, m, 0, 0));
    if (fd >= 0 && fd < MAXFD) {
        strcpy(fd_path[fd], p);
        fd_pos[fd] = 0;
    }
    int e = errno;
    note("t%d open %s %s", self, p, fd < 0 ? "fails" : "ok");
    errno = e;
    return fd;
}

#define OPEN_BODY                                                                                                      \
    mode_t m = 0;                                                                                                      \
    if (flags & (O_CREAT | O_TMPFILE)) {                                                                               \
        va_list ap;                                                                                                    \
        va_start(ap, flags);                                                                                           \
        m = va_arg(ap, mode_t);                                                                                        \
        va_end(ap);                                                                                                    \
    }

int open64(const char *path, int flags, ...)
{
    OPEN_BODY
    return do_open(AT_FDCWD, path, flags, m);
}

int open(const char *path, int flags, ...)
{
    OPEN_BODY
    return do_open(AT_FDCWD, path, flags, m);
}

int openat64(int dirfd, const char *path, int flags, ...)
{
    OPEN_BODY
    return do_open(dirfd, path, flags, m);
}

int openat(int dirfd, const char *path, int flags, ...)
{
    OPEN_BODY
    return do_open(dirfd, path, flags, m);
}

int close(int fd)
{
    if (active && self >= 0 && !inside && fd >= 0 && fd < MAXFD && fd_path[fd][0]) {
        note("t%d close %s", self, fd_path[fd]);
        fd_path[fd][0] = 0;
        step(0, "close");
    }
    return (int)ret(raw3(SYS_close, fd, 0, 0));
}

static long next_op(struct ops *o)
{
    if (o->n == 0)
        return 1L << 30;
    long v = o->op[o->at % o->n];
    o->at++;
    return v;
}

ssize_t read(int fd, void *buf, size_t len)
{
    const char *p = NULL;
    if (active && self >= 0 && !inside) {
        if (fd == 0)
            p = "<stdin>";
        else if (fd > 2 && fd < MAXFD && fd_path[fd][0])
            p = fd_path[fd];
    }
    if (!p)
        return ret(raw3(SYS_read, fd, buf, len));
    step(0, "read");
    struct rule *r = find(p);
    if (r && len > 0) {
        if (r->fail_at >= 0 && fd_pos[fd] >= r->fail_at) {
            if (r->fail_err == 0) {
                note("fault early_eof %s at %ld", p, fd_pos[fd]);
                return 0;
            }
            note("fault read_error %s at %ld: %d", p, fd_pos[fd], r->fail_err);
            errno = r->fail_err;
            return -1;
        }
        long op = next_op(&r->ops);
        if (op < 0) {
            note("fault read_interrupted %s", p);
            errno = EINTR;
            return -1;
        }
        if (op == 0)
            op = 1;
        if (r->fail_at >= 0 && fd_pos[fd] + op > r->fail_at)
            op = r->fail_at - fd_pos[fd];
        if ((size_t)op < len)
            len = (size_t)op;
    }
    ssize_t n = ret(raw3(SYS_read, fd, buf, len));
    int e = errno;
    if (n > 0)
        fd_pos[fd] += n;
    note("t%d read %s %zd", self, p, n);
    errno = e;
    return n;
}

static ssize_t do_write(int fd, const void *buf, size_t len)
{
    if (!active || inside || self < 0 || fd < 1 || fd > 2)
        return ret(raw3(SYS_write, fd, buf, len));
    const char *p = fd == 1 ? "<stdout>" : "<stderr>";
    step(0, "write");
    struct rule *r = find(p);
    if (r && len > 0) {
        if (r->fail_at >= 0 && r->done >= r->fail_at) {
            int code = r->fail_err;
            if (r->fail_times > 0 && --r->fail_times == 0)
                r->fail_at = -1;
            if (code == 0) {
                note("fault %s_accepts_nothing at %ld", fd == 1 ? "stdout" : "stderr", r->done);
                return 0;
            }
            note("fault %s_error at %ld: %d", fd == 1 ? "stdout" : "stderr", r->done, code);
            errno = code;
            return -1;
        }
        long op = next_op(&r->ops);
        if (op < 0) {
            note("fault %s_interrupted", fd == 1 ? "stdout" : "stderr");
            errno = EINTR;
            return -1;
        }
        if (op == 0)
            op = 1;
        if (r->fail_at >= 0 && r->done + op > r->fail_at)
            op = r->fail_at - r->done;
        if ((size_t)op < len) {
            note("fault short_write %s %ld of %zu", p, op, len);
            len = (size_t)op;
        }
    }
    ssize_t n = ret(raw3(SYS_write, fd, buf, len));
    int e = errno;
    if (n > 0 && r)
        r->done += n;
    note("t%d write %s %zd", self, p, n);
    errno = e;
    return n;
}

ssize_t write(int fd, const void *buf, size_t len)
{
    return do_write(fd, buf, len);
}

ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (!active || fd < 1 || fd > 2)
        return ret(raw3(SYS_writev, fd, v, n));
    for (int i = 0; i < n; i++)
        if (v[i].iov_len > 0)
            return do_write(fd, v[i].iov_base, v[i].iov_len);
    return do_write(fd, "", 0);
}

// -------------------------------------------------------------------------------------------
// Metadata

static int stat_fault(int dirfd, const char *path)
{
    char p[512];
    if (!active || self < 0 || inside || !path || !path[0] || !at_dir(dirfd, path, p))
        return 0;
    step(0, "stat");
    struct rule *r = find(p);
    note("t%d stat %s", self, p);
    if (r && r->stat_err) {
        note("fault stat_error %s %d", p, r->stat_err);
        errno = r->stat_err;
        return 1;
    }
    return 0;
}

int statx(int dirfd, const char *restrict path, int flags, unsigned mask, struct statx *restrict buf)
{
    if (stat_fault(dirfd, path))
        return -1;
    return (int)ret(raw6(SYS_statx, dirfd, (long)path, flags, mask, (long)buf, 0));
}

int fstatat64(int dirfd, const char *restrict path, struct stat64 *restrict buf, int flags)
{
    if (stat_fault(dirfd, path))
        return -1;
    return (int)ret(raw6(SYS_newfstatat, dirfd, (long)path, (long)buf, flags, 0, 0));
}

int stat64(const char *restrict path, struct stat64 *restrict buf)
{
    return fstatat64(AT_FDCWD, path, buf, 0);
}

int lstat64(const char *restrict path, struct stat64 *restrict buf)
{
    return fstatat64(AT_FDCWD, path, buf, AT_SYMLINK_NOFOLLOW);
}

// -------------------------------------------------------------------------------------------
// Directories

struct listing {
    DIR *d;
    char path[512];
    struct dirent64 **e;
    int n, at, failed;
};
static struct listing dirs[MAXDIR];

DIR *opendir(const char *path)
{
    char p[512];
    if (!active || self < 0 || inside || !normal(NULL, path, p))
        return real_opendir(path);
    step(0, "opendir");
    struct rule *r = find(p);
    if (r && r->opendir_err) {
        note("fault opendir_error %s %d", p, r->opendir_err);
        errno = r->opendir_err;
        return NULL;
    }
    inside++;
    DIR *d = real_opendir(path);
    int e = errno;
    if (d) {
        for (int i = 0; i < MAXDIR; i++)
            if (!dirs[i].d) {
                struct listing *l = &dirs[i];
                memset(l, 0, sizeof *l);
                l->d = d;
                strcpy(l->path, p);
                l->e = calloc(256, sizeof *l->e);
                struct dirent64 *ent;
                while (l->n < 256 && (ent = real_readdir(d))) {
                    l->e[l->n] = malloc(sizeof *ent);
                    memcpy(l->e[l->n], ent, ent->d_reclen);
                    if (r && r->unknown_type)
                        l->e[l->n]->d_type = DT_UNKNOWN;
                    l->n++;
                }
                // The order of the file system is replaced.
                for (int a = 1; a < l->n; a++)
                    for (int b = a; b > 0 && strcmp(l->e[b - 1]->d_name, l->e[b]->d_name) > 0; b--) {
                        struct dirent64 *t = l->e[b];
                        l->e[b] = l->e[b - 1];
                        l->e[b - 1] = t;
                    }
                uint64_t s = r ? r->shuffle : 0;
                if (s)
                    for (int a = l->n - 1; a > 0; a--) {
                        int b = (int)(shuffled(&s) % (uint64_t)(a + 1));
                        struct dirent64 *t = l->e[a];
                        l->e[a] = l->e[b];
                        l->e[b] = t;
                    }
                break;
            }
        int fd = dirfd(d);
        if (fd >= 0 && fd < MAXFD)
            strcpy(fd_path[fd], p);
    }
    inside--;
    note("t%d opendir %s %s", self, p, d ? "ok" : "fails");
    errno = e;
    return d;
}

struct dirent64 *readdir64(DIR *d)
{
    struct listing *l = NULL;
    for (int i = 0; i < MAXDIR; i++)
        if (dirs[i].d == d)
            l = &dirs[i];
    if (!l)
        return real_readdir(d);
    step(0, "readdir");
    struct rule *r = find(l->path);
    if (r && r->readdir_fail >= 0 && l->at >= r->readdir_fail) {
        note("fault readdir_error %s after %d: %d", l->path, l->at, r->readdir_err);
        errno = r->readdir_err;
        return NULL;
    }
    if (l->at >= l->n)
        return NULL; // errno unchanged
    note("t%d entry %s/%s", self, l->path, l->e[l->at]->d_name);
    return l->e[l->at++];
}

int closedir(DIR *d)
{
    int fd = dirfd(d);
    for (int i = 0; i < MAXDIR; i++)
        if (dirs[i].d == d) {
            note("t%d closedir %s", self, dirs[i].path);
            dirs[i].d = NULL;
        }
    if (fd >= 0 && fd < MAXFD)
        fd_path[fd][0] = 0;
    step(0, "closedir");
    inside++;
    int r = real_closedir(d);
    inside--;
    return r;
}

// -------------------------------------------------------------------------------------------
// Start and end

static void parse_plan(char *text)
{
    struct rule *r = NULL;
    char *save = NULL;
    for (char *line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
        char w[32];
        int used = 0;
        if (sscanf(line, "%31s %n", w, &used) < 1)
            continue;
        char *rest = line + used;
        if (strcmp(w, "sched") == 0) {
            sscanf(rest, "%d %lu %d %ld %ld %d %d", &mode, &rng, &patience, &limit, &alloc_every, &spurious, &cpus);
        } else if (strcmp(w, "pct") == 0) {
            for (char *e; *rest && npct < 8; rest = e) {
                pct_at[npct] = strtol(rest, &e, 10);
                if (e == rest)
                    break;
                npct++;
            }
        } else if (strcmp(w, "path") == 0) {
            if (nrules >= MAXRULE)
                die(EXIT_PLAN, "plan");
            r = &rules[nrules++];
            snprintf(r->path, sizeof r->path, "%s", rest);
            r->readdir_fail = -1;
            r->fail_at = -1;
        } else if (!r) {
            die(EXIT_PLAN, "plan");
        } else if (strcmp(w, "open") == 0) {
            sscanf(rest, "%d %d", &r->open_err, &r->open_eintr);
        } else if (strcmp(w, "stat") == 0) {
            sscanf(rest, "%d", &r->stat_err);
        } else if (strcmp(w, "opendir") == 0) {
            sscanf(rest, "%d", &r->opendir_err);
        } else if (strcmp(w, "readdir") == 0) {
            sscanf(rest, "%ld %d", &r->readdir_fail, &r->readdir_err);
        } else if (strcmp(w, "shuffle") == 0) {
            sscanf(rest, "%lu %d", &r->shuffle, &r->unknown_type);
        } else if (strcmp(w, "fail") == 0) {
            sscanf(rest, "%ld %d %d", &r->fail_at, &r->fail_err, &r->fail_times);
        } else if (strcmp(w, "ops") == 0) {
            for (char *e; *rest && r->ops.n < MAXOPS; rest = e) {
                long v = strtol(rest, &e, 10);
                if (e == rest)
                    break;
                r->ops.op[r->ops.n++] = v;
            }
        } else {
            die(EXIT_PLAN, "plan");
        }
    }
}

__attribute__((constructor)) static void begin(void)
{
    real_opendir = dlsym(RTLD_NEXT, "opendir");
    real_readdir = dlsym(RTLD_NEXT, "readdir64");
    real_closedir = dlsym(RTLD_NEXT, "closedir");
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    const char *plan = getenv("SIM_PLAN"), *log = getenv("SIM_LOG");
    if (!plan || !log)
        return;
    int lfd = atoi(log), pfd = atoi(plan);
    log_mem = mmap(NULL, LOGSIZE, PROT_READ | PROT_WRITE, MAP_SHARED, lfd, 0);
    if (log_mem == MAP_FAILED) {
        log_mem = NULL;
        die(EXIT_PLAN, "plan");
    }
    static char text[1 << 16];
    size_t len = 0;
    long n;
    while (len < sizeof text - 1 && (n = raw3(SYS_read, pfd, text + len, sizeof text - 1 - len)) > 0)
        len += (size_t)n;
    text[len] = 0;
    raw3(SYS_close, lfd, 0, 0);
    raw3(SYS_close, pfd, 0, 0);
    patience = 1;
    cpus = 1;
    parse_plan(text);
    alloc_next = alloc_every > 0 ? 1 + (long)(rnd() % (uint64_t)(2 * alloc_every)) : 0;
    pthread_key_create(&key, thread_over);
    self = 0;
    nthreads = 1;
    threads[0].state = READY;
    threads[0].handle = pthread_self();
    threads[0].prio = (1u << 21) + rnd() % (1u << 20);
    alarm(20);
    active = 1;
}

__attribute__((destructor)) static void finish(void)
{
    if (active) {
        note("end exit points %ld decisions %ld switches %ld preempted %ld", points, decisions, switches, preempted);
        active = 0;
    }
}
