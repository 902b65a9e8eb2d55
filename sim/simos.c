// simos: a simulated operating system inside one process family.
//
// LD_PRELOADed into an unmodified binary.  __libc_start_main is intercepted; the process becomes a
// fork server (request on fd 198, response on fd 199).  Every request describes a complete world
// (file tree, clock, seeds, environment quirks, fault rules) and one or more processes (argv, cwd,
// stdin).  Each simulated process is a forked child that runs the real main() on top of the
// in-memory file system below; all nondeterminism visible to it is decided by the request.
//
// No call that reaches the simulated layer is passed on to the real file system or network.
#define _GNU_SOURCE
#include <sys/auxv.h>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/vfs.h>
#include <sys/statvfs.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#undef stat
#undef lstat
#undef fstat
#undef fstatat

#define CTRL_IN 198
#define CTRL_OUT 199
#define ARENA_SIZE (1ull << 30)
#define MAXINO 4096
#define MAXPROC 8
#define MAXTASK 512
#define MAXFD 256
#define FDBASE 500
#define MAXRULE 256
#define MAXREC 60000
#define MAXSWITCH 20000
#define STRSIZE (4u << 20)
#define LOGSIZE (64u << 10)
#define MAXCONN 1024
#define MAXSCRIPT 128

enum { T_FREE = 0, T_DIR = 1, T_FILE = 2, T_LINK = 3 };

// operation kinds (bit numbers in rule masks); keep in step with sim/world.py
enum {
    K_OPEN, K_READ, K_WRITE, K_CLOSE, K_LSEEK, K_STAT, K_LSTAT, K_FSTAT, K_OPENDIR, K_READDIR, K_CLOSEDIR,
    K_REALPATH, K_READLINK, K_MKDIR, K_RENAME, K_UNLINK, K_RMDIR, K_FTRUNC, K_FSYNC, K_CHMOD, K_UTIME,
    K_CHDIR, K_GETCWD, K_ACCESS, K_LINK, K_SYMLINK, K_STATFS, K_SOCKET, K_CONNECT, K_SEND, K_RECV, K_GETADDRINFO,
    K_SPAWN, K_MALLOC, K_SHUTDOWN, K_LOCK, K_PTHREAD, K_MAX
};
// rule actions
enum { A_ERR = 1, A_SHORT = 2, A_CRASH_BEFORE = 3, A_CRASH_AFTER = 4, A_TORN = 5, A_CLOCK = 6 };

struct inode {
    uint8_t type, linked;
    uint32_t mode;
    int32_t parent;
    uint32_t nameoff, namelen;
    int64_t mtime;
    uint64_t dataoff, size, cap;
    uint32_t opens, reads;
    int32_t first_child, next_sib; // directory child list
};

struct vfd {
    uint8_t used, kind; // kind: 1 file, 2 dir, 3 socket, 4 eventfd, 5 epoll, 6 stdin, 7 stdout, 8 stderr
    int32_t ino;
    int32_t flags;
    uint64_t off;
    int32_t ref; // connection / eventfd slot
    uint64_t counter;
    uint8_t locked; // flock: 1 shared, 2 exclusive
};

struct rule {
    int32_t proc, opidx, skip, count, action, arg, isprefix, matched;
    int32_t fired;
    int64_t arg64;
    uint64_t kindmask;
    uint32_t pathoff, pathlen; // in arena strings
};

struct rec {
    uint8_t proc, kind;
    uint16_t flags; // 1 fault fired, 2 crashed here, 4 short
    uint32_t idx;
    int32_t ret;  // >=0 result, <0 -errno
    int32_t ino;
    int64_t arg;
    uint32_t s1, s2; // string offsets (0 = none)
    int32_t task;
    uint32_t gstep;
};

struct buf { uint64_t off, len, cap; };

struct proc {
    int32_t pid, alive, exited, status, crashed, opcap, deadlock;
    uint32_t nops, nmalloc;
    int32_t cwd;
    uint32_t vpid;
    struct buf in, out, err;
    uint64_t inpos;
    uint64_t rng;
    uint64_t heap_rng;
    struct vfd fds[MAXFD];
    int32_t argc;
    uint32_t argsoff; // strings area, consecutive NUL-terminated
};

enum { TS_FREE = 0, TS_RUN = 1, TS_BLOCK = 2, TS_DONE = 3 };
struct task {
    int32_t state, proc, word, timedout, waitkind; // waitkind: 1 futex, 2 join, 3 io/epoll, 4 sleep
    uint64_t key;
    int64_t deadline; // -1 none
    uint64_t pthread;
    int32_t detached;
};

struct conn {
    int32_t used, proc, refs, state; // 1 created 2 connecting 3 connected 4 failed 5 closed
    int32_t script, cscript;         // answer in progress, behaviour of the connection; -1 none
    int32_t err, cerr, mute, rx_eof, rx_rst, wrshut;
    uint32_t segi, rgen, wgen, nreq; // edge counters for epoll
    uint32_t ip; uint16_t port;
    int64_t t_connect, due, refill_at, room; // virtual times, -1 none
    uint64_t rxpos, reqpos;
    struct buf rx, tx;
};

struct seg { int64_t delay; int32_t kind; uint64_t off, len; }; // kind 0 data, 1 eof, 2 reset, 3 stall
struct script { int32_t kind, err, times, used, window, mute, nseg; uint32_t keyoff, keylen; int64_t delay, refill; uint64_t segoff; };

struct arena {
    uint64_t bump;
    int64_t clock, tick, gran, mono0;
    uint64_t readdir_seed, hash_seed, sched_seed;
    int nmount;
    uint32_t flags; // 1 unknown d_type, 2 scheduler on, 4 explicit schedule, 8 malloc yield points
    uint32_t max_read, max_write, eintr_every, op_cap, sched_prob, cov_gap, cov_hot, cov_hotseed, cov_stat;
    uint64_t nstatic;
    int64_t cov_left;
    uint8_t cov_hits[4096];
    int64_t capacity, used, malloc_fail_at;
    uint64_t heap_seed;
    uint32_t nvars, vars[16];
    int64_t ending;
    uint32_t rwcount;
    uint32_t ninodes, nprocs, nrules, nrec, rec_overflow, strtop, logtop, ntasks, nswitch, switchpos;
    uint32_t gstep;
    int32_t cur;      // current task
    uint64_t sched_rng;
    int32_t nscripts, nconn;
    uint32_t allow_net;
    uint32_t overflow;
    struct inode ino[MAXINO];
    struct proc procs[MAXPROC];
    struct task tasks[MAXTASK];
    struct rule rules[MAXRULE];
    struct rec recs[MAXREC];
    struct { uint32_t gstep; int32_t task; } switches[MAXSWITCH];
    struct { uint32_t gstep; int32_t task; } swrec[MAXSWITCH];
    uint32_t nswrec;
    struct conn conns[MAXCONN];
    struct script scripts[MAXSCRIPT];
    char str[STRSIZE];
    char log[LOGSIZE];
    char data[];
};

static struct arena *A;
static struct proc *P; // non-NULL in a simulated process
static int PI = -1;
static __thread int my_task = -1;
static __thread int in_shim;
static int sched_on;

// ---------------------------------------------------------------- raw system calls
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
static long raw_futex(int *addr, int op, int val) { return raw(SYS_futex, (long)addr, op, val, 0, 0, 0); }

static void vlog(const char *fmt, ...) {
    if (!A) return;
    char b[600];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    if (A->logtop + n < LOGSIZE) { memcpy(A->log + A->logtop, b, n); A->logtop += n; }
}

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static uint64_t rnd(uint64_t *s) { *s += 0x9e3779b97f4a7c15ull; return mix(*s); }

static void die_now(void) {
    if (P) P->crashed = 1;
    raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
static void sim_fatal(const char *what) {
    vlog("FATAL %s", what);
    A->overflow = 1;
    die_now();
}

static uint64_t arena_alloc(uint64_t n) {
    n = (n + 15) & ~15ull;
    if (sizeof(struct arena) + A->bump + n > ARENA_SIZE) { if (P) { P->opcap = 1; die_now(); } sim_fatal("arena full"); }
    uint64_t o = A->bump;
    A->bump += n;
    return o;
}
static uint32_t str_add(const char *s, size_t n) {
    if (A->strtop + n + 1 > STRSIZE) { A->rec_overflow = 1; return 0; }
    uint32_t o = A->strtop;
    memcpy(A->str + o, s, n);
    A->str[o + n] = 0;
    A->strtop += n + 1;
    return o;
}
static void buf_add(struct buf *b, const void *p, size_t n) {
    if (b->len + n > b->cap) {
        uint64_t nc = b->cap ? b->cap : 256;
        while (nc < b->len + n) nc *= 2;
        uint64_t o = arena_alloc(nc);
        memcpy(A->data + o, A->data + b->off, b->len);
        b->off = o;
        b->cap = nc;
    }
    memcpy(A->data + b->off + b->len, p, n);
    b->len += n;
}

// ---------------------------------------------------------------- scheduler
static int sched_pick(int me) {
    // returns the next task to run (me if it stays), or -1
    int runnable[MAXTASK], n = 0, me_ok = 0;
    for (uint32_t i = 0; i < A->ntasks; i++)
        if (A->tasks[i].state == TS_RUN) { runnable[n++] = i; if ((int)i == me) me_ok = 1; }
    if (n == 0) return -1;
    if (A->flags & 4) {
        if (A->switchpos < A->nswitch && A->switches[A->switchpos].gstep <= A->gstep) {
            int t = A->switches[A->switchpos].task;
            A->switchpos++;
            if (t >= 0 && t < (int)A->ntasks && A->tasks[t].state == TS_RUN) return t;
        }
        if (me_ok) return me;
        return runnable[0];
    }
    if (me_ok && (n == 1 || rnd(&A->sched_rng) % 1000 >= A->sched_prob)) return me;
    return runnable[rnd(&A->sched_rng) % n];
}
static void sched_handover(int next) {
    if (A->nswrec < MAXSWITCH) { A->swrec[A->nswrec].gstep = A->gstep; A->swrec[A->nswrec].task = next; A->nswrec++; }
    A->cur = next;
    __atomic_store_n(&A->tasks[next].word, 1, __ATOMIC_SEQ_CST);
    raw_futex(&A->tasks[next].word, FUTEX_WAKE, 1);
}
static void sched_wait_turn(int me) {
    for (;;) {
        int v = __atomic_load_n(&A->tasks[me].word, __ATOMIC_SEQ_CST);
        if (v) {
            A->tasks[me].word = 0;
            // a thread that ended still frees its own memory: let that finish first, so that addresses repeat too
            while (A->ending && raw(SYS_tgkill, raw(SYS_getpid, 0, 0, 0, 0, 0, 0), A->ending, 0, 0, 0, 0) == 0) raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
            A->ending = 0;
            return;
        }
        raw_futex(&A->tasks[me].word, FUTEX_WAIT, 0);
    }
}
static void net_poll_all(void);
static int64_t net_next_event(void);

// somebody must run next; time advances when everybody is blocked. me may be blocked itself.
static int sched_next_or_advance(int me) {
    for (;;) {
        int n = sched_pick(me);
        if (n >= 0) return n;
        int64_t best = INT64_MAX;
        int bi = -1;
        for (uint32_t i = 0; i < A->ntasks; i++)
            if (A->tasks[i].state == TS_BLOCK && A->tasks[i].deadline >= 0 && A->tasks[i].deadline < best) { best = A->tasks[i].deadline; bi = i; }
        int64_t ne = net_next_event();
        if (ne >= 0 && ne < best) {
            if (ne > A->clock) A->clock = ne;
            net_poll_all();
            continue;
        }
        if (bi < 0) return -1;
        if (best > A->clock) A->clock = best;
        A->tasks[bi].state = TS_RUN;
        A->tasks[bi].timedout = 1;
    }
}
static void sched_yield_point(void) {
    if (!sched_on || my_task < 0 || in_shim) return;
    A->gstep++;
    if (A->nconn) net_poll_all();
    int n = sched_pick(my_task);
    if (n >= 0 && n != my_task) { sched_handover(n); sched_wait_turn(my_task); }
}
static uint64_t exe_base(void) {
    static uint64_t b;
    if (!b) b = getauxval(AT_PHDR) & ~4095ull;
    return b;
}
// called at every edge of the instrumented compiler code (see bin/build)
void __sanitizer_cov_trace_pc(void) {
    if (!sched_on || my_task < 0 || in_shim || !A->cov_gap || A->flags & 4) return;
    // places in the code, chosen by a seed, where switches are likely
    int hot = 0;
    if (A->cov_hot) {
        uint64_t h = ((uint64_t)__builtin_return_address(0) - exe_base()) * 0x9E3779B97F4A7C15ull + A->cov_hotseed * 0xD6E8FEB86659FD93ull;
        h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 29;
        if (h % A->cov_hot == 0) {
            uint8_t *k = &A->cov_hits[(h >> 20) & 4095];
            if (*k < 255) ++*k;
            hot = rnd(&A->sched_rng) % (*k < 40 ? 2 : *k < 255 ? 16 : 200) == 0;
        }
    }
    if (!hot) {
        if (--A->cov_left > 0) return;
        A->cov_left = 1 + rnd(&A->sched_rng) % (2 * (uint64_t)A->cov_gap);
    }
    int others[MAXTASK], n = 0;
    for (uint32_t i = 0; i < A->ntasks; i++)
        if (A->tasks[i].state == TS_RUN && (int)i != my_task) others[n++] = i;
    A->gstep++;
    if (!n) return;
    sched_handover(others[rnd(&A->sched_rng) % n]);
    sched_wait_turn(my_task);
}
// called at every load and store of the instrumented compiler code: where it touches a static variable, the one thing
// that threads with contexts of their own can share, a switch is likely
static uintptr_t data_lo, data_len;
static void data_range(void) {
    if (!A->cov_stat) return;
    const ElfW(Phdr) *ph = (const void *)getauxval(AT_PHDR);
    uintptr_t base = exe_base(), lo = 0, hi = 0;
    for (unsigned long i = 0, n = getauxval(AT_PHNUM); i < n; i++)
        if (ph[i].p_type == PT_LOAD && ph[i].p_flags & PF_W) { lo = base + ph[i].p_vaddr; hi = lo + ph[i].p_memsz; }
    for (unsigned long i = 0, n = getauxval(AT_PHNUM); i < n; i++)
        if (ph[i].p_type == PT_GNU_RELRO && base + ph[i].p_vaddr + ph[i].p_memsz > lo && base + ph[i].p_vaddr <= lo) lo = base + ph[i].p_vaddr + ph[i].p_memsz;
    data_lo = lo; data_len = hi - lo;
}
static __attribute__((noinline)) void static_access(void) {
    if (!sched_on || my_task < 0 || in_shim || A->flags & 4) return;
    A->nstatic++;
    if (rnd(&A->sched_rng) % A->cov_stat) return;
    int others[MAXTASK], n = 0;
    for (uint32_t i = 0; i < A->ntasks; i++)
        if (A->tasks[i].state == TS_RUN && (int)i != my_task) others[n++] = i;
    A->gstep++;
    if (!n) return;
    sched_handover(others[rnd(&A->sched_rng) % n]);
    sched_wait_turn(my_task);
}
#define ACCESS(f) void f(void *a) { if ((uintptr_t)a - data_lo < data_len) static_access(); }
ACCESS(__sanitizer_cov_load1) ACCESS(__sanitizer_cov_load2) ACCESS(__sanitizer_cov_load4) ACCESS(__sanitizer_cov_load8) ACCESS(__sanitizer_cov_load16)
ACCESS(__sanitizer_cov_store1) ACCESS(__sanitizer_cov_store2) ACCESS(__sanitizer_cov_store4) ACCESS(__sanitizer_cov_store8) ACCESS(__sanitizer_cov_store16)

// block the calling task; returns 1 on timeout
static int sched_block(int kind, uint64_t key, int64_t deadline) {
    struct task *t = &A->tasks[my_task];
    t->state = TS_BLOCK;
    t->waitkind = kind;
    t->key = key;
    t->deadline = deadline;
    t->timedout = 0;
    A->gstep++;
    int n = sched_next_or_advance(my_task);
    if (n < 0) { vlog("DEADLOCK task %d kind %d", my_task, kind); P->deadlock = 1; die_now(); }
    if (n != my_task) { sched_handover(n); sched_wait_turn(my_task); }
    return t->timedout;
}
static void sched_exit_task(int me) {
    A->tasks[me].state = TS_DONE;
    for (uint32_t i = 0; i < A->ntasks; i++)
        if (A->tasks[i].state == TS_BLOCK && A->tasks[i].waitkind == 2 && A->tasks[i].key == (uint64_t)me) A->tasks[i].state = TS_RUN;
    A->gstep++;
    int n = sched_next_or_advance(me);
    if (n < 0) {
        // deadlock only if somebody is still blocked
        for (uint32_t i = 0; i < A->ntasks; i++)
            if (A->tasks[i].state == TS_BLOCK) { vlog("DEADLOCK after exit of task %d", me); A->procs[A->tasks[i].proc].deadlock = 1; if (P) die_now(); return; }
        return;
    }
    A->ending = A->tasks[me].proc == A->tasks[n].proc ? raw(SYS_gettid, 0, 0, 0, 0, 0, 0) : 0;
    sched_handover(n);
}

// ---------------------------------------------------------------- operations and faults
struct op {
    int kind, err, crash_after, faulted;
    int64_t limit; // -1 none
    struct rec *r;
};

static int bump_clock(void) { A->clock += A->tick; return 0; }

static int path_match(struct rule *r, const char *path) {
    if (r->pathlen == 0) return 1;
    if (!path) return 0;
    const char *rp = A->str + r->pathoff;
    if (r->isprefix) return strncmp(path, rp, r->pathlen) == 0;
    return strcmp(path, rp) == 0;
}

// path: absolute simulated path the operation acts on (may be NULL for stdio)
static void op_begin(struct op *o, int kind, const char *path, const char *path2, int ino, int64_t arg) {
    o->kind = kind; o->err = 0; o->crash_after = 0; o->limit = -1; o->faulted = 0; o->r = NULL;
    sched_yield_point();
    in_shim++;
    bump_clock();
    uint32_t idx = P->nops++;
    if (A->nrec < MAXREC) {
        o->r = &A->recs[A->nrec++];
        o->r->proc = PI; o->r->kind = kind; o->r->flags = 0; o->r->idx = idx; o->r->ret = 0; o->r->ino = ino;
        o->r->arg = arg; o->r->s1 = path ? str_add(path, strlen(path)) : 0; o->r->s2 = path2 ? str_add(path2, strlen(path2)) : 0;
        o->r->task = my_task; o->r->gstep = A->gstep;
    } else A->rec_overflow = 1;
    if (P->nops > A->op_cap) { P->opcap = 1; if (o->r) o->r->flags |= 2; die_now(); }
    for (uint32_t i = 0; i < A->nrules; i++) {
        struct rule *r = &A->rules[i];
        if (r->proc >= 0 && r->proc != PI) continue;
        if (r->opidx >= 0 && (uint32_t)r->opidx != idx) continue;
        if (!(r->kindmask >> kind & 1)) continue;
        if (!path_match(r, path) && !(path2 && r->pathlen && path_match(r, path2))) continue;
        if (r->matched++ < r->skip) continue;
        if (r->count >= 0 && r->fired >= r->count) continue;
        r->fired++;
        o->faulted = 1;
        if (o->r) o->r->flags |= 1;
        switch (r->action) {
            case A_ERR: o->err = r->arg; break;
            case A_SHORT: o->limit = r->arg; break;
            case A_CRASH_BEFORE: if (o->r) { o->r->flags |= 2; o->r->ret = -EINTR; } die_now(); break;
            case A_CRASH_AFTER: o->crash_after = 1; break;
            case A_TORN: o->limit = r->arg; o->crash_after = 1; break;
            case A_CLOCK: A->clock += r->arg64; break;
        }
        if (o->err) break;
    }
    if (!o->err && (kind == K_READ || kind == K_WRITE || kind == K_OPEN) && A->eintr_every) {
        A->rwcount++;
        if (A->rwcount % A->eintr_every == 0) { o->err = EINTR; if (o->r) o->r->flags |= 1; o->faulted = 1; }
    }
}
static void op_crash_check(struct op *o) {
    if (o->crash_after) { if (o->r) o->r->flags |= 2; die_now(); }
}
static long op_end(struct op *o, long ret, int err) {
    if (o->r) o->r->ret = err ? -err : (ret > INT32_MAX ? INT32_MAX : (int32_t)ret);
    op_crash_check(o);
    in_shim--;
    if (err) { errno = err; return -1; }
    return ret;
}
#define FAULT(o) if ((o).err) return op_end(&(o), -1, (o).err)

// ---------------------------------------------------------------- file tree
static const char *ino_name(int i) { return A->str + A->ino[i].nameoff; }

static int new_inode(int type, uint32_t mode) {
    if (A->ninodes >= MAXINO) sim_fatal("inodes full");
    int i = A->ninodes++;
    struct inode *n = &A->ino[i];
    memset(n, 0, sizeof *n);
    n->type = type; n->mode = mode; n->parent = -1; n->first_child = -1; n->next_sib = -1;
    n->mtime = A->clock / A->gran * A->gran;
    return i;
}
static void link_inode(int i, int parent, const char *name, size_t len) {
    struct inode *n = &A->ino[i];
    n->parent = parent; n->nameoff = str_add(name, len); n->namelen = len; n->linked = 1;
    // append at the end of the child list: creation order
    int *p = &A->ino[parent].first_child;
    while (*p >= 0) p = &A->ino[*p].next_sib;
    *p = i;
    n->next_sib = -1;
}
static void unlink_inode(int i) {
    struct inode *n = &A->ino[i];
    if (!n->linked) return;
    int *p = &A->ino[n->parent].first_child;
    while (*p >= 0 && *p != i) p = &A->ino[*p].next_sib;
    if (*p == i) *p = n->next_sib;
    n->next_sib = -1;
    n->linked = 0;
    if (n->type == T_FILE) A->used -= n->size;
}
static int child(int dir, const char *name, size_t len) {
    for (int c = A->ino[dir].first_child; c >= 0; c = A->ino[c].next_sib)
        if (A->ino[c].namelen == len && memcmp(ino_name(c), name, len) == 0) return c;
    return -1;
}
static void touch(int i) { A->ino[i].mtime = A->clock / A->gran * A->gran; }

static void abs_path(int i, char *out, size_t cap) {
    int chain[128], n = 0;
    while (i > 0 && n < 128) { chain[n++] = i; i = A->ino[i].parent; }
    size_t l = 0;
    if (n == 0) { strcpy(out, "/"); return; }
    while (n-- > 0) {
        struct inode *x = &A->ino[chain[n]];
        if (l + x->namelen + 2 > cap) break;
        out[l++] = '/';
        memcpy(out + l, ino_name(chain[n]), x->namelen);
        l += x->namelen;
    }
    out[l] = 0;
}

// resolve; on success returns inode >= 0.  If the last component is missing and want_parent != NULL,
// returns -ENOENT with *parent set and name filled.
static int walk(int start, const char *path, int follow, int *parent, char *name, int depth) {
    if (parent) *parent = -1;
    if (!*path) return -ENOENT;
    if (strlen(path) >= PATH_MAX) return -ENAMETOOLONG;
    if (depth > 40) return -ELOOP;
    int cur = *path == '/' ? 0 : start;
    const char *p = path;
    for (;;) {
        while (*p == '/') p++;
        if (!*p) return cur;
        const char *e = strchrnul(p, '/');
        size_t len = e - p;
        if (len > 255) return -ENAMETOOLONG;
        const char *rest = e;
        while (*rest == '/') rest++;
        int last = !*rest;
        int trailing = last && *e == '/';
        if (A->ino[cur].type != T_DIR) return -ENOTDIR;
        if (!A->ino[cur].linked && cur != 0) return -ENOENT;
        if (len == 1 && p[0] == '.') { p = e; continue; }
        if (len == 2 && p[0] == '.' && p[1] == '.') { if (cur > 0) cur = A->ino[cur].parent; p = e; continue; }
        int c = child(cur, p, len);
        if (c < 0) {
            if (last && parent) { *parent = cur; memcpy(name, p, len); name[len] = 0; if (trailing) strcat(name, "/"); }
            return -ENOENT;
        }
        if (A->ino[c].type == T_LINK && (!last || follow || trailing)) {
            char target[PATH_MAX];
            size_t tl = A->ino[c].size;
            if (tl >= sizeof target) return -ENAMETOOLONG;
            memcpy(target, A->data + A->ino[c].dataoff, tl);
            target[tl] = 0;
            int pp; char nn[300];
            int t = walk(cur, target, 1, last ? &pp : NULL, nn, depth + 1);
            if (t < 0) {
                if (last && parent && t == -ENOENT && pp >= 0) { *parent = pp; strcpy(name, nn); }
                return t;
            }
            c = t;
        }
        if (!last || trailing) if (A->ino[c].type != T_DIR) return -ENOTDIR;
        cur = c;
        p = e;
    }
}
static int lookup(const char *path, int follow) { return walk(P->cwd, path, follow, NULL, NULL, 0); }

// absolute path an operation acts on, for the trace and for rule matching: canonical as far as it exists
static void lex_path(int base, const char *path, char *out, int follow) {
    int parent; char name[300];
    int i = walk(base, path, follow, &parent, name, 0);
    if (i >= 0) { abs_path(i, out, PATH_MAX); return; }
    if (parent >= 0) {
        abs_path(parent, out, PATH_MAX - 300);
        if (strcmp(out, "/")) strcat(out, "/");
        strcat(out, name);
        return;
    }
    char tmp[2 * PATH_MAX];
    if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
    else { abs_path(base, tmp, PATH_MAX); size_t l = strlen(tmp); snprintf(tmp + l, sizeof tmp - l, "/%s", path); }
    size_t l = 0;
    char *p = tmp;
    while (*p) {
        while (*p == '/') p++;
        if (!*p) break;
        char *e = strchrnul(p, '/');
        size_t n = e - p;
        if (n == 1 && *p == '.') {}
        else if (n == 2 && p[0] == '.' && p[1] == '.') { while (l > 0 && out[--l] != '/') {} }
        else if (l + n + 2 < PATH_MAX) { out[l++] = '/'; memcpy(out + l, p, n); l += n; }
        p = e;
    }
    if (l == 0) out[l++] = '/';
    out[l] = 0;
}

static int new_fd(int kind, int ino, int flags) {
    for (int i = 0; i < MAXFD; i++)
        if (!P->fds[i].used) {
            memset(&P->fds[i], 0, sizeof P->fds[i]);
            P->fds[i].used = 1; P->fds[i].kind = kind; P->fds[i].ino = ino; P->fds[i].flags = flags; P->fds[i].ref = -1; P->fds[i].locked = 0;
            return FDBASE + i;
        }
    return -1;
}
static struct vfd stdfd[3];
static struct vfd *getfd(int fd) {
    if (fd >= 0 && fd <= 2) return &stdfd[fd];
    if (fd >= FDBASE && fd < FDBASE + MAXFD && P->fds[fd - FDBASE].used) return &P->fds[fd - FDBASE];
    return NULL;
}
static int base_of(int dirfd) {
    if (dirfd == AT_FDCWD) return P->cwd;
    struct vfd *f = getfd(dirfd);
    if (f && f->kind == 2) return f->ino;
    return -1;
}

static void file_reserve(int i, uint64_t size) {
    struct inode *n = &A->ino[i];
    if (size <= n->cap) return;
    uint64_t nc = n->cap ? n->cap : 256;
    while (nc < size) nc *= 2;
    uint64_t o = arena_alloc(nc);
    memcpy(A->data + o, A->data + n->dataoff, n->size);
    n->dataoff = o;
    n->cap = nc;
}
static void file_truncate(int i, uint64_t size) {
    struct inode *n = &A->ino[i];
    if (size > n->size) { file_reserve(i, size); memset(A->data + n->dataoff + n->size, 0, size - n->size); }
    if (n->linked) A->used += (int64_t)size - (int64_t)n->size;
    n->size = size;
    touch(i);
}

#define ON (P != NULL)
#define REAL(ret, name, args) \
    static ret(*real_##name) args; \
    if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

// ---------------------------------------------------------------- open/close/read/write
static int do_open(int base, const char *path, int flags, mode_t mode) {
    char lp[PATH_MAX];
    if (base < 0) { errno = EBADF; return -1; }
    lex_path(base, path, lp, !(flags & O_NOFOLLOW));
    struct op o;
    op_begin(&o, K_OPEN, lp, NULL, -1, flags);
    FAULT(o);
    int parent; char name[300];
    int excl = (flags & O_CREAT) && (flags & O_EXCL);
    int i = walk(base, path, !(flags & O_NOFOLLOW) && !excl, &parent, name, 0);
    int acc = flags & O_ACCMODE;
    int created = 0;
    if (i < 0) {
        if (!(i == -ENOENT && (flags & O_CREAT) && parent >= 0)) return op_end(&o, -1, -i);
        if (strchr(name, '/')) return op_end(&o, -1, EISDIR);
        if (A->capacity >= 0 && A->used + 0 >= A->capacity) return op_end(&o, -1, ENOSPC);
        i = new_inode(T_FILE, S_IFREG | (mode & 0777 & ~022));
        link_inode(i, parent, name, strlen(name));
        touch(parent);
        created = 1;
    } else if (excl) return op_end(&o, -1, EEXIST);
    struct inode *n = &A->ino[i];
    if (n->type == T_LINK) return op_end(&o, -1, ELOOP);
    if (n->type == T_DIR && (acc != O_RDONLY || (flags & O_CREAT))) return op_end(&o, -1, EISDIR);
    if (n->type != T_DIR && (flags & O_DIRECTORY)) return op_end(&o, -1, ENOTDIR);
    if (acc != O_WRONLY) n->opens++;
    if ((flags & O_TRUNC) && acc != O_RDONLY && n->type == T_FILE) { if (n->size || !created) file_truncate(i, 0); }
    int fd = new_fd(n->type == T_DIR ? 2 : 1, i, flags);
    if (fd < 0) return op_end(&o, -1, EMFILE);
    if (o.r) { o.r->ino = i; o.r->s2 = 0; if (created) o.r->flags |= 8; }
    return op_end(&o, fd, 0);
}

#define GETMODE(fl) mode_t mode = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap); }
int open64(const char *path, int flags, ...) {
    GETMODE(flags);
    if (!ON) { REAL(int, open64, (const char *, int, ...)); return real_open64(path, flags, mode); }
    return do_open(P->cwd, path, flags, mode);
}
int open(const char *path, int flags, ...) {
    GETMODE(flags);
    if (!ON) { REAL(int, open, (const char *, int, ...)); return real_open(path, flags, mode); }
    return do_open(P->cwd, path, flags, mode);
}
int openat64(int dfd, const char *path, int flags, ...) {
    GETMODE(flags);
    if (!ON) { REAL(int, openat64, (int, const char *, int, ...)); return real_openat64(dfd, path, flags, mode); }
    return do_open(base_of(dfd), path, flags, mode);
}
int openat(int dfd, const char *path, int flags, ...) {
    GETMODE(flags);
    if (!ON) { REAL(int, openat, (int, const char *, int, ...)); return real_openat(dfd, path, flags, mode); }
    return do_open(base_of(dfd), path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char *path, mode_t mode) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
FILE *fopen(const char *path, const char *m) {
    if (!ON) { REAL(FILE *, fopen, (const char *, const char *)); return real_fopen(path, m); }
    vlog("fopen %s", path);
    errno = ENOENT;
    return NULL;
}
FILE *fopen64(const char *path, const char *m) {
    if (!ON) { REAL(FILE *, fopen64, (const char *, const char *)); return real_fopen64(path, m); }
    vlog("fopen64 %s", path);
    errno = ENOENT;
    return NULL;
}

static void fd_path(struct vfd *f, char *out) {
    out[0] = 0;
    if (f->kind == 1 || f->kind == 2) abs_path(f->ino, out, PATH_MAX);
    else if (f->kind == 6) strcpy(out, "<stdin>");
    else if (f->kind == 7) strcpy(out, "<stdout>");
    else if (f->kind == 8) strcpy(out, "<stderr>");
    else strcpy(out, "<sock>");
}

static int sock_close(struct vfd *f);
static void sock_dup(struct vfd *f);
static void flock_wake(int ino) {
    for (uint32_t i = 0; i < A->ntasks; i++)
        if (A->tasks[i].state == TS_BLOCK && A->tasks[i].waitkind == 5 && (ino < 0 || A->tasks[i].key == (uint64_t)ino)) A->tasks[i].state = TS_RUN;
}
static int flock_conflict(struct vfd *me, int want) {
    for (uint32_t i = 0; i < A->nprocs; i++) {
        if ((int)i != PI && !A->procs[i].alive) continue;
        for (int k = 0; k < MAXFD; k++) {
            struct vfd *f = &A->procs[i].fds[k];
            if (f != me && f->used && f->kind == 1 && f->ino == me->ino && f->locked && (want == 2 || f->locked == 2)) return 1;
        }
    }
    return 0;
}
int close(int fd) {
    if (!ON) { REAL(int, close, (int)); return real_close(fd); }
    struct vfd *f = getfd(fd);
    if (!f || fd <= 2) { vlog("close of foreign fd %d", fd); errno = EBADF; return -1; }
    if (f->kind >= 3) { sock_close(f); f->used = 0; return 0; }
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_CLOSE, lp, NULL, f->ino, f->flags);
    if (f->locked) { f->locked = 0; flock_wake(f->ino); }
    f->used = 0; // as on Linux, the descriptor is gone even if close reports an error
    FAULT(o);
    return op_end(&o, 0, 0);
}

static ssize_t sock_recv(struct vfd *f, void *buf, size_t n, int flags);
static ssize_t sock_send(struct vfd *f, const void *buf, size_t n);
static ssize_t ev_read(struct vfd *f, void *buf, size_t n);
static ssize_t ev_write(struct vfd *f, const void *buf, size_t n);

static ssize_t do_read(struct vfd *f, void *buf, size_t n, int64_t at) {
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_READ, lp, NULL, f->ino, n);
    FAULT(o);
    uint64_t size, pos;
    char *src;
    if (f->kind == 1) {
        if ((f->flags & O_ACCMODE) == O_WRONLY) return op_end(&o, -1, EBADF);
        struct inode *x = &A->ino[f->ino];
        size = x->size; pos = at >= 0 ? (uint64_t)at : f->off; src = A->data + x->dataoff;
        x->reads++;
    } else if (f->kind == 6) { size = P->in.len; pos = P->inpos; src = A->data + P->in.off; }
    else return op_end(&o, -1, f->kind == 2 ? EISDIR : EBADF);
    uint64_t avail = pos < size ? size - pos : 0;
    uint64_t k = n < avail ? n : avail;
    if (A->max_read && k > A->max_read) k = A->max_read;
    if (o.limit >= 0 && k > (uint64_t)o.limit) k = o.limit > 0 ? o.limit : 1;
    memcpy(buf, src + pos, k);
    if (f->kind == 6) P->inpos += k;
    else if (at < 0) f->off += k;
    return op_end(&o, k, 0);
}
static ssize_t do_write(struct vfd *f, const void *buf, size_t n, int64_t at) {
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_WRITE, lp, NULL, f->ino, n);
    FAULT(o);
    uint64_t k = n;
    if (A->max_write && k > A->max_write) k = A->max_write;
    if (o.limit >= 0 && k > (uint64_t)o.limit) { k = o.limit; if (o.r) o.r->flags |= 4; }
    if (f->kind == 7) { buf_add(&P->out, buf, k); return op_end(&o, k, 0); }
    if (f->kind == 8) { buf_add(&P->err, buf, k); return op_end(&o, k, 0); }
    if (f->kind != 1 || (f->flags & O_ACCMODE) == O_RDONLY) return op_end(&o, -1, EBADF);
    struct inode *x = &A->ino[f->ino];
    uint64_t pos = at >= 0 ? (uint64_t)at : (f->flags & O_APPEND) ? x->size : f->off;
    if (pos > x->size) file_truncate(f->ino, pos);
    if (A->capacity >= 0 && x->linked) {
        int64_t grow = (int64_t)(pos + k) - (int64_t)x->size;
        if (grow > 0 && A->used + grow > A->capacity) {
            int64_t room = A->capacity - A->used + ((int64_t)x->size - (int64_t)pos);
            if (o.r) o.r->flags |= 1;
            if (room <= 0) return op_end(&o, -1, ENOSPC);
            if (k > (uint64_t)room) k = room;
        }
    }
    file_reserve(f->ino, pos + k);
    memcpy(A->data + x->dataoff + pos, buf, k);
    if (pos + k > x->size) { if (x->linked) A->used += pos + k - x->size; x->size = pos + k; }
    touch(f->ino);
    if (at < 0) f->off = pos + k;
    return op_end(&o, k, 0);
}
#define NEEDFD(f) if (!f) { vlog("op on foreign fd %d in %s", fd, __func__); errno = EBADF; return -1; }
ssize_t read(int fd, void *buf, size_t n) {
    if (!ON) { REAL(ssize_t, read, (int, void *, size_t)); return real_read(fd, buf, n); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    if (f->kind == 3) return sock_recv(f, buf, n, 0);
    if (f->kind == 4) return ev_read(f, buf, n);
    return do_read(f, buf, n, -1);
}
ssize_t write(int fd, const void *buf, size_t n) {
    if (!ON) { REAL(ssize_t, write, (int, const void *, size_t)); return real_write(fd, buf, n); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    if (f->kind == 3) return sock_send(f, buf, n);
    if (f->kind == 4) return ev_write(f, buf, n);
    return do_write(f, buf, n, -1);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
    if (!ON) { REAL(ssize_t, pread64, (int, void *, size_t, off64_t)); return real_pread64(fd, buf, n, off); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    return do_read(f, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
    if (!ON) { REAL(ssize_t, pwrite64, (int, const void *, size_t, off64_t)); return real_pwrite64(fd, buf, n, off); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    return do_write(f, buf, n, off);
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
static int iov_join(const struct iovec *v, int c, char **out, size_t *n) {
    size_t t = 0;
    for (int i = 0; i < c; i++) t += v[i].iov_len;
    char *b = malloc(t ? t : 1);
    size_t o = 0;
    for (int i = 0; i < c; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
    *out = b; *n = t;
    return 0;
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!ON) { REAL(ssize_t, writev, (int, const struct iovec *, int)); return real_writev(fd, v, c); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    char *b; size_t n;
    iov_join(v, c, &b, &n);
    ssize_t r = f->kind == 3 ? sock_send(f, b, n) : do_write(f, b, n, -1);
    int e = errno;
    free(b);
    errno = e;
    return r;
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    if (!ON) { REAL(ssize_t, readv, (int, const struct iovec *, int)); return real_readv(fd, v, c); }
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
off64_t lseek64(int fd, off64_t off, int wh) {
    if (!ON) { REAL(off64_t, lseek64, (int, off64_t, int)); return real_lseek64(fd, off, wh); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    if (f->kind != 1) { errno = ESPIPE; return -1; }
    struct op o;
    op_begin(&o, K_LSEEK, NULL, NULL, f->ino, off);
    FAULT(o);
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->off : wh == SEEK_END ? (int64_t)A->ino[f->ino].size : -1;
    if (b < 0 || b + off < 0) return op_end(&o, -1, EINVAL);
    f->off = b + off;
    return op_end(&o, f->off, 0);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
static int do_ftruncate(struct vfd *f, off64_t n) {
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_FTRUNC, lp, NULL, f->ino, n);
    FAULT(o);
    if (f->kind != 1 || (f->flags & O_ACCMODE) == O_RDONLY) return op_end(&o, -1, EINVAL);
    if (A->capacity >= 0 && A->used + n - (int64_t)A->ino[f->ino].size > A->capacity) return op_end(&o, -1, ENOSPC);
    file_truncate(f->ino, n);
    return op_end(&o, 0, 0);
}
int ftruncate64(int fd, off64_t n) {
    if (!ON) { REAL(int, ftruncate64, (int, off64_t)); return real_ftruncate64(fd, n); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    return do_ftruncate(f, n);
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int posix_fallocate64(int fd, off64_t a, off64_t l) { (void)fd; (void)a; (void)l; return EOPNOTSUPP; }
int fallocate64(int fd, int m, off64_t a, off64_t l) { (void)fd; (void)m; (void)a; (void)l; errno = EOPNOTSUPP; return -1; }
static int do_fsync(int fd) {
    struct vfd *f = getfd(fd); NEEDFD(f);
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_FSYNC, lp, NULL, f->ino, 0);
    FAULT(o);
    return op_end(&o, 0, f->kind == 1 || f->kind == 2 ? 0 : EINVAL);
}
int fsync(int fd) {
    if (!ON) { REAL(int, fsync, (int)); return real_fsync(fd); }
    return do_fsync(fd);
}
int fdatasync(int fd) {
    if (!ON) { REAL(int, fdatasync, (int)); return real_fdatasync(fd); }
    return do_fsync(fd);
}
int dup(int fd) {
    if (!ON) { REAL(int, dup, (int)); return real_dup(fd); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    int n = new_fd(f->kind, f->ino, f->flags);
    if (n >= 0) { struct vfd *g = getfd(n); g->off = f->off; g->ref = f->ref; sock_dup(f); }
    return n;
}
static int vfcntl(int fd, int cmd, long arg) {
    struct vfd *f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    switch (cmd) {
        case F_GETFD: return fd <= 2 ? 0 : FD_CLOEXEC;
        case F_SETFD: return 0;
        case F_GETFL: return f->flags;
        case F_SETFL: f->flags = (f->flags & O_ACCMODE) | (arg & ~O_ACCMODE); return 0;
        case F_DUPFD: case F_DUPFD_CLOEXEC: return dup(fd);
        default: errno = EINVAL; return -1;
    }
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!ON) { REAL(int, fcntl, (int, int, ...)); return real_fcntl(fd, cmd, arg); }
    return vfcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!ON) { REAL(int, fcntl64, (int, int, ...)); return real_fcntl64(fd, cmd, arg); }
    return vfcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    if (!ON) { REAL(int, ioctl, (int, unsigned long, ...)); return real_ioctl(fd, req, arg); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    if (req == FIONBIO) { if (*(int *)arg) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
    errno = ENOTTY;
    return -1;
}
int isatty(int fd) {
    if (!ON) { REAL(int, isatty, (int)); return real_isatty(fd); }
    (void)fd;
    errno = ENOTTY;
    return 0;
}
int flock(int fd, int op_) {
    if (!ON) { REAL(int, flock, (int, int)); return real_flock(fd, op_); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_LOCK, lp, NULL, f->ino, op_);
    FAULT(o);
    int want = op_ & LOCK_UN ? 0 : op_ & LOCK_EX ? 2 : 1;
    f->locked = 0;
    flock_wake(f->ino);
    while (want && flock_conflict(f, want)) {
        if (op_ & LOCK_NB) return op_end(&o, -1, EAGAIN);
        if (!sched_on || my_task < 0) { P->deadlock = 1; die_now(); }
        in_shim--;
        sched_block(5, f->ino, -1);
        in_shim++;
    }
    f->locked = want;
    return op_end(&o, 0, 0);
}
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { (void)a; (void)b; (void)c; (void)d; errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; errno = ENOSYS; return -1; }

// ---------------------------------------------------------------- environment variables
// On request a variable that is asked for by name and not set has some value nevertheless, chosen by a seed;
// those that steer Rust's runtime, TLS or the choice of a proxy are exempt.
char *getenv(const char *n) {
    size_t l = strlen(n);
    for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1;
    if (!ON || !(A->flags & 16) || !strncmp(n, "RUST_", 5) || !strncmp(n, "SSL_", 4) || strcasestr(n, "proxy") || strstr(n, "OPENSSL") || !strcmp(n, "REQUEST_METHOD")) return NULL;
    static char *const V[] = {"1", "0", "", "/w", "true", "80", "x", "no", "/nonexistent/dir", "de_DE.UTF-8"};
    uint64_t h = mix(A->hash_seed ^ 0x77);
    for (const char *q = n; *q; q++) h = mix(h ^ (unsigned char)*q);
    return h % 14 < 10 ? V[h % 14] : NULL;
}

// ---------------------------------------------------------------- stat family
// inode numbers are in no particular order either
static uint64_t inode_no(int i) { return 1000 + (((uint64_t)i * (2 * A->readdir_seed + 1)) & 0xffffff); }

// a sticky directory is a mount point: what is below it is on another device
static int mount_of(int i) {
    if (!A->nmount) return 0;
    for (;; i = A->ino[i].parent) {
        if (i <= 0) return 0;
        if (A->ino[i].type == T_DIR && A->ino[i].mode & S_ISVTX) return i;
    }
}

static void fill_stat(int i, struct stat64 *st) {
    memset(st, 0, sizeof *st);
    struct inode *n = &A->ino[i];
    st->st_dev = 11 + mount_of(i); st->st_ino = inode_no(i); st->st_nlink = n->linked ? 1 : 0; st->st_mode = n->mode;
    st->st_size = n->type == T_DIR ? 4096 : n->mode & S_ISVTX ? 0 : n->size; // sticky: a file that reports no size, like those of procfs
    st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
    st->st_uid = 1000; st->st_gid = 1000;
    int64_t ns = n->mtime % 1000000000;
    if (ns < 0) ns += 1000000000; // before 1970
    st->st_mtim.tv_sec = (n->mtime - ns) / 1000000000; st->st_mtim.tv_nsec = ns;
    // the other times say nothing about the content: each is plausible, none equals the time of modification
    st->st_ctim = st->st_mtim; st->st_ctim.tv_sec += 40 + i % 7; st->st_atim = st->st_mtim; st->st_atim.tv_sec += 3 + i * 7 % 90;
}
static void fill_fdstat(struct vfd *f, struct stat64 *st) {
    if (f->kind <= 2) { fill_stat(f->ino, st); return; }
    memset(st, 0, sizeof *st);
    st->st_mode = f->kind == 3 ? S_IFSOCK | 0777 : S_IFIFO | 0600;
    st->st_ino = 5; st->st_nlink = 1; st->st_blksize = 4096;
}
static int do_stat(int base, const char *path, int follow, struct stat64 *st) {
    if (base < 0) { errno = EBADF; return -1; }
    char lp[PATH_MAX];
    lex_path(base, path, lp, follow);
    struct op o;
    op_begin(&o, follow ? K_STAT : K_LSTAT, lp, NULL, -1, 0);
    FAULT(o);
    int i = walk(base, path, follow, NULL, NULL, 0);
    if (i < 0) return op_end(&o, -1, -i);
    if (o.r) o.r->ino = i;
    fill_stat(i, st);
    return op_end(&o, 0, 0);
}
static int do_fstat(int fd, struct stat64 *st) {
    struct vfd *f = getfd(fd); NEEDFD(f);
    char lp[PATH_MAX];
    fd_path(f, lp);
    struct op o;
    op_begin(&o, K_FSTAT, lp, NULL, f->ino, 0);
    FAULT(o);
    fill_fdstat(f, st);
    return op_end(&o, 0, 0);
}
int stat64(const char *p, struct stat64 *st) {
    if (!ON) { REAL(int, stat64, (const char *, struct stat64 *)); return real_stat64(p, st); }
    return do_stat(P->cwd, p, 1, st);
}
int stat(const char *p, struct stat *st) { return stat64(p, (struct stat64 *)st); }
int lstat64(const char *p, struct stat64 *st) {
    if (!ON) { REAL(int, lstat64, (const char *, struct stat64 *)); return real_lstat64(p, st); }
    return do_stat(P->cwd, p, 0, st);
}
int lstat(const char *p, struct stat *st) { return lstat64(p, (struct stat64 *)st); }
int fstat64(int fd, struct stat64 *st) {
    if (!ON) { REAL(int, fstat64, (int, struct stat64 *)); return real_fstat64(fd, st); }
    return do_fstat(fd, st);
}
int fstat(int fd, struct stat *st) { return fstat64(fd, (struct stat64 *)st); }
int fstatat64(int dfd, const char *p, struct stat64 *st, int flags) {
    if (!ON) { REAL(int, fstatat64, (int, const char *, struct stat64 *, int)); return real_fstatat64(dfd, p, st, flags); }
    if (!*p && (flags & AT_EMPTY_PATH)) return do_fstat(dfd, st);
    return do_stat(base_of(dfd), p, !(flags & AT_SYMLINK_NOFOLLOW), st);
}
int fstatat(int dfd, const char *p, struct stat *st, int flags) { return fstatat64(dfd, p, (struct stat64 *)st, flags); }
int statx(int dfd, const char *p, int flags, unsigned mask, struct statx *x) {
    if (!ON) return raw(SYS_statx, dfd, (long)p, flags, mask, (long)x, 0) < 0 ? -1 : 0;
    (void)mask;
    struct stat64 st;
    int r;
    const char *volatile vp = p; // the prototype promises non-null, callers probe with NULL
    if (!vp) { errno = EFAULT; return -1; }
    if (!*p && (flags & AT_EMPTY_PATH)) r = do_fstat(dfd, &st);
    else r = do_stat(base_of(dfd), p, !(flags & AT_SYMLINK_NOFOLLOW), &st);
    if (r < 0) return r;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS | STATX_BTIME;
    x->stx_blksize = st.st_blksize; x->stx_nlink = st.st_nlink; x->stx_uid = st.st_uid; x->stx_gid = st.st_gid;
    x->stx_mode = st.st_mode; x->stx_ino = st.st_ino; x->stx_size = st.st_size; x->stx_blocks = st.st_blocks;
    x->stx_mtime.tv_sec = st.st_mtim.tv_sec; x->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
    x->stx_atime = x->stx_ctime = x->stx_btime = x->stx_mtime;
    x->stx_atime.tv_sec = st.st_atim.tv_sec; x->stx_ctime.tv_sec = st.st_ctim.tv_sec;     // (a file restored from elsewhere keeps its time of modification, but is younger)
    x->stx_btime.tv_sec += x->stx_ino * 37 % 5 < 3 ? -60 - (int64_t)(x->stx_ino * 37 % 9000) : 20 + (int64_t)(x->stx_ino * 37 % 400);
    x->stx_dev_major = 0; x->stx_dev_minor = st.st_dev;
    return 0;
}
int access(const char *p, int m) {
    if (!ON) { REAL(int, access, (const char *, int)); return real_access(p, m); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 1);
    struct op o;
    op_begin(&o, K_ACCESS, lp, NULL, -1, m);
    FAULT(o);
    int i = lookup(p, 1);
    return op_end(&o, 0, i < 0 ? -i : 0);
}
int faccessat(int dfd, const char *p, int m, int fl) {
    if (!ON) { REAL(int, faccessat, (int, const char *, int, int)); return real_faccessat(dfd, p, m, fl); }
    if (dfd != AT_FDCWD && p[0] != '/') { errno = ENOSYS; return -1; }
    return access(p, m);
}
int statfs64(const char *p, struct statfs64 *b) {
    if (!ON) { REAL(int, statfs64, (const char *, struct statfs64 *)); return real_statfs64(p, b); }
    (void)p; (void)b; errno = ENOSYS; return -1;
}
int statvfs64(const char *p, struct statvfs64 *b) {
    if (!ON) { REAL(int, statvfs64, (const char *, struct statvfs64 *)); return real_statvfs64(p, b); }
    (void)p; (void)b; errno = ENOSYS; return -1;
}

// ---------------------------------------------------------------- directories
struct vdir { uint32_t magic; int fd; int n, pos, ino; struct dirent64 ent; int *list; };
static struct vdir *make_dir(int fd) {
    struct vfd *f = getfd(fd);
    struct vdir *d = calloc(1, sizeof *d);
    d->magic = 0xD1D1; d->fd = fd; d->ino = f->ino;
    int cnt = 0;
    for (int c = A->ino[f->ino].first_child; c >= 0; c = A->ino[c].next_sib) cnt++;
    d->list = calloc(cnt + 2, sizeof(int));
    int k = 0;
    d->list[k++] = -1; d->list[k++] = -2; // "." and ".."
    for (int c = A->ino[f->ino].first_child; c >= 0; c = A->ino[c].next_sib) d->list[k++] = c;
    d->n = k;
    if (A->readdir_seed) {
        uint64_t s = A->readdir_seed ^ (uint64_t)f->ino * 0x9e37;
        for (int i = k - 1; i > 0; i--) { int j = rnd(&s) % (i + 1); int t = d->list[i]; d->list[i] = d->list[j]; d->list[j] = t; }
    }
    return d;
}
DIR *opendir(const char *p) {
    if (!ON) { REAL(DIR *, opendir, (const char *)); return real_opendir(p); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 1);
    struct op o;
    op_begin(&o, K_OPENDIR, lp, NULL, -1, 0);
    if (o.err) { op_end(&o, -1, o.err); return NULL; }
    int i = lookup(p, 1);
    if (i < 0) { op_end(&o, -1, -i); return NULL; }
    if (A->ino[i].type != T_DIR) { op_end(&o, -1, ENOTDIR); return NULL; }
    int fd = new_fd(2, i, O_RDONLY | O_DIRECTORY);
    if (fd < 0) { op_end(&o, -1, EMFILE); return NULL; }
    if (o.r) o.r->ino = i;
    struct vdir *d = make_dir(fd);
    op_end(&o, 0, 0);
    return (DIR *)d;
}
DIR *fdopendir(int fd) {
    if (!ON) { REAL(DIR *, fdopendir, (int)); return real_fdopendir(fd); }
    struct vfd *f = getfd(fd);
    if (!f || f->kind != 2) { errno = ENOTDIR; return NULL; }
    return (DIR *)make_dir(fd);
}
struct dirent64 *readdir64(DIR *dd) {
    if (!ON) { REAL(struct dirent64 *, readdir64, (DIR *)); return real_readdir64(dd); }
    struct vdir *d = (struct vdir *)dd;
    char lp[PATH_MAX];
    abs_path(d->ino, lp, sizeof lp);
    struct op o;
    op_begin(&o, K_READDIR, lp, NULL, d->ino, d->pos);
    if (o.err) { op_end(&o, -1, o.err); return NULL; }
    while (d->pos < d->n) {
        int c = d->list[d->pos++];
        struct dirent64 *e = &d->ent;
        memset(e, 0, sizeof *e);
        if (c < 0) { strcpy(e->d_name, c == -1 ? "." : ".."); e->d_type = DT_DIR; e->d_ino = inode_no(d->ino); }
        else {
            struct inode *n = &A->ino[c];
            if (!n->linked || n->parent != d->ino) continue; // removed meanwhile
            memcpy(e->d_name, ino_name(c), n->namelen);
            e->d_name[n->namelen] = 0;
            e->d_ino = inode_no(c);
            e->d_type = n->type == T_DIR ? DT_DIR : n->type == T_LINK ? DT_LNK : DT_REG;
        }
        if (A->flags & 1) e->d_type = DT_UNKNOWN;
        e->d_reclen = sizeof *e;
        e->d_off = d->pos;
        op_end(&o, 1, 0);
        return e;
    }
    op_end(&o, 0, 0);
    return NULL;
}
struct dirent *readdir(DIR *dd) { return (struct dirent *)readdir64(dd); }
int closedir(DIR *dd) {
    if (!ON) { REAL(int, closedir, (DIR *)); return real_closedir(dd); }
    struct vdir *d = (struct vdir *)dd;
    struct vfd *f = getfd(d->fd);
    if (f) f->used = 0;
    free(d->list);
    free(d);
    return 0;
}
int dirfd(DIR *dd) {
    if (!ON) { REAL(int, dirfd, (DIR *)); return real_dirfd(dd); }
    return ((struct vdir *)dd)->fd;
}
void rewinddir(DIR *dd) {
    if (!ON) { REAL(void, rewinddir, (DIR *)); real_rewinddir(dd); return; }
    ((struct vdir *)dd)->pos = 0;
}

// ---------------------------------------------------------------- paths
char *realpath(const char *p, char *out) {
    if (!ON) { REAL(char *, realpath, (const char *, char *)); return real_realpath(p, out); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 1);
    struct op o;
    op_begin(&o, K_REALPATH, lp, NULL, -1, 0);
    if (o.err) { op_end(&o, -1, o.err); return NULL; }
    int i = lookup(p, 1);
    if (i < 0) { op_end(&o, -1, -i); return NULL; }
    if (o.r) o.r->ino = i;
    char b[PATH_MAX];
    abs_path(i, b, sizeof b);
    op_end(&o, 0, 0);
    if (out) { strcpy(out, b); return out; }
    return strdup(b);
}
ssize_t readlink(const char *p, char *buf, size_t n) {
    if (!ON) { REAL(ssize_t, readlink, (const char *, char *, size_t)); return real_readlink(p, buf, n); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 0);
    struct op o;
    op_begin(&o, K_READLINK, lp, NULL, -1, 0);
    FAULT(o);
    int i = lookup(p, 0);
    if (i < 0) return op_end(&o, -1, -i);
    if (A->ino[i].type != T_LINK) return op_end(&o, -1, EINVAL);
    size_t k = A->ino[i].size < n ? A->ino[i].size : n;
    memcpy(buf, A->data + A->ino[i].dataoff, k);
    return op_end(&o, k, 0);
}
char *getcwd(char *buf, size_t n) {
    if (!ON) { REAL(char *, getcwd, (char *, size_t)); return real_getcwd(buf, n); }
    struct op o;
    char b[PATH_MAX];
    abs_path(P->cwd, b, sizeof b);
    op_begin(&o, K_GETCWD, b, NULL, P->cwd, 0);
    if (o.err) { op_end(&o, -1, o.err); return NULL; }
    size_t l = strlen(b) + 1;
    if (!buf) { buf = malloc(n > l ? n : l); n = n > l ? n : l; }
    if (l > n) { op_end(&o, -1, ERANGE); return NULL; }
    memcpy(buf, b, l);
    op_end(&o, l, 0);
    return buf;
}
int chdir(const char *p) {
    if (!ON) { REAL(int, chdir, (const char *)); return real_chdir(p); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 1);
    struct op o;
    op_begin(&o, K_CHDIR, lp, NULL, -1, 0);
    FAULT(o);
    int i = lookup(p, 1);
    if (i < 0) return op_end(&o, -1, -i);
    if (A->ino[i].type != T_DIR) return op_end(&o, -1, ENOTDIR);
    P->cwd = i;
    return op_end(&o, 0, 0);
}
static int do_mkdir(int base, const char *p, mode_t m) {
    if (base < 0) { errno = EBADF; return -1; }
    char lp[PATH_MAX];
    lex_path(base, p, lp, 0);
    struct op o;
    op_begin(&o, K_MKDIR, lp, NULL, -1, m);
    FAULT(o);
    int parent; char name[300];
    int i = walk(base, p, 0, &parent, name, 0);
    if (i >= 0) return op_end(&o, -1, EEXIST);
    if (i != -ENOENT || parent < 0) return op_end(&o, -1, -i);
    size_t l = strlen(name);
    if (l && name[l - 1] == '/') name[--l] = 0;
    if (A->capacity >= 0 && A->used >= A->capacity) return op_end(&o, -1, ENOSPC);
    int c = new_inode(T_DIR, S_IFDIR | (m & 0777 & ~022));
    link_inode(c, parent, name, l);
    touch(parent);
    if (o.r) { o.r->ino = c; o.r->flags |= 8; }
    return op_end(&o, 0, 0);
}
int mkdir(const char *p, mode_t m) {
    if (!ON) { REAL(int, mkdir, (const char *, mode_t)); return real_mkdir(p, m); }
    return do_mkdir(P->cwd, p, m);
}
int mkdirat(int d, const char *p, mode_t m) {
    if (!ON) { REAL(int, mkdirat, (int, const char *, mode_t)); return real_mkdirat(d, p, m); }
    return do_mkdir(base_of(d), p, m);
}
static int is_ancestor(int a, int b) { // a is b or an ancestor of b
    while (b >= 0) { if (a == b) return 1; if (b == 0) break; b = A->ino[b].parent; }
    return 0;
}
static int do_rename(int b1, const char *p1, int b2, const char *p2, unsigned flags) {
    if (b1 < 0 || b2 < 0) { errno = EBADF; return -1; }
    char l1[PATH_MAX], l2[PATH_MAX];
    lex_path(b1, p1, l1, 0);
    lex_path(b2, p2, l2, 0);
    struct op o;
    op_begin(&o, K_RENAME, l1, l2, -1, flags);
    FAULT(o);
    int s = walk(b1, p1, 0, NULL, NULL, 0);
    if (s < 0) return op_end(&o, -1, -s);
    if (s == 0) return op_end(&o, -1, EBUSY);
    int parent; char name[300];
    int d = walk(b2, p2, 0, &parent, name, 0);
    if (d == s) return op_end(&o, 0, 0);
    if (d < 0 && (d != -ENOENT || parent < 0)) return op_end(&o, -1, -d);
    if (d >= 0) {
        if (flags & 1) return op_end(&o, -1, EEXIST); // RENAME_NOREPLACE
        if (A->ino[d].type == T_DIR && A->ino[s].type != T_DIR) return op_end(&o, -1, EISDIR);
        if (A->ino[d].type != T_DIR && A->ino[s].type == T_DIR) return op_end(&o, -1, ENOTDIR);
        if (A->ino[d].type == T_DIR && A->ino[d].first_child >= 0) return op_end(&o, -1, ENOTEMPTY);
        if (d == 0) return op_end(&o, -1, EBUSY);
        parent = A->ino[d].parent;
        memcpy(name, ino_name(d), A->ino[d].namelen);
        name[A->ino[d].namelen] = 0;
    }
    if (flags & ~1u) return op_end(&o, -1, EINVAL);
    size_t nl = strlen(name);
    if (nl && name[nl - 1] == '/') { if (A->ino[s].type != T_DIR) return op_end(&o, -1, ENOTDIR); name[--nl] = 0; }
    if (A->ino[s].type == T_DIR && is_ancestor(s, parent)) return op_end(&o, -1, EINVAL);
    if (mount_of(s) != mount_of(parent)) return op_end(&o, -1, EXDEV);
    if (d >= 0) unlink_inode(d);
    int64_t used = A->used;
    unlink_inode(s);
    link_inode(s, parent, name, nl);
    A->used = used;
    touch(parent);
    if (o.r) o.r->ino = s;
    return op_end(&o, 0, 0);
}
int rename(const char *a, const char *b) {
    if (!ON) { REAL(int, rename, (const char *, const char *)); return real_rename(a, b); }
    return do_rename(P->cwd, a, P->cwd, b, 0);
}
int renameat(int d1, const char *a, int d2, const char *b) {
    if (!ON) { REAL(int, renameat, (int, const char *, int, const char *)); return real_renameat(d1, a, d2, b); }
    return do_rename(base_of(d1), a, base_of(d2), b, 0);
}
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) {
    if (!ON) { REAL(int, renameat2, (int, const char *, int, const char *, unsigned)); return real_renameat2(d1, a, d2, b, f); }
    return do_rename(base_of(d1), a, base_of(d2), b, f);
}
static int do_unlink(int base, const char *p, int dir) {
    if (base < 0) { errno = EBADF; return -1; }
    char lp[PATH_MAX];
    lex_path(base, p, lp, 0);
    struct op o;
    op_begin(&o, dir ? K_RMDIR : K_UNLINK, lp, NULL, -1, 0);
    FAULT(o);
    int i = walk(base, p, 0, NULL, NULL, 0);
    if (i < 0) return op_end(&o, -1, -i);
    if (o.r) o.r->ino = i;
    if (dir) {
        if (A->ino[i].type != T_DIR) return op_end(&o, -1, ENOTDIR);
        if (A->ino[i].first_child >= 0) return op_end(&o, -1, ENOTEMPTY);
        if (i == 0) return op_end(&o, -1, EBUSY);
    } else if (A->ino[i].type == T_DIR) return op_end(&o, -1, EISDIR);
    int parent = A->ino[i].parent;
    unlink_inode(i);
    touch(parent);
    return op_end(&o, 0, 0);
}
int unlink(const char *p) {
    if (!ON) { REAL(int, unlink, (const char *)); return real_unlink(p); }
    return do_unlink(P->cwd, p, 0);
}
int unlinkat(int d, const char *p, int fl) {
    if (!ON) { REAL(int, unlinkat, (int, const char *, int)); return real_unlinkat(d, p, fl); }
    return do_unlink(base_of(d), p, fl & AT_REMOVEDIR ? 1 : 0);
}
int remove(const char *p) {
    if (!ON) { REAL(int, remove, (const char *)); return real_remove(p); }
    int i = lookup(p, 0);
    return do_unlink(P->cwd, p, i >= 0 && A->ino[i].type == T_DIR);
}
int rmdir(const char *p) {
    if (!ON) { REAL(int, rmdir, (const char *)); return real_rmdir(p); }
    return do_unlink(P->cwd, p, 1);
}
int link(const char *a, const char *b) {
    if (!ON) { REAL(int, link, (const char *, const char *)); return real_link(a, b); }
    (void)a; (void)b; errno = EPERM; return -1; // a file system without hard links
}
int linkat(int d1, const char *a, int d2, const char *b, int f) {
    if (!ON) { REAL(int, linkat, (int, const char *, int, const char *, int)); return real_linkat(d1, a, d2, b, f); }
    errno = EPERM; return -1;
}
int symlink(const char *t, const char *p) {
    if (!ON) { REAL(int, symlink, (const char *, const char *)); return real_symlink(t, p); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 0);
    struct op o;
    op_begin(&o, K_SYMLINK, lp, NULL, -1, 0);
    FAULT(o);
    int parent; char name[300];
    int i = walk(P->cwd, p, 0, &parent, name, 0);
    if (i >= 0) return op_end(&o, -1, EEXIST);
    if (i != -ENOENT || parent < 0) return op_end(&o, -1, -i);
    int c = new_inode(T_LINK, S_IFLNK | 0777);
    link_inode(c, parent, name, strlen(name));
    file_reserve(c, strlen(t));
    memcpy(A->data + A->ino[c].dataoff, t, strlen(t));
    A->ino[c].size = strlen(t);
    return op_end(&o, 0, 0);
}
static int do_chmod(int i, mode_t m, const char *lp) {
    struct op o;
    op_begin(&o, K_CHMOD, lp, NULL, i, m);
    FAULT(o);
    if (i < 0) return op_end(&o, -1, -i);
    A->ino[i].mode = (A->ino[i].mode & S_IFMT) | (m & 07777);
    return op_end(&o, 0, 0);
}
int chmod(const char *p, mode_t m) {
    if (!ON) { REAL(int, chmod, (const char *, mode_t)); return real_chmod(p, m); }
    char lp[PATH_MAX];
    lex_path(P->cwd, p, lp, 1);
    return do_chmod(lookup(p, 1), m, lp);
}
int fchmod(int fd, mode_t m) {
    if (!ON) { REAL(int, fchmod, (int, mode_t)); return real_fchmod(fd, m); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    char lp[PATH_MAX];
    fd_path(f, lp);
    return do_chmod(f->kind <= 2 ? f->ino : -EINVAL, m, lp);
}
static int do_utime(int i, const struct timespec ts[2], const char *lp) {
    struct op o;
    op_begin(&o, K_UTIME, lp, NULL, i, 0);
    FAULT(o);
    if (i < 0) return op_end(&o, -1, -i);
    int64_t t = A->clock;
    if (ts) {
        if (ts[1].tv_nsec == UTIME_OMIT) return op_end(&o, 0, 0);
        if (ts[1].tv_nsec != UTIME_NOW) t = (int64_t)ts[1].tv_sec * 1000000000 + ts[1].tv_nsec;
    }
    A->ino[i].mtime = t / A->gran * A->gran;
    return op_end(&o, 0, 0);
}
int futimens(int fd, const struct timespec ts[2]) {
    if (!ON) { REAL(int, futimens, (int, const struct timespec *)); return real_futimens(fd, ts); }
    struct vfd *f = getfd(fd); NEEDFD(f);
    char lp[PATH_MAX];
    fd_path(f, lp);
    return do_utime(f->kind <= 2 ? f->ino : -EINVAL, ts, lp);
}
int utimensat(int d, const char *p, const struct timespec ts[2], int fl) {
    if (!ON) { REAL(int, utimensat, (int, const char *, const struct timespec *, int)); return real_utimensat(d, p, ts, fl); }
    int b = base_of(d);
    if (b < 0) { errno = EBADF; return -1; }
    char lp[PATH_MAX];
    lex_path(b, p, lp, !(fl & AT_SYMLINK_NOFOLLOW));
    return do_utime(walk(b, p, !(fl & AT_SYMLINK_NOFOLLOW), NULL, NULL, 0), ts, lp);
}

// ---------------------------------------------------------------- time, randomness, identity
static int64_t vnow(clockid_t c) {
    return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? A->clock : A->clock - A->mono0 + 5000000000ll;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!ON) return raw(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0) < 0 ? -1 : 0;
    A->clock += 1000;
    int64_t t = vnow(c);
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    (void)tz;
    if (!ON) return raw(SYS_gettimeofday, (long)tv, 0, 0, 0, 0, 0) < 0 ? -1 : 0;
    tv->tv_sec = A->clock / 1000000000; tv->tv_usec = A->clock % 1000000000 / 1000;
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
static int vsleep(int64_t ns) {
    if (sched_on && my_task >= 0) sched_block(4, 0, A->clock + ns);
    else A->clock += ns;
    return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!ON) { REAL(int, nanosleep, (const struct timespec *, struct timespec *)); return real_nanosleep(a, b); }
    return vsleep((int64_t)a->tv_sec * 1000000000 + a->tv_nsec);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (!ON) { REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *)); return real_clock_nanosleep(c, fl, a, b); }
    int64_t t = (int64_t)a->tv_sec * 1000000000 + a->tv_nsec;
    if (fl & TIMER_ABSTIME) t -= vnow(c);
    return vsleep(t > 0 ? t : 0);
}
int usleep(useconds_t u) {
    if (!ON) { struct timespec t = {u / 1000000, u % 1000000 * 1000}; return nanosleep(&t, NULL); }
    return vsleep((int64_t)u * 1000);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!ON) { long r = raw(SYS_getrandom, (long)b, n, fl, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r; }
    unsigned char *p = b;
    for (size_t i = 0; i < n; i++) p[i] = rnd(&P->rng) >> 24;
    return n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) { return ON ? (pid_t)P->vpid : (pid_t)raw(SYS_getpid, 0, 0, 0, 0, 0, 0); }
pid_t gettid(void) { return ON ? (pid_t)(P->vpid + (my_task > 0 ? my_task : 0)) : (pid_t)raw(SYS_gettid, 0, 0, 0, 0, 0, 0); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
    if (!ON) { REAL(int, sched_getaffinity, (pid_t, size_t, cpu_set_t *)); return real_sched_getaffinity(p, n, s); }
    memset(s, 0, n);
    CPU_SET(0, s); CPU_SET(1, s);
    return 0;
}
int sched_yield(void) {
    if (!ON) return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    if (sched_on && my_task >= 0) { in_shim++; A->clock += 1000; in_shim--; sched_yield_point(); }
    return 0;
}
int system(const char *c) { vlog("system %s", c ? c : ""); errno = ENOSYS; return -1; }
int execve(const char *p, char *const a[], char *const e[]) { if (!ON) return raw(SYS_execve, (long)p, (long)a, (long)e, 0, 0, 0); vlog("exec %s", p); errno = EACCES; return -1; }
int kill(pid_t p, int s) { if (!ON) { long r = raw(SYS_kill, p, s, 0, 0, 0, 0); return r < 0 ? -1 : 0; } vlog("kill %d %d", p, s); errno = EPERM; return -1; }

// ---------------------------------------------------------------- threads and futexes
static int64_t ts_ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }

static long sim_futex(int *addr, int op, int val, const struct timespec *to, int *addr2, int val3) {
    int cmd = op & FUTEX_CMD_MASK;
    (void)addr2;
    uint64_t key = (uint64_t)addr ^ ((uint64_t)PI << 56);
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
        if (!sched_on || my_task < 0) {
            // single task: nobody can wake us; a timed wait just times out
            if (*addr != val) { errno = EAGAIN; return -1; }
            if (to) { int64_t t = ts_ns(to); if (cmd == FUTEX_WAIT_BITSET) { int64_t d = t - vnow(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC); if (d > 0) A->clock += d; } else A->clock += t; errno = ETIMEDOUT; return -1; }
            vlog("futex wait with no other task");
            P->deadlock = 1;
            die_now();
        }
        sched_yield_point();
        if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
        int64_t dl = -1;
        if (to) {
            int64_t t = ts_ns(to);
            if (cmd == FUTEX_WAIT) dl = A->clock + t;
            else dl = A->clock + (t - vnow(op & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC));
            if (dl < A->clock) dl = A->clock;
        }
        if (sched_block(1, key, dl)) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
        (void)val3;
        int woken = 0;
        for (uint32_t i = 0; i < A->ntasks && woken < val; i++)
            if (A->tasks[i].state == TS_BLOCK && A->tasks[i].waitkind == 1 && A->tasks[i].key == key) { A->tasks[i].state = TS_RUN; woken++; }
        // a lock was released: the task that waited for it may go on at once
        if (woken && A->cov_stat && (uintptr_t)addr - data_lo < data_len) static_access(); else sched_yield_point();
        return woken;
    }
    vlog("futex op %d unsupported", cmd);
    errno = ENOSYS;
    return -1;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    long r;
    if (ON) switch (n) {
        case SYS_futex: return sim_futex((int *)a, b, c, (const struct timespec *)d, (int *)e, f);
        case SYS_getrandom: return getrandom((void *)a, b, c);
        case SYS_statx: return statx(a, (const char *)b, c, d, (struct statx *)e);
        case SYS_gettid: return gettid();
        case SYS_getpid: return getpid();
        case SYS_renameat2: return renameat2(a, (const char *)b, c, (const char *)d, e);
        case SYS_openat: return openat(a, (const char *)b, c, d);
        case SYS_copy_file_range: case SYS_splice: case SYS_sendfile: case SYS_openat2: case SYS_clone3: case SYS_pidfd_open:
            errno = ENOSYS; return -1;
        case SYS_sched_getaffinity: return sched_getaffinity(a, b, (cpu_set_t *)c);
        default: vlog("syscall %ld", n); errno = ENOSYS; return -1;
    }
    r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}

struct tstart { void *(*fn)(void *); void *arg; int task; };
static pthread_key_t task_key;
static void task_key_dtor(void *v) {
    long n = (long)v;
    if (n < 3) { pthread_setspecific(task_key, (void *)(n + 1)); return; }
    int me = my_task;
    my_task = -1;
    if (me >= 0) sched_exit_task(me);
}
static void *task_main(void *p) {
    struct tstart s = *(struct tstart *)p;
    my_task = s.task;
    sched_wait_turn(my_task);
    free(p);
    pthread_setspecific(task_key, (void *)1);
    return s.fn(s.arg);
}
int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
    REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
    if (!ON) return real_pthread_create(t, at, fn, arg);
    if (!sched_on && A->nprocs > 1) { vlog("pthread_create without scheduler"); return EAGAIN; }
    if (!sched_on) {  // the first thread of a process that ran without a scheduler so far
        struct task *m = &A->tasks[A->ntasks];
        memset(m, 0, sizeof *m);
        m->proc = PI; m->deadline = -1; m->state = TS_RUN;
        my_task = A->cur = A->ntasks++;
        sched_on = 1;
    }
    if (A->ntasks >= MAXTASK) { vlog("too many tasks"); return EAGAIN; }
    struct op o;
    op_begin(&o, K_PTHREAD, NULL, NULL, -1, 0);
    if (o.err) { int e = o.err; op_end(&o, -1, e); return e; }
    struct tstart *s = malloc(sizeof *s);
    int id = A->ntasks;
    struct task *k = &A->tasks[id];
    memset(k, 0, sizeof *k);
    k->proc = PI; k->deadline = -1; k->state = TS_RUN;
    A->ntasks++;
    s->fn = fn; s->arg = arg; s->task = id;
    int r = real_pthread_create(t, at, task_main, s);  // no switches inside: it holds locks of the C library
    in_shim--;
    if (r) { k->state = TS_DONE; return r; }
    k->pthread = (uint64_t)*t;
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    REAL(int, pthread_join, (pthread_t, void **));
    if (ON && sched_on && my_task >= 0) {
        for (uint32_t i = 0; i < A->ntasks; i++)
            if (A->tasks[i].proc == PI && A->tasks[i].pthread == (uint64_t)t && A->tasks[i].state != TS_DONE) { sched_block(2, i, -1); break; }
        for (uint32_t i = 0; i < A->ntasks; i++)
            if (A->tasks[i].proc == PI && A->tasks[i].pthread == (uint64_t)t) A->tasks[i].pthread = 0;
    }
    return real_pthread_join(t, ret);
}

// ---------------------------------------------------------------- allocation
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static inline int alloc_point(void) {
    if (!P || in_shim) return 0;
    if (A->malloc_fail_at >= 0) { if ((int64_t)P->nmalloc++ == A->malloc_fail_at) { vlog("malloc fault"); A->malloc_fail_at = -1; return 1; } }
    if (sched_on && (A->flags & 8) && my_task >= 0) sched_yield_point();
    return 0;
}
// where blocks lie is not a promise: varied by seed
static inline size_t heap_pad(size_t n) {
    if (!P || in_shim || !A->heap_seed) return n;
    uint64_t x = rnd(&P->heap_rng);
    if (x % 16 == 0) free(__libc_malloc((x >> 8) % 700));
    else if (x % 16 == 1) (void)!__libc_malloc((x >> 8) % 200);
    return n + ((x >> 32) % 5) * 16;
}
void *malloc(size_t n) { if (alloc_point()) { errno = ENOMEM; return NULL; } return __libc_malloc(heap_pad(n)); }
void *calloc(size_t a, size_t b) { if (alloc_point()) { errno = ENOMEM; return NULL; } return A && A->heap_seed && P && !in_shim && b && a < ((size_t)1 << 40) / b ? __libc_calloc(1, heap_pad(a * b)) : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (alloc_point()) { errno = ENOMEM; return NULL; } return __libc_realloc(p, n ? heap_pad(n) : n); }
void free(void *p) { __libc_free(p); }
int posix_memalign(void **p, size_t al, size_t n) { if (alloc_point()) return ENOMEM; void *r = __libc_memalign(al, n); if (!r) return ENOMEM; *p = r; return 0; }
void *aligned_alloc(size_t al, size_t n) { if (alloc_point()) { errno = ENOMEM; return NULL; } return __libc_memalign(al, n); }
void *memalign(size_t al, size_t n) { return __libc_memalign(al, n); }

#include "simnet.h"

// ---------------------------------------------------------------- fork server
static int rd_all(void *b, size_t n) {
    char *p = b;
    while (n) { long r = raw(SYS_read, CTRL_IN, (long)p, n, 0, 0, 0); if (r <= 0) return -1; p += r; n -= r; }
    return 0;
}
static int wr_all(const void *b, size_t n) {
    const char *p = b;
    while (n) { long r = raw(SYS_write, CTRL_OUT, (long)p, n, 0, 0, 0); if (r <= 0) return -1; p += r; n -= r; }
    return 0;
}
struct cur { char *p, *e; };
static uint64_t g64(struct cur *c) { uint64_t v; memcpy(&v, c->p, 8); c->p += 8; return v; }
static uint32_t g32(struct cur *c) { uint32_t v; memcpy(&v, c->p, 4); c->p += 4; return v; }
static char *gbytes(struct cur *c, uint32_t *n) { *n = g32(c); char *r = c->p; c->p += *n; return r; }

static void load_world(char *b, size_t n) {
    struct cur c = {b, b + n};
    // reset everything before the data area except the big string/rec arrays (guarded by counters)
    uint32_t oldino = A->ninodes;
    memset(A->ino, 0, sizeof(struct inode) * (oldino + 1));
    memset(A->procs, 0, sizeof A->procs);
    memset(A->tasks, 0, sizeof A->tasks);
    memset(A->conns, 0, sizeof A->conns);
    A->bump = 16; A->strtop = 1; A->logtop = 0; A->nrec = 0; A->rec_overflow = 0; A->ninodes = 0; A->nrules = 0;
    A->ntasks = 0; A->ending = 0; A->gstep = 0; A->switchpos = 0; A->nswrec = 0; A->rwcount = 0; A->used = 0; A->nconn = 0; A->overflow = 0; A->nmount = 0;
    A->str[0] = 0;
    A->clock = g64(&c); A->tick = g64(&c); A->gran = g64(&c);
    A->mono0 = A->clock;
    A->readdir_seed = g64(&c); A->hash_seed = g64(&c); A->sched_seed = g64(&c);
    A->capacity = g64(&c); A->malloc_fail_at = g64(&c); A->heap_seed = g64(&c);
    A->flags = g32(&c); A->max_read = g32(&c); A->max_write = g32(&c); A->eintr_every = g32(&c); A->op_cap = g32(&c);
    A->sched_prob = g32(&c); A->allow_net = g32(&c); A->cov_gap = g32(&c); A->cov_hot = g32(&c); A->cov_hotseed = g32(&c); A->cov_stat = g32(&c);
    A->nstatic = 0;
    memset(A->cov_hits, 0, sizeof A->cov_hits);
    A->cov_left = A->cov_gap;
    A->sched_rng = A->sched_seed;
    uint32_t ni = g32(&c);
    for (uint32_t i = 0; i < ni; i++) {
        int32_t parent = g32(&c);
        uint32_t type = g32(&c), mode = g32(&c), nl, dl;
        int64_t mtime = g64(&c);
        char *name = gbytes(&c, &nl);
        char *data = gbytes(&c, &dl);
        int x = new_inode(type, mode);
        if (i > 0) link_inode(x, parent, name, nl);
        else { A->ino[0].parent = 0; A->ino[0].linked = 1; A->ino[0].nameoff = 0; }
        A->ino[x].mtime = mtime;
        if (dl) { file_reserve(x, dl); memcpy(A->data + A->ino[x].dataoff, data, dl); A->ino[x].size = dl; }
        if (type == T_FILE) A->used += dl;
        if (type == T_DIR && mode & S_ISVTX) A->nmount++;
    }
    A->nprocs = g32(&c);
    for (uint32_t i = 0; i < A->nprocs; i++) {
        struct proc *p = &A->procs[i];
        p->vpid = g32(&c);
        p->argc = g32(&c);
        for (int a = 0; a < p->argc; a++) { uint32_t l; char *s = gbytes(&c, &l); uint32_t o = str_add(s, l); if (a == 0) p->argsoff = o; }
        uint32_t l;
        char *cwd = gbytes(&c, &l);
        char tmp[PATH_MAX];
        memcpy(tmp, cwd, l); tmp[l] = 0;
        char *in = gbytes(&c, &l);
        buf_add(&p->in, in, l);
        P = p; P->cwd = 0;
        int w = walk(0, tmp, 1, NULL, NULL, 0);
        P = NULL;
        p->cwd = w < 0 ? 0 : w;
        p->rng = mix(A->hash_seed + 77 * i);
    }
    A->nvars = g32(&c);
    for (uint32_t i = 0; i < A->nvars; i++) { uint32_t l; char *v = gbytes(&c, &l); uint32_t o = str_add(v, l); if (i < 16) A->vars[i] = o; }
    if (A->nvars > 16) A->nvars = 16;
    A->nrules = g32(&c);
    for (uint32_t i = 0; i < A->nrules; i++) {
        struct rule *r = &A->rules[i];
        memset(r, 0, sizeof *r);
        r->proc = g32(&c); r->opidx = g32(&c); r->skip = g32(&c); r->count = g32(&c); r->action = g32(&c); r->arg = g32(&c);
        r->isprefix = g32(&c); r->arg64 = g64(&c); r->kindmask = g64(&c);
        uint32_t l; char *s = gbytes(&c, &l);
        r->pathoff = str_add(s, l); r->pathlen = l;
    }
    A->nswitch = g32(&c);
    for (uint32_t i = 0; i < A->nswitch; i++) { A->switches[i].gstep = g32(&c); A->switches[i].task = g32(&c); }
    A->nscripts = g32(&c);
    if (A->nscripts > MAXSCRIPT) sim_fatal("scripts full");
    for (int i = 0; i < A->nscripts; i++) {
        struct script *s = &A->scripts[i];
        memset(s, 0, sizeof *s);
        uint32_t kl;
        s->kind = g32(&c);
        char *k = gbytes(&c, &kl);
        s->keyoff = str_add(k, kl); s->keylen = kl;
        s->err = g32(&c); s->delay = g64(&c); s->times = g32(&c); s->window = g32(&c); s->refill = g64(&c); s->mute = g32(&c); s->nseg = g32(&c);
        s->segoff = arena_alloc(s->nseg * sizeof(struct seg));
        for (int j = 0; j < s->nseg; j++) {
            struct seg *g = (struct seg *)(A->data + s->segoff) + j;
            g->kind = g32(&c); g->delay = g64(&c);
            uint32_t l; char *d = gbytes(&c, &l);
            g->off = arena_alloc(l); g->len = l;
            memcpy(A->data + g->off, d, l);
        }
    }
}

static char *obuf; static size_t ocap, olen;
static void o_bytes(const void *p, size_t n) {
    if (olen + n > ocap) { ocap = (olen + n) * 2 + 65536; obuf = realloc(obuf, ocap); }
    memcpy(obuf + olen, p, n); olen += n;
}
static void o32(uint32_t v) { o_bytes(&v, 4); }
static void o64(uint64_t v) { o_bytes(&v, 8); }
static void oblob(const void *p, uint32_t n) { o32(n); o_bytes(p, n); }

static void send_result(void) {
    olen = 0;
    o64(A->clock); o32(A->rec_overflow); o32(A->overflow); o32(A->gstep);
    o32(A->nprocs);
    for (uint32_t i = 0; i < A->nprocs; i++) {
        struct proc *p = &A->procs[i];
        o32(p->status); o32(p->crashed); o32(p->opcap); o32(p->deadlock); o32(p->nops); o32(p->nmalloc);
        oblob(A->data + p->out.off, p->out.len);
        oblob(A->data + p->err.off, p->err.len);
        o64(p->inpos);
    }
    o32(A->ninodes);
    for (uint32_t i = 0; i < A->ninodes; i++) {
        struct inode *n = &A->ino[i];
        o32(n->type | n->linked << 8); o32(n->parent); o32(n->mode); o64(n->mtime); o32(n->opens);
        oblob(ino_name(i), n->namelen);
        if (n->linked || i == 0) oblob(A->data + n->dataoff, n->size); else o32(0);
    }
    o32(A->nrec);
    o_bytes(A->recs, A->nrec * sizeof(struct rec));
    oblob(A->str, A->strtop);
    o32(A->nrules);
    for (uint32_t i = 0; i < A->nrules; i++) o32(A->rules[i].fired);
    o32(A->nswrec);
    o_bytes(A->swrec, A->nswrec * 8);
    oblob(A->log, A->logtop);
    o32(A->nconn);
    for (int i = 0; i < A->nconn; i++) { o32(A->conns[i].state); o64(A->conns[i].rxpos); o32(A->conns[i].nreq); oblob(A->data + A->conns[i].tx.off, A->conns[i].tx.len); }
    uint32_t l = olen;
    if (wr_all(&l, 4) || wr_all(obuf, olen)) _exit(3);
}

static int child_argc; static char **child_argv;
// returns in the child only
static void fork_server(void) {
    A = mmap(NULL, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (A == MAP_FAILED) { const char m[] = "simos: mmap failed\n"; raw(SYS_write, 2, (long)m, sizeof m - 1, 0, 0, 0); _exit(4); }
    pthread_key_create(&task_key, task_key_dtor);
    stdfd[0].used = stdfd[1].used = stdfd[2].used = 1;
    stdfd[0].kind = 6; stdfd[1].kind = 7; stdfd[2].kind = 8;
    stdfd[0].ino = stdfd[1].ino = stdfd[2].ino = -1;
    stdfd[1].flags = stdfd[2].flags = O_WRONLY;
    char *req = NULL; size_t cap = 0;
    for (;;) {
        uint32_t n;
        if (rd_all(&n, 4)) _exit(0);
        if (n > cap) { cap = n * 2; req = realloc(req, cap); }
        if (rd_all(req, n)) _exit(0);
        load_world(req, n);
        int sched = A->flags & 2 || A->nprocs > 1;
        if (sched) {
            for (uint32_t i = 0; i < A->nprocs; i++) {
                struct task *t = &A->tasks[A->ntasks++];
                t->state = TS_RUN; t->proc = i; t->deadline = -1;
            }
        }
        for (uint32_t i = 0; i < A->nprocs; i++) {
            int pid = raw(SYS_fork, 0, 0, 0, 0, 0, 0);
            if (pid < 0) _exit(5);
            if (pid == 0) {
                raw(SYS_prctl, PR_SET_PDEATHSIG, SIGKILL, 0, 0, 0, 0);
                struct rlimit rl = {10, 11};
                raw(SYS_setrlimit, RLIMIT_CPU, (long)&rl, 0, 0, 0, 0);
                rl.rlim_cur = rl.rlim_max = 6ull << 30;
                raw(SYS_setrlimit, RLIMIT_AS, (long)&rl, 0, 0, 0, 0);
                rl.rlim_cur = rl.rlim_max = 0;
                raw(SYS_setrlimit, RLIMIT_CORE, (long)&rl, 0, 0, 0, 0);
                raw(SYS_close, CTRL_IN, 0, 0, 0, 0, 0);
                raw(SYS_close, CTRL_OUT, 0, 0, 0, 0, 0);
                PI = i;
                struct proc *p = &A->procs[i];
                child_argc = p->argc;
                child_argv = calloc(p->argc + 1, sizeof(char *));
                char *s = A->str + p->argsoff;
                for (int a = 0; a < p->argc; a++) { child_argv[a] = strdup(s); s += strlen(s) + 1; }
                for (uint32_t v = 0; v < A->nvars; v++) putenv(A->str + A->vars[v]);
                p->heap_rng = mix(A->heap_seed + 31 * i);
                if (A->heap_seed) (void)!malloc(p->heap_rng % 50000);
                if (sched) { sched_on = 1; my_task = i; sched_wait_turn(i); }
                data_range();
                P = p;
                return;
            }
            A->procs[i].pid = pid;
            A->procs[i].alive = 1;
        }
        if (sched) {
            int first = sched_pick(-1);
            if (A->flags & 4) first = first < 0 ? 0 : first;
            sched_handover(first);
        }
        uint32_t left = A->nprocs;
        while (left) {
            int st;
            long pid = raw(SYS_wait4, -1, (long)&st, 0, 0, 0, 0);
            if (pid < 0) break;
            for (uint32_t i = 0; i < A->nprocs; i++)
                if (A->procs[i].pid == pid && A->procs[i].alive) {
                    A->procs[i].alive = 0;
                    A->procs[i].status = st;
                    left--;
                    if (sched) {
                        int held = A->cur >= 0 && A->tasks[A->cur].proc == (int)i;
                        for (uint32_t t = 0; t < A->ntasks; t++) if (A->tasks[t].proc == (int)i) A->tasks[t].state = TS_DONE;
                        flock_wake(-1);
                        if (held && left) {
                            A->gstep++;
                            int n2 = sched_next_or_advance(-1);
                            if (n2 >= 0) sched_handover(n2);
                            else for (uint32_t q = 0; q < A->nprocs; q++) if (A->procs[q].alive) { A->procs[q].deadlock = 1; raw(SYS_kill, A->procs[q].pid, SIGKILL, 0, 0, 0, 0); }
                        }
                    }
                }
        }
        send_result();
    }
}

typedef int (*main_t)(int, char **, char **);
int __libc_start_main(main_t m, int argc, char **argv, void (*init)(void), void (*fini)(void), void (*rf)(void), void *se) {
    int (*real)(main_t, int, char **, void (*)(void), void (*)(void), void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
    if (getenv("SIMOS")) {
        fork_server();
        argc = child_argc;
        argv = child_argv;
    }
    return real(m, argc, argv, init, fini, rf, se);
}
