/* The part of the simulator that has to be C.
 *
 *  - SanitizerCoverage callbacks: every basic block, load and store of the
 *    crates under test is a "point". A point is where the simulator may
 *    preempt a thread, and what its step counter counts.
 *  - A cooperative scheduler over parked real threads: one runs at a time and
 *    the schedule decides which and for how many points.
 *  - syscall() interposer: futex waits made by std's Mutex/RwLock/Once inside a
 *    simulated thread become scheduler blocks, so locks are simulated too and
 *    a deadlock is an observation rather than a hang.
 *  - getrandom() interposer: the keys of std's HashMap are a function of the
 *    seed.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <sys/types.h>
#include <sys/syscall.h>
#include <linux/futex.h>

enum { EXIT_DEADLOCK = 77, EXIT_STEPS = 78 };
#define MAXT 16
#define HOT (1ull << 40)
enum { UNUSED, RUNNABLE, BLOCKED, DONE };

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

/* ---- per thread ---- */
static _Thread_local int t_armed;
static _Thread_local int t_tid = -1;
static _Thread_local int64_t t_left;
static _Thread_local int64_t t_start;
static _Thread_local int64_t t_hot, t_extra;
static _Thread_local uint64_t t_points;
static _Thread_local uint64_t t_key = 0x9e3779b97f4a7c15ull;

/* ---- scheduler (touched only by the thread holding the baton) ----
 * Volatile, as other threads run in the middle of functions here, where the
 * compiler sees no call that could touch a static. */
typedef struct { uint32_t pick, quantum, hot, extra; } slot_t;
static volatile int n_th;
static volatile int st[MAXT];
static volatile int timed[MAXT], timedout[MAXT];
static volatile uint32_t gate[MAXT];
static volatile uint32_t main_gate;
static uint32_t *volatile waitaddr[MAXT];
static const slot_t *volatile sched;
static volatile size_t n_sched, pos;
static volatile uint64_t total, cap, switches, ihash, blocks, tick;
static volatile int rr;
static volatile int track;
static volatile uint32_t run;
static volatile uint64_t conflicts;

static void die(int code, const char *msg) {
    raw6(SYS_write, 2, (long)msg, (long)strlen(msg), 0, 0, 0);
    raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
    __builtin_unreachable();
}
static void park(volatile uint32_t *g) {
    while (!__atomic_load_n(g, __ATOMIC_ACQUIRE))
        raw6(SYS_futex, (long)g, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
    __atomic_store_n(g, 0, __ATOMIC_RELEASE);
}
static void unpark(volatile uint32_t *g) {
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
    raw6(SYS_futex, (long)g, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

/* Which thread runs next; -1 when all are done. */
static int choose(uint64_t *quantum) {
    int r[MAXT], n = 0, i, live = 0;
    for (i = 0; i < n_th; i++) {
        if (st[i] == RUNNABLE) r[n++] = i;
        if (st[i] != DONE) live++;
    }
    if (!live) return -1;
    if (!n) { /* everybody waits: a timeout may still fire */
        for (i = 0; i < n_th; i++)
            if (st[i] == BLOCKED && timed[i]) {
                timedout[i] = 1; st[i] = RUNNABLE; r[n++] = i; break;
            }
        if (!n) die(EXIT_DEADLOCK, "sim: deadlock: every simulated thread waits\n");
    }
    int next;
    if (pos < n_sched) {
        next = r[sched[pos].pick % (uint32_t)n];
        *quantum = sched[pos].quantum ? sched[pos].quantum : 1;
        if (sched[pos].hot) *quantum |= HOT | (uint64_t)sched[pos].extra << 41;
        pos++;
    } else {
        next = r[(uint32_t)rr++ % (uint32_t)n];
        *quantum = 5000;
    }
    ihash = (ihash ^ (uint64_t)next) * 0x100000001b3ull;
    ihash = (ihash ^ total) * 0x100000001b3ull;
    return next;
}
/* A quantum counts points, or, when hot, only visits to places in the code that
 * were seen to touch what another thread touches, and then some points more. */
static void grant(uint64_t q) {
    if (q & HOT) { t_hot = (int64_t)(q & 0xffffffffull); t_extra = (int64_t)(q >> 41); t_left = t_start = 1000000; }
    else { t_hot = -1; t_left = t_start = (int64_t)q; }
}
static void go(int self, int next, uint64_t q) {
    if (next != self) {
        switches++;
        unpark(&gate[next]);
        park(&gate[self]);
        /* whoever unparked us put our quantum in place through t_left below */
    } else {
        grant(q);
    }
}
static volatile uint64_t next_q[MAXT];
static void reschedule(int self) {
    uint64_t q = 1;
    int next = choose(&q);
    if (next >= 0) next_q[next] = q;
    if (next == self) { grant(q); return; }
    go(self, next, q);
    grant(next_q[self]);
}
static void account(void) {
    uint64_t used = (uint64_t)(t_start - t_left);
    t_points += used; total += used; t_start = t_left;
    if (cap && total > cap) die(EXIT_STEPS, "sim: step limit: the run does not make progress\n");
}
static __attribute__((noinline)) void slow(void) {
    if (t_tid < 0) die(EXIT_STEPS, "sim: step limit: the call does not return\n");
    account();
    reschedule(t_tid);
}
static inline __attribute__((always_inline)) void point(void) {
    if (__builtin_expect(t_armed, 0))
        if (__builtin_expect(--t_left <= 0, 0)) slow();
}

/* Who touched what in this run, and from where; places in the code found to
 * touch what another thread touched stay known for the whole plan. */
#define NSHADOW (1u << 14)
#define NHOT (1u << 12)
static struct { uintptr_t at; uint32_t run; uint8_t readers, writers; uintptr_t rpc, wpc; } shadow[NSHADOW];
static uintptr_t hotpc[NHOT];
static volatile int nhot;
static unsigned slot_of(uintptr_t g) { return (unsigned)(g * 0x9e3779b97f4a7c15ull >> 40) & (NSHADOW - 1); }
static int is_hot(uintptr_t pc, int add) {
    unsigned i = (unsigned)(pc * 0x9e3779b97f4a7c15ull >> 40) & (NHOT - 1);
    for (unsigned k = 0; k < NHOT; k++, i = (i + 1) & (NHOT - 1)) {
        if (hotpc[i] == pc) return 1;
        if (!hotpc[i]) {
            if (add && nhot < (int)NHOT / 2) { hotpc[i] = pc; nhot++; }
            return 0;
        }
    }
    return 0;
}
static __attribute__((noinline)) void conflict(uintptr_t p, int store, uintptr_t pc) {
    uint8_t me = (uint8_t)(1u << (t_tid & 7));
    uintptr_t g = p >> 3;
    unsigned i = slot_of(g);
    if (shadow[i].at != g || shadow[i].run != run) {
        shadow[i].at = g; shadow[i].run = run; shadow[i].readers = shadow[i].writers = 0;
        shadow[i].rpc = shadow[i].wpc = 0;
    }
    if (shadow[i].writers & ~me) { is_hot(pc, 1); is_hot(shadow[i].wpc, 1); conflicts++; }
    else if (store && (shadow[i].readers & ~me)) { is_hot(pc, 1); is_hot(shadow[i].rpc, 1); conflicts++; }
    if (store) { shadow[i].writers |= me; shadow[i].wpc = pc; } else { shadow[i].readers |= me; shadow[i].rpc = pc; }
    if (t_hot > 0 && is_hot(pc, 0) && --t_hot == 0) {
        /* Now, or this many points later. */
        account();
        t_hot = -1;
        t_left = t_start = 1 + t_extra;
    }
}
/* Released memory is nobody's. */
void rt_forget(uintptr_t p, size_t n) {
    if (!track || t_tid < 0) return;
    for (uintptr_t g = p >> 3; g <= (p + n) >> 3; g++) {
        unsigned i = slot_of(g);
        if (shadow[i].at == g) shadow[i].run = 0;
    }
}
void rt_hot_reset(void) { memset(hotpc, 0, sizeof hotpc); nhot = 0; }

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; point(); }
static inline __attribute__((always_inline)) void access(void *p, int store, uintptr_t pc) {
    if (__builtin_expect(track != 0, 0) && t_armed && t_tid >= 0) conflict((uintptr_t)p, store, pc);
    point();
}
#define LS(x) void __sanitizer_cov_load##x(void *p) { access(p, 0, (uintptr_t)__builtin_return_address(0)); } \
              void __sanitizer_cov_store##x(void *p) { access(p, 1, (uintptr_t)__builtin_return_address(0)); }
LS(1) LS(2) LS(4) LS(8) LS(16)

/* ---- solo mode: count points, bound them ---- */
void rt_solo(int64_t limit) { t_tid = -1; t_left = t_start = limit; t_armed = limit > 0; }
uint64_t rt_solo_end(void) { t_armed = 0; return (uint64_t)(t_start - t_left); }
uint64_t rt_solo_used(void) { return (uint64_t)(t_start - t_left); }
/* What is left is `limit` again; what was used stays counted. */
void rt_solo_refill(int64_t limit) { int64_t d = limit - t_left; t_left += d; t_start += d; }
int rt_pause(void) { int a = t_armed; t_armed = 0; return a; }
void rt_resume(int a) { t_armed = a; }
void rt_key(uint64_t k) { t_key = k; }

/* ---- scheduled mode ---- */
void rt_sched_begin(int n, const slot_t *s, size_t ns, uint64_t limit) {
    n_th = n; sched = s; n_sched = ns; pos = 0; total = switches = blocks = tick = 0; cap = limit;
    ihash = 0xcbf29ce484222325ull; rr = 0; main_gate = 0; run++; conflicts = 0; track = n > 1;
    for (int i = 0; i < MAXT; i++) {
        st[i] = i < n ? RUNNABLE : UNUSED;
        gate[i] = 0; waitaddr[i] = 0; timed[i] = timedout[i] = 0;
    }
}
void rt_sched_run(void) {
    uint64_t q = 1;
    int next = choose(&q);
    if (next < 0) return;
    next_q[next] = q;
    unpark(&gate[next]);
    park(&main_gate);
}
void rt_thread_enter(int tid) {
    park(&gate[tid]);
    t_tid = tid; t_points = 0;
    grant(next_q[tid]);
    t_armed = 1;
}
void rt_thread_exit(void) {
    int self = t_tid;
    uint64_t q = 1;
    t_armed = 0;
    account();
    st[self] = DONE;
    t_tid = -1;
    int next = choose(&q);
    if (next < 0) { unpark(&main_gate); return; }
    next_q[next] = q;
    switches++;
    unpark(&gate[next]);
}
/* A stamp for history events: a global order, as only one thread runs. */
uint64_t rt_tick(void) { return ++tick; }
void rt_yield(void) { if (t_armed && t_tid >= 0) { account(); reschedule(t_tid); } }
void rt_sched_stats(uint64_t *out) { out[0] = total; out[1] = switches; out[2] = ihash; out[3] = blocks; out[4] = conflicts; out[5] = (uint64_t)nhot; }

/* ---- interposed ---- */
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
    (void)flags;
    unsigned char *p = buf;
    for (size_t i = 0; i < len; i++) {
        t_key += 0x9e3779b97f4a7c15ull;
        uint64_t z = t_key;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        p[i] = (unsigned char)((z ^ (z >> 31)) >> 17);
    }
    return (ssize_t)len;
}

static long ret(long r) {
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && t_armed) {
        int op = (int)b & 127;
        uint32_t *addr = (uint32_t *)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (uint32_t)c) { errno = EAGAIN; return -1; }
            if (t_tid < 0) {
                if (d) { errno = ETIMEDOUT; return -1; }
                die(EXIT_DEADLOCK, "sim: deadlock: the only thread waits for itself\n");
            }
            int self = t_tid;
            account();
            blocks++;
            st[self] = BLOCKED; waitaddr[self] = addr; timed[self] = d != 0; timedout[self] = 0;
            reschedule(self);
            waitaddr[self] = 0; timed[self] = 0;
            if (timedout[self]) { timedout[self] = 0; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long woken = 0;
            for (int i = 0; i < n_th && t_tid >= 0 && woken < c; i++)
                if (st[i] == BLOCKED && waitaddr[i] == addr) { st[i] = RUNNABLE; waitaddr[i] = 0; woken++; }
            if (woken) return woken;
        }
    }
    return ret(raw6(n, a, b, c, d, e, f));
}
