/* The seam between the instrumented code and the simulator.
 *
 * Everything linked into the harness (mixed-num, fixed, cordic, libm, num and the harness itself) is compiled
 * with -sanitizer-coverage-trace-pc,trace-loads,trace-stores, so the compiler puts a call to one of the
 * functions below at the head of every basic block and before every load and store. While a simulated task
 * is inside a library call it is `armed`: every basic block is one tick of the simulated clock, and a tick
 * (or an access to writable static storage) on which the plan has an event enters the scheduler.
 *
 * Only the task that holds the scheduler's token is armed, so the plain globals below have one writer.
 */
#define _GNU_SOURCE
#include <link.h>
#include <stdint.h>
#include <semaphore.h>
#include <stdlib.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>

static __thread int armed __attribute__((tls_model("initial-exec")));
uint64_t vs_tick, vs_next = ~0ull;       /* ticks of the current call; tick at which to enter the scheduler */
uint64_t vs_acc, vs_next_acc = ~0ull;    /* the same for accesses to writable statics */
uint64_t vs_total;                       /* ticks of all calls: the simulated clock */
uint64_t vs_points;                      /* hash of the preemption points (code offsets) reached */

extern void vs_slow(int kind, uintptr_t pc);
extern char __executable_start, __data_start, _end;

static uint64_t vs_tls;
static int tls_size(struct dl_phdr_info *i, size_t n, void *d) {
    (void)n; (void)d;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS) vs_tls = (i->dlpi_phdr[k].p_memsz + i->dlpi_phdr[k].p_align - 1) & -i->dlpi_phdr[k].p_align;
    return 1; /* the executable comes first */
}
__attribute__((constructor)) static void find_tls(void) { dl_iterate_phdr(tls_size, 0); }

void vs_arm(int on) { armed = on; }
int vs_armed(void) { return armed; }

static inline uintptr_t off(void *ra) { return (uintptr_t)ra - (uintptr_t)&__executable_start; }

void __sanitizer_cov_trace_pc(void) {
    if (__builtin_expect(!armed, 1)) return;
    vs_total++;
    if (__builtin_expect(++vs_tick >= vs_next, 0)) {
        armed = 0;
        vs_slow(0, off(__builtin_return_address(0)));
        armed = 1;
    }
}

static inline void mem(void *a, void *ra) {
    if (__builtin_expect(!armed, 1)) return;
    if ((char *)a < &__data_start || (char *)a >= &_end) {
        /* Thread-local statics of the executable lie right below the thread pointer. */
        char *tp = __builtin_thread_pointer();
        if ((char *)a >= tp || (char *)a < tp - vs_tls) return;
        if ((char *)a >= (char *)&armed && (char *)a < (char *)(&armed + 1)) return;
    }
    if (++vs_acc >= vs_next_acc) {
        armed = 0;
        vs_slow(1, off(ra));
        armed = 1;
    }
}
#define M(k, n) void __sanitizer_cov_##k##n(void *a) { mem(a, __builtin_return_address(0)); }
M(load, 1) M(load, 2) M(load, 4) M(load, 8) M(load, 16)
M(store, 1) M(store, 2) M(store, 4) M(store, 8) M(store, 16)

void *vs_sem_new(void) { sem_t *s = malloc(sizeof *s); sem_init(s, 0, 0); return s; }
void vs_sem_post(void *s) { sem_post((sem_t *)s); }
void vs_sem_wait(void *s) { while (sem_wait((sem_t *)s) == -1 && errno == EINTR) {} }

/* Writable static storage, for comparing it before and after a call. */
void vs_statics(char **from, uint64_t *n) { *from = &__data_start; *n = &_end - &__data_start; }

/* Component operations of SimNum: [0] done, [1] the one that fails. Here, as these are not the library's statics. */
static __thread uint64_t num[2] __attribute__((tls_model("initial-exec")));
uint64_t vs_num_get(int i) { return num[i]; }
void vs_num_set(int i, uint64_t v) { num[i] = v; }
int vs_num_op(void) { return ++num[0] == num[1]; }

/* Ends the process by SIGALRM after `limit` seconds, or once it has not executed anything for four. */
static int left, idle;
static uint64_t used;
static void watch(int sig) {
    struct timespec t;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
    uint64_t now = t.tv_sec * 1000000000ull + t.tv_nsec;
    idle = now - used < 1000000 ? idle + 1 : 0;
    used = now;
    if (--left <= 0 || idle >= 4) {
        signal(sig, SIG_DFL);
        raise(sig);
    }
}
void vs_watch(int limit) {
    struct sigaction a = {.sa_handler = watch, .sa_flags = SA_RESTART};
    struct itimerval v = {{1, 0}, {1, 0}};
    left = limit;
    sigaction(SIGALRM, &a, 0);
    setitimer(ITIMER_REAL, &v, 0);
}
