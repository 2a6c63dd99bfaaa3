/* The seams below Rust: memory accesses and branches of the code under test (compiler
 * instrumentation), blocking system calls, randomness and the clock.
 *
 * Nothing here acts unless the calling simulated thread is "armed", i.e. inside a call into the
 * code under test with preemption switched on by the scheduler.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <time.h>

/* Provided by sched.rs. */
extern void sim_preempt(void);
extern void sim_blocked(void);
extern uint64_t sim_random(void);
extern void sim_over_limit(void);

__thread int sim_armed;          /* preempt at instrumented points */
__thread int sim_inside;         /* inside a call into the code under test */
__thread uint64_t sim_countdown; /* points until the next preemption; 0: never */
__thread uint64_t sim_points;    /* instrumented points passed */
__thread uint64_t sim_stop_at;   /* give up at this many; 0: never */
static uint64_t sim_clock_ns = 1000000000ull;
uint64_t sim_clock_reads, sim_random_reads, sim_futex_waits;

void sim_arm(int on, uint64_t countdown) {
    sim_armed = on;
    sim_countdown = countdown;
}
int sim_set_inside(int inside) {
    int old = sim_inside;
    sim_inside = inside;
    return old;
}
int sim_get_armed(void) { return sim_armed; }
uint64_t sim_get_countdown(void) { return sim_countdown; }
uint64_t sim_get_points(void) { return sim_points; }
void sim_limit_points(uint64_t n) { sim_stop_at = n ? sim_points + n : 0; }

/* One step of the thread that holds the token: called for every instrumented point, and from the
 * element type's callbacks, which are scheduling points of their own. */
void sim_point(void) {
    if (!sim_armed) return;
    sim_points++;
    if (sim_points == sim_stop_at) {
        sim_armed = 0;
        sim_over_limit();
    }
    if (sim_countdown && --sim_countdown == 0) {
        sim_armed = 0;
        sim_inside = 0;
        sim_preempt(); /* passes the token on; re-arms with the next countdown */
        sim_inside = 1;
    }
}

#define POINT { sim_point(); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) POINT
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {}
void __sanitizer_cov_load1(uint8_t *p) POINT
void __sanitizer_cov_load2(uint16_t *p) POINT
void __sanitizer_cov_load4(uint32_t *p) POINT
void __sanitizer_cov_load8(uint64_t *p) POINT
void __sanitizer_cov_load16(void *p) POINT
void __sanitizer_cov_store1(uint8_t *p) POINT
void __sanitizer_cov_store2(uint16_t *p) POINT
void __sanitizer_cov_store4(uint32_t *p) POINT
void __sanitizer_cov_store8(uint64_t *p) POINT
void __sanitizer_cov_store16(void *p) POINT

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

static long fix(long r) {
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

/* std's locks reach the kernel through this symbol. A simulated thread that would block while it
 * holds the token instead passes the token on and looks again later (a spurious wake-up). */
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long),
         e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && sim_inside) {
        int op = (int)b & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            int armed = sim_armed;
            sim_futex_waits++;
            sim_armed = 0;
            sim_inside = 0;
            sim_blocked();
            sim_inside = 1;
            sim_armed = armed;
            return 0;
        }
    }
    if (n == SYS_getrandom && sim_inside) {
        unsigned char *p = (unsigned char *)a;
        for (long i = 0; i < b; i++) p[i] = (unsigned char)(sim_random() >> 11);
        sim_random_reads++;
        return b;
    }
    return fix(raw6(n, a, b, c, d, e, f));
}

ssize_t getrandom(void *buf, size_t len, unsigned int flags) {
    if (sim_inside) {
        unsigned char *p = buf;
        for (size_t i = 0; i < len; i++) p[i] = (unsigned char)(sim_random() >> 11);
        sim_random_reads++;
        return (ssize_t)len;
    }
    return fix(raw6(SYS_getrandom, (long)buf, (long)len, flags, 0, 0, 0));
}

/* A simulated clock that jumps forward by a seeded amount at every reading. */
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (sim_inside) {
        sim_clock_ns += (sim_random() >> 8) % 2000000000ull;
        ts->tv_sec = (time_t)(sim_clock_ns / 1000000000ull);
        ts->tv_nsec = (long)(sim_clock_ns % 1000000000ull);
        sim_clock_reads++;
        return 0;
    }
    return (int)fix(raw6(SYS_clock_gettime, (long)id, (long)ts, 0, 0, 0, 0));
}
