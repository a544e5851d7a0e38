/* A clock that stands still unless told otherwise: the daemon simulation
 * replaces the wall and monotonic clocks of its own process (LD_PRELOAD). */
#define _GNU_SOURCE
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

volatile long long sim_ns = 0;   /* simulated time, 0: real clocks */
volatile long long sim_step = 0; /* how much each reading advances it */
volatile long long sim_reads = 0;

static long long read_ns(void)
{
	sim_reads++;
	sim_ns += sim_step;
	return sim_ns;
}

int clock_gettime(clockid_t c, struct timespec *t)
{
	if (sim_ns && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_MONOTONIC ||
	               c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME)) {
		long long n = read_ns();
		t->tv_sec = n / 1000000000LL;
		t->tv_nsec = n % 1000000000LL;
		return 0;
	}
	return syscall(SYS_clock_gettime, c, t);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}

time_t time(time_t *p)
{
	struct timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	if (p)
		*p = t.tv_sec;
	return t.tv_sec;
}
