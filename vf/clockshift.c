/* LD_PRELOAD: shift the wall clock by VF_CLOCK_SHIFT seconds (may be fractional); every VF_CLOCK_DELAY-th reading is
 * followed by a pause of up to 40 ms, as if the thread had been descheduled after reading the clock */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static double shift(void) {
	static int init;
	static double v;
	if (!init) {
		const char *s = getenv("VF_CLOCK_SHIFT");
		v = s ? atof(s) : 0;
		init = 1;
	}
	return v;
}

static unsigned every(void) {
	static int init;
	static unsigned v;
	if (!init) {
		const char *s = getenv("VF_CLOCK_DELAY");
		v = s ? atoi(s) : 0;
		init = 1;
	}
	return v;
}

int clock_gettime(clockid_t id, struct timespec *ts) {
	static int (*real)(clockid_t, struct timespec*);
	int r;
	if (!real) real = (int (*)(clockid_t, struct timespec*)) dlsym(RTLD_NEXT, "clock_gettime");
	r = real(id, ts);
	if (0 == r && CLOCK_REALTIME == id) {
		double s = shift();
		long long n = ts->tv_sec * 1000000000LL + ts->tv_nsec + (long long)(s * 1e9);
		ts->tv_sec = n / 1000000000LL;
		ts->tv_nsec = n % 1000000000LL;
		if (every() > 0) {
			static __thread unsigned c;
			if (0 == c) c = (unsigned) (n / 1000) | 1;
			c = c * 1103515245u + 12345u;
			if (0 == (c >> 8) % every()) {
				struct timespec w = { 0, ((c >> 16) % 40) * 1000000L };
				nanosleep(&w, NULL);
			}
		}
	}
	return r;
}

int gettimeofday(struct timeval *tv, void *tz) {
	struct timespec ts;
	(void) tz;
	if (clock_gettime(CLOCK_REALTIME, &ts)) return -1;
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}

time_t time(time_t *t) {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
