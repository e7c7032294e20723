/* LD_PRELOAD: append "<monotonic> <port> <result>" to $VF_CONNLOG for every TCP connect() */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

static int logfd = -1;
static int (*real)(int, const struct sockaddr *, socklen_t);

__attribute__((constructor)) static void init(void) {
	const char *f = getenv("VF_CONNLOG");
	real = (int (*)(int, const struct sockaddr *, socklen_t)) dlsym(RTLD_NEXT, "connect");
	if (f) logfd = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
}

int connect(int fd, const struct sockaddr *a, socklen_t l) {
	int r, e;
	struct timespec ts;
	if (!real) real = (int (*)(int, const struct sockaddr *, socklen_t)) dlsym(RTLD_NEXT, "connect");
	clock_gettime(CLOCK_MONOTONIC, &ts);
	r = real(fd, a, l);
	e = errno;
	if (logfd >= 0 && a->sa_family == AF_INET) {
		char b[80];
		int n = snprintf(b, sizeof b, "%ld.%09ld %d %d\n", (long) ts.tv_sec, ts.tv_nsec, ntohs(((const struct sockaddr_in *) a)->sin_port), r == 0 ? 0 : e);
		if (write(logfd, b, n) < 0) {}
	}
	errno = e;
	return r;
}
