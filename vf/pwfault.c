/* LD_PRELOAD: pwrite to files whose name starts with VF_PWFAULT_PREFIX behaves like on a disk getting full: short writes and ENOSPC.
 * Off unless the file VF_PWFAULT_CTL starts with '1'. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static atomic_uint seq;

static unsigned rnd(void) {
	unsigned x = atomic_fetch_add(&seq, 1) * 2654435761u + 12345u;
	x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
	return x;
}

static int hit(int fd) {
	const char *d = getenv("VF_PWFAULT_PREFIX"), *f = getenv("VF_PWFAULT_CTL");
	char l[64], p[4096], c = '0';
	ssize_t n;
	int ctl;
	if (!d || !f) return 0;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	n = readlink(l, p, sizeof(p) - 1);
	if (n <= 0) return 0;
	p[n] = 0;
	if (strncmp(p, d, strlen(d))) return 0;
	ctl = open(f, O_RDONLY | O_CLOEXEC);
	if (ctl < 0) return 0;
	if (read(ctl, &c, 1) != 1) c = '0';
	close(ctl);
	return c == '1';
}

/* -> -1: fail, 0: write everything, > 0: write that much */
static ssize_t plan(int fd, size_t len) {
	unsigned r;
	if (!hit(fd)) return 0;
	r = rnd();
	switch (r % 8) {
	case 0: errno = ENOSPC; return -1;
	case 1: errno = EINTR; return -1;
	case 2: case 3: case 4: return len > 1 ? (ssize_t) (1 + (r >> 8) % (len - 1)) : 0;
	default: return 0;
	}
}

ssize_t pwrite(int fd, const void *buf, size_t len, off_t pos) {
	static ssize_t (*real)(int, const void*, size_t, off_t);
	ssize_t k = plan(fd, len);
	if (!real) real = (ssize_t (*)(int, const void*, size_t, off_t)) dlsym(RTLD_NEXT, "pwrite");
	return k < 0 ? -1 : real(fd, buf, k ? (size_t) k : len, pos);
}

ssize_t pwrite64(int fd, const void *buf, size_t len, off64_t pos) {
	static ssize_t (*real)(int, const void*, size_t, off64_t);
	ssize_t k = plan(fd, len);
	if (!real) real = (ssize_t (*)(int, const void*, size_t, off64_t)) dlsym(RTLD_NEXT, "pwrite64");
	return k < 0 ? -1 : real(fd, buf, k ? (size_t) k : len, pos);
}
