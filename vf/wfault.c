/* LD_PRELOAD: writes to regular files below VF_WFAULT_DIR are short, interrupted or fail, some renames fail.
 * Rates come from the file VF_WFAULT_CTL (one byte: '0' off, '1' on). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static atomic_uint seq;

static unsigned rnd(void) {
	unsigned x = atomic_fetch_add(&seq, 1) * 2654435761u + 12345u;
	x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
	return x;
}

static int on(void) {
	const char *f = getenv("VF_WFAULT_CTL");
	char c = '0';
	int fd = f ? open(f, O_RDONLY | O_CLOEXEC) : -1;
	static ssize_t (*rd)(int, void*, size_t);
	if (!rd) rd = (ssize_t (*)(int, void*, size_t)) dlsym(RTLD_NEXT, "read");
	if (fd >= 0) { if (rd(fd, &c, 1) != 1) c = '0'; close(fd); }
	return c == '1';
}

static int inside(int fd) {
	char l[64], p[4096];
	const char *d = getenv("VF_WFAULT_DIR");
	struct stat st;
	ssize_t n;
	if (!d || fstat(fd, &st) || !S_ISREG(st.st_mode)) return 0;
	snprintf(l, sizeof(l), "/proc/self/fd/%d", fd);
	n = readlink(l, p, sizeof(p) - 1);
	if (n <= 0) return 0;
	p[n] = 0;
	return 0 == strncmp(p, d, strlen(d));
}

ssize_t write(int fd, const void *buf, size_t len) {
	static ssize_t (*real)(int, const void*, size_t);
	if (!real) real = (ssize_t (*)(int, const void*, size_t)) dlsym(RTLD_NEXT, "write");
	if (fd > 2 && len > 0 && inside(fd) && on()) {
		unsigned r = rnd();
		switch (r % 12) {
		case 0: errno = ENOSPC; return -1;
		case 1: errno = EINTR; return -1;
		case 2: errno = EIO; return -1;
		case 3: case 4: case 5: if (len > 1) return real(fd, buf, 1 + (r >> 8) % (len - 1)); break;
		case 6: if (len > 1) return real(fd, buf, 1); break;
		default: break;
		}
	}
	return real(fd, buf, len);
}

int rename(const char *a, const char *b) {
	static int (*real)(const char*, const char*);
	const char *d = getenv("VF_WFAULT_DIR");
	if (!real) real = (int (*)(const char*, const char*)) dlsym(RTLD_NEXT, "rename");
	if (d && 0 == strncmp(a, d, strlen(d)) && on() && 0 == rnd() % 8) { errno = ENOSPC; return -1; }
	return real(a, b);
}
