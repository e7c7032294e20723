/* LD_PRELOAD: report made-up peer and local addresses for accepted TCP connections.
 * $VF_ADDRTAB is a file of 65536 entries of 64 bytes, indexed by the (real) source port of the client:
 *   [0] remote family (0: unchanged, 4, 6)  [2..3] port (big endian)  [4..19] address
 *   [32] local family                       [34..35] port             [36..51] address */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>

static volatile unsigned char *tab;
#define REAL(name) ((__typeof__(&name)) dlsym(RTLD_NEXT, #name))

__attribute__((constructor)) static void init(void) {
	const char *f = getenv("VF_ADDRTAB");
	int fd = f ? open(f, O_RDONLY | O_CLOEXEC) : -1;
	if (fd >= 0) {
		void *p = mmap(NULL, 65536 * 64, PROT_READ, MAP_SHARED, fd, 0);
		if (p != MAP_FAILED) tab = p;
	}
}

static int peerport(int fd) {
	struct sockaddr_storage ss;
	socklen_t l = sizeof(ss);
	if (REAL(getpeername)(fd, (struct sockaddr *) &ss, &l) != 0) return -1;
	if (ss.ss_family == AF_INET) return ntohs(((struct sockaddr_in *) &ss)->sin_port);
	if (ss.ss_family == AF_INET6) return ntohs(((struct sockaddr_in6 *) &ss)->sin6_port);
	return -1;
}

static void fake(int fd, int off, struct sockaddr *a, socklen_t *l, socklen_t room) {
	unsigned char e[20];
	int i, port = tab ? peerport(fd) : -1;
	if (port < 0 || !a || !l) return;
	for (i = 0; i < 20; i++) e[i] = tab[port * 64 + off + i];
	if (e[0] == 4) {
		struct sockaddr_in s;
		memset(&s, 0, sizeof(s));
		s.sin_family = AF_INET;
		memcpy(&s.sin_port, e + 2, 2);
		memcpy(&s.sin_addr, e + 4, 4);
		memcpy(a, &s, room < sizeof(s) ? room : sizeof(s));
		*l = sizeof(s);
	} else if (e[0] == 6) {
		struct sockaddr_in6 s;
		memset(&s, 0, sizeof(s));
		s.sin6_family = AF_INET6;
		memcpy(&s.sin6_port, e + 2, 2);
		memcpy(&s.sin6_addr, e + 4, 16);
		memcpy(a, &s, room < sizeof(s) ? room : sizeof(s));
		*l = sizeof(s);
	}
}

int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags) {
	socklen_t room = l ? *l : 0;
	int s = REAL(accept4)(fd, a, l, flags);
	if (s >= 0) fake(s, 0, a, l, room);
	return s;
}

int accept(int fd, struct sockaddr *a, socklen_t *l) {
	socklen_t room = l ? *l : 0;
	int s = REAL(accept)(fd, a, l);
	if (s >= 0) fake(s, 0, a, l, room);
	return s;
}

int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
	socklen_t room = l ? *l : 0;
	int r = REAL(getpeername)(fd, a, l);
	if (r == 0) fake(fd, 0, a, l, room);
	return r;
}

int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
	socklen_t room = l ? *l : 0;
	int r = REAL(getsockname)(fd, a, l);
	if (r == 0) fake(fd, 32, a, l, room);
	return r;
}
