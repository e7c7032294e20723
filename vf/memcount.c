/* LD_PRELOAD: number of live heap blocks and bytes, published in the mapped file $VF_MEMCOUNT */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long local[2];
static long *cnt = local;

__attribute__((constructor)) static void init(void) {
	const char *f = getenv("VF_MEMCOUNT");
	int fd;
	long *m;
	if (!f) return;
	fd = open(f, O_RDWR);
	if (fd < 0) return;
	m = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (m == MAP_FAILED) return;
	m[0] = local[0];
	m[1] = local[1];
	cnt = m;
}

static void *add(void *p) {
	if (p) {
		__atomic_add_fetch(&cnt[0], 1, __ATOMIC_RELAXED);
		__atomic_add_fetch(&cnt[1], (long) malloc_usable_size(p), __ATOMIC_RELAXED);
	}
	return p;
}

static void del(void *p) {
	if (p) {
		__atomic_sub_fetch(&cnt[0], 1, __ATOMIC_RELAXED);
		__atomic_sub_fetch(&cnt[1], (long) malloc_usable_size(p), __ATOMIC_RELAXED);
	}
}

void *malloc(size_t n) { return add(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return add(__libc_calloc(a, b)); }
void free(void *p) { del(p); __libc_free(p); }
void *realloc(void *p, size_t n) {
	void *q;
	long old = p ? (long) malloc_usable_size(p) : 0;
	q = __libc_realloc(p, n);
	if (!q) {
		if (p && n == 0) {
			__atomic_sub_fetch(&cnt[0], 1, __ATOMIC_RELAXED);
			__atomic_sub_fetch(&cnt[1], old, __ATOMIC_RELAXED);
		}
		return q;
	}
	if (p) __atomic_sub_fetch(&cnt[1], old, __ATOMIC_RELAXED);
	else __atomic_add_fetch(&cnt[0], 1, __ATOMIC_RELAXED);
	__atomic_add_fetch(&cnt[1], (long) malloc_usable_size(q), __ATOMIC_RELAXED);
	return q;
}
void *memalign(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
	void *p = add(__libc_memalign(a, n));
	if (!p) return 12;
	*r = p;
	return 0;
}
