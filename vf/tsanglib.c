/* Tells ThreadSanitizer about the synchronisation done inside the
 * (uninstrumented) GLib and libev: GLib's mutexes are futex based, queues and
 * thread pools use internal locks, and libev's ev_async_send only writes to
 * its eventfd for the first of several sends. Preloaded into the tsan build.
 * Every wrapper calls the real function; only happens-before edges the
 * primitive really establishes are announced. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <ev.h>
#include <glib.h>
#include <stdlib.h>

extern void __tsan_acquire(void *addr) __attribute__((weak));
extern void __tsan_release(void *addr) __attribute__((weak));
extern void __tsan_ignore_thread_begin(void) __attribute__((weak));
extern void __tsan_ignore_thread_end(void) __attribute__((weak));

/* memory GLib manages inside of its own locks (list nodes of queues) is not judged */
static void ign(void) { if (__tsan_ignore_thread_begin) __tsan_ignore_thread_begin(); }
static void ung(void) { if (__tsan_ignore_thread_end) __tsan_ignore_thread_end(); }
static void acq(void *p) { if (__tsan_acquire) __tsan_acquire(p); }
static void rel(void *p) { if (__tsan_release) __tsan_release(p); }
static void *next(const char *n) {
	void *p = dlsym(RTLD_NEXT, n);
	if (!p) abort();
	return p;
}
#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type)) next(name)

void g_mutex_lock(GMutex *m) { REAL("g_mutex_lock", void (*)(GMutex*)); real(m); acq(m); }
void g_mutex_unlock(GMutex *m) { REAL("g_mutex_unlock", void (*)(GMutex*)); rel(m); real(m); }
gboolean g_mutex_trylock(GMutex *m) { REAL("g_mutex_trylock", gboolean (*)(GMutex*)); gboolean r = real(m); if (r) acq(m); return r; }
void g_rec_mutex_lock(GRecMutex *m) { REAL("g_rec_mutex_lock", void (*)(GRecMutex*)); real(m); acq(m); }
void g_rec_mutex_unlock(GRecMutex *m) { REAL("g_rec_mutex_unlock", void (*)(GRecMutex*)); rel(m); real(m); }
gboolean g_rec_mutex_trylock(GRecMutex *m) { REAL("g_rec_mutex_trylock", gboolean (*)(GRecMutex*)); gboolean r = real(m); if (r) acq(m); return r; }
void g_static_rec_mutex_lock(GStaticRecMutex *m) { REAL("g_static_rec_mutex_lock", void (*)(GStaticRecMutex*)); real(m); acq(m); }
void g_static_rec_mutex_unlock(GStaticRecMutex *m) { REAL("g_static_rec_mutex_unlock", void (*)(GStaticRecMutex*)); rel(m); real(m); }
gboolean g_static_rec_mutex_trylock(GStaticRecMutex *m) { REAL("g_static_rec_mutex_trylock", gboolean (*)(GStaticRecMutex*)); gboolean r = real(m); if (r) acq(m); return r; }
void g_rw_lock_reader_lock(GRWLock *m) { REAL("g_rw_lock_reader_lock", void (*)(GRWLock*)); real(m); acq(m); }
void g_rw_lock_reader_unlock(GRWLock *m) { REAL("g_rw_lock_reader_unlock", void (*)(GRWLock*)); rel(m); real(m); }
void g_rw_lock_writer_lock(GRWLock *m) { REAL("g_rw_lock_writer_lock", void (*)(GRWLock*)); real(m); acq(m); }
void g_rw_lock_writer_unlock(GRWLock *m) { REAL("g_rw_lock_writer_unlock", void (*)(GRWLock*)); rel(m); real(m); }
void g_cond_wait(GCond *c, GMutex *m) { REAL("g_cond_wait", void (*)(GCond*, GMutex*)); rel(m); real(c, m); acq(m); acq(c); }
gboolean g_cond_wait_until(GCond *c, GMutex *m, gint64 t) { REAL("g_cond_wait_until", gboolean (*)(GCond*, GMutex*, gint64)); gboolean r; rel(m); r = real(c, m, t); acq(m); return r; }
void g_cond_signal(GCond *c) { REAL("g_cond_signal", void (*)(GCond*)); rel(c); real(c); }
void g_cond_broadcast(GCond *c) { REAL("g_cond_broadcast", void (*)(GCond*)); rel(c); real(c); }

void g_async_queue_push(GAsyncQueue *q, gpointer d) { REAL("g_async_queue_push", void (*)(GAsyncQueue*, gpointer)); rel(q); ign(); real(q, d); ung(); }
gpointer g_async_queue_pop(GAsyncQueue *q) { REAL("g_async_queue_pop", gpointer (*)(GAsyncQueue*)); ign(); gpointer r = real(q); ung(); acq(q); return r; }
gpointer g_async_queue_try_pop(GAsyncQueue *q) { REAL("g_async_queue_try_pop", gpointer (*)(GAsyncQueue*)); ign(); gpointer r = real(q); ung(); acq(q); return r; }
gint g_async_queue_length(GAsyncQueue *q) { REAL("g_async_queue_length", gint (*)(GAsyncQueue*)); gint r = real(q); acq(q); return r; }
void g_async_queue_unref(GAsyncQueue *q) { REAL("g_async_queue_unref", void (*)(GAsyncQueue*)); rel(q); acq(q); real(q); }
GAsyncQueue* g_async_queue_ref(GAsyncQueue *q) { REAL("g_async_queue_ref", GAsyncQueue* (*)(GAsyncQueue*)); return real(q); }

/* thread pools: pushing an item happens before its execution; the end of an item happens before g_thread_pool_free returns */
typedef struct { GFunc func; gpointer data; char done; } pool_ctx;
static void pool_run(gpointer item, gpointer user) {
	pool_ctx *c = user;
	acq(c);
	c->func(item, c->data);
	rel(&c->done);
}
GThreadPool* g_thread_pool_new(GFunc func, gpointer data, gint max, gboolean excl, GError **err) {
	REAL("g_thread_pool_new", GThreadPool* (*)(GFunc, gpointer, gint, gboolean, GError**));
	pool_ctx *c = malloc(sizeof(*c)); /* kept: pools live as long as their worker */
	c->func = func; c->data = data;
	rel(c);
	return real(pool_run, c, max, excl, err);
}
gboolean g_thread_pool_push(GThreadPool *p, gpointer d, GError **err) {
	REAL("g_thread_pool_push", gboolean (*)(GThreadPool*, gpointer, GError**));
	gboolean r;
	rel(p->user_data);
	ign(); r = real(p, d, err); ung();
	return r;
}
void g_thread_pool_free(GThreadPool *p, gboolean imm, gboolean wait) {
	REAL("g_thread_pool_free", void (*)(GThreadPool*, gboolean, gboolean));
	pool_ctx *c = p->user_data;
	ign(); real(p, imm, wait); ung();
	if (wait) acq(&c->done);
}

/* ev_async: sending happens before the callback */
#define N 4096
static struct { struct ev_async *w; void (*cb)(struct ev_loop*, struct ev_async*, int); } asyncs[N];
/* a spin lock ThreadSanitizer doesn't know about: it must not order the threads */
static int alock;
static void alock_get(void) { while (__atomic_exchange_n(&alock, 1, __ATOMIC_ACQUIRE)) ; }
static void alock_put(void) { __atomic_store_n(&alock, 0, __ATOMIC_RELEASE); }
static void async_run(struct ev_loop *loop, struct ev_async *w, int revents) {
	void (*cb)(struct ev_loop*, struct ev_async*, int) = NULL;
	int i;
	alock_get();
	for (i = 0; i < N; i++) if (asyncs[i].w == w) { cb = asyncs[i].cb; break; }
	alock_put();
	acq(w);
	if (cb) cb(loop, w, revents);
}
void ev_async_start(struct ev_loop *loop, struct ev_async *w) {
	REAL("ev_async_start", void (*)(struct ev_loop*, struct ev_async*));
	int i, f = -1;
	alock_get();
	for (i = 0; i < N; i++) {
		if (asyncs[i].w == w) { f = i; break; }
		if (f < 0 && !asyncs[i].w) f = i;
	}
	if (f < 0) abort();
	if ((void*) ev_cb(w) != (void*) async_run) {
		asyncs[f].w = w;
		asyncs[f].cb = ev_cb(w);
		ev_set_cb(w, async_run);
	}
	alock_put();
	real(loop, w);
}
void ev_async_stop(struct ev_loop *loop, struct ev_async *w) {
	REAL("ev_async_stop", void (*)(struct ev_loop*, struct ev_async*));
	int i;
	real(loop, w);
	alock_get();
	for (i = 0; i < N; i++) if (asyncs[i].w == w) {
		ev_set_cb(w, asyncs[i].cb);
		asyncs[i].w = NULL;
	}
	alock_put();
}
void ev_async_send(struct ev_loop *loop, struct ev_async *w) {
	REAL("ev_async_send", void (*)(struct ev_loop*, struct ev_async*));
	rel(w);
	real(loop, w);
}

/* The containers of GLib and the event loops of libev are not instrumented:
 * report which of them the calling code reads or changes. */
extern void __tsan_read8_pc(void *addr, void *pc) __attribute__((weak));
extern void __tsan_write8_pc(void *addr, void *pc) __attribute__((weak));
#define RD(p) do { if (__tsan_read8_pc && (p)) __tsan_read8_pc((void*) (p), __builtin_return_address(0)); } while (0)
#define WR(p) do { if (__tsan_write8_pc && (p)) __tsan_write8_pc((void*) (p), __builtin_return_address(0)); } while (0)
#undef g_string_insert_len
GString* g_string_insert_len(GString* s, gssize p, const gchar* v, gssize l) { REAL("g_string_insert_len", GString* (*)(GString*, gssize, const gchar*, gssize)); WR(s); return real(s, p, v, l); }
#undef g_string_append_len
GString* g_string_append_len(GString* s, const gchar* v, gssize l) { REAL("g_string_append_len", GString* (*)(GString*, const gchar*, gssize)); WR(s); return real(s, v, l); }
#undef g_string_insert_c
GString* g_string_insert_c(GString* s, gssize p, gchar c) { REAL("g_string_insert_c", GString* (*)(GString*, gssize, gchar)); WR(s); return real(s, p, c); }
#undef g_string_set_size
GString* g_string_set_size(GString* s, gsize l) { REAL("g_string_set_size", GString* (*)(GString*, gsize)); WR(s); return real(s, l); }
#undef g_string_assign
GString* g_string_assign(GString* s, const gchar* v) { REAL("g_string_assign", GString* (*)(GString*, const gchar*)); WR(s); return real(s, v); }
#undef g_string_erase
GString* g_string_erase(GString* s, gssize p, gssize l) { REAL("g_string_erase", GString* (*)(GString*, gssize, gssize)); WR(s); return real(s, p, l); }
#undef g_array_append_vals
GArray* g_array_append_vals(GArray* s, gconstpointer v, guint n) { REAL("g_array_append_vals", GArray* (*)(GArray*, gconstpointer, guint)); WR(s); return real(s, v, n); }
#undef g_array_set_size
GArray* g_array_set_size(GArray* s, guint n) { REAL("g_array_set_size", GArray* (*)(GArray*, guint)); WR(s); return real(s, n); }
#undef g_byte_array_append
GByteArray* g_byte_array_append(GByteArray* s, const guint8* v, guint n) { REAL("g_byte_array_append", GByteArray* (*)(GByteArray*, const guint8*, guint)); WR(s); return real(s, v, n); }
#undef g_byte_array_set_size
GByteArray* g_byte_array_set_size(GByteArray* s, guint n) { REAL("g_byte_array_set_size", GByteArray* (*)(GByteArray*, guint)); WR(s); return real(s, n); }
#undef g_ptr_array_add
void g_ptr_array_add(GPtrArray* s, gpointer v) { REAL("g_ptr_array_add", void (*)(GPtrArray*, gpointer)); WR(s); real(s, v); }
#undef g_ptr_array_set_size
void g_ptr_array_set_size(GPtrArray* s, gint n) { REAL("g_ptr_array_set_size", void (*)(GPtrArray*, gint)); WR(s); real(s, n); }
#undef g_ptr_array_remove_index_fast
gpointer g_ptr_array_remove_index_fast(GPtrArray* s, guint n) { REAL("g_ptr_array_remove_index_fast", gpointer (*)(GPtrArray*, guint)); WR(s); return real(s, n); }
#undef g_ptr_array_remove_fast
gboolean g_ptr_array_remove_fast(GPtrArray* s, gpointer v) { REAL("g_ptr_array_remove_fast", gboolean (*)(GPtrArray*, gpointer)); WR(s); return real(s, v); }
#undef g_hash_table_lookup
gpointer g_hash_table_lookup(GHashTable* s, gconstpointer k) { REAL("g_hash_table_lookup", gpointer (*)(GHashTable*, gconstpointer)); RD(s); return real(s, k); }
#undef g_hash_table_lookup_extended
gboolean g_hash_table_lookup_extended(GHashTable* s, gconstpointer k, gpointer* a, gpointer* b) { REAL("g_hash_table_lookup_extended", gboolean (*)(GHashTable*, gconstpointer, gpointer*, gpointer*)); RD(s); return real(s, k, a, b); }
#undef g_hash_table_insert
gboolean g_hash_table_insert(GHashTable* s, gpointer k, gpointer v) { REAL("g_hash_table_insert", gboolean (*)(GHashTable*, gpointer, gpointer)); WR(s); return real(s, k, v); }
#undef g_hash_table_replace
gboolean g_hash_table_replace(GHashTable* s, gpointer k, gpointer v) { REAL("g_hash_table_replace", gboolean (*)(GHashTable*, gpointer, gpointer)); WR(s); return real(s, k, v); }
#undef g_hash_table_remove
gboolean g_hash_table_remove(GHashTable* s, gconstpointer k) { REAL("g_hash_table_remove", gboolean (*)(GHashTable*, gconstpointer)); WR(s); return real(s, k); }
#undef g_hash_table_remove_all
void g_hash_table_remove_all(GHashTable* s) { REAL("g_hash_table_remove_all", void (*)(GHashTable*)); WR(s); real(s); }
#undef g_hash_table_size
guint g_hash_table_size(GHashTable* s) { REAL("g_hash_table_size", guint (*)(GHashTable*)); RD(s); return real(s); }
#undef g_hash_table_iter_init
void g_hash_table_iter_init(GHashTableIter* i, GHashTable* s) { REAL("g_hash_table_iter_init", void (*)(GHashTableIter*, GHashTable*)); RD(s); real(i, s); }
#undef g_queue_push_tail_link
void g_queue_push_tail_link(GQueue* s, GList* l) { REAL("g_queue_push_tail_link", void (*)(GQueue*, GList*)); WR(s); real(s, l); }
#undef g_queue_push_head_link
void g_queue_push_head_link(GQueue* s, GList* l) { REAL("g_queue_push_head_link", void (*)(GQueue*, GList*)); WR(s); real(s, l); }
#undef g_queue_unlink
void g_queue_unlink(GQueue* s, GList* l) { REAL("g_queue_unlink", void (*)(GQueue*, GList*)); WR(s); real(s, l); }
#undef g_queue_delete_link
void g_queue_delete_link(GQueue* s, GList* l) { REAL("g_queue_delete_link", void (*)(GQueue*, GList*)); WR(s); real(s, l); }
#undef g_queue_push_tail
void g_queue_push_tail(GQueue* s, gpointer l) { REAL("g_queue_push_tail", void (*)(GQueue*, gpointer)); WR(s); real(s, l); }
#undef g_queue_push_head
void g_queue_push_head(GQueue* s, gpointer l) { REAL("g_queue_push_head", void (*)(GQueue*, gpointer)); WR(s); real(s, l); }
#undef g_queue_pop_head_link
GList* g_queue_pop_head_link(GQueue* s) { REAL("g_queue_pop_head_link", GList* (*)(GQueue*)); WR(s); return real(s); }
#undef g_queue_pop_head
gpointer g_queue_pop_head(GQueue* s) { REAL("g_queue_pop_head", gpointer (*)(GQueue*)); WR(s); return real(s); }
#undef g_queue_clear
void g_queue_clear(GQueue* s) { REAL("g_queue_clear", void (*)(GQueue*)); WR(s); real(s); }
#undef g_queue_foreach
void g_queue_foreach(GQueue* s, GFunc fn, gpointer d) { REAL("g_queue_foreach", void (*)(GQueue*, GFunc, gpointer)); RD(s); real(s, fn, d); }
#undef g_queue_peek_head_link
GList* g_queue_peek_head_link(GQueue* s) { REAL("g_queue_peek_head_link", GList* (*)(GQueue*)); RD(s); return real(s); }
#undef g_queue_peek_tail_link
GList* g_queue_peek_tail_link(GQueue* s) { REAL("g_queue_peek_tail_link", GList* (*)(GQueue*)); RD(s); return real(s); }
#undef g_queue_peek_head
gpointer g_queue_peek_head(GQueue* s) { REAL("g_queue_peek_head", gpointer (*)(GQueue*)); RD(s); return real(s); }
#undef g_queue_peek_tail
gpointer g_queue_peek_tail(GQueue* s) { REAL("g_queue_peek_tail", gpointer (*)(GQueue*)); RD(s); return real(s); }
#undef ev_timer_start
void ev_timer_start(struct ev_loop* s, struct ev_timer* w) { REAL("ev_timer_start", void (*)(struct ev_loop*, struct ev_timer*)); WR(s); real(s, w); }
#undef ev_timer_stop
void ev_timer_stop(struct ev_loop* s, struct ev_timer* w) { REAL("ev_timer_stop", void (*)(struct ev_loop*, struct ev_timer*)); WR(s); real(s, w); }
#undef ev_timer_again
void ev_timer_again(struct ev_loop* s, struct ev_timer* w) { REAL("ev_timer_again", void (*)(struct ev_loop*, struct ev_timer*)); WR(s); real(s, w); }
#undef ev_io_start
void ev_io_start(struct ev_loop* s, struct ev_io* w) { REAL("ev_io_start", void (*)(struct ev_loop*, struct ev_io*)); WR(s); real(s, w); }
#undef ev_io_stop
void ev_io_stop(struct ev_loop* s, struct ev_io* w) { REAL("ev_io_stop", void (*)(struct ev_loop*, struct ev_io*)); WR(s); real(s, w); }
#undef ev_prepare_start
void ev_prepare_start(struct ev_loop* s, struct ev_prepare* w) { REAL("ev_prepare_start", void (*)(struct ev_loop*, struct ev_prepare*)); WR(s); real(s, w); }
#undef ev_prepare_stop
void ev_prepare_stop(struct ev_loop* s, struct ev_prepare* w) { REAL("ev_prepare_stop", void (*)(struct ev_loop*, struct ev_prepare*)); WR(s); real(s, w); }
#undef ev_check_start
void ev_check_start(struct ev_loop* s, struct ev_check* w) { REAL("ev_check_start", void (*)(struct ev_loop*, struct ev_check*)); WR(s); real(s, w); }
#undef ev_check_stop
void ev_check_stop(struct ev_loop* s, struct ev_check* w) { REAL("ev_check_stop", void (*)(struct ev_loop*, struct ev_check*)); WR(s); real(s, w); }
