// A small OpenMP runtime (LLVM entry points) on pthreads, so that ThreadSanitizer sees every thread it starts.  Replays only.
#include <pthread.h>
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <ctime>
enum { T = 8 };
static thread_local int tid = 0; static thread_local bool inside = false; static thread_local int64_t dlo, dup, dinc;
static pthread_barrier_t bar; static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
struct Job { void (*f)(); int n; void *a[40]; int id; };
typedef void *V;
static void invoke(Job &j) { // extra arguments are ignored by the callee
  int g = j.id, b = j.id; V *a = j.a;
  ((void (*)(int *, int *, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V, V))j.f)(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23], a[24], a[25], a[26], a[27], a[28], a[29], a[30], a[31], a[32], a[33], a[34], a[35], a[36], a[37], a[38], a[39]);
}
static void *body(void *p) { Job &j = *(Job *)p; tid = j.id; inside = true; invoke(j); return nullptr; }
template <class I> static void part(int sched, int *plast, I *plo, I *pup, int64_t inc, int64_t chunk, int64_t *st) {
  int64_t lo = (int64_t)*plo, up = (int64_t)*pup, n = inc > 0 ? (up >= lo ? (up - lo) / inc + 1 : 0) : (lo >= up ? (lo - up) / -inc + 1 : 0);
  int64_t per = (sched & 0xffff) == 33 && chunk > 0 ? chunk : (n + T - 1) / T; if (per < 1) per = 1;
  int64_t first = lo + tid * per * inc, last = first + (per - 1) * inc;
  if (tid * per >= n) { first = up + (inc > 0 ? 1 : -1); last = up; } else if (inc > 0 ? last > up : last < up) last = up;
  *plo = (I)first; *pup = (I)last; *st = T * per * inc; *plast = n > 0 && tid == (n - 1) / per % T;
}
extern "C" {
struct ident_t;
void __kmpc_fork_call(ident_t *, int n, void (*f)(), ...) {
  Job j[T]; va_list ap; va_start(ap, f); void *a[40] = {}; for (int i = 0; i < n && i < 40; i++) a[i] = va_arg(ap, void *); va_end(ap);
  pthread_t t[T]; pthread_barrier_init(&bar, nullptr, T);
  for (int i = 0; i < T; i++) { j[i].f = f; j[i].n = n; j[i].id = i; for (int k = 0; k < 40; k++) j[i].a[k] = a[k]; pthread_create(&t[i], nullptr, body, &j[i]); }
  for (int i = 0; i < T; i++) pthread_join(t[i], nullptr);
  pthread_barrier_destroy(&bar);
}
#define STATIC(name, I, S) void __kmpc_for_static_init_##name(ident_t *, int, int s, int *pl, I *lo, I *up, S *st, S inc, S ch) { int64_t x; part(s, pl, lo, up, inc, ch, &x); *st = (S)x; } \
  void __kmpc_dispatch_init_##name(ident_t *, int, int, I lo, I up, S inc, S) { dinc = inc; dlo = (int64_t)lo + tid * dinc; dup = (int64_t)up; } \
  int __kmpc_dispatch_next_##name(ident_t *, int, int *pl, I *lo, I *up, S *st) { if (dinc > 0 ? dlo > dup : dlo < dup) return 0; *lo = *up = (I)dlo; *st = (S)dinc; *pl = dlo + T * dinc > dup; dlo += T * dinc; return 1; } \
  void __kmpc_dispatch_fini_##name(ident_t *, int) {}
STATIC(4, int32_t, int32_t) STATIC(4u, uint32_t, int32_t) STATIC(8, int64_t, int64_t) STATIC(8u, uint64_t, int64_t)
void __kmpc_dispatch_deinit(ident_t *, int) {}
void __kmpc_for_static_fini(ident_t *, int) {} void __kmpc_push_num_threads(ident_t *, int, int) {}
void __kmpc_barrier(ident_t *, int) { pthread_barrier_wait(&bar); }
int __kmpc_global_thread_num(ident_t *) { return tid; }
void __kmpc_critical(ident_t *, int, void *) { pthread_mutex_lock(&crit); } void __kmpc_end_critical(ident_t *, int, void *) { pthread_mutex_unlock(&crit); }
int __kmpc_reduce_nowait(ident_t *, int, int, size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&crit); return 1; } void __kmpc_end_reduce_nowait(ident_t *, int, void *) { pthread_mutex_unlock(&crit); }
int __kmpc_reduce(ident_t *, int, int, size_t, void *, void (*)(void *, void *), void *) { pthread_mutex_lock(&crit); return 1; } void __kmpc_end_reduce(ident_t *, int, void *) { pthread_mutex_unlock(&crit); }
int __kmpc_single(ident_t *, int) { return tid == 0; } void __kmpc_end_single(ident_t *, int) {} int __kmpc_master(ident_t *, int) { return tid == 0; } void __kmpc_end_master(ident_t *, int) {} int __kmpc_masked(ident_t *, int, int) { return tid == 0; } void __kmpc_end_masked(ident_t *, int) {}
void __kmpc_serialized_parallel(ident_t *, int) {} void __kmpc_end_serialized_parallel(ident_t *, int) {} void __kmpc_flush(ident_t *) {}
int omp_get_thread_num(void) { return tid; } int omp_get_num_threads(void) { return inside ? T : 1; } int omp_get_max_threads(void) { return T; } int omp_get_num_procs(void) { return T; } int omp_in_parallel(void) { return inside; } void omp_set_num_threads(int) {} double omp_get_wtime(void) { return (double)time(nullptr); }
}
