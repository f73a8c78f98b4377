// Schedule disturbance: yields and short sleeps at lock and notification points, spurious wake-ups.
#pragma once
#include <atomic>
#include <thread>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
static std::atomic<unsigned> chaos{0}; static thread_local unsigned chaos_tls = 0;
inline unsigned chaos_r() { if (!chaos_tls) chaos_tls = 88172645u + (unsigned)(size_t)&chaos_tls; chaos_tls ^= chaos_tls << 13; chaos_tls ^= chaos_tls >> 17; chaos_tls ^= chaos_tls << 5; return chaos_tls; }
inline void jolt() { unsigned c = chaos.load(std::memory_order_relaxed); if (c && chaos_r() % c == 0) { if (chaos_r() % 8 == 0) usleep(chaos_r() % 50); else std::this_thread::yield(); } }
template <class F> static F chaos_real(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*f)(pthread_mutex_t*); int r = chaos_real(f, "pthread_mutex_unlock")(m); jolt(); return r; }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
   static int (*f)(pthread_cond_t*, pthread_mutex_t*);
   if (chaos && chaos_r() % 3 == 0) { pthread_mutex_unlock(m); std::this_thread::yield(); pthread_mutex_lock(m); return 0; }   // spurious
   return chaos_real(f, "pthread_cond_wait")(c, m);
}
extern "C" int pthread_cond_signal(pthread_cond_t* c) { static int (*f)(pthread_cond_t*); jolt(); return chaos_real(f, "pthread_cond_signal")(c); }
#include <stdarg.h>
extern "C" long syscall(long n, ...) {   // wake-ups of std::future
   va_list l; va_start(l, n); long a[6]; for (long& x : a) x = va_arg(l, long); va_end(l);
   static long (*f)(long, ...); long r = chaos_real(f, "syscall")(n, a[0], a[1], a[2], a[3], a[4], a[5]); if (n == 202) { int e = errno; jolt(); errno = e; } return r;
}
