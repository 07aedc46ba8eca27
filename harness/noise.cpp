#include "noise.h"
#include <dlfcn.h>
#include <uv.h>
std::atomic<uint32_t> Noise::seed{ 0 };
std::atomic<uint32_t> Noise::level{ 0 };
template<class F> static F nxt(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
#define WRAP(name) static decltype(&name) f = nxt<decltype(&name)>(#name)
extern "C" {
void uv_mutex_lock(uv_mutex_t* m) { WRAP(uv_mutex_lock); Noise::point(); f(m); Noise::point(); }
void uv_mutex_unlock(uv_mutex_t* m) { WRAP(uv_mutex_unlock); Noise::point(); f(m); Noise::point(); }
int uv_mutex_trylock(uv_mutex_t* m) { WRAP(uv_mutex_trylock); Noise::point(); int r = f(m); Noise::point(); return r; }
void uv_cond_wait(uv_cond_t* c, uv_mutex_t* m) { WRAP(uv_cond_wait); Noise::point(); f(c, m); Noise::point(); }
int uv_cond_timedwait(uv_cond_t* c, uv_mutex_t* m, uint64_t t) { WRAP(uv_cond_timedwait); Noise::point(); int r = f(c, m, t); Noise::point(); return r; }
void uv_cond_signal(uv_cond_t* c) { WRAP(uv_cond_signal); Noise::point(); f(c); Noise::point(); }
void uv_cond_broadcast(uv_cond_t* c) { WRAP(uv_cond_broadcast); Noise::point(); f(c); Noise::point(); }
}
