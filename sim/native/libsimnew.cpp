// operator new / delete of the instrumented kernels, with an injected failure.
#include <cstdlib>
#include <new>
static long countdown = 0, count = 0, fired = 0;
extern "C" void simnew_arm(long n) { countdown = n; count = 0; fired = 0; }
extern "C" long simnew_count() { return count; }
extern "C" long simnew_fired() { return fired; }
static void *get(std::size_t n) {
    count++;
    if (countdown > 0 && --countdown == 0) { fired++; throw std::bad_alloc(); }
    void *p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void *operator new(std::size_t n) { return get(n); }
void *operator new[](std::size_t n) { return get(n); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
