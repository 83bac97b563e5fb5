// Preloaded into the interpreter: counts live C++ allocations (only the extension modules use operator new) and injects faults.
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static long blocks, bytes, peak, total;
static const std::size_t HEAD = 16;    // the requested size is kept in front of the block
// one fault: what (0 a large allocation, 1 a read of a file fails, 2 a read of a file is short), after how many, details
static int what;
static long failing = -1, detail;
static bool due(int kind) { return kind == what && failing >= 0 && failing-- == 0; }
// The package's own allocation: asked for by its modules (or their standard library) and not by the binding layer,
// whose registers of objects are the small ones and the bucket arrays of its hash maps.
static bool own(std::size_t n, void* caller) {
    static const std::size_t buckets[] = {59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 84631, 172933};
    for (std::size_t b : buckets) if (n == 8 * b) return false;
    Dl_info i;
    return n >= 400 && dladdr(caller, &i) && (std::strstr(i.dli_fname, "/datastructure.") || std::strstr(i.dli_fname, "/correlator.") || std::strstr(i.dli_fname, "libstdc++"));
}
static void* get(std::size_t n, void* caller) {
    if (failing >= 0 && what == 0 && own(n, caller) && due(0)) throw std::bad_alloc();
    char* p = n > (std::size_t) -1 - HEAD ? nullptr : (char*) std::malloc(n + HEAD);
    if (!p) throw std::bad_alloc();
    __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
    long now = __atomic_add_fetch(&bytes, (long) n, __ATOMIC_RELAXED);
    __atomic_add_fetch(&total, (long) n, __ATOMIC_RELAXED);
    if (now > peak) peak = now;
    *(std::size_t*) p = n;
    return p + HEAD;
}
static void put(void* p) {
    if (!p) return;
    char* b = (char*) p - HEAD;
    __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&bytes, (long) *(std::size_t*) b, __ATOMIC_RELAXED);
    std::free(b);
}
extern "C" void sacfv_fail(int kind, long n, long d) { what = kind; failing = n; detail = d; }
extern "C" long sacfv_left() { return failing; }
extern "C" void sacfv_mark() { peak = bytes; total = 0; }
extern "C" long sacfv_peak() { return peak; }
extern "C" long sacfv_total() { return total; }
extern "C" long sacfv_blocks() { return blocks; }
extern "C" long sacfv_bytes() { return bytes; }
void* operator new(std::size_t n) { return get(n, __builtin_return_address(0)); }
void* operator new[](std::size_t n) { return get(n, __builtin_return_address(0)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return get(n, __builtin_return_address(0)); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return get(n, __builtin_return_address(0)); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
extern "C" ssize_t read(int fd, void* buf, size_t n) {
    if (failing >= 0 && due(1)) { errno = (int) detail; return -1; }
    if (n > 1 && failing >= 0 && due(2)) { n = 1 + detail % (n - 1); failing = 0; }   // and all following ones
    return syscall(SYS_read, fd, buf, n);
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int n) {
    if (failing >= 0 && due(1)) { errno = (int) detail; return -1; }
    return syscall(SYS_readv, fd, v, n);
}
