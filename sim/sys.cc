#include "process.hh"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <string_view>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;
using namespace std;

int sim::real_clock_gettime(clockid_t c, timespec * t)
{
    return (int)syscall(SYS_clock_gettime, c, t);
}

Memory sim::memory;

Clock sim::sim_clock;

Disk & sim::disk()
{
    static Disk d;
    return d;
}

namespace
{
    struct Handle
    {
        bool open = false, writing = false;
        string name;
        size_t at = 0;
    };
    constexpr int most = 4096;
    Handle * handles = nullptr; // by file descriptor
    int open_handles = 0;

    Handle * handle(int fd)
    {
        if (open_handles == 0 || fd < 0 || fd >= most || ! handles[fd].open)
            return nullptr;
        return &handles[fd];
    }

    template <typename F>
    F real(const char * name)
    {
        return (F)dlsym(RTLD_NEXT, name);
    }

    bool ours(const char * n)
    {
        return strncmp(n, "sim:/", 5) == 0;
    }

    FILE * open_ours(const char * name, const char * mode)
    {
        NoAllocationFaults quiet;
        auto & d = disk();
        ++d.opens;
        if (d.opens == d.plan.fail_open) {
            ++d.injected;
            ++d.failed;
            errno = d.plan.error ? d.plan.error : EACCES;
            return nullptr;
        }
        bool writing = mode[0] == 'w' || mode[0] == 'a';
        if (! writing && ! d.files.contains(name)) {
            errno = ENOENT;
            return nullptr;
        }
        int fd = (int)syscall(SYS_memfd_create, "sim", 0);
        if (fd < 0 || fd >= most)
            return nullptr;
        FILE * f = fdopen(fd, writing ? "w" : "r");
        if (! f)
            return nullptr;
        if (! handles)
            handles = new Handle[most];
        handles[fd] = Handle{true, writing, name, 0};
        ++open_handles;
        if (mode[0] == 'w')
            d.files[name].clear();
        else if (mode[0] == 'a')
            handles[fd].at = d.files[name].size();
        return f;
    }

    ssize_t write_ours(Handle & h, const iovec * v, int n)
    {
        NoAllocationFaults quiet;
        auto & d = disk();
        auto & p = d.plan;
        ++d.writes;
        size_t total = 0;
        for (int i = 0; i < n; ++i)
            total += v[i].iov_len;
        if (p.fail_write >= 0 && (d.writes == p.fail_write || (p.sticky && d.writes > p.fail_write))) {
            ++d.injected;
            ++d.failed;
            errno = p.error ? p.error : EIO;
            return -1;
        }
        if (d.rng.permille(p.eintr_permille)) {
            ++d.injected;
            errno = EINTR;
            return -1;
        }
        size_t todo = total;
        if (todo > 1 && d.rng.permille(p.short_permille)) {
            ++d.injected;
            todo = 1 + d.rng.below(todo - 1);
        }
        if (p.capacity >= 0) {
            size_t used = 0;
            for (auto & [_, c] : d.files)
                used += c.size();
            size_t room = used < (size_t)p.capacity ? (size_t)p.capacity - used : 0;
            if (todo > room) {
                ++d.injected;
                if (room == 0) {
                    ++d.failed;
                    errno = p.error ? p.error : ENOSPC;
                    return -1;
                }
                todo = room;
            }
        }
        auto & content = d.files[h.name];
        size_t left = todo;
        for (int i = 0; i < n && left > 0; ++i) {
            size_t k = min(left, v[i].iov_len);
            if (content.size() < h.at + k)
                content.resize(h.at + k);
            memcpy(content.data() + h.at, v[i].iov_base, k);
            h.at += k;
            left -= k;
        }
        d.log.emplace_back(h.name, content.size());
        return (ssize_t)todo;
    }
}

int sim::open_files()
{
    return open_handles;
}

extern "C" {
FILE * fopen64(const char * name, const char * mode)
{
    if (ours(name))
        return open_ours(name, mode);
    static auto f = real<FILE * (*)(const char *, const char *)>("fopen64");
    return f(name, mode);
}

FILE * fopen(const char * name, const char * mode)
{
    if (ours(name))
        return open_ours(name, mode);
    static auto f = real<FILE * (*)(const char *, const char *)>("fopen");
    return f(name, mode);
}

int fclose(FILE * s)
{
    static auto f = real<int (*)(FILE *)>("fclose");
    int fd = s ? fileno(s) : -1;
    if (auto h = handle(fd)) {
        NoAllocationFaults quiet;
        h->open = false;
        --open_handles;
        f(s);
        auto & d = disk();
        if (h->writing && ++d.closes == d.plan.fail_close) {
            ++d.injected;
            ++d.failed;
            errno = d.plan.error ? d.plan.error : EIO;
            return EOF;
        }
        return 0;
    }
    return f(s);
}

ssize_t write(int fd, const void * b, size_t n)
{
    if (auto h = handle(fd)) {
        iovec v{const_cast<void *>(b), n};
        return write_ours(*h, &v, 1);
    }
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const iovec * v, int n)
{
    if (auto h = handle(fd))
        return write_ours(*h, v, n);
    return syscall(SYS_writev, fd, v, n);
}

ssize_t read(int fd, void * b, size_t n)
{
    if (auto h = handle(fd)) {
        if (in_process())
            process_step();
        auto & d = disk();
        auto & p = d.plan;
        ++d.reads;
        if (d.reads == p.fail_read) {
            ++d.injected;
            ++d.failed;
            errno = p.error ? p.error : EIO;
            return -1;
        }
        if (d.rng.permille(p.eintr_permille)) {
            ++d.injected;
            errno = EINTR;
            return -1;
        }
        auto & content = d.files[h->name];
        size_t k = min(n, content.size() - min(h->at, content.size()));
        if (k > 1 && d.rng.permille(p.short_read_permille)) {
            ++d.injected;
            k = 1 + d.rng.below(k - 1);
        }
        memcpy(b, content.data() + h->at, k);
        h->at += k;
        return (ssize_t)k;
    }
    return syscall(SYS_read, fd, b, n);
}

int clock_gettime(clockid_t c, timespec * t)
{
    if (! sim_clock.simulated)
        return real_clock_gettime(c, t);
    auto & k = sim_clock;
    ++k.reads;
    if (! k.wild) {
        i64 now = k.now + (c == CLOCK_MONOTONIC ? 0 : k.offset);
        t->tv_sec = now / 1000000000;
        t->tv_nsec = now % 1000000000;
        return 0;
    }
    if (k.rng.permille(100)) { // a jump; the monotonic clock only goes forwards
        ++k.jumps;
        k.now += k.rng.range(0, 1) ? k.rng.range(0, 1000000000) : k.rng.range(0, 1000000000) * 86400;
    }
    else
        k.now += k.rng.range(0, 100000);
    i64 now = k.now;
    if (c != CLOCK_MONOTONIC && k.rng.permille(200)) // the other one may be set back
        now -= k.rng.range(0, 1000000000) * 3600;
    if (now < 0)
        now = 0;
    t->tv_sec = now / 1000000000;
    t->tv_nsec = now % 1000000000;
    return 0;
}
}

namespace
{
    // A block counted as the solver's starts with a mark which says so.
    constexpr unsigned long marked = 0x600d600d600d600dUL, unmarked = 0x0badf00d0badf00dUL;

    void * give(size_t n, size_t align, bool can_throw)
    {
        auto & m = memory;
        bool counted = m.counting;
        if (counted) {
            ++m.allocations;
            if (m.fail_at >= 0 && m.allocations >= m.fail_at && m.allocations <= m.fail_at + m.fail_more) {
                ++m.failed;
                if (can_throw) {
                    ++m.thrown;
                    throw bad_alloc{};
                }
                return nullptr;
            }
        }
        size_t head = max<size_t>(align, alignof(max_align_t));
        n += head;
        char * p = nullptr;
        if (align > alignof(max_align_t))
            p = (char *)aligned_alloc(align, (n + align - 1) / align * align);
        else if (m.scatter) {
            p = (char *)malloc(n + 16 * m.rng.below(12));
            if (p && m.rng.chance(30)) {
                char * q = (char *)malloc(n + 16 * m.rng.below(40));
                if (q) {
                    free(p);
                    p = q;
                }
            }
            if (p)
                memset(p, (int)m.rng.below(256), n);
        }
        else
            p = (char *)malloc(n);
        if (! p) {
            if (can_throw)
                throw bad_alloc{};
            return nullptr;
        }
        if (counted)
            ++m.live;
        memcpy(p, counted ? &marked : &unmarked, sizeof marked);
        return p + head;
    }
    void take(void * b, size_t align = alignof(max_align_t))
    {
        if (! b)
            return;
        char * p = (char *)b - max<size_t>(align, alignof(max_align_t));
        unsigned long mark;
        memcpy(&mark, p, sizeof mark);
        if (mark == marked)
            --memory.live;
        else if (mark != unmarked) {
            static const char says[] = "sim: what is freed was not allocated, or its header has been written over\n";
            (void)! syscall(SYS_write, 2, says, sizeof says - 1);
            abort();
        }
        if (memory.scatter)
            memset(p, 0xdd, malloc_usable_size(p));
        else
            memset(p, 0xdd, sizeof mark);
        free(p);
    }
}

void * operator new(size_t n)
{
    return give(n, 1, true);
}
void * operator new[](size_t n)
{
    return give(n, 1, true);
}
void * operator new(size_t n, const nothrow_t &) noexcept
{
    return give(n, 1, false);
}
void * operator new[](size_t n, const nothrow_t &) noexcept
{
    return give(n, 1, false);
}
void * operator new(size_t n, align_val_t a)
{
    return give(n, (size_t)a, true);
}
void * operator new[](size_t n, align_val_t a)
{
    return give(n, (size_t)a, true);
}
void operator delete(void * p) noexcept
{
    take(p);
}
void operator delete[](void * p) noexcept
{
    take(p);
}
void operator delete(void * p, size_t) noexcept
{
    take(p);
}
void operator delete[](void * p, size_t) noexcept
{
    take(p);
}
void operator delete(void * p, align_val_t a) noexcept
{
    take(p, (size_t)a);
}
void operator delete[](void * p, align_val_t a) noexcept
{
    take(p, (size_t)a);
}
void operator delete(void * p, size_t, align_val_t a) noexcept
{
    take(p, (size_t)a);
}
void operator delete[](void * p, size_t, align_val_t a) noexcept
{
    take(p, (size_t)a);
}
