// Live C++ objects: operator new and delete with counters, for programs that
// check that a repeated piece of work leaves nothing behind.
#pragma once
#include <atomic>
#include <cstdlib>
#include <malloc.h>
#include <new>

static std::atomic<long> liveBytes(0), liveObjects(0);

static void* countedNew(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    liveBytes += malloc_usable_size(p);
    liveObjects++;
    return p;
}
static void countedDelete(void* p)
{
    if (!p) return;
    liveBytes -= malloc_usable_size(p);
    liveObjects--;
    std::free(p);
}
void* operator new(std::size_t n) { return countedNew(n); }
void* operator new[](std::size_t n) { return countedNew(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return countedNew(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return countedNew(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { countedDelete(p); }
void operator delete[](void* p) noexcept { countedDelete(p); }
void operator delete(void* p, std::size_t) noexcept { countedDelete(p); }
void operator delete[](void* p, std::size_t) noexcept { countedDelete(p); }
