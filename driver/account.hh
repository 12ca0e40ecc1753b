// Accounting of resources held by the library, and failures of its storage calls.
//
// The driver's own definitions of malloc & co. and of the calls that create, size and
// map files take the place of libc's for the whole process. Blocks allocated while a
// Region is open count as the library's until freed.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iconv.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace Account {

static int depth = 0;                 // open regions
static long blocks = 0, bytes = 0;    // live, allocated in regions
static long blocks0 = 0, bytes0 = 0, fd0 = 0, map0 = 0, priv0 = 0;
static long priv = 0;                 // pages of private mappings made in regions
static int armed = 0, calls = 0;      // fail the armed-th storage call
static bool sticky = false, fired_ = false;

struct Region { Region() { depth++; } ~Region() { depth--; } };

// open-addressing table of live blocks
struct Slot { uintptr_t p; size_t n; };
static const size_t SLOTS = 1u << 21;
static Slot slots[SLOTS];
static size_t hashOf(uintptr_t p) { return (size_t)((p >> 4) * 0x9E3779B97F4A7C15ULL >> 43) & (SLOTS - 1); }
static void put(void *q, size_t n) {
    if(!q || !depth) return;
    uintptr_t p = (uintptr_t)q;
    size_t i = hashOf(p);
    while(slots[i].p) i = (i + 1) & (SLOTS - 1);
    slots[i].p = p; slots[i].n = n;
    if((size_t)++blocks > SLOTS / 2) _exit(3);
    bytes += n;
}
static size_t take(void *q) {        // forget a block
    uintptr_t p = (uintptr_t)q;
    if(!p) return (size_t)-1;
    size_t i = hashOf(p);
    while(slots[i].p && slots[i].p != p) i = (i + 1) & (SLOTS - 1);
    if(!slots[i].p) return (size_t)-1;
    size_t n = slots[i].n;
    blocks--; bytes -= n;
    size_t hole = i;
    for(size_t j = (i + 1) & (SLOTS - 1); slots[j].p; j = (j + 1) & (SLOTS - 1)) {
        size_t h = hashOf(slots[j].p);
        if(((j - h) & (SLOTS - 1)) >= ((j - hole) & (SLOTS - 1))) { slots[hole] = slots[j]; hole = j; }
    }
    slots[hole].p = 0;
    return n;
}

static bool fail() {                  // should this storage call fail?
    if(!depth || !armed) return false;
    calls++;
    if(calls == armed || (sticky && calls > armed)) { fired_ = true; return true; }
    return false;
}
static void arm(int k, bool stick) { armed = k; calls = 0; sticky = stick; fired_ = false; }
static bool disarm() { armed = 0; return fired_; }

template<class F> static F next(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
static uintptr_t privAt[4096];       // where those mappings are
static long pages(size_t n) { return (long)((n + 4095) / 4096); }

static long countFds() {
    DIR *d = opendir("/proc/self/fd");
    if(!d) return 0;
    long n = 0;
    while(readdir(d)) n++;
    closedir(d);
    return n;
}
static long sharedPages() {           // pages of writable shared mappings
    int f = (int)syscall(SYS_openat, AT_FDCWD, "/proc/self/maps", O_RDONLY, 0);
    if(f < 0) return 0;
    static char buf[1 << 20];
    size_t n = 0;
    for(;;) {
        ssize_t k = read(f, buf + n, sizeof(buf) - 1 - n);
        if(k <= 0) break;
        n += k;
        if(n == sizeof(buf) - 1) break;
    }
    close(f);
    buf[n] = 0;
    long total = 0;
    for(char *l = buf; l && *l; ) {
        unsigned long a, b;
        char perm[8];
        if(sscanf(l, "%lx-%lx %7s", &a, &b, perm) == 3 && perm[3] == 's' && perm[1] == 'w') total += (b - a) / 4096;
        l = strchr(l, '\n');
        if(l) l++;
    }
    return total;
}
static void baseline() {
    blocks0 = blocks; bytes0 = bytes; priv0 = priv;
    fd0 = countFds(); map0 = sharedPages();
}
static void init() {
    // conversion modules stay loaded, so that loading them is not taken for a leak
    static iconv_t keep[4] = { iconv_open("UTF-16LE", "UTF-8"), iconv_open("UTF-8", "UTF-16LE"),
                               iconv_open("UTF-32LE", "UTF-8"), iconv_open("UTF-8", "UTF-32LE") };
    (void)keep;
    baseline();
}
template<class O> static void report(O &r) {
    int d = depth; depth = 0;
    long b = blocks - blocks0, y = bytes - bytes0, f = countFds() - fd0, m = sharedPages() - map0 + priv - priv0;
    depth = d;
    r.num("fd", f); r.num("map", m); r.num("blocks", b); r.num("bytes", y);
}
}

extern "C" {
#ifndef NOMALLOC    // address-checked builds have an allocator of their own
void *malloc(size_t n) { void *p = __libc_malloc(n); Account::put(p, n); return p; }
void free(void *p) { Account::take(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); Account::put(p, a*b); return p; }
void *realloc(void *q, size_t n) {
    size_t old = Account::take(q);
    void *p = __libc_realloc(q, n);
    if(p || n == 0) {
        if(old != (size_t)-1) { Account::depth++; Account::put(p, n); Account::depth--; } else Account::put(p, n);
    } else if(old != (size_t)-1) { Account::depth++; Account::put(q, old); Account::depth--; }
    return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); Account::put(p, n); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if(!p) return ENOMEM; *r = p; return 0; }
#endif

FILE *tmpfile() { if(Account::fail()) { errno = ENOSPC; return nullptr; } return Account::next<FILE*(*)()>("tmpfile")(); }
FILE *tmpfile64() { if(Account::fail()) { errno = ENOSPC; return nullptr; } return Account::next<FILE*(*)()>("tmpfile64")(); }
int mkstemp(char *t) { if(Account::fail()) { errno = ENOSPC; return -1; } return Account::next<int(*)(char*)>("mkstemp")(t); }
int mkstemp64(char *t) { if(Account::fail()) { errno = ENOSPC; return -1; } return Account::next<int(*)(char*)>("mkstemp64")(t); }
int mkostemp(char *t, int f) { if(Account::fail()) { errno = ENOSPC; return -1; } return Account::next<int(*)(char*,int)>("mkostemp")(t, f); }
int memfd_create(const char *n, unsigned f) throw() { if(Account::fail()) { errno = ENOMEM; return -1; } return (int)syscall(SYS_memfd_create, n, f); }
int shm_open(const char *n, int o, mode_t m) { if(Account::fail()) { errno = ENOSPC; return -1; } return Account::next<int(*)(const char*,int,mode_t)>("shm_open")(n, o, m); }
int ftruncate(int f, off_t n) throw() { if(Account::fail()) { errno = ENOSPC; return -1; } return (int)syscall(SYS_ftruncate, f, n); }
int ftruncate64(int f, off64_t n) throw() { return ftruncate(f, n); }
int fallocate(int f, int m, off_t o, off_t n) { if(Account::fail()) { errno = ENOSPC; return -1; } return (int)syscall(SYS_fallocate, f, m, o, n); }
int posix_fallocate(int f, off_t o, off_t n) { if(Account::fail()) return ENOSPC; return syscall(SYS_fallocate, f, 0, o, n) ? errno : 0; }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) throw() {
    if(Account::fail()) { errno = ENOMEM; return MAP_FAILED; }
    void *p = (void*)syscall(SYS_mmap, a, n, pr, fl, fd, o);
    if(p != MAP_FAILED && Account::depth && !(fl & MAP_SHARED))
        for(auto &x : Account::privAt) if(!x) { x = (uintptr_t)p; Account::priv += Account::pages(n); break; }
    return p;
}
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off64_t o) throw() { return mmap(a, n, pr, fl, fd, o); }
int munmap(void *a, size_t n) throw() {
    int r = (int)syscall(SYS_munmap, a, n);
    if(r == 0) for(auto &x : Account::privAt) if(x && x == (uintptr_t)a) { x = 0; Account::priv -= Account::pages(n); break; }
    return r;
}
void *mremap(void *a, size_t n, size_t m, int fl, ...) throw() {
    if(Account::fail()) { errno = ENOMEM; return MAP_FAILED; }
    return (void*)syscall(SYS_mremap, a, n, m, fl, 0);
}
}
