// Deterministic simulator: heap and operating-system memory behind seams, with life-time tracking.
#include "rt_internal.h"

#include <errno.h>
#include <hwloc.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim
{
    bool mem_in_run = false;
    unsigned n_pus = 2;
    bool mem_dirty = false;

    // ------------------------------------------------------------ regions
    static uint8_t* const hshadow = (uint8_t*) HEAP_SHADOW; // per 16 bytes: 0 red zone, 1..16 valid bytes, 0xfd freed
    static uint8_t* const oshadow = (uint8_t*) OS_SHADOW; // per 8 bytes: 0 never obtained, 1 live, 0xfc block released, 0xfd returned
    constexpr uint8_t FREED = 0xfd, BLKFREED = 0xfc;
    static uintptr_t heap_top, os_top, parent_top;
    static bool mapped;
    static uint64_t live_blocks;

    struct Hdr
    {
        uint32_t size; // requested
        uint32_t cls; // size class in 16 byte units
        uint32_t magic;
        uint32_t pad;
    };
    constexpr uint32_t LIVE = 0x11ce11ce, DEAD = 0xdeadb10c;
    struct FreeNode
    {
        FreeNode* next;
    };
    constexpr int NCLS = 1 << 13;
    static FreeNode* freelist[NCLS];

    static void map_regions()
    {
        auto m = [](uintptr_t a, size_t n)
        {
            void* p = mmap((void*) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if(p == MAP_FAILED)
            {
                static char const msg[] = "simulator: cannot map memory region\n";
                (void) !write(2, msg, sizeof msg - 1);
                _exit(93);
            }
        };
        mapped = true;
        m(PARENT_BASE, PARENT_SIZE);
        m(HEAP_BASE, HEAP_SIZE);
        m(HEAP_SHADOW, HEAP_SIZE / 16);
        m(OS_BASE, OS_SIZE);
        m(OS_SHADOW, OS_SIZE / 8);
        parent_top = PARENT_BASE;
        heap_top = HEAP_BASE + 4096;
        os_top = OS_BASE + 65536;
    }
    void mem_init()
    {
        if(!mapped)
            map_regions();
    }
    void mem_begin_run()
    {
        mem_in_run = true;
    }

    static inline bool in_heap(uintptr_t a)
    {
        return a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE;
    }
    static inline bool in_os(uintptr_t a)
    {
        return a >= OS_BASE && a < OS_BASE + OS_SIZE;
    }

    [[gnu::noinline]] static void bad_access(uintptr_t a, size_t n, bool write, void* pc, uint8_t s, char const* where)
    {
        char const* what = s == FREED ? "released" : s == BLKFREED ? "released (arena block)" : "unallocated";
        if(s == FREED || s == BLKFREED)
            fail("use-after-free", "%s of %zu bytes of %s %s memory at %p (code %p)", write ? "write" : "read", n, what, where, (void*) a, pc);
        fail("out-of-bounds", "%s of %zu bytes of %s %s memory at %p (code %p)", write ? "write" : "read", n, what, where, (void*) a, pc);
    }
    void shadow_check(void const* p, size_t n, bool write, void* pc)
    {
        uintptr_t a = (uintptr_t) p;
        if(in_heap(a))
        {
            uintptr_t e = a + n;
            for(uintptr_t g = a & ~15ull; g < e; g += 16)
            {
                uint8_t s = hshadow[(g - HEAP_BASE) >> 4];
                if(s == 16)
                    continue;
                if(s == 0 || s > 16)
                    bad_access(a, n, write, pc, s, "heap");
                uintptr_t lim = e < g + 16 ? e : g + 16;
                if(lim - g > s)
                    bad_access(a, n, write, pc, 0, "heap");
            }
        }
        else if(in_os(a))
        {
            for(uintptr_t g = a & ~7ull; g < a + n; g += 8)
            {
                uint8_t s = oshadow[(g - OS_BASE) >> 3];
                if(s != 1)
                    bad_access(a, n, write, pc, s, "system");
            }
        }
        else if(a < 4096 && G.active)
            fail("crash", "null pointer access at %p (code %p)", p, pc);
    }

    // ------------------------------------------------------------ malloc family
    static void* parent_alloc(size_t n, size_t align)
    {
        if(!mapped)
            map_regions();
        if(align < 16)
            align = 16;
        uintptr_t p = (parent_top + 16 + align - 1) & ~(align - 1);
        *(size_t*) (p - 16) = n;
        parent_top = p + n;
        if(parent_top > PARENT_BASE + PARENT_SIZE)
            _exit(92);
        return (void*) p;
    }
    static uint8_t dirt(uint64_t i)
    {
        return (uint8_t) (0xa5 ^ (i * 0x3b));
    }
    static void fill(uintptr_t p, size_t n)
    {
        if(!mem_dirty)
            return;
        if(n > 65536)
            n = 65536;
        memset((void*) p, dirt(p >> 4), n);
    }
    static void set_shadow(uintptr_t p, size_t n, bool live)
    {
        uint8_t* s = hshadow + ((p - HEAP_BASE) >> 4);
        size_t g = n / 16;
        memset(s, live ? 16 : FREED, g);
        if(n % 16)
            s[g] = live ? n % 16 : FREED;
        if(n == 0)
            s[0] = live ? 0 : FREED;
    }
    static void* run_alloc(size_t n, size_t align)
    {
        uint32_t cls = (uint32_t) ((n + 15) / 16);
        if(cls == 0)
            cls = 1;
        uintptr_t p;
        if(G.reuse && align <= 16 && cls < NCLS && freelist[cls])
        {
            FreeNode* f = freelist[cls];
            freelist[cls] = f->next;
            p = (uintptr_t) f;
        }
        else
        {
            if(align < 16)
                align = 16;
            p = (heap_top + 16 + align - 1) & ~(align - 1);
            heap_top = p + (size_t) cls * 16 + 16;
            if(heap_top > HEAP_BASE + HEAP_SIZE)
                discard("simulated heap exhausted");
        }
        Hdr* h = (Hdr*) (p - 16);
        h->size = (uint32_t) n;
        h->cls = cls;
        h->magic = LIVE;
        fill(p, n);
        set_shadow(p, n, true);
        live_blocks++;
        return (void*) p;
    }
    void flush_current();
    static void run_free(uintptr_t p)
    {
        Hdr* h = (Hdr*) (p - 16);
        if((p & 15) || h->magic != LIVE)
        {
            if(G.active)
                fail(h->magic == DEAD ? "double-free" : "bad-free", "free(%p) of a block that is %s", (void*) p, h->magic == DEAD ? "already released" : "not allocated");
            return;
        }
        flush_current();
        h->magic = DEAD;
        live_blocks--;
        set_shadow(p, h->size, false);
        if(G.reuse && h->cls < NCLS)
        {
            FreeNode* f = (FreeNode*) p;
            f->next = freelist[h->cls];
            freelist[h->cls] = f;
        }
    }
    static void* any_alloc(size_t n, size_t align)
    {
        return mem_in_run ? run_alloc(n, align) : parent_alloc(n, align);
    }
    static size_t usable(void* p)
    {
        uintptr_t a = (uintptr_t) p;
        if(in_heap(a))
            return ((Hdr*) (a - 16))->size;
        if(a >= PARENT_BASE && a < PARENT_BASE + PARENT_SIZE)
            return *(size_t*) (a - 16);
        return 0;
    }
    uint64_t heap_live_blocks()
    {
        return live_blocks;
    }
} // namespace sim

using namespace sim;
extern "C"
{
    void* malloc(size_t n)
    {
        return any_alloc(n, 16);
    }
    void free(void* p)
    {
        if(in_heap((uintptr_t) p))
            run_free((uintptr_t) p);
    }
    void* calloc(size_t a, size_t b)
    {
        size_t n;
        if(__builtin_mul_overflow(a, b, &n))
            return nullptr;
        void* p = any_alloc(n, 16);
        memset(p, 0, n);
        return p;
    }
    void* realloc(void* p, size_t n)
    {
        if(!p)
            return malloc(n);
        size_t o = usable(p);
        void* q = any_alloc(n, 16);
        memcpy(q, p, o < n ? o : n);
        free(p);
        return q;
    }
    void* memalign(size_t al, size_t n)
    {
        return any_alloc(n, al);
    }
    void* aligned_alloc(size_t al, size_t n)
    {
        return any_alloc(n, al);
    }
    int posix_memalign(void** out, size_t al, size_t n)
    {
        *out = any_alloc(n, al);
        return 0;
    }
    void* valloc(size_t n)
    {
        return any_alloc(n, 4096);
    }
    size_t malloc_usable_size(void* p)
    {
        return p ? usable(p) : 0;
    }
}

// ================================================================ the machine: hwloc
namespace sim
{
    struct OsChunk
    {
        uintptr_t p;
        size_t n;
        size_t real;
        bool live;
        bool old;
        uint64_t serial;
    };
    constexpr int MAXCH = 1 << 15;
    static OsChunk ch[MAXCH];
    static int n_ch;
    static uint64_t live_bytes, peak_bytes, total_allocs, failed_allocs;
    static int live_chunks;
    static int free_ch[MAXCH];
    static int n_free_ch;

    uint64_t os_live_bytes()
    {
        return live_bytes;
    }
    uint64_t os_live_chunks()
    {
        return live_chunks;
    }
    uint64_t os_peak_bytes()
    {
        return peak_bytes;
    }
    uint64_t os_total_allocs()
    {
        return total_allocs;
    }
    uint64_t os_failed_allocs()
    {
        return failed_allocs;
    }
    void os_mark_epoch()
    {
        for(int i = 0; i < n_ch; ++i)
            ch[i].old = true;
    }
    uint64_t os_live_bytes_before_epoch()
    {
        uint64_t s = 0;
        for(int i = 0; i < n_ch; ++i)
            if(ch[i].old && ch[i].live)
                s += ch[i].n;
        return s;
    }
    bool os_owned(void const* p, size_t n)
    {
        uintptr_t a = (uintptr_t) p;
        for(int i = n_ch - 1; i >= 0; --i)
            if(ch[i].live && a >= ch[i].p && a + n <= ch[i].p + ch[i].n)
                return true;
        return false;
    }
    uint64_t os_serial(void const* p)
    {
        uintptr_t a = (uintptr_t) p;
        for(int i = n_ch - 1; i >= 0; --i)
            if(ch[i].live && a >= ch[i].p && a < ch[i].p + ch[i].n)
                return ch[i].serial;
        return 0;
    }
    int osalloc_tid = -1; // thread that may be refused memory; -1: any, -2: none
    void* os_alloc(size_t n)
    {
        if(osalloc_tid != -2 && (osalloc_tid == -1 || osalloc_tid == tid()) && inject(F_OSALLOC))
        {
            failed_allocs++;
            errno = ENOMEM;
            return nullptr;
        }
        size_t real = (n + 63) & ~63ull;
        OsChunk* c = nullptr;
        if(G.reuse)
            for(int i = n_free_ch - 1; i >= 0; --i)
                if(ch[free_ch[i]].real == real)
                {
                    c = &ch[free_ch[i]];
                    free_ch[i] = free_ch[--n_free_ch];
                    break;
                }
        if(!c)
        {
            if(n_ch == MAXCH || os_top + real + 4096 > OS_BASE + OS_SIZE)
                discard("simulated system memory exhausted");
            c = &ch[n_ch++];
            c->p = os_top;
            c->real = real;
            os_top += real + 64;
        }
        c->n = n;
        c->live = true;
        c->old = false;
        live_bytes += n;
        live_chunks++;
        c->serial = ++total_allocs;
        if(live_bytes > peak_bytes)
            peak_bytes = live_bytes;
        if(mem_dirty)
            fill(c->p, n);
        else if(G.reuse)
            memset((void*) c->p, 0, n);
        memset(oshadow + ((c->p - OS_BASE) >> 3), 1, (n + 7) / 8);
        mix(0x05a110c ^ n);
        return (void*) c->p;
    }
    int os_free(void* p, size_t n)
    {
        flush_current();
        for(int i = n_ch - 1; i >= 0; --i)
            if(ch[i].p == (uintptr_t) p)
            {
                OsChunk& c = ch[i];
                if(!c.live)
                    fail("os-double-free", "memory at %p returned to the system twice", p);
                if(c.n != n)
                    fail("os-free-len", "memory at %p obtained with %zu bytes is returned with %zu bytes", p, c.n, n);
                c.live = false;
                live_bytes -= c.n;
                live_chunks--;
                memset(oshadow + ((c.p - OS_BASE) >> 3), FREED, (c.n + 7) / 8);
                if(n_free_ch < MAXCH)
                    free_ch[n_free_ch++] = i;
                mix(0x05f4ee ^ n);
                return 0;
            }
        fail("os-bad-free", "memory at %p returned to the system but never obtained from it", p);
    }

    // life time of blocks inside arena chunks
    void arena_block_live(uintptr_t p, size_t n)
    {
        if(!in_os(p) || n < 8)
            return;
        uintptr_t a = (p + 7) & ~7ull, e = (p + n) & ~7ull;
        for(; a < e; a += 8)
        {
            uint8_t& s = oshadow[(a - OS_BASE) >> 3];
            if(s == BLKFREED)
                s = 1;
        }
    }
    // n: number of bytes known to belong to the block
    void arena_block_dead(uintptr_t p, size_t n)
    {
        if(!in_os(p) || n < 8)
            return;
        flush_current();
        uintptr_t a = (p + 7) & ~7ull, e = (p + n) & ~7ull;
        for(; a < e; a += 8)
        {
            uint8_t& s = oshadow[(a - OS_BASE) >> 3];
            if(s == 1)
                s = BLKFREED;
        }
    }

    static hwloc_obj pu[64];
    static int topo;
    static void make_pus()
    {
        static bool done;
        if(done)
            return;
        done = true;
        for(unsigned i = 0; i < 64; ++i)
        {
            pu[i].type = HWLOC_OBJ_PU;
            pu[i].os_index = pu[i].logical_index = i;
            pu[i].cpuset = hwloc_bitmap_alloc();
            hwloc_bitmap_only(pu[i].cpuset, i);
            pu[i].nodeset = hwloc_bitmap_alloc();
            hwloc_bitmap_only(pu[i].nodeset, 0);
        }
    }
    void hw_init()
    {
        make_pus();
    }
} // namespace sim

extern "C"
{
    int hwloc_topology_init(hwloc_topology_t* t)
    {
        *t = (hwloc_topology_t) &topo;
        return 0;
    }
    int hwloc_topology_load(hwloc_topology_t)
    {
        return 0;
    }
    void hwloc_topology_destroy(hwloc_topology_t)
    {
    }
    int hwloc_get_type_depth(hwloc_topology_t, hwloc_obj_type_t t)
    {
        return t == HWLOC_OBJ_PU || t == HWLOC_OBJ_CORE ? 1 : 0;
    }
    unsigned hwloc_get_nbobjs_by_depth(hwloc_topology_t, int d)
    {
        return d == 1 ? n_pus : 1;
    }
    hwloc_obj_t hwloc_get_obj_by_depth(hwloc_topology_t, int d, unsigned i)
    {
        if(d == 1)
            return i < n_pus ? &pu[i] : nullptr;
        return i == 0 ? &pu[0] : nullptr;
    }
    static int bind_result()
    {
        if(G.active && inject(F_BIND))
        {
            errno = ENOSYS;
            return -1;
        }
        return 0;
    }
    int hwloc_set_cpubind(hwloc_topology_t, hwloc_const_cpuset_t, int)
    {
        return bind_result();
    }
    int hwloc_get_cpubind(hwloc_topology_t, hwloc_cpuset_t s, int)
    {
        if(s)
            hwloc_bitmap_only(s, 0);
        return bind_result();
    }
    int hwloc_set_membind(hwloc_topology_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int)
    {
        return bind_result();
    }
    void* hwloc_alloc(hwloc_topology_t, size_t n)
    {
        point();
        return os_alloc(n);
    }
    void* hwloc_alloc_membind(hwloc_topology_t, size_t n, hwloc_const_bitmap_t, hwloc_membind_policy_t, int)
    {
        point();
        return os_alloc(n);
    }
    int hwloc_free(hwloc_topology_t, void* p, size_t n)
    {
        point();
        if(!p)
            return 0;
        return os_free(p, n);
    }

    // memory mapped directly by the code under test would bypass the seam; nothing in redGrapes does so.

    // ---- life times of arena blocks: the calls between redGrapes' own object files are wrapped by the linker
    struct Blk
    {
        uintptr_t ptr;
        size_t len;
    };
    Blk __real__ZN9redGrapes6memory13BumpAllocator8allocateEm(void*, size_t) __attribute__((weak));
    size_t __real__ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE(void*, Blk) __attribute__((weak));

    struct LiveBlk
    {
        uintptr_t p;
        uint32_t n;
    };
    constexpr uint32_t LBN = 1u << 18;
    static LiveBlk lb[LBN]; // open addressing; p == 1: deleted
    static uint32_t lbh(uintptr_t p)
    {
        return (uint32_t) ((p * 0x9e3779b97f4a7c15ull) >> 40) & (LBN - 1);
    }
    static void lb_put(uintptr_t p, size_t n)
    {
        uint32_t h = lbh(p);
        for(uint32_t i = 0; i < LBN; ++i)
        {
            LiveBlk& b = lb[(h + i) & (LBN - 1)];
            if(b.p <= 1 || b.p == p)
            {
                b.p = p;
                b.n = (uint32_t) n;
                return;
            }
        }
    }
    static size_t lb_take(uintptr_t p)
    {
        uint32_t h = lbh(p);
        for(uint32_t i = 0; i < LBN; ++i)
        {
            LiveBlk& b = lb[(h + i) & (LBN - 1)];
            if(b.p == 0)
                return 0;
            if(b.p == p)
            {
                b.p = 1;
                return b.n;
            }
        }
        return 0;
    }
    Blk __wrap__ZN9redGrapes6memory13BumpAllocator8allocateEm(void* self, size_t n)
    {
        Blk b = __real__ZN9redGrapes6memory13BumpAllocator8allocateEm(self, n);
        if(b.ptr)
        {
            lb_put(b.ptr, n);
            arena_block_live(b.ptr, n);
        }
        return b;
    }
    size_t __wrap__ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE(void* self, Blk b)
    {
        size_t n = lb_take(b.ptr);
        if(n)
            arena_block_dead(b.ptr, n);
        return __real__ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE(self, b);
    }
}
