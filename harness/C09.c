/* C09: memory of the pool. The verifier sees the header of the pool and its first bytes; the fill of a block is observed as
   the call memset(place,0,size) (ghost record), so pools of every size up to 2 GB are covered. */
#ifdef VH_CBMC
static char *m_at; static unsigned long m_n; static int m_calls,m_v;
void *memset(void *p,int v,unsigned long n) { m_at = p; m_n = n; m_v = v; m_calls++; return p; }
#define ROOM 96
#ifndef MAXPOOL
#define MAXPOOL 0x7ffff000
#endif
#else
#define ROOM 0x40000
#define MAXPOOL ROOM
#endif
static _Alignas(16) unsigned char mem[sizeof(struct BW_pool) + ROOM];
#define MAX_BW_PLUGINS 32
static struct BW_pool P0;
#ifdef VH_CBMC
#define OFF(p) ((int)__CPROVER_POINTER_OFFSET(p))
#else
#define OFF(p) ((int)((char*)(p) - (char*)mem))
extern struct BW_plugins plugins asm("_ZN9pklib_xml7pluginsE");
#endif
#define PL ((struct BW_pool*)mem)
#define HDR ((int)sizeof(struct BW_pool))
#ifdef VH_CBMC
#define IN_POOL(p) CHECK("block_is_of_this_pool",__CPROVER_same_object((void*)(p),(void*)mem));
#else
#define IN_POOL(p)
#endif
static int up(int x,int a) { return (x + a - 1) & ~(a - 1); }
/* an arbitrary fill level */
static void any_pool(int any_place)
{
#if VH_NATIVE
    memset(mem,0xAA,sizeof mem);
#endif
    PL->mmap_size = (unsigned)in_range(HDR,MAXPOOL) & ~7u; ASSUME(PL->mmap_size >= HDR);
    PL->file_size = (unsigned)in_range(HDR,PL->mmap_size) & ~7u; ASSUME(PL->file_size >= HDR);
    PL->allocator_limit = (int)PL->file_size;
    PL->allocator = (int)in_range(HDR,any_place ? PL->allocator_limit : HDR + 16) & ~3;
    ASSUME(PL->allocator >= HDR && PL->allocator <= PL->allocator_limit);
    P0 = *PL;
}
static int same_but_allocator(void) { int a = PL->allocator; PL->allocator = P0.allocator; int r = memcmp(PL,&P0,sizeof P0) == 0; PL->allocator = a; return r; }
static int zeroed(char *p,int n)
{
#ifdef VH_CBMC
    return m_calls == 1 && m_at == p && m_n >= (unsigned long)n && m_v == 0 && OFF(p) + (long)m_n <= PL->allocator;
#else
    for (int i = 0;i < n;i++) if (p[i] != 0) return 0;
    /* nothing outside of the block */
    for (int i = HDR;i < (int)sizeof mem;i++) if ((i < p - (char*)mem || i >= PL->allocator) && mem[i] != 0xAA) return 0;
    return 1;
#endif
}
static int untouched(void)
{
#ifdef VH_CBMC
    return m_calls == 0;
#else
    for (int i = HDR;i < (int)sizeof mem;i++) if (mem[i] != 0xAA) return 0;
    return 1;
#endif
}
#define ALLOC(NAME,FN,AL) \
H(NAME) \
{ \
    any_pool(1); int size = in_bool() ? (int)in_range(-2147483647-1,2147483647) : (int)in_range(-8,300); \
    char *r = FN(PL,size); \
    int start = up(P0.allocator,AL),fits = size > 0 && size <= P0.allocator_limit - start - (P0.allocator_limit - start) % AL; \
    CHECK("block_given_iff_it_fits",(r != 0) == fits); \
    if (r) \
    { \
        int o = OFF(r); \
        IN_POOL(r) \
        CHECK("block_is_aligned",o % AL == 0); \
        CHECK("block_is_behind_all_earlier_blocks",o >= P0.allocator); \
        CHECK("block_is_inside_the_pool",o >= HDR && size <= PL->allocator_limit - o); \
        CHECK("later_blocks_start_behind_it",PL->allocator - o >= size && PL->allocator <= PL->allocator_limit && PL->allocator % 4 == 0); \
        CHECK("no_waste_over_alignment",PL->allocator - P0.allocator < size + 2*AL); \
        CHECK("block_is_zero_filled",zeroed(r,size)); \
    } \
    else { CHECK("refusal_keeps_the_fill_level",PL->allocator == P0.allocator); CHECK("refusal_changes_nothing",untouched()); } \
    CHECK("pool_header_kept",same_but_allocator()); \
    REACH(); \
}
ALLOC(allocate,BW_pool__allocate,4)
ALLOC(allocate8,BW_pool__allocate8,8)
/* two requests in a row: whatever was refused, a request that fits is served */
H(two)
{
    any_pool(1); int s1 = (int)in_range(1,2147483647),s2 = (int)in_range(1,2147483647),a1 = in_bool(),a2 = in_bool();
    char *r1 = a1 ? BW_pool__allocate8(PL,s1) : BW_pool__allocate(PL,s1);
    int f = PL->allocator_limit - PL->allocator;
    char *r2 = a2 ? BW_pool__allocate8(PL,s2) : BW_pool__allocate(PL,s2);
    if (r1 && r2) CHECK("two_blocks_are_disjoint",(long)OFF(r1) + s1 <= OFF(r2));
    if (!r1) CHECK("smaller_request_after_a_refusal_is_served",(s2 + 8L <= P0.allocator_limit - P0.allocator) ? r2 != 0 : 1);
    CHECK("served_means_it_was_free",!r2 || s2 <= f);
    REACH();
}
/* ---- the file behind the pool grows */
static struct BW_plugin W0,W1; static int t_fd,t_calls; static long t_size; static int t_fail;
#ifdef VH_CBMC
int ftruncate(int fd,long size) { t_fd = fd; t_size = size; t_calls++; return t_fail ? -1 : 0; }
#else
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#endif
static int the_fd(void)
{
#ifdef VH_CBMC
    t_fail = in_bool(); return 7; /* file descriptor that grows, or fails */
#else
    static int fd = -1; t_fail = in_bool(); if (t_fail) return -1; if (fd < 0) fd = memfd_create("pool",0); if (fd >= 0) (void)!ftruncate(fd,PL->file_size); return fd;
#endif
}
H(make_space)
{
    any_pool(1); int size = in_bool() ? (int)in_range(0,2147483647) : (int)in_range(0,9000);
    PL->mmap_size &= ~4095u; ASSUME(PL->mmap_size >= PL->file_size); P0 = *PL;
    W0.pool = PL; W0.fd = the_fd();
    int r = BW_plugin__makeSpace(&W0,size);
    long need = (long)P0.allocator + size; long page = (need + 4095) / 4096 * 4096;
    CHECK("space_not_beyond_the_mapped_memory",!r || need <= P0.mmap_size);
    CHECK("space_refused_only_when_there_is_none",r || page > P0.mmap_size || t_fail);
    if (r)
    {
        CHECK("space_is_there",PL->allocator_limit - PL->allocator >= size);
        CHECK("limit_is_the_end_of_the_file",PL->allocator_limit == (int)PL->file_size && PL->file_size <= PL->mmap_size);
        CHECK("file_never_shrinks",PL->file_size >= P0.file_size);
#ifdef VH_CBMC
        CHECK("file_has_the_size_of_the_pool",PL->file_size == P0.file_size ? 1 : t_calls == 1 && t_fd == 7 && t_size == (long)PL->file_size);
#else
        struct stat st; CHECK("file_has_the_size_of_the_pool",t_fail || fstat(W0.fd,&st) == 0 && st.st_size == (long)PL->file_size);
#endif
    }
    else CHECK("refused_space_changes_nothing",memcmp(PL,&P0,sizeof P0) == 0);
    CHECK("fill_level_kept",PL->allocator == P0.allocator && PL->mmap_size == P0.mmap_size);
    CHECK("memory_kept",untouched());
    REACH();
}
/* ---- a new element with its value: a block big enough, right aligned; grows the pool when there is no room */
static int in_type(void) { return (int)in_range(0,XBT_LAST-1); }
#ifndef TYPE
#define TYPE in_type()
#endif
H(new_element)
{
    any_pool(0); int t = TYPE,size = in_bool() ? (int)in_range(0,1 << 29) : (int)in_range(0,300);
    ASSUME(t != XBT_VARIANT && t != XBT_UNKNOWN);
    PL->mmap_size &= ~4095u; ASSUME(PL->mmap_size >= PL->file_size); P0 = *PL;
    int st = t == XBT_INT64 || t == XBT_UINT64 || t == XBT_DOUBLE || t == XBT_UNIX_TIME64_MSEC ? 8 : t == XBT_GUID || t == XBT_IPv6 ? 16 : t == XBT_SHA1 ? 20 : t == XBT_NULL ? 0 : t == XBT_STRING ? 1 : t == XBT_BLOB || t == XBT_HEX || t == XBT_BLOB_STRING ? -4 : 4;
    if (st > 1) size = in_bool() ? st : 0;
    if (st == 0) size = 0;
    int val = st == 1 ? size + 1 : st < 0 ? size + 4 : st;
    int reg = in_bool(); W0.pool = PL; W0.fd = the_fd(); W1.pool = 0;
    plugins.plugins_count = 2; plugins.plugins[0] = &W1; plugins.plugins[1] = reg ? &W0 : &W1;
    struct BW_element *e = BW_pool__new_element(PL,t,size);
    plugins.plugins_count = 0;
    int al = st == 8 || t == XBT_IPv6 ? 8 : 4;
    if (e)
    {
        int o = OFF(e); IN_POOL(e)
        CHECK("element_is_aligned",o % al == 0);
        CHECK("element_is_behind_all_earlier_blocks",o >= P0.allocator);
        CHECK("element_and_value_are_inside_the_pool",(long)o + 24 + val <= PL->allocator_limit && PL->allocator <= PL->allocator_limit && PL->allocator_limit <= (int)PL->mmap_size);
        CHECK("next_block_starts_behind_the_value",(long)o + 24 + val <= PL->allocator);
        CHECK("new_element_is_its_own_circle",e->offset == o && e->next == o && e->prev == o);
        CHECK("new_element_is_empty",e->first_child == 0 && e->first_attribute == 0 && e->value_type == t);
        if (st == -4) CHECK("new_blob_knows_its_size",*(int*)(e + 1) >= size && *(int*)(e + 1) + 4 <= PL->allocator - o - 24);
    }
    else
    {
        long V = t == XBT_BLOB_STRING ? 2L*val + 64 : val;
        CHECK("new_element_refused_only_when_full",!reg && (long)P0.allocator + 24 + V + 2*al > P0.allocator_limit || ((long)P0.allocator + 24 + V + 2*al + 4095) / 4096 * 4096 > P0.mmap_size || t_fail);
        CHECK("refused_element_keeps_the_fill_level",PL->allocator == P0.allocator);
    }
    REACH();
}
/* ---- which writer a pool belongs to */
#define NP 5
H(plugin_registry)
{
    static struct BW_plugin w[NP]; static struct BW_pool *pools; int n = (int)in_range(0,NP),gone = (int)in_range(0,NP-1),ask = (int)in_range(0,NP-1);
    plugins.plugins_count = 0;
    for (int i = 0;i < NP;i++) w[i].pool = (struct BW_pool*)(mem + i*8);
    for (int i = 0;i < n;i++) CHECK("writer_is_registered",BW_plugins__registerPlugin(&plugins,&w[i]));
    CHECK("writer_of_a_pool_is_found",BW_plugins__getPlugin(&plugins,w[ask].pool) == (ask < n ? &w[ask] : 0));
    CHECK("registered_writer_can_go",BW_plugins__unregisterPlugin(&plugins,&w[gone]) == (gone < n));
    CHECK("other_writers_stay",BW_plugins__getPlugin(&plugins,w[ask].pool) == (ask < n && ask != gone ? &w[ask] : 0));
    plugins.plugins_count = 0;
    REACH();
}
H(plugin_limit)
{
    static struct BW_plugin w; plugins.plugins_count = (int)in_range(0,MAX_BW_PLUGINS); int n = plugins.plugins_count;
    CHECK("registration_ends_at_the_limit",BW_plugins__registerPlugin(&plugins,&w) == (n < MAX_BW_PLUGINS));
    CHECK("registered_count",plugins.plugins_count == (n < MAX_BW_PLUGINS ? n + 1 : n));
    plugins.plugins_count = 0;
    REACH();
}
