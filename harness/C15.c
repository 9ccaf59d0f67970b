/* C15: SHA-1 (FIPS 180-4) */
static unsigned rl(unsigned x,int n) { return (x << n) | (x >> (32 - n)); }
static unsigned ch(unsigned b,unsigned c,unsigned d) { return (b & c) | (~b & d); }
static unsigned maj(unsigned b,unsigned c,unsigned d) { return (b & c) ^ (b & d) ^ (c & d); }
/* the forms used below; equal to ch, maj by lemma_functions */
static unsigned ch2(unsigned b,unsigned c,unsigned d) { return ((c ^ d) & b) ^ d; }
static unsigned maj2(unsigned b,unsigned c,unsigned d) { return (b & c) + (d & (b ^ c)); }
static unsigned be(const unsigned char *p) { return (unsigned)p[0] << 24 | (unsigned)p[1] << 16 | (unsigned)p[2] << 8 | p[3]; }
static void fips_block(unsigned *h,const unsigned char *m)
{
    unsigned w[80],a = h[0],b = h[1],c = h[2],d = h[3],e = h[4];
    for (int t = 0;t < 16;t++) w[t] = be(m + 4*t);
    for (int t = 16;t < 80;t++) w[t] = rl(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16],1);
    for (int t = 0;t < 80;t++)
    {
        unsigned f = t < 20 ? ch2(b,c,d) : t < 40 ? b ^ c ^ d : t < 60 ? maj2(b,c,d) : b ^ c ^ d;
        unsigned k = t < 20 ? 0x5a827999u : t < 40 ? 0x6ed9eba1u : t < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
        unsigned x = e + (w[t] + rl(a,5) + f + k);
        e = d; d = c; c = rl(b,30); b = a; a = x;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
}
H(lemma_functions)
{
    unsigned b = in_u32(),c = in_u32(),d = in_u32();
    CHECK("choose_form",ch2(b,c,d) == ch(b,c,d)); CHECK("majority_form",maj2(b,c,d) == maj(b,c,d));
    REACH();
}
#if !defined(VH_REPL_blk_SHA1_Block) && !defined(VH_FILE)
H(block)
{
    unsigned char m[64]; IN_BYTES(m,64);
    struct blk_SHA_CTX c; unsigned h[5];
    for (int i = 0;i < 5;i++) h[i] = c.H[i] = in_u32();
    c.size = 0;
    for (int i = 0;i < 16;i++) c.W[i] = 7;
    blk_SHA1_Block(&c,m);
    fips_block(h,m);
    CHECK("compression_is_the_standard_one",c.H[0] == h[0] && c.H[1] == h[1] && c.H[2] == h[2] && c.H[3] == h[3] && c.H[4] == h[4]);
    int same = 1; for (int i = 0;i < 16;i++) if (c.W[i] != 7) same = 0;
    CHECK("compression_keeps_the_rest",c.size == 0 && same);
    REACH();
}
/* the block may be the buffer of the context itself */
H(init)
{
    struct blk_SHA_CTX c; blk_SHA1_Init(&c);
    CHECK("initial_value",c.size == 0 && c.H[0] == 0x67452301u && c.H[1] == 0xefcdab89u && c.H[2] == 0x98badcfeu && c.H[3] == 0x10325476u && c.H[4] == 0xc3d2e1f0u);
    REACH();
}
#endif
/* ---- the message seen as a stream: byte k of everything hashed so far is v.  The compression is replaced by a contract
   that only looks at its 64 bytes (ghost: vh_gpos bytes compressed so far, vh_gseen the byte k once it was seen). */
#if defined(VH_CBMC) && defined(VH_REPL_blk_SHA1_Block)
void blk_SHA1_Block(struct blk_SHA_CTX *ctx,const void *block)
{
    if (vh_gk - vh_gpos < 64) vh_gseen = ((const unsigned char*)block)[vh_gk - vh_gpos];
    vh_gpos += 64;
}
/* memcpy into the buffer of the context: exact for the byte of the buffer where byte k belongs, any value elsewhere */
static struct blk_SHA_CTX X;
void *memcpy(void *d,const void *s,unsigned long n)
{
    unsigned char *w = (unsigned char*)X.W; unsigned long off = (unsigned char*)d - w,j = vh_gk & 63;
    CHECK("copied_into_the_buffer",__CPROVER_same_object(d,(void*)&X) && off <= 64 && n <= 64 - off);
    CHECK("copied_from_the_message",n == 0 || __CPROVER_r_ok(s,n));
    ASSUME(off <= 64 && n <= 64 - off);
    unsigned char v = j - off < n ? ((const unsigned char*)s)[j - off] : w[j];
    for (int i = 0;i < 64;i++) w[i] = i == j ? v : in_u8();
    return d;
}
static int holds(struct blk_SHA_CTX *c)
{
    unsigned long done = c->size & ~63ul;
    return vh_gpos == done && (vh_gk >= done || vh_gseen == vh_gv) && (vh_gk < done || vh_gk >= c->size || ((unsigned char*)c->W)[vh_gk - done] == vh_gv);
}
#ifndef MAXLEN
#define MAXLEN (1ul << 48)
#endif
H(update)
{
    unsigned char *d; unsigned long len = in_urange(0,MAXLEN);
    X.size = in_urange(0,1ul << 60); for (int i = 0;i < 16;i++) X.W[i] = in_u32();
    vh_gk = in_u64(); vh_gv = in_u8(); vh_gseen = in_u8(); vh_gpos = X.size & ~63ul;
    ASSUME(holds(&X));
    d = malloc(len); ASSUME(d != 0); unsigned long size0 = X.size;
    if (vh_gk >= size0 && vh_gk - size0 < len) ASSUME(d[vh_gk - size0] == vh_gv);
    vh_gd = (char*)d + len; vh_gtotal = size0 + len; vh_glen = len;
    blk_SHA1_Update(&X,d,len);
    CHECK("length_counted",X.size == size0 + len);
    CHECK("every_byte_is_hashed_at_its_place",holds(&X));
    REACH();
}
H(final)
{
    unsigned char out[20];
    X.size = in_urange(0,(1ul << 61) - 1); for (int i = 0;i < 16;i++) X.W[i] = in_u32();
    for (int i = 0;i < 5;i++) X.H[i] = in_u32();
    unsigned long n = X.size; vh_gk = in_u64(); vh_gpos = n & ~63ul; unsigned char v = in_u8();
    ASSUME(vh_gk >= vh_gpos && vh_gk < (n & ~63ul) + 128);
    unsigned long total = ((n + 9 + 63) & ~63ul),bits = n << 3; unsigned want;
    vh_gseen = v; 
    if (vh_gk < n) { ASSUME(((unsigned char*)X.W)[vh_gk - vh_gpos] == v); want = v; }
    else if (vh_gk == n) want = 0x80;
    else if (vh_gk < total - 8) want = 0;
    else if (vh_gk < total) want = (unsigned char)(bits >> (8*(total - 1 - vh_gk)));
    else want = v;
    blk_SHA1_Final(out,&X);
    CHECK("padded_to_whole_blocks",vh_gpos == total);
    CHECK("padding_is_the_standard_one",vh_gseen == want);
    int ok = 1; for (int i = 0;i < 20;i++) if (out[i] != (unsigned char)(X.H[i/4] >> (24 - 8*(i%4)))) ok = 0;
    CHECK("digest_is_the_state_big_endian",ok);
    REACH();
}
#endif
/* whole digests on the real code, and the calls SHA1 makes */
#if defined(VH_REPL_blk_SHA1_Update) && !defined(VH_FILE)
static int q_n,q_bad; static const void *q_d; static unsigned long q_len; static void *q_c,*q_md;
void blk_SHA1_Init(struct blk_SHA_CTX *c) { if (q_n++ != 0) q_bad = 1; q_c = c; }
void blk_SHA1_Update(struct blk_SHA_CTX *c,const void *d,unsigned long n) { if (q_n++ != 1 || q_c != c) q_bad = 1; q_d = d; q_len = n; }
void blk_SHA1_Final(unsigned char *md,struct blk_SHA_CTX *c) { if (q_n++ != 2 || q_c != c) q_bad = 1; q_md = md; }
H(whole)
{
    unsigned char *d = (unsigned char*)malloc(4),md[20]; unsigned long n = in_u64();
    CHECK("digest_is_returned",SHA1(d,n,md) == md);
    CHECK("digest_of_exactly_the_message",q_n == 3 && !q_bad && q_d == d && q_len == n && q_md == md);
    REACH();
}
#endif
/* a file is hashed as the sequence of its bytes; read() of a regular file delivers everything up to its end */
#ifdef VH_FILE
static int f_open,f_fd,f_err,f_upd,f_fin; static unsigned long f_size,f_at,f_done; static const void *f_buf; static long f_last;
int open(const char *n,int fl,...) { CHECK("file_opened_for_reading",(fl & 3) == 0); f_fd = in_bool() ? 5 : -1; f_open = f_fd >= 0; return f_fd; }
long read(int fd,void *b,unsigned long n)
{
    CHECK("read_of_the_open_file",fd == 5 && f_open); CHECK("read_into_the_buffer",__CPROVER_w_ok(b,n));
    if (in_bool()) { f_err = 1; return -1; }
    unsigned long m = f_size - f_at < n ? f_size - f_at : n;
    f_buf = b; f_last = (long)m; f_at += m; return (long)m;
}
int close(int fd) { CHECK("close_of_the_open_file",fd == 5 && f_open); f_open = 0; return in_bool() ? 0 : -1; }
void perror(const char *s) { }
void blk_SHA1_Init(struct blk_SHA_CTX *c) { f_upd = 0; f_done = 0; }
void blk_SHA1_Update(struct blk_SHA_CTX *c,const void *d,unsigned long n)
{
    CHECK("hashed_is_what_was_read",n == 0 || d == f_buf && (long)n == f_last && f_done + n == f_at);
    f_done += n;
}
void blk_SHA1_Final(unsigned char *md,struct blk_SHA_CTX *c) { f_fin++; f_buf = md; }
H(file)
{
    unsigned char md[20]; f_size = in_urange(0,9000); f_upd = 0;
    int r = file_getsha1("f",md);
    CHECK("unreadable_file_is_reported",r == (f_fd >= 0 && !f_err));
    if (r) CHECK("digest_of_the_whole_file",f_done == f_size && f_fin == 1 && f_buf == md);
    CHECK("file_is_closed",!f_open);
    REACH();
}
#endif
#if VH_NATIVE
H(digest)
{
    static unsigned char m[1 << 12],b[4]; int n = (int)in_range(0,in_bool() ? 200 : 4000); int cut = (int)in_range(0,n),at = (int)in_range(0,7);
    unsigned seed = in_u32(); for (int i = 0;i < n;i++) { seed = seed * 1664525u + 1013904223u; m[at % 3 + i] = (unsigned char)(seed >> 24); }
    unsigned char *d = m + at % 3;
    uint64_t base = in_bool() ? in_urange(0,1ul << (in_bool() ? 26 : 54)) * 64 : 0;
    unsigned h[5] = { 0x67452301u,0xefcdab89u,0x98badcfeu,0x10325476u,0xc3d2e1f0u };
    unsigned char tail[128]; int full = n / 64 * 64; memset(tail,0,sizeof tail);
    for (int i = 0;i < full;i += 64) fips_block(h,d + i);
    memcpy(tail,d + full,n - full); tail[n - full] = 0x80;
    int tl = n - full < 56 ? 64 : 128; for (int i = 0;i < 8;i++) tail[tl - 1 - i] = (unsigned char)(((uint64_t)n + base) * 8 >> (8*i));
    for (int i = 0;i < tl;i += 64) fips_block(h,tail + i);
    unsigned char x[20],y[20]; SHA1(d,n,x);
    struct blk_SHA_CTX c; blk_SHA1_Init(&c); c.size = base; /* as after `base` bytes which left the initial state */ blk_SHA1_Update(&c,d,cut); blk_SHA1_Update(&c,d + cut,n - cut); blk_SHA1_Final(y,&c);
    int ok = 1; for (int i = 0;i < 20;i++) if (x[i] != (unsigned char)(h[i/4] >> (24 - 8*(i%4)))) ok = 0;
    if (base == 0) CHECK("digest_is_the_standard_one",ok);
    ok = 1; for (int i = 0;i < 20;i++) if (y[i] != (unsigned char)(h[i/4] >> (24 - 8*(i%4)))) ok = 0;
    CHECK("digest_in_parts_is_the_same",ok);
    REACH();
}
#endif
