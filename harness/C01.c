/* C01: integer and fixed-point text codecs */
#include <stdio.h>
#include <ctype.h>
#ifdef VH_CBMC
extern long vh_fmt_arg[]; extern int vh_fmt_kind[]; extern int vh_fmt_n;
#endif
static int is_dig(char c) { return c >= '0' && c <= '9'; }
static int is_sp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int hexval(char c) { return is_dig(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

/* ---- texts: SHORT = any text of up to 4 bytes; otherwise one optional space, sign or first digit, up to TLEN more
 * digits and any character after them */
#ifndef TLEN
#define TLEN 20
#endif
#define TMAX 32
static char t[TMAX];
static void any_text(void)
{
    int n = (int)in_range(0,4);
    for (int i = 0;i < 4;i++) t[i] = (char)in_u8();
    t[n] = 0; t[4] = 0;
}
/* c: the first character after the spaces (constant in the verifier, so that every position in the text is) */
static void num_text(int sp,char c,int hex)
{
    int k = 0;
    if (sp) t[k++] = ' ';
    if (c == 0) { c = VH_NATIVE ? IN_CHARSET("0123456789") : (char)in_u8(); ASSUME(!is_sp(c) && c != '-'); t[k++] = c; }
    else t[k++] = c;
    if (hex) t[k++] = 'x';
    int n = VH_NATIVE ? (int)in_range(0,TLEN) : TLEN;
    for (int i = 0;i < n;i++) { t[k] = VH_NATIVE ? (hex ? IN_CHARSET("0123456789abcdefABCDEF") : IN_CHARSET("0123456789")) : (char)in_u8(); k++; }
    if (VH_NATIVE) t[k++] = in_bool() ? 0 : IN_CHARSET(" .x-g/:@");
    t[k] = 0;
}
/* the numeral at t: [spaces][-]digits; -1 when there is none */
static int num_at,num_len,num_neg,num_sp; static uint64_t num_val; static int num_fits;
static int sp_numeral(int minus)
{
    int i = 0;
    while (is_sp(t[i])) i++;
    num_sp = i; num_neg = 0;
    if (minus && t[i] == '-') { num_neg = 1; i++; }
    num_at = i; num_val = 0; num_fits = 1;
    while (is_dig(t[i])) { num_val = num_val*10 + (uint64_t)(t[i] - '0'); i++; }
    num_len = i - num_at;
    return num_len > 0;
}
static int sp_hexnum(int at)
{
    int i = at; num_at = at; num_val = 0;
    while (hexval(t[i]) >= 0) { num_val = num_val*16 + (uint64_t)hexval(t[i]); i++; }
    num_len = i - at;
    return num_len > 0;
}
static int fits_i32(void) { return num_len <= 18 && num_val <= (uint64_t)INT32_MAX + num_neg; }
static int fits_i64(void) { return num_len <= 18 || (num_len == 19 && num_val <= (uint64_t)INT64_MAX + num_neg); }
/* leading space or not, sign or not; the sign and the space are constants in the verifier */
#ifdef VH_CBMC
static int g_spaces = -1;   /* ghost: number of spaces ahead in the text; isspace answers by it, and that is checked */
int isspace(int c)
{
    int r = c == ' ' || (c >= 9 && c <= 13);
    if (g_spaces < 0) return r;
    if (g_spaces > 0) { g_spaces--; CHECK("shape_space_here",r); return 1; }
    CHECK("shape_no_space_here",!r);
    return 0;
}
#else
static int g_spaces;
#endif
#ifndef CASE
#define CASE (int)in_range(0,3)
#endif
#define FIRST(DO) do { int cs = CASE; g_spaces = cs & 1; if (cs == 0) DO(0,0); else if (cs == 1) DO(1,0); else if (cs == 2) DO(0,'-'); else DO(1,'-'); } while (0)
#define SCANDEF(NAME,FN,PTR,VT,SPEC,FITS,WANT) \
static void NAME##_do(int sp0,char c) \
{ \
    if (sp0 < 0) any_text(); else num_text(sp0,c == 'x' ? '0' : c,c == 'x'); \
    PTR p = t; VT v = 77; int hex = 0; int was = SPEC; (void)hex; \
    _Bool ok = FN(&p,&v); \
    CHECK(#NAME "_accepts_exactly_numerals",ok == was); \
    if (was) { CHECK(#NAME "_consumes_the_numeral",p == t + num_at + num_len); if (FITS) CHECK(#NAME "_value",v == (WANT)); } \
    else { CHECK(#NAME "_rejecting_leaves_value",v == 77); CHECK(#NAME "_rejecting_consumes_at_most_spaces",p >= t && p <= t + num_sp); } \
} \
H(NAME##_short) { NAME##_do(-1,0); REACH(); } \
H(NAME##_long) { FIRST(NAME##_do); REACH(); } \
H(NAME##_hex) { if (in_bool()) NAME##_do(0,'x'); else NAME##_do(1,'x'); REACH(); }
static int sp_any(int *hex,int pfx)
{
    int was = sp_numeral(0),sp = num_sp;
    if (pfx == 2 || (pfx && t[sp] == '0' && t[sp+1] == 'x')) { *hex = 1; was = sp_hexnum(pfx == 2 ? sp : sp + 2); }
    return was;
}
SCANDEF(scan_int,ScanInt,const char *,int,(sp_numeral(1)),fits_i32(),(int)(num_neg ? -(int64_t)num_val : (int64_t)num_val))
SCANDEF(scan_intw,ScanIntW,char *,int,(sp_numeral(1)),fits_i32(),(int)(num_neg ? -(int64_t)num_val : (int64_t)num_val))
SCANDEF(scan_int64,ScanInt64,const char *,int64_t,(sp_numeral(1)),fits_i64(),(int64_t)(num_neg ? 0 - num_val : num_val))
SCANDEF(scan_int64w,ScanInt64W,char *,int64_t,(sp_numeral(1)),fits_i64(),(int64_t)(num_neg ? 0 - num_val : num_val))
SCANDEF(scan_uint64,ScanUInt64,const char *,uint64_t,(sp_any(&hex,1)),(hex ? num_len <= 16 : num_len <= 19),num_val)
SCANDEF(scan_uint64w,ScanUInt64W,char *,uint64_t,(sp_any(&hex,1)),(hex ? num_len <= 16 : num_len <= 19),num_val)
SCANDEF(scan_uint64hex,ScanUInt64Hex,const char *,uint64_t,(sp_any(&hex,2)),(num_len <= 16),num_val)
static int sp_getint(int *hex)
{
    int was = sp_numeral(1);
    if (t[num_at] == '0' && t[num_at+1] == 'x') { *hex = 1; was = sp_hexnum(num_at + 2); }
    return was;
}
#define GI_OK (hex ? num_len <= 7 : fits_i32() && num_val <= INT32_MAX)
static void getint_do(int sp0,char c)
{
    if (sp0 < 0) any_text(); else num_text(sp0,c == 'x' ? '0' : c,c == 'x');
    int hex = 0,was = sp_getint(&hex);
    int v = GetInt(t);
    if (!was) CHECK("get_int_no_number",v == INT32_MIN);
    else if (GI_OK) CHECK("get_int_value",v == (int)(num_neg ? -(int64_t)num_val : (int64_t)num_val));
}
H(getint_short) { getint_do(-1,0); REACH(); }
H(getint_long) { FIRST(getint_do); REACH(); }
H(getint_hex) { getint_do(0,'x'); REACH(); }

/* ---- printing */
#define FTYPE(k) ((k) == 0 ? XBT_INT32_DECI : (k) == 1 ? XBT_INT32_CENTI : (k) == 2 ? XBT_INT32_MILI : (k) == 3 ? XBT_INT32_MICRO : XBT_INT32_NANO)
#define FDEC(k) ((k) == 0 ? 1 : (k) == 1 ? 2 : (k) == 2 ? 3 : (k) == 3 ? 6 : 9)
#define FBASE(k) ((k) == 0 ? 10L : (k) == 1 ? 100L : (k) == 2 ? 1000L : (k) == 3 ? 1000000L : 1000000000L)
H(print_fixed)
{
    char dst[300]; int off = 0;
#ifdef FIXED
#define k FIXED
#else
    int k = (int)in_range(0,4);
#endif
    int32_t v = in_i32();
    long av = v < 0 ? -(long)v : v,ip,fp;
#ifdef VH_CBMC
    vh_fmt_n = 0;
    int n = XBT_ToStringChunk(FTYPE(k),(const char*)&v,&off,dst,sizeof(dst));
    int s = 0,neg = 0;
    if (vh_fmt_n == 4) { s = 1; neg = vh_fmt_kind[0] == 1 && vh_fmt_arg[0] == '-'; }
    int shape = (vh_fmt_n == 3 || (vh_fmt_n == 4 && neg)) && vh_fmt_kind[s] == 1000 && vh_fmt_kind[s+1] == 1 && vh_fmt_arg[s+1] == '.'
        && (vh_fmt_kind[s+2] == 1000 + 2*FDEC(k) + 1 || (FDEC(k) == 1 && vh_fmt_kind[s+2] == 1000));
    CHECK("shape_fixed",shape);
    if (shape)
    {
        ip = vh_fmt_arg[s]; fp = vh_fmt_arg[s+2];
        if (!neg && ip < 0) { neg = 1; ip = -ip; }
        CHECK("fixed_text_sign",neg == (v < 0));
        CHECK("fixed_text_fraction_has_its_digits",fp >= 0 && fp < FBASE(k));
        CHECK("fixed_text_is_the_value",ip >= 0 && ip*FBASE(k) + fp == av);
    }
#else
    int n = XBT_ToStringChunk(FTYPE(k),(const char*)&v,&off,dst,sizeof(dst));
    char want[64]; sprintf(want,"%s%ld.%0*ld",v < 0 ? "-" : "",av / FBASE(k),FDEC(k),av % FBASE(k));
    (void)ip; (void)fp;
    CHECK("fixed_text_is_the_value",strcmp(dst,want) == 0 && n == (int)strlen(want));
    char buf[16]; char *wp = buf; uintptr_t al = (uintptr_t)buf & 3; (void)al;
    CHECK("fixed_text_converts",XBT_FromString(dst,FTYPE(k),&wp,buf + sizeof(buf)));
    CHECK("fixed_text_converts_to_the_same_value",*(int32_t*)(((uintptr_t)buf + 3) & ~3ul) == v);
#endif
    n = XBT_ToStringChunk(FTYPE(k),(const char*)&v,&off,dst,sizeof(dst));
    CHECK("fixed_second_chunk_is_empty",n == 0);
    REACH();
}
#undef k
H(print_int32)
{
    char dst[300]; int off = 0;
    uint32_t v = in_u32();
#ifdef UNS
#define uns UNS
#else
    int uns = in_bool();
#endif
#ifdef VH_CBMC
    vh_fmt_n = 0;
    int n = XBT_ToStringChunk(uns ? XBT_UINT32 : XBT_INT32,(const char*)&v,&off,dst,sizeof(dst));
    int shape = vh_fmt_n == 1 && vh_fmt_kind[0] == 1000;
    CHECK("shape_int32",shape);
    if (shape) CHECK("int32_text_is_the_value",vh_fmt_arg[0] == (uns ? (long)v : (long)(int32_t)v));
#else
    int n = XBT_ToStringChunk(uns ? XBT_UINT32 : XBT_INT32,(const char*)&v,&off,dst,sizeof(dst));
    char want[64]; sprintf(want,"%ld",uns ? (long)v : (long)(int32_t)v);
    CHECK("int32_text_is_the_value",strcmp(dst,want) == 0 && n == (int)strlen(want));
    char buf[16]; char *wp = buf;
    CHECK("int32_text_converts",XBT_FromString(dst,uns ? XBT_UINT32 : XBT_INT32,&wp,buf + sizeof(buf)));
    CHECK("int32_text_converts_to_the_same_value",*(uint32_t*)(((uintptr_t)buf + 3) & ~3ul) == v);
#endif
    n = XBT_ToStringChunk(uns ? XBT_UINT32 : XBT_INT32,(const char*)&v,&off,dst,sizeof(dst));
    CHECK("int32_second_chunk_is_empty",n == 0);
    REACH();
}
#undef uns
/* decimal digits of u, by their definition; the lemma below says they denote u */
static char want[32]; static int wn;
static void sp_digits(uint64_t u,int neg)
{
    char d[24]; int n = 0;
    do { d[n++] = (char)('0' + u % 10); u /= 10; } while (u != 0);
    wn = 0;
    if (neg) want[wn++] = '-';
    while (n > 0) want[wn++] = d[--n];
    want[wn] = 0;
}
static void same_text(const char *s,int len)
{
    CHECK("int64_text_length",len == wn);
    int eq = 1;
    for (int i = 0;i < 22 && i <= wn;i++) eq = eq && s[i] == want[i];
    CHECK("int64_text_is_the_value",eq);
}
#ifdef VH_REPL_memmove
/* memmove by contract (assumed): g_mm_* say what becomes the contents of dst */
static char *g_mm_dst,*g_mm_src; static unsigned long g_mm_len; static int g_mm_calls;
void *memmove(void *dst,const void *src,unsigned long n) { g_mm_dst = dst; g_mm_src = (char*)src; g_mm_len = n; g_mm_calls++; return dst; }
#endif
H(print_int64)
{
    char dst[260]; int off = 0;
    uint64_t v = in_u64();
#ifdef UNS
#define uns UNS
#else
    int uns = in_bool();
#endif
#ifdef VNEG
    if (VNEG) v |= 1ull << 63; else v &= ~(1ull << 63);
#endif
    int neg = !uns && (int64_t)v < 0;
    int n = XBT_ToStringChunk(uns ? XBT_UINT64 : XBT_INT64,(const char*)&v,&off,dst,sizeof(dst));
#ifdef VH_REPL_memmove
    uint64_t u = neg ? -v : v; int k = 0,eq = 1;
    if (u == 0) { CHECK("int64_zero",n == 1 && dst[0] == '0' && dst[1] == 0); }
    else
    {
        int shape = g_mm_calls == 1 && g_mm_dst == dst;
        CHECK("shape_int64",shape);
        if (shape)
        {
            /* the text is written towards lower addresses: its end is where the terminator is */
            char *end = dst + sizeof(dst) - 2;
            CHECK("shape_int64_end",g_mm_src + n == end && g_mm_len == (unsigned long)n + 1 && *end == 0);
            while (u > 0) { eq = eq && end[-1-k] == (char)('0' + VH_UMOD(u,10)); u = VH_UDIV(u,10); k++; }
            CHECK("int64_text_digits",eq);
            CHECK("int64_text_length_and_sign",n == k + neg && (!neg || *g_mm_src == '-'));
        }
    }
#else
    sp_digits(neg ? 0 - v : v,neg);
    same_text(dst,n);
#endif
    n = XBT_ToStringChunk(uns ? XBT_UINT64 : XBT_INT64,(const char*)&v,&off,dst,sizeof(dst));
    CHECK("int64_second_chunk_is_empty",n == 0);
#ifndef VH_CBMC
    _Alignas(8) char buf[24]; char *wp = buf;
    CHECK("int64_text_converts",XBT_FromString(want,uns ? XBT_UINT64 : XBT_INT64,&wp,buf + sizeof(buf)));
    CHECK("int64_text_converts_to_the_same_value",*(uint64_t*)buf == v);
#endif
    REACH();
}
#undef uns
H(int64tostr)
{
    char buf[40];
    uint64_t vv = in_u64();
#ifdef VNEG
    if (VNEG) vv |= 1ull << 63; else vv &= ~(1ull << 63);
#endif
    int64_t v = (int64_t)vv;
    const char *s = Int64ToStr(v,buf);
    CHECK("int64tostr_inside_buffer",s >= buf && s < buf + sizeof(buf));
#ifdef VH_CBMC
    int neg = v < 0,k = 0,eq = 1; uint64_t u = neg ? -(uint64_t)v : (uint64_t)v;
    char *end = buf + sizeof(buf) - 1;
    CHECK("int64_text_ends",*end == 0);
    if (u == 0) { CHECK("int64_zero",s == end - 1 && *s == '0'); }
    else
    {
        while (u > 0) { eq = eq && end[-1-k] == (char)('0' + VH_UMOD(u,10)); u = VH_UDIV(u,10); k++; }
        CHECK("int64_text_digits",eq);
        CHECK("int64_text_length_and_sign",s == end - k - neg && (!neg || *s == '-'));
    }
#else
    sp_digits(v < 0 ? 0 - (uint64_t)v : (uint64_t)v,v < 0);
    same_text(s,wn);
#endif
    REACH();
}
/* lemma: dropping and appending the last digit are inverse, for both codecs (induction step of print/scan) */
H(lemma_digit)
{
    uint64_t u = in_u64();
    CHECK("lemma_digit_restores",(u / 10)*10 + u % 10 == u);
    CHECK("lemma_digit_is_digit",u % 10 <= 9);
    CHECK("lemma_digit_ends",u < 10 ? u / 10 == 0 && u % 10 == u : u / 10 != 0);
    CHECK("lemma_digit_max",u / 10 <= 1844674407370955161ul);
    uint64_t p = 10;
    for (int i = 1;i <= 19;i++) { CHECK("lemma_div10",u >= p || u / 10 < p / 10); if (i < 19) p *= 10; }
    REACH();
}
/* fixed point: text -> value; ni digits before the point, nf after it (with nf == 0 a point or none) */
static char in_digit(void) { char c = VH_NATIVE ? IN_CHARSET("0123456789") : (char)in_u8(); ASSUME(c >= '0' && c <= '9'); return c; }
static void scan_fixed_one(int k,int neg,int ni,int nf,int point)
{
    char s[32]; int i = 0; uint64_t x = 0; int32_t y = 0;   /* y: x modulo 2^32 */
    if (neg) s[i++] = '-';
    for (int j = 0;j < ni;j++) { char c = in_digit(); s[i++] = c; x = x*10 + (uint64_t)c - '0'; y = y*10 + c - '0'; }
    if (point)
    {
        s[i++] = '.';
        for (int j = 0;j < nf;j++) { char c = in_digit(); s[i++] = c; if (j < FDEC(k)) { x = x*10 + (uint64_t)c - '0'; y = y*10 + c - '0'; } }
    }
    for (int j = nf;j < FDEC(k);j++) { x = x*10; y = y*10; }
    s[i] = 0;
    _Alignas(8) char buf[16]; char *wp = buf;
    _Bool ok = XBT_FromString(s,FTYPE(k),&wp,buf + sizeof(buf));
    CHECK("fixed_scan_succeeds",ok && wp == buf + 4);
    if (x <= (uint64_t)INT32_MAX + neg) CHECK("fixed_scan_value",*(int32_t*)buf == (neg ? -y : y));
}
H(scan_fixed)
{
#ifdef NI0
    for (int ni = NI0;ni <= NI1;ni++) { scan_fixed_one(FIXED,NEG,ni,0,0); for (int nf = 0;nf + ni <= MAXD;nf++) scan_fixed_one(FIXED,NEG,ni,nf,1); }
#else
    int ni = (int)in_range(0,10),nf = (int)in_range(0,11 - ni);
    scan_fixed_one((int)in_range(0,4),in_bool(),ni,nf,nf > 0 || in_bool());
#endif
    REACH();
}
/* storing: aligned, of its own size, nothing else touched; value by the scanner's contract */
#ifdef VH_REPL_ScanInt64
static int64_t c_v; static _Bool c_ok;
_Bool ScanInt64(const char **p,int64_t *v) { c_ok = in_bool(); c_v = in_i64(); if (c_ok) *v = c_v; return c_ok; }
_Bool ScanUInt64(const char **p,uint64_t *v) { c_ok = in_bool(); c_v = in_i64(); if (c_ok) *v = (uint64_t)c_v; return c_ok; }
#endif
H(store_int)
{
    int which = (int)in_range(0,2),at = (int)in_range(0,7);
    int type = which == 0 ? XBT_UINT32 : which == 1 ? XBT_INT64 : XBT_UINT64;
    _Alignas(8) unsigned char buf[32]; memset(buf,0x5a,sizeof(buf));
    int size = which == 0 ? 4 : 8,pos = (at + size - 1) / size * size;
    char *wp = (char*)buf + at;
#ifdef VH_REPL_ScanInt64
    _Bool ok = XBT_FromString("?",type,&wp,(char*)buf + sizeof(buf));
    _Bool want = c_ok && !(which == 0 && (uint64_t)c_v > 0xffffffffu);
    int64_t val = c_v;
#else
    uint64_t val = in_u64(); if (in_bool()) val >>= in_range(0,63);
    char s[40]; if (which == 1) sprintf(s,"%ld",(long)val); else sprintf(s,"%lu",(unsigned long)val);
    _Bool ok = XBT_FromString(s,type,&wp,(char*)buf + sizeof(buf));
    _Bool want = !(which == 0 && val > 0xffffffffu);
#endif
    CHECK("store_accepts_what_fits",ok == want);
    if (want)
    {
        CHECK("store_position",wp == (char*)buf + pos + size);
        CHECK("store_value",which == 0 ? *(uint32_t*)(buf + pos) == (uint32_t)val : *(int64_t*)(buf + pos) == (int64_t)val);
        for (int i = 0;i < 32;i++) if (i < pos || i >= pos + size) CHECK("store_frame",buf[i] == 0x5a);
    }
    REACH();
}
