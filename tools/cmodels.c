/* Bodies of the models declared in cprelude.h (TRUSTED). Compiled both for CBMC and, in the self-test of the
   extraction, natively with gcc, where they are compared with the real libc functions. */
static char *__fmt_p; static unsigned long __fmt_left; static int __fmt_n;
/* ghost log of the directives: what is printed, without its digits (used when VH_FMT_LOG is defined) */
#define VH_FMT_MAX 24
long vh_fmt_arg[VH_FMT_MAX]; int vh_fmt_kind[VH_FMT_MAX]; int vh_fmt_n;
static void vh_fmt(int kind,long v) { if (vh_fmt_n < VH_FMT_MAX) { vh_fmt_kind[vh_fmt_n] = kind; vh_fmt_arg[vh_fmt_n] = v; } vh_fmt_n++; }
#ifdef VH_FMT_LOG
void __fmt_begin(char *dst,unsigned long size) { __fmt_p = dst; *dst = 0; }
void __fmt_lit(const char *s,int n) { for (int i = 0;i < n;i++) vh_fmt(1,s[i]); }
void __fmt_int(long v,int width,int zero) { vh_fmt(1000 + width*2 + zero,v); }
void __fmt_uint(unsigned long v,int width,int zero) { vh_fmt(1000 + width*2 + zero,(long)v); }
void __fmt_chr(int c) { vh_fmt(1,c); }
void __fmt_str(const char *s) { while (*s) vh_fmt(1,*s++); }
void __fmt_hex(unsigned long v,int width,int zero,int upper) { vh_fmt(2000 + width*4 + zero*2 + upper,(long)v); }
void __fmt_dbl(double d) { vh_fmt(3,0); }
int __fmt_end(void) { return 0; }
#else
static void __fmt_c(char c) { __fmt_n++; if (__fmt_left > 1) { *__fmt_p++ = c; __fmt_left--; } }
void __fmt_begin(char *dst,unsigned long size) { __fmt_p = dst; __fmt_left = size; __fmt_n = 0; }
void __fmt_lit(const char *s,int n) { for (int i = 0;i < n;i++) __fmt_c(s[i]); }
static void __fmt_num(unsigned long a,int neg,int width,int zero)
{
    char d[20]; int n = 0;
    do { d[n++] = (char)('0' + a % 10); a /= 10; } while (a != 0);
    int pad = width - n - neg;
    if (!zero) for (;pad > 0;pad--) __fmt_c(' ');
    if (neg) __fmt_c('-');
    for (;pad > 0;pad--) __fmt_c('0');
    while (n > 0) __fmt_c(d[--n]);
}
static void __fmt_num32(unsigned int a,int neg,int width,int zero)
{
    char d[10]; int n = 0;
    do { d[n++] = (char)('0' + a % 10); a /= 10; } while (a != 0);
    int pad = width - n - neg;
    if (!zero) for (;pad > 0;pad--) __fmt_c(' ');
    if (neg) __fmt_c('-');
    for (;pad > 0;pad--) __fmt_c('0');
    while (n > 0) __fmt_c(d[--n]);
}
void __fmt_int(long v,int width,int zero)
{
    if (v >= -2147483647L-1 && v <= 2147483647L) { __fmt_num32(v < 0 ? 0u - (unsigned)v : (unsigned)v,v < 0,width,zero); return; }
    __fmt_num(v < 0 ? 0ul - (unsigned long)v : (unsigned long)v,v < 0,width,zero);
}
void __fmt_uint(unsigned long v,int width,int zero)
{
    if (v <= 4294967295ul) { __fmt_num32((unsigned)v,0,width,zero); return; }
    __fmt_num(v,0,width,zero);
}
void __fmt_hex(unsigned long v,int width,int zero,int upper)
{
    char d[16]; int n = 0;
    do { int x = (int)(v & 15); d[n++] = (char)(x < 10 ? '0' + x : (upper ? 'A' : 'a') + x - 10); v >>= 4; } while (v != 0);
    int pad = width - n;
    for (;pad > 0;pad--) __fmt_c(zero ? '0' : ' ');
    while (n > 0) __fmt_c(d[--n]);
}
void __fmt_str(const char *s) { while (*s) __fmt_c(*s++); }
void __fmt_chr(int c) { __fmt_c((char)c); }
int __fmt_end(void) { if (__fmt_left > 0) *__fmt_p = 0; return __fmt_n; }
#endif
unsigned int __verif_rol(unsigned int x,int n) { return (x << n) | (x >> (32 - n)); }
unsigned int __verif_ror(unsigned int x,int n) { return (x >> n) | (x << (32 - n)); }
void *__verif_new(unsigned long n)
{
    void *p = malloc(n);
#ifdef __CPROVER__
    __CPROVER_assume(p != 0);
#endif
    return p;
}
