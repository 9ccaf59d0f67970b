/* Models of the library services the extracted code calls (TRUSTED; listed in the evidence of every check). */
#ifndef CPRELUDE_H
#define CPRELUDE_H
typedef struct std_ostream { int id; } std_ostream;
void os_put_str(std_ostream *os,const char *s);
void os_put_char(std_ostream *os,char c);
void os_put_int(std_ostream *os,long v);
void os_put_uint(std_ostream *os,unsigned long v);
void os_put_double(std_ostream *os,double v);
void os_manip(std_ostream *os,const char *what);
unsigned int __verif_rol(unsigned int x,int n);
unsigned int __verif_ror(unsigned int x,int n);
void *__verif_new(unsigned long n);
/* sprintf/snprintf: one call per directive (see Emit.printf in cxx2c.py) */
void __fmt_begin(char *dst,unsigned long size);
void __fmt_lit(const char *s,int n);
void __fmt_int(long v,int width,int zero);
void __fmt_uint(unsigned long v,int width,int zero);
void __fmt_hex(unsigned long v,int width,int zero,int upper);
void __fmt_str(const char *s);
void __fmt_chr(int c);
void __fmt_dbl(double d);
int __fmt_end(void);
/* 64-bit unsigned division. With VH_UF_DIV, division by ten is replaced by its contract: an uninterpreted function with
   the facts proved by the obligations lemma_digit and lemma_div10 of C01 */
#ifdef VH_UF_DIV
unsigned long __CPROVER_uninterpreted_div10(unsigned long x);
unsigned long __CPROVER_uninterpreted_mod10(unsigned long x);
static inline unsigned long vh_div10(unsigned long x)
{
    unsigned long q = __CPROVER_uninterpreted_div10(x),p = 10,i;
    __CPROVER_assume(x < 10 ? q == 0 : q != 0);
    for (i = 1;i <= 19;i++) { __CPROVER_assume(x >= p || q < p / 10); if (i < 19) p *= 10; }
    __CPROVER_assume(q <= 1844674407370955161ul);
    return q;
}
static inline unsigned long vh_mod10(unsigned long x)
{
    unsigned long r = __CPROVER_uninterpreted_mod10(x);
    __CPROVER_assume(r < 10 && (x >= 10 || r == x));
    return r;
}
#define VH_UDIV(a,b) ((b) == 10 ? vh_div10(a) : (a) / (b))
#define VH_UMOD(a,b) ((b) == 10 ? vh_mod10(a) : (a) % (b))
#else
#define VH_UDIV(a,b) ((a) / (b))
#define VH_UMOD(a,b) ((a) % (b))
#endif
#endif
