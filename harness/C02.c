/* C02: calendar and date-time text codecs */
#include <stdio.h>
#include <time.h>
#include "spec_cal.h"
#define YMIN (-365749)
#define YMAX 369689
#define DMIN (-134306607)
#define DMAX 134306972

#ifdef VH_CBMC
extern long vh_fmt_arg[]; extern int vh_fmt_kind[]; extern int vh_fmt_n;
/* libc's gmtime_r, by contract (assumed): broken-down UTC time of *t; g_* keep what it was asked and answered */
static long g_t; static int g_calls; static struct tm g_tm;
struct tm *gmtime_r(const time_t *t,struct tm *o)
{
    int y = (int)__VERIFIER_nondet_u64(),m = (int)__VERIFIER_nondet_u64(),d = (int)__VERIFIER_nondet_u64();
    int hh = (int)__VERIFIER_nondet_u64(),mm = (int)__VERIFIER_nondet_u64(),ss = (int)__VERIFIER_nondet_u64();
    ASSUME(y >= 1 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= 31 && hh >= 0 && hh < 24 && mm >= 0 && mm < 60 && ss >= 0 && ss < 60);
    o->tm_year = y - 1900; o->tm_mon = m - 1; o->tm_mday = d; o->tm_hour = hh; o->tm_min = mm; o->tm_sec = ss;
    g_t = *t; g_calls++; g_tm = *o;
    return o;
}
#endif

/* printed fields: in the verifier the logged directives, natively the text itself */
static int fields(const char *s,int n,long *f,const char *seps,const int *widths)
{
#ifdef VH_CBMC
    int ok = vh_fmt_n == 2*n - 1;
    for (int i = 0;i < n;i++) { ok = ok && vh_fmt_kind[2*i] == 1000 + widths[i]*2 + 1; f[i] = vh_fmt_arg[2*i]; }
    for (int i = 0;i < n - 1;i++) ok = ok && vh_fmt_kind[2*i+1] == 1 && vh_fmt_arg[2*i+1] == seps[i];
    return ok;
#else
    char back[100]; int k = 0;
    const char *p = s;
    for (int i = 0;i < n;i++)
    {
        char *e; f[i] = strtol(p,&e,10); p = e;
        k += sprintf(back + k,"%0*ld",widths[i],f[i]);
        if (i < n - 1) { back[k++] = seps[i]; back[k] = 0; if (*p) p++; }
    }
    CHECK("date_text_is_canonical",strcmp(back,s) == 0);
    return 1;
#endif
}
static void fields_reset(void)
{
#ifdef VH_CBMC
    vh_fmt_n = 0;
#endif
}
static const int W3[3] = {4,2,2};
static const int W7[7] = {4,2,2,2,2,2,3};

#ifndef LO
#define LO DMIN
#define HI DMAX
#endif

/* day number -> text: the printed date is the calendar date of that day */
H(print_date)
{
    char dst[64]; dst[0] = 0;
    int v = VH_NATIVE && in_bool() ? (int)in_range(-800000,400000) : (int)in_range(LO,HI);
    fields_reset();
    char *r = UnixDate2Str(v,dst);
    CHECK("date_print_succeeds",r == dst);
    long f[3];
    int shape = fields(dst,3,f,"--",W3);
    CHECK("shape_date",shape);
    int b = v - 10957;                          /* from 2000-01-01 */
    int c = b / 146097; int rem = b - c*146097; if (rem < 0) { c--; rem += 146097; }
    if (shape)
    {
        int yy = (int)f[0] - 400*c,m = (int)f[1],d = (int)f[2];
        CHECK("date_year_in_its_400_year_cycle",yy >= 2000 && yy < 2400);
        ASSUME(yy >= 2000 && yy < 2400);
        CHECK("date_is_valid",sp_valid(yy,m,d));
        CHECK("date_is_that_day",sp_days(yy,m,d) == rem + 10957);
    }
    REACH();
}
#define LEMMA(id,c) do { CHECK(id,c); ASSUME(c); } while (0)
/* lemma: dates repeat with the 400-year cycle, so print_date's two checks say sp_days(printed date) == v */
H(lemma_cycle)
{
    int c = (int)in_range(-925,925);
    int y = (int)in_range(2000,2399);
    int z = y + 400*c;
    LEMMA("lemma_cycle_4",sp_fdiv(z - 1969,4) == sp_fdiv(y - 1969,4) + 100*c);
    LEMMA("lemma_cycle_100",sp_fdiv(z - 1901,100) == sp_fdiv(y - 1901,100) + 4*c);
    LEMMA("lemma_cycle_400",sp_fdiv(z - 1601,400) == sp_fdiv(y - 1601,400) + c);
    CHECK("lemma_cycle_days",sp_jan1(z) == sp_jan1(y) + 146097*c);
    CHECK("lemma_cycle_leap",sp_leap(z) == sp_leap(y));
    REACH();
}
/* lemma: the month table is the sum of the month lengths */
H(lemma_months)
{
    int l = (int)in_range(0,1),m = (int)in_range(1,12);
    int d = 0;
    for (int i = 1;i < 12;i++) if (i < m) d += sp_mdays(i,l);
    CHECK("lemma_month_table",sp_before(m,l) == d);
    REACH();
}
/* lemma: consecutive years do not overlap: a year has 365 days, 366 when it is leap */
H(lemma_year)
{
    int y = (int)in_range(YMIN,YMAX);
    LEMMA("lemma_year_4",sp_fdiv(y - 1968,4) == sp_fdiv(y - 1969,4) + (y % 4 == 0));
    LEMMA("lemma_year_100",sp_fdiv(y - 1900,100) == sp_fdiv(y - 1901,100) + (y % 100 == 0));
    LEMMA("lemma_year_400",sp_fdiv(y - 1600,400) == sp_fdiv(y - 1601,400) + (y % 400 == 0));
    LEMMA("lemma_year_div",(y % 100 != 0 || y % 4 == 0) && (y % 400 != 0 || y % 100 == 0));
    CHECK("lemma_year_length",sp_jan1(y + 1) == sp_jan1(y) + 365 + sp_leap(y));
    REACH();
}
/* lemma: two valid dates with the same day number are the same date (within a year) */
H(lemma_injective)
{
    int m = (int)in_range(1,12),d = (int)in_range(1,31),m2 = (int)in_range(1,12),d2 = (int)in_range(1,31),l = (int)in_range(0,1);
    ASSUME(d <= sp_mdays(m,l) && d2 <= sp_mdays(m2,l));
    int o = sp_before(m,l) + d - 1,o2 = sp_before(m2,l) + d2 - 1;
    CHECK("lemma_in_year",o >= 0 && o < 365 + l);
    CHECK("lemma_same_day_same_date",o != o2 || (m == m2 && d == d2));
    REACH();
}

/* ---- numerals in a text ------------------------------------------------------------------------------------
 * A text under test is a row of tokens: numerals and separators.  The contract of ScanInt (proved by scan_int
 * below, for numerals of 1..9 digits) says: on a numeral followed by a non-digit it returns true, the value of the
 * numeral, and the position after it.  The obligations over the date scanners use ScanInt through that contract. */
#define MAXTOK 10
static char t[80]; static int tk;
static int tok_pos[MAXTOK],tok_end[MAXTOK],tok_val[MAXTOK],ntok,used;
static void text_begin(void) { tk = 0; ntok = 0; used = 0; t[0] = 0; }
static void text_char(char c) { t[tk++] = c; t[tk] = 0; }
static void text_num(int v,int w)
{
    tok_pos[ntok] = tk; tok_val[ntok] = v;
#ifdef VH_CBMC
    tk += 1; t[tk-1] = '7'; t[tk] = 0;
#else
    tk += sprintf(t + tk,"%0*d",w + (v < 0),v);
#endif
    tok_end[ntok++] = tk;
}
#ifdef VH_REPL_ScanInt
_Bool ScanInt(const char **p,int *value)
{
    for (int i = 0;i < ntok;i++)
        if (*p == t + tok_pos[i]) { *value = tok_val[i]; *p = t + tok_end[i]; used++; return 1; }
    used = 100;         /* called elsewhere: the contract says nothing useful here */
    return 0;
}
#define USED(n) (used == (n))
#define TRACKED 1
#else
#define USED(n) 1
#define TRACKED 0
#endif
/* the contract of ScanInt itself */
H(scan_int)
{
    char b[16]; int k = 0;
    int sp = (int)in_range(0,1),neg = in_bool(),n = (int)in_range(1,9);
    if (sp) b[k++] = ' ';
    int start = k;
    if (neg) b[k++] = '-';
    int x = 0;
    for (int i = 0;i < 9;i++) if (i < n) { int d = (int)in_range(0,9); b[k++] = (char)('0' + d); x = x*10 + d; }
    char end = (char)in_u8(); ASSUME(!(end >= '0' && end <= '9'));
    b[k] = end; b[k+1] = 0;
    const char *p = b; int v = 5;
    _Bool ok = ScanInt(&p,&v);
    CHECK("scan_int_accepts",ok);
    CHECK("scan_int_value",v == (neg ? -x : x));
    CHECK("scan_int_position",p == b + k);
    (void)start;
    REACH();
}
H(scan_int_reject)
{
    char b[4]; int sp = in_bool(),neg = in_bool(),k = 0;
    if (sp) b[k++] = ' ';
    if (neg) b[k++] = '-';
    char c = (char)in_u8(); ASSUME(!(c >= '0' && c <= '9') && !(!neg && (c == '-' || c == ' ' || (c >= 9 && c <= 13))));
    b[k] = c; b[k+1] = 0;
    const char *p = b; int v = 5;
    _Bool ok = ScanInt(&p,&v);
    CHECK("scan_int_rejects_non_numbers",!ok && v == 5);
    CHECK("scan_int_reject_stays_in_the_text",p >= b && p <= b + k);
    REACH();
}
/* natively, valid fields are drawn more often */
static int pick(int lo,int hi,int wlo,int whi)
{
    if (VH_NATIVE && (in_u8() & 7)) return (int)in_range(lo,hi);
    return (int)in_range(wlo,whi);
}
#ifndef YLO
#define YLO (-999999)
#define YHI 999999
#endif
/* text -> day number, for all texts Y-M-D */
H(scan_date)
{
    int y = pick(-3000,5000,YLO,YHI),m = pick(1,12,0,99),d = pick(1,31,0,99);
    text_begin(); text_num(y,4); text_char('-'); text_num(m,2); text_char('-'); text_num(d,2);
    const char *p = t; int v = 77;
    _Bool ok = ScanUnixDate(&p,&v);
    int want = y >= YMIN && y <= YMAX && sp_valid(y,m,d);
    int shape = !TRACKED || used == 3 || (!ok && (used == 2 || used == 3));
    CHECK("shape_scanned_by_ScanInt",shape);
    if (shape) CHECK("date_scan_accepts_exactly_real_dates",ok == want);
    if (want && shape)
    {
        CHECK("date_scan_value",v == sp_days(y,m,d));
        CHECK("date_scan_consumes_the_text",p == t + tk);
    }
    REACH();
}
static int y,m,d,hh,mm,ss;
static void tm_text(char sep)
{
    y = pick(1970,2106,0,9999); m = pick(1,12,0,99); d = pick(1,31,0,99); hh = pick(0,23,0,99); mm = pick(0,59,0,99); ss = pick(0,59,0,99);
    text_begin(); text_num(y,4); text_char('-'); text_num(m,2); text_char('-'); text_num(d,2); text_char(sep);
    text_num(hh,2); text_char(':'); text_num(mm,2); text_char(':'); text_num(ss,2);
}
/* "not after the last second of 32 bits", 2106-02-07 06:28:15, without the multiplication */
static int fits32(void)
{
    long k = ((((long)y*100 + m)*100 + d)*100 + hh)*10000 + mm*100 + ss;
    return k <= 21060207062815L;
}
H(scan_time)
{
    tm_text(IN_CHARSET(" T"));
    const char *p = t; uint32_t v = 77;
    _Bool ok = ScanUnixTime(&p,&v);
    int want = y >= 1970 && y <= 2106 && sp_valid(y,m,d) && hh < 24 && mm < 60 && ss < 60 && fits32();
    int shape = !TRACKED || used == 6 || (!ok && used >= 2 && used <= 6);
    CHECK("shape_scanned_by_ScanInt",shape);
    if (shape) CHECK("time_scan_accepts_exactly_real_times",ok == want);
    if (want && shape)
    {
        uint32_t days = (uint32_t)sp_days(y,m,d);
        CHECK("time_scan_value",v == days*(24u*60*60) + (uint32_t)hh*3600u + (uint32_t)mm*60u + (uint32_t)ss);
        CHECK("time_scan_consumes_the_text",p == t + tk);
    }
    REACH();
}
/* contract of ScanUnixTime as proved by scan_time: on a date-time it yields its second, and the position after it */
#ifdef VH_REPL_ScanUnixTime
static uint32_t c_sec; static int c_ok,c_end,c_calls;
_Bool ScanUnixTime(const char **p,uint32_t *value)
{
    c_calls++;
    if (*p != t) { c_calls = 100; return 0; }
    if (!c_ok) { *value = (uint32_t)__VERIFIER_nondet_u64(); return 0; }
    *value = c_sec; *p = t + c_end; return 1;
}
#endif
H(scan_time_msec)
{
    char sep = IN_CHARSET(" T");
#ifdef VH_REPL_ScanUnixTime
    text_begin(); for (int i = 0;i < 10;i++) text_char('0'); text_char(sep); for (int i = 0;i < 8;i++) text_char('0');
    uint32_t sec = c_sec = in_u32(); int want = c_ok = in_bool(); c_end = tk;
    if (!want) sec = 0;
#else
    tm_text(sep);
    int want = y >= 1970 && y <= 2106 && sp_valid(y,m,d) && hh < 24 && mm < 60 && ss < 60 && fits32();
    uint32_t sec = want ? (uint32_t)(sp_days(y,m,d)*86400L + hh*3600 + mm*60 + ss) : 0;
#endif
    int frac = in_bool();
    int ms = 0; int zone = 0;
    if (frac)
    {
        int m1 = (int)in_range(0,9),m2 = (int)in_range(0,9),m3 = (int)in_range(0,9);
        text_char('.'); text_char((char)('0' + m1)); text_char((char)('0' + m2)); text_char((char)('0' + m3));
        ms = m1*100 + m2*10 + m3;
        char z = IN_CHARSET("Z+-.");
        if (sep == 'T' && z != '.')
        {
            text_char(z);
            if (z != 'Z')
            {
                int zh = pick(0,23,0,99),zm = pick(0,59,0,99);
                text_num(zh,2); text_char(':'); text_num(zm,2);
                if (zh > 23 || zm > 59) want = 0;
                zone = zh*3600 + zm*60; if (z == '+') zone = -zone;
            }
        }
    }
    const char *p = t; int64_t v = 77;
    _Bool ok = ScanUnixTime64msec(&p,&v);
    int shape = 1;
#ifdef VH_REPL_ScanUnixTime
    shape = c_calls == 1 && used < 100 && (!ok || used == ntok);
#endif
    CHECK("shape_scanned_by_ScanUnixTime",shape);
    if (shape) CHECK("msec_scan_accepts_exactly_real_times",ok == want);
    if (want && shape)
    {
        CHECK("msec_scan_value",v == ((int64_t)sec + zone)*1000 + ms);
        CHECK("msec_scan_stays_in_the_text",p >= t && p <= t + tk);
    }
    REACH();
}

/* binary -> text of the two time types, through the type dispatcher */
#ifdef VH_CBMC
#define GM(sec) (g_calls == 1 && g_t == (sec))
#endif
static void time_fields(const char *dst,int n,const char *seps,int64_t v)   /* v: seconds (n == 6) or milliseconds (n == 7) */
{
    long f[7];
    int shape = fields(dst,n,f,seps,W7);
#ifdef VH_CBMC
    shape = shape && g_calls == 1;
    CHECK("shape_time",shape);
    if (shape)
    {
        if (n == 6) CHECK("time_text_is_of_that_second",g_t == v);
        CHECK("time_text_shows_its_date",f[0] == g_tm.tm_year + 1900 && f[1] == g_tm.tm_mon + 1 && f[2] == g_tm.tm_mday);
        CHECK("time_text_shows_its_time",f[3] == g_tm.tm_hour && f[4] == g_tm.tm_min && f[5] == g_tm.tm_sec);
        if (n == 7) CHECK("msec_text_is_of_that_instant",f[6] >= 0 && f[6] < 1000 && g_t*1000 + f[6] == v);
    }
#else
    CHECK("time_text_is_valid",sp_valid((int)f[0],(int)f[1],(int)f[2]) && f[3] >= 0 && f[3] < 24 && f[4] >= 0 && f[4] < 60 && f[5] >= 0 && f[5] < 60);
    long sec = (long)sp_days((int)f[0],(int)f[1],(int)f[2])*86400 + f[3]*3600 + f[4]*60 + f[5];
    if (n == 6) CHECK("time_text_is_of_that_second",sec == v);
    else CHECK("msec_text_is_of_that_instant",f[6] >= 0 && f[6] < 1000 && sec*1000 + f[6] == v);
    CHECK("time_text_length",strlen(dst) == (n == 7 ? 23 : 19));
#endif
}
H(print_time)
{
    char dst[300]; uint32_t v = in_u32(); int off = 0;
    fields_reset();
    int n = XBT_ToStringChunk(XBT_UNIX_TIME,(const char*)&v,&off,dst,sizeof(dst));
    time_fields(dst,6,"-- ::",v);
    if (VH_NATIVE) CHECK("time_length",n == 19);
    n = XBT_ToStringChunk(XBT_UNIX_TIME,(const char*)&v,&off,dst,sizeof(dst));
    CHECK("time_second_chunk_is_empty",n == 0);
    REACH();
}
H(print_time_msec)
{
    char dst[300]; int off = 0;
    int64_t v = in_range(-62135596800000L,253402300799999L);   /* years 1 .. 9999 */
    fields_reset();
    int n = XBT_ToStringChunk(XBT_UNIX_TIME64_MSEC,(const char*)&v,&off,dst,sizeof(dst));
    time_fields(dst,7,"-- ::.",v);
    if (VH_NATIVE) CHECK("msec_length",n == 23);
    n = XBT_ToStringChunk(XBT_UNIX_TIME64_MSEC,(const char*)&v,&off,dst,sizeof(dst));
    CHECK("msec_second_chunk_is_empty",n == 0);
    REACH();
}
/* UnixTime642Str: date part through the contract of UnixDate2Str, rest from the milliseconds of the day */
#ifdef VH_REPL_UnixDate2Str
static int u_day,u_calls;
char *UnixDate2Str(int value,char *dst) { u_day = value; u_calls++; dst[0] = 0; return dst; }
#endif
H(print_time64)
{
    char dst[64]; dst[0] = 0;
    int64_t v = in_range(-62135596800000L,253402300799999L);
    fields_reset();
    char *res = UnixTime642Str(v,dst);
    CHECK("time64_result",res == dst);
#ifdef VH_REPL_UnixDate2Str
    int shape = u_calls == 1 && vh_fmt_n == 8 && vh_fmt_kind[1] == 1004 + 1 && vh_fmt_kind[3] == 1005 && vh_fmt_kind[5] == 1005 && vh_fmt_kind[7] == 1007;
    CHECK("shape_time64",shape);
    if (shape)
    {
        CHECK("time64_separators",vh_fmt_arg[0] == ' ' && vh_fmt_arg[2] == ':' && vh_fmt_arg[4] == ':' && vh_fmt_arg[6] == '.');
        CHECK("time64_ranges",vh_fmt_arg[1] >= 0 && vh_fmt_arg[1] < 24 && vh_fmt_arg[3] >= 0 && vh_fmt_arg[3] < 60 && vh_fmt_arg[5] >= 0 && vh_fmt_arg[5] < 60 && vh_fmt_arg[7] >= 0 && vh_fmt_arg[7] < 1000);
        CHECK("time64_time",((vh_fmt_arg[1]*60 + vh_fmt_arg[3])*60 + vh_fmt_arg[5])*1000 + vh_fmt_arg[7] + u_day*86400000L == v);
    }
#else
    time_fields(dst,7,"-- ::.",v);
#endif
    REACH();
}
/* text -> stored value through the type dispatcher: same value as the scanner, aligned, nothing else touched */
#ifndef VH_CBMC
static void dispatch(int type,int size,int64_t want,const char *text)
{
    char buf[64]; memset(buf,0x5a,sizeof(buf));
    char *base = buf + in_range(0,9); char *wp = base; int al = size;
    char *at = (char*)(((uintptr_t)base + al - 1) & ~(uintptr_t)(al - 1));
    _Bool ok = XBT_FromString(text,type,&wp,buf + sizeof(buf));
    CHECK("dispatch_accepts",ok);
    int64_t got = size == 8 ? *(int64_t*)at : type == XBT_UNIX_TIME ? (int64_t)*(uint32_t*)at : (int64_t)*(int32_t*)at;
    CHECK("dispatch_value_where_it_is_read",got == want);
    CHECK("dispatch_position",wp == at + size);
    for (char *q = buf;q < buf + sizeof(buf);q++) if (q < at || q >= at + size) CHECK("dispatch_frame",*q == 0x5a);
    char dst[300]; int off = 0;
    int n = XBT_ToStringChunk(type,base,&off,dst,sizeof(dst));
    dst[n] = 0;
    char norm[80]; strcpy(norm,text); if (strlen(norm) >= 19 && norm[10] == 'T') norm[10] = ' ';
    if (type == XBT_UNIX_TIME64_MSEC && strlen(norm) == 19) strcat(norm,".000");
    if (strlen(norm) == 24) norm[23] = 0;
    CHECK("dispatch_prints_the_same_text",strcmp(dst,norm) == 0);
}
H(dispatch_native)
{
    switch (in_range(0,2))
    {
        case 0: { int yy = pick(1600,2400,0,9999),mo = pick(1,12,1,12),da = pick(1,31,1,31); ASSUME(sp_valid(yy,mo,da));
            text_begin(); text_num(yy,4); text_char('-'); text_num(mo,2); text_char('-'); text_num(da,2); dispatch(XBT_UNIX_DATE,4,sp_days(yy,mo,da),t); break; }
        case 1: tm_text(' '); ASSUME(y >= 1970 && y <= 2106 && sp_valid(y,m,d) && hh < 24 && mm < 60 && ss < 60 && fits32());
            dispatch(XBT_UNIX_TIME,4,sp_days(y,m,d)*86400L + hh*3600 + mm*60 + ss,t); break;
        default: { int zz = in_bool(); tm_text(zz ? 'T' : ' '); ASSUME(y >= 1970 && y <= 2106 && sp_valid(y,m,d) && hh < 24 && mm < 60 && ss < 60 && fits32());
            int ms = (int)in_range(0,999); text_char('.'); text_num(ms,3); if (zz) text_char('Z');
            dispatch(XBT_UNIX_TIME64_MSEC,8,(sp_days(y,m,d)*86400L + hh*3600 + mm*60 + ss)*1000 + ms,t); break; }
    }
    REACH();
}
#endif
